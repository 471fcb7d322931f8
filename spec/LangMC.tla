------------------------------- MODULE LangMC -------------------------------
(* Exhaustive checks of the language specification itself.                  *)
(*  - as a transition system: every program of up to N statements over a    *)
(*    small alphabet.  A statement changes the variables it names and no    *)
(*    other (values are not shared), output only ever grows, a loop body    *)
(*    never leaves the loop running after break, errors are final;          *)
(*  - algebraic laws of the operators, over all small strings, versions and *)
(*    values.                                                               *)
EXTENDS Lang
CONSTANT Deep

\* ------------------------------------------------------ programs, step wise
Id(x) == [n |-> "id", v |-> x]
Num(x) == [n |-> "int", v |-> x]
Bool(x) == [n |-> "bool", v |-> x]
Arr(q) == [n |-> "arr", e |-> q]
Cl(f, q) == [n |-> "call", f |-> f, args |-> q, kw |-> <<>>]
Asg(x, e) == [s |-> "assign", x |-> x, e |-> e]
Plus(x, e) == [s |-> "plus", x |-> x, e |-> e]
Out(e) == [s |-> "out", e |-> e]
Cmp(op, l, r) == [n |-> "cmp", op |-> op, a |-> l, b |-> r]
Each(x, e, b) == [s |-> "foreach", vs |-> <<x>>, e |-> e, b |-> b]
When(c, b, els) == [s |-> "if", cl |-> <<[c |-> c, b |-> b]>>, els |-> els]

Stmts ==
  {Asg(x, e) : x \in {"a", "b"}, e \in {Arr(<<Num(1)>>), Id("a"), Id("b"), Arr(<<Id("a"), Id("b")>>), Cl("disabler", <<>>)}}
  \cup {Plus(x, e) : x \in {"a", "b"}, e \in {Arr(<<Num(2)>>), Id("a"), Id("b"), Num(3)}}
  \cup {Out(Id("a")), Out(Id("u"))}
  \cup {Each("i", Id(x), <<Plus(y, Arr(<<Num(7)>>)), When(Cmp("in", Num(2), Id(y)), <<[s |-> c]>>, <<>>), Out(Id(y))>>) :
          x \in {"a", "b"}, y \in {"a", "b"}, c \in {"break", "continue", "subdir_done"}}
  \cup {When(Cmp("==", Id("a"), Id("b")), <<Asg("a", Arr(<<>>))>>, <<Asg("b", Arr(<<>>))>>)}

Written(s) == CASE s.s \in {"assign", "plus"} -> {s.x}
                [] s.s = "out" -> {"o"}
                [] s.s = "foreach" -> {"i", "o", s.b[1].x}
                [] OTHER -> {"a", "b"}

VARIABLES st, ctl, last, n, c
vars == <<st, ctl, last, n, c>>

Bound == IF Deep THEN 4 ELSE 3

\* ------------------------------------------------------------------- laws
Alpha == {"a", "b", ","}
RECURSIVE StrsUpTo(_)
StrsUpTo(k) == IF k = 0 THEN {""} ELSE StrsUpTo(k - 1) \cup {x \o y : x \in StrsUpTo(k - 1), y \in Alpha}
Vers == {"1", "1.0", "1.0.0", "1.2", "1.10", "01.2", "2.0rc1", "2.0", "2.0a", "2a", "a", "1..2", "1.2-3", "", "10", "1.B"}
Vals == <<I(0), I(1), S("a"), S(""), B(TRUE), A(<<>>), A(<<I(1)>>), A(<<A(<<I(1)>>)>>), D(<<>>),
         D(<<<<"a", I(1)>>, <<"b", I(2)>>>>), D(<<<<"b", I(2)>>, <<"a", I(1)>>>>), Dis>>
Cases == (IF Deep THEN {<<"str", s, p>> : s \in StrsUpTo(4), p \in StrsUpTo(2)}
          ELSE {<<"str", s, p>> : s \in StrsUpTo(3), p \in StrsUpTo(2)})
         \cup {<<"ver", u, v, w>> : u \in Vers, v \in Vers, w \in Vers}
         \cup {<<"val", u, v>> : u \in DOMAIN Vals, v \in DOMAIN Vals}
None == <<"none">>

StrLaws(s, p) ==
  /\ p # "" => JoinSeq(SplitOn(s, p), p) = s /\ Len(SplitOn(s, p)) >= 1
  /\ Contains(s, p) = \E i \in 1..(Len(s) + 1) : StartsWith(From(s, i), p)
  /\ Replace(s, p, p) = (IF p = "" THEN s ELSE s)
  /\ p # "" => Replace(s, p, "#") = JoinSeq(SplitOn(s, p), "#")
  /\ (StartsWith(s, p) \/ EndsWith(s, p)) => Contains(s, p)
  /\ StartsWith(s \o p, s) /\ EndsWith(s \o p, p)
  /\ \A i \in 0..Len(s) : Substr(s, 0, i) \o Substr(s, i, Len(s)) = s
  /\ \A i, j \in -5..5 : Contains(s, Substr(s, i, j)) /\ Len(Substr(s, i, j)) <= Len(s)
  /\ ToLower(ToUpper(s)) = ToLower(s) /\ Len(ToUpper(s)) = Len(s)
  /\ Len(Underscorify(s)) = Len(s) /\ Underscorify(Underscorify(s)) = Underscorify(s)
  /\ Strip(Strip(s, {"a"}), {"a"}) = Strip(s, {"a"})
  /\ Fmt(s, <<>>).ok /\ Fmt(s, <<>>).s = s
  /\ Fmt(s \o "@0@" \o p, <<S("q")>>).s = s \o "q" \o p
VerLaws(u, v, w) ==
  /\ VerCmp(u, u) = 0
  /\ VerCmp(u, v) = 0 - VerCmp(v, u)
  /\ VerCmp(u, v) <= 0 /\ VerCmp(v, w) <= 0 => VerCmp(u, w) <= 0
  /\ VerCmp(u, v) = 0 /\ VerCmp(v, w) = 0 => VerCmp(u, w) = 0
  /\ Satisfies(u, ">=" \o v) = ~Satisfies(u, "<" \o v)
  /\ Satisfies(u, "<=" \o v) = ~Satisfies(u, ">" \o v)
  /\ Satisfies(u, "==" \o v) = ~Satisfies(u, "!=" \o v)
  /\ Satisfies(u, "==" \o v) = (Satisfies(u, ">=" \o v) /\ Satisfies(u, "<=" \o v))
Op2 == {"+", "-", "*", "/", "%"}
ValLaws(u, v) ==
  /\ Eq(u, u) /\ Eq(u, v) = Eq(v, u)
  /\ Compare("==", u, v).v.v = ~Compare("!=", u, v).v.v
  /\ Compare("in", u, A(<<v>>)).v.v = Eq(u, v)
  /\ Compare("in", u, A(<<v, u>>)).v.v
  /\ Compare("in", u, v).ok = Compare("notin", u, v).ok
  /\ Compare("in", u, v).ok => Compare("in", u, v).v.v = ~Compare("notin", u, v).v.v
  /\ u.t = "arr" => Eq(Arith("+", u, A(<<v>>)).v.v[Len(u.v) + 1], v) /\ (u.t = "arr" => Len(Arith("+", u, A(<<v>>)).v.v) = Len(u.v) + 1)
  /\ u.t = "dict" /\ v.t = "dict" => /\ \A i \in DOMAIN v.v : Eq(Index(Arith("+", u, v).v, S(v.v[i][1])).v, v.v[i][2])
                                     /\ Eq(Arith("+", u, u).v, u)
  /\ u.t = "arr" => \A i \in 0..(Len(u.v) - 1) : Eq(Index(u, I(i)).v, Index(u, I(i - Len(u.v))).v)
  /\ u.t = "arr" => ~Index(u, I(Len(u.v))).ok /\ ~Index(u, I(0 - Len(u.v) - 1)).ok
(* a disabler reaches the result of every operation on it                   *)
Lt(v, x) == IF v.t = "dis" THEN Cl("disabler", <<>>) ELSE Id(x)
DisLaws(u, v) ==
  LET s0 == [Start(<<>>) EXCEPT !.sc = <<[u |-> u, v |-> v]>>]
      R(e) == Eval(e, s0)
      U == Id("u")
      V == Id("v")
      either == IsDis(u) \/ IsDis(v)
  IN either =>
     /\ \A op \in Op2 : R([n |-> "bin", op |-> op, a |-> U, b |-> V]).v = Dis
     /\ \A op \in {"==", "!=", "in", "notin", "<"} : R(Cmp(op, U, V)).v = Dis
     /\ IsDis(R([n |-> "index", a |-> U, b |-> V]).v)
     /\ IsDis(u) => /\ IsDis(R([n |-> "method", a |-> U, m |-> "length", args |-> <<V>>]).v)
                    /\ R([n |-> "method", a |-> U, m |-> "found", args |-> <<>>]).v.v = FALSE
                    /\ IsDis(R([n |-> "not", a |-> U]).v) /\ IsDis(R([n |-> "neg", a |-> U]).v)
                    /\ IsDis(R([n |-> "and", a |-> U, b |-> V]).v)
                    /\ IsDis(R([n |-> "tern", c |-> U, a |-> V, b |-> V]).v)
                    /\ R(Cl("is_disabler", <<U>>)).v.v = TRUE
                    /\ Exec(When(U, <<Out(Num(1))>>, <<Out(Num(2))>>), s0).st.out = <<>>
     /\ IsDis(R(Cl("join_paths", <<U, V>>)).v)
     /\ IsDis(R(Cl("assert", <<U, V>>)).v)
     /\ R(Cl("is_disabler", <<Arr(<<U, V>>)>>)).v.v = FALSE

Laws == CASE c[1] = "str" -> StrLaws(c[2], c[3])
          [] c[1] = "ver" -> VerLaws(c[2], c[3], c[4])
          [] c[1] = "val" -> ValLaws(Vals[c[2]], Vals[c[3]]) /\ DisLaws(Vals[c[2]], Vals[c[3]])
          [] OTHER -> TRUE

\* ------------------------------------------------------------- the machine
Init == /\ ctl = "norm" /\ last = [s |-> "none"] /\ n = 0
        /\ st = [Start(<<>>) EXCEPT !.sc = <<[a |-> A(<<I(2)>>), b |-> A(<<>>)]>>]
        /\ c \in Cases \cup {None}
Next == /\ c = None /\ ctl = "norm" /\ n < Bound
        /\ \E s \in Stmts : LET r == Exec(s, st) IN st' = r.st /\ ctl' = r.c /\ last' = s
        /\ n' = n + 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_vars

Frame == [][ \A x \in {"a", "b"} : x \notin Written(last') => Eq(st'.sc[1][x], st.sc[1][x]) ]_vars
Grows == [][ Len(st'.out) >= Len(st.out) /\ SubSeq(st'.out, 1, Len(st.out)) = st.out ]_vars
Ctls == ctl \in {"norm", "err", "done"}
ErrKeeps == ctl = "err" => st.sc # <<>>
=============================================================================
