-------------------------------- MODULE Lang --------------------------------
(***************************************************************************)
(* The build description language: expressions, statements, methods,       *)
(* disablers and (in script mode) functions.                               *)
(*                                                                         *)
(* A program is a tree of nodes (records with a field n for expressions, s *)
(* for statements).  A store is                                            *)
(*   [sc |-> sequence of scopes (name -> value), innermost last,           *)
(*    fn |-> sequence of function objects [ps, kw, body, sc],              *)
(*    out |-> sequence of strings printed,                                 *)
(*    subs |-> directory -> block,                                         *)
(*    dirs |-> directories entered]                                        *)
(* Eval(n, st) = [ok, v, st] and Exec(s, st) = [c, v, st], where c tells   *)
(* how control leaves: norm brk cont ret done err.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Strs

\* ------------------------------------------------------------------ values
I(x) == [t |-> "int", v |-> x]
S(x) == [t |-> "str", v |-> x]
B(x) == [t |-> "bool", v |-> x]
A(x) == [t |-> "arr", v |-> x]
D(x) == [t |-> "dict", v |-> x]            \* sequence of <<key, value>>, in insertion order
F(x) == [t |-> "func", v |-> x]
Dis == [t |-> "dis"]
Void == [t |-> "void"]

IsDis(v) == v.t = "dis"
Scalar(v) == v.t \in {"int", "str", "bool"}

RECURSIVE Eq(_, _)
DIdx(d, k) == LET H == {i \in DOMAIN d : d[i][1] = k} IN IF H = {} THEN 0 ELSE CHOOSE i \in H : TRUE
Eq(a, b) ==
  /\ a.t = b.t
  /\ CASE a.t \in {"int", "str", "bool", "func"} -> a.v = b.v
       [] a.t = "arr" -> Len(a.v) = Len(b.v) /\ \A i \in DOMAIN a.v : Eq(a.v[i], b.v[i])
       [] a.t = "dict" -> /\ Len(a.v) = Len(b.v)
                          /\ \A i \in DOMAIN a.v : LET j == DIdx(b.v, a.v[i][1])
                                                   IN j # 0 /\ Eq(a.v[i][2], b.v[j][2])
       [] OTHER -> TRUE

RECURSIVE Show(_)
Show(v) ==
  CASE v.t = "int" -> ToString(v.v)
    [] v.t = "bool" -> IF v.v THEN "true" ELSE "false"
    [] v.t = "str" -> "'" \o v.v \o "'"
    [] v.t = "arr" -> "[" \o JoinSeq([i \in DOMAIN v.v |-> Show(v.v[i])], ",") \o "]"
    [] v.t = "dict" -> "{" \o JoinSeq([i \in DOMAIN v.v |-> "'" \o v.v[i][1] \o "':" \o Show(v.v[i][2])], ",") \o "}"
    [] v.t = "dis" -> "<objdisabler>"
    [] OTHER -> "?"

RECURSIVE FlatDis(_)            \* a disabler, or an array with one inside
FlatDis(v) == v.t = "dis" \/ (v.t = "arr" /\ \E i \in DOMAIN v.v : FlatDis(v.v[i]))

RECURSIVE Flat(_)               \* flatten nested arrays
Flat(q) == IF q = <<>> THEN <<>>
           ELSE (IF q[1].t = "arr" THEN Flat(q[1].v) ELSE <<q[1]>>) \o Flat(Tail(q))

RECURSIVE InArr(_, _)           \* contains(): also inside nested arrays
InArr(q, x) == \E i \in DOMAIN q : Eq(q[i], x) \/ (q[i].t = "arr" /\ InArr(q[i].v, x))

Coerce(v) == CASE v.t = "str" -> v.v [] v.t = "int" -> ToString(v.v)
               [] v.t = "bool" -> IF v.v THEN "true" ELSE "false" [] OTHER -> ""

RECURSIVE Merge(_, _)
Merge(d, e) == IF e = <<>> THEN d
               ELSE LET j == DIdx(d, e[1][1])
                    IN Merge(IF j = 0 THEN Append(d, e[1]) ELSE [d EXCEPT ![j] = e[1]], Tail(e))

\* sorted keys
RECURSIVE StrLt(_, _)
StrLt(a, b) == StrCmp(a, b) < 0

\* ------------------------------------------------------------------ stores
Bind(m, k, v) == (k :> v) @@ m
Unbind(m, k) == [x \in DOMAIN m \ {k} |-> m[x]]
NoVars == [x \in {} |-> Void]

RECURSIVE ScopeFrom(_, _, _)
ScopeFrom(sc, k, i) == IF i = 0 THEN 0 ELSE IF k \in DOMAIN sc[i] THEN i ELSE ScopeFrom(sc, k, i - 1)
ScopeOf(st, k) == ScopeFrom(st.sc, k, Len(st.sc))
Has(st, k) == ScopeOf(st, k) # 0
Get(st, k) == st.sc[ScopeOf(st, k)][k]
SetLocal(st, k, v) == [st EXCEPT !.sc[Len(st.sc)] = Bind(@, k, v)]
SetWhere(st, k, v) == [st EXCEPT !.sc[ScopeOf(st, k)] = Bind(@, k, v)]
Say(st, x) == [st EXCEPT !.out = Append(@, x)]

Ok(v, st) == [ok |-> TRUE, v |-> v, st |-> st]
Err(st) == [ok |-> FALSE, v |-> Void, st |-> st]

\* -------------------------------------------------------------- operations
Arith(op, l, r) ==           \* [ok, v]; disablers were dealt with
  CASE l.t = "int" /\ r.t = "int" ->
         (CASE op = "+" -> [ok |-> TRUE, v |-> I(l.v + r.v)]
            [] op = "-" -> [ok |-> TRUE, v |-> I(l.v - r.v)]
            [] op = "*" -> [ok |-> TRUE, v |-> I(l.v * r.v)]
            [] r.v = 0 -> [ok |-> FALSE, v |-> Void]
            [] op = "/" -> [ok |-> TRUE, v |-> I(l.v \div r.v)]
            [] OTHER -> [ok |-> TRUE, v |-> I(l.v % r.v)])
    [] l.t = "str" /\ r.t = "str" /\ op = "+" -> [ok |-> TRUE, v |-> S(l.v \o r.v)]
    [] l.t = "str" /\ r.t = "str" /\ op = "/" ->
         [ok |-> TRUE,
          v |-> S(IF l.v = "" \/ StartsWith(r.v, "/") THEN r.v
                  ELSE RStrip(l.v, {"/"}) \o "/" \o r.v)]
    [] l.t = "arr" /\ op = "+" -> [ok |-> TRUE, v |-> A(l.v \o (IF r.t = "arr" THEN r.v ELSE <<r>>))]
    [] l.t = "dict" /\ r.t = "dict" /\ op = "+" -> [ok |-> TRUE, v |-> D(Merge(l.v, r.v))]
    [] OTHER -> [ok |-> FALSE, v |-> Void]

Compare(op, l, r) ==
  CASE op = "==" -> [ok |-> TRUE, v |-> B(Eq(l, r))]
    [] op = "!=" -> [ok |-> TRUE, v |-> B(~Eq(l, r))]
    [] op \in {"in", "notin"} ->
         LET yes == CASE r.t = "arr" -> \E i \in DOMAIN r.v : Eq(r.v[i], l)
                      [] r.t = "dict" /\ l.t = "str" -> DIdx(r.v, l.v) # 0
                      [] r.t = "str" /\ l.t = "str" -> Contains(r.v, l.v)
                      [] OTHER -> FALSE
             fine == r.t = "arr" \/ (r.t \in {"dict", "str"} /\ l.t = "str")
         IN [ok |-> fine, v |-> B(IF op = "in" THEN yes ELSE ~yes)]
    [] l.t = "int" /\ r.t = "int" ->
         [ok |-> TRUE, v |-> B(CASE op = "<" -> l.v < r.v [] op = "<=" -> l.v <= r.v
                                 [] op = ">" -> l.v > r.v [] OTHER -> l.v >= r.v)]
    [] OTHER -> [ok |-> FALSE, v |-> Void]

At(n, i) == IF i < 0 THEN i + n + 1 ELSE i + 1          \* 0-based (negative: from the end) to 1-based
InRange(n, i) == At(n, i) \in 1..n

Index(l, r) ==
  CASE l.t = "arr" /\ r.t = "int" /\ InRange(Len(l.v), r.v) -> [ok |-> TRUE, v |-> l.v[At(Len(l.v), r.v)]]
    [] l.t = "str" /\ r.t = "int" /\ InRange(Len(l.v), r.v) -> [ok |-> TRUE, v |-> S(Chr(l.v, At(Len(l.v), r.v)))]
    [] l.t = "dict" /\ r.t = "str" /\ DIdx(l.v, r.v) # 0 -> [ok |-> TRUE, v |-> l.v[DIdx(l.v, r.v)][2]]
    [] OTHER -> [ok |-> FALSE, v |-> Void]

\* '@0@' substitution
RECURSIVE Fmt(_, _)
RECURSIVE FmtKey(_, _)
Fmt(s, q) == LET k == FindFrom(s, "@", 1)
             IN IF k = 0 THEN [ok |-> TRUE, s |-> s]
                ELSE LET r == FmtKey(From(s, k + 1), q)
                     IN [ok |-> r.ok, s |-> SubSeq(s, 1, k - 1) \o r.s]
FmtKey(s, q) ==
  LET j == FindFrom(s, "@", 1)
      key == SubSeq(s, 1, j - 1)
  IN IF j = 0 THEN [ok |-> TRUE, s |-> "@" \o s]
     ELSE IF j = 1 THEN LET r == FmtKey(From(s, 2), q) IN [ok |-> r.ok, s |-> "@" \o r.s]
     ELSE IF IsNat(key)
          THEN IF ToNat(key) + 1 > Len(q) THEN [ok |-> FALSE, s |-> ""]
               ELSE LET r == Fmt(From(s, j + 1), q)
                    IN [ok |-> r.ok, s |-> Coerce(q[ToNat(key) + 1]) \o r.s]
          ELSE LET r == Fmt(s, q) IN [ok |-> r.ok, s |-> "@" \o r.s]

Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Substr(s, a, b) ==
  LET n == Len(s)
      x == Clamp(IF a < 0 THEN a + n ELSE a, 0, n)
      y == Clamp(IF b < 0 THEN b + n ELSE b, x, n)
  IN SubSeq(s, x + 1, y)

\* arguments of a call match these types ("?" any); optional ones follow "|"
Is(v, t) == t = "?" \/ v.t = t
Sig(q, req, opt) ==
  /\ Len(q) >= Len(req) /\ Len(q) <= Len(req) + Len(opt)
  /\ \A i \in DOMAIN q : Is(q[i], IF i <= Len(req) THEN req[i] ELSE opt[i - Len(req)])

Yes(v) == [ok |-> TRUE, v |-> v]
No == [ok |-> FALSE, v |-> Void]
If(c, v) == IF c THEN Yes(v) ELSE No

SeqOfStr(q) == [i \in DOMAIN q |-> S(q[i])]
StrsOf(q) == [i \in DOMAIN q |-> q[i].v]

StrMethod(m, s, q) ==
  CASE m = "to_upper" -> If(q = <<>>, S(ToUpper(s)))
    [] m = "to_lower" -> If(q = <<>>, S(ToLower(s)))
    [] m = "underscorify" -> If(q = <<>>, S(Underscorify(s)))
    [] m = "startswith" -> If(Sig(q, <<"str">>, <<>>), B(StartsWith(s, q[1].v)))
    [] m = "endswith" -> If(Sig(q, <<"str">>, <<>>), B(EndsWith(s, q[1].v)))
    [] m = "contains" -> If(Sig(q, <<"str">>, <<>>), B(Contains(s, q[1].v)))
    [] m = "replace" -> If(Sig(q, <<"str", "str">>, <<>>), S(Replace(s, q[1].v, q[2].v)))
    [] m = "split" -> IF ~Sig(q, <<>>, <<"str">>) THEN No
                      ELSE IF q = <<>> THEN Yes(A(SeqOfStr(Words(s))))
                      ELSE If(q[1].v # "", A(SeqOfStr(SplitOn(s, q[1].v))))
    [] m = "strip" -> IF ~Sig(q, <<>>, <<"str">>) THEN No
                      ELSE Yes(S(Strip(s, IF q = <<>> THEN {" ", "\t", "\n"} ELSE CharsOf(q[1].v))))
    [] m = "join" -> LET f == Flat(q) IN If(\A i \in DOMAIN f : f[i].t = "str", S(JoinSeq(StrsOf(f), s)))
    [] m = "to_int" -> If(q = <<>> /\ IsIntStr(s), I(IF IsIntStr(s) THEN ToIntS(s) ELSE 0))
    [] m = "substring" -> If(Sig(q, <<>>, <<"int", "int">>),
                             S(Substr(s, IF Len(q) > 0 THEN q[1].v ELSE 0, IF Len(q) > 1 THEN q[2].v ELSE Len(s))))
    [] m = "version_compare" -> If(Sig(q, <<"str">>, <<>>), B(Satisfies(s, q[1].v)))
    [] m = "format" -> LET f == Flat(q)
                           r == Fmt(s, f)
                       IN IF \E i \in DOMAIN f : ~Scalar(f[i]) THEN No ELSE If(r.ok, S(r.s))
    [] OTHER -> No

IntMethod(m, x, q) ==
  CASE m = "is_odd" -> If(q = <<>>, B(x % 2 = 1))
    [] m = "is_even" -> If(q = <<>>, B(x % 2 = 0))
    [] m = "to_string" -> If(q = <<>>, S(ToString(x)))
    [] OTHER -> No

BoolMethod(m, x, q) ==
  CASE m = "to_int" -> If(q = <<>>, I(IF x THEN 1 ELSE 0))
    [] m = "to_string" -> If(Sig(q, <<>>, <<"str", "str">>),
                             IF x THEN (IF Len(q) > 0 THEN q[1] ELSE S("true"))
                             ELSE (IF Len(q) > 1 THEN q[2] ELSE S("false")))
    [] OTHER -> No

ArrMethod(m, x, q) ==
  CASE m = "length" -> If(q = <<>>, I(Len(x)))
    [] m = "contains" -> If(Sig(q, <<"?">>, <<>>), B(InArr(x, q[1])))
    [] m = "get" -> IF ~Sig(q, <<"int">>, <<"?">>) THEN No
                    ELSE IF InRange(Len(x), q[1].v) THEN Yes(x[At(Len(x), q[1].v)])
                    ELSE IF Len(q) = 2 THEN Yes(q[2]) ELSE No
    [] OTHER -> No

DictMethod(m, x, q) ==
  CASE m = "keys" -> If(q = <<>>, A([i \in DOMAIN x |-> S(x[i][1])]))
    [] m = "has_key" -> If(Sig(q, <<"str">>, <<>>), B(DIdx(x, q[1].v) # 0))
    [] m = "get" -> IF ~Sig(q, <<"str">>, <<"?">>) THEN No
                    ELSE IF DIdx(x, q[1].v) # 0 THEN Yes(x[DIdx(x, q[1].v)][2])
                    ELSE IF Len(q) = 2 THEN Yes(q[2]) ELSE No
    [] OTHER -> No

Method(l, m, q) ==
  CASE l.t = "str" -> StrMethod(m, l.v, q)
    [] l.t = "int" -> IntMethod(m, l.v, q)
    [] l.t = "bool" -> BoolMethod(m, l.v, q)
    [] l.t = "arr" -> ArrMethod(m, l.v, q)
    [] l.t = "dict" -> DictMethod(m, l.v, q)
    [] OTHER -> No

RECURSIVE RangeSeq(_, _, _)
RangeSeq(a, b, c) == IF a >= b THEN <<>> ELSE IF c >= b - a THEN <<I(a)>> ELSE <<I(a)>> \o RangeSeq(a + c, b, c)

\* functions which take their arguments even if a disabler is among them
Immune == {"is_disabler", "set_variable", "get_variable", "is_variable"}

(* a built-in function on evaluated arguments                               *)
Func(f, q, st) ==
  CASE f = "disabler" -> IF q = <<>> THEN Ok(Dis, st) ELSE Err(st)
    [] f = "is_disabler" -> IF Len(q) = 1 THEN Ok(B(IsDis(q[1])), st) ELSE Err(st)
    [] f = "range" ->
         IF ~Sig(q, <<"int">>, <<"int", "int">>) THEN Err(st)
         ELSE LET a == IF Len(q) = 1 THEN 0 ELSE q[1].v
                  b == IF Len(q) = 1 THEN q[1].v ELSE q[2].v
                  c == IF Len(q) = 3 THEN q[3].v ELSE 1
              IN IF a < 0 \/ b < a \/ c < 1 THEN Err(st) ELSE Ok(A(RangeSeq(a, b, c)), st)
    [] f = "join_paths" ->
         LET fl == Flat(q)
             RECURSIVE J(_, _)
             J(acc, r) == IF r = <<>> THEN acc ELSE J(Arith("/", acc, r[1]).v, Tail(r))
         IN IF \E i \in DOMAIN fl : fl[i].t # "str" THEN Err(st) ELSE Ok(J(S(""), fl), st)
    [] f = "get_variable" ->
         IF Len(q) \notin {1, 2} THEN Err(st)
         ELSE IF IsDis(q[1]) THEN Ok(Dis, st)
         ELSE IF q[1].t # "str" THEN Err(st)
         ELSE IF Has(st, q[1].v) THEN Ok(Get(st, q[1].v), st)
         ELSE IF Len(q) = 2 THEN Ok(q[2], st) ELSE Err(st)
    [] f = "is_variable" ->
         IF Len(q) # 1 THEN Err(st)
         ELSE IF IsDis(q[1]) THEN Ok(Dis, st)
         ELSE IF q[1].t # "str" THEN Err(st) ELSE Ok(B(Has(st, q[1].v)), st)
    [] f = "set_variable" ->
         IF Len(q) # 2 THEN Err(st)
         ELSE IF IsDis(q[1]) THEN Ok(Dis, st)
         ELSE IF q[1].t # "str" THEN Err(st) ELSE Ok(Void, SetLocal(st, q[1].v, q[2]))
    [] f = "unset_variable" ->
         IF Len(q) = 1 /\ q[1].t = "str" /\ Has(st, q[1].v)
         THEN Ok(Void, [st EXCEPT !.sc[ScopeOf(st, q[1].v)] = Unbind(@, q[1].v)])
         ELSE Err(st)
    [] f = "assert" ->
         IF Sig(q, <<"bool">>, <<"str">>) /\ q[1].v THEN Ok(Void, st) ELSE Err(st)
    [] f = "message" -> Ok(Void, Say(st, JoinSeq([i \in DOMAIN q |-> Coerce(q[i])], " ")))
    [] OTHER -> Err(st)                              \* error() and unknown ones

Builtins == {"disabler", "is_disabler", "range", "join_paths", "get_variable", "is_variable", "set_variable",
             "unset_variable", "assert", "message", "error"}

(* functions with effects on the build, called only with a disabler here    *)
Effects == {"executable", "static_library", "shared_library", "custom_target", "declare_dependency", "test", "run_command",
            "configure_file", "install_data", "get_option", "dependency", "find_program", "subproject", "files", "environment",
            "add_project_arguments", "summary", "error"}

\* -------------------------------------------------------------- evaluation
RECURSIVE Eval(_, _)
RECURSIVE Exec(_, _)
RECURSIVE Block(_, _)

(* elements of an array literal or arguments, left to right                 *)
RECURSIVE EvalSeq(_, _, _)
EvalSeq(q, st, acc) ==
  IF q = <<>> THEN [ok |-> TRUE, v |-> acc, st |-> st]
  ELSE LET r == Eval(q[1], st)
       IN IF ~r.ok \/ r.v.t = "void" THEN [ok |-> FALSE, v |-> acc, st |-> r.st]
          ELSE EvalSeq(Tail(q), r.st, Append(acc, r.v))

(* arguments of a call: the first disabler ends it.  [c \in ok, err, dis]   *)
RECURSIVE Args(_, _, _)
Args(q, st, acc) ==
  IF q = <<>> THEN [c |-> "ok", v |-> acc, st |-> st]
  ELSE LET r == Eval(q[1], st)
       IN IF ~r.ok \/ r.v.t = "void" THEN [c |-> "err", v |-> acc, st |-> r.st]
          ELSE IF FlatDis(r.v) THEN [c |-> "dis", v |-> acc, st |-> r.st]
          ELSE Args(Tail(q), r.st, Append(acc, r.v))

RECURSIVE EvalDict(_, _, _)
EvalDict(q, st, acc) ==
  IF q = <<>> THEN Ok(D(acc), st)
  ELSE LET k == Eval(q[1].k, st)
       IN IF ~k.ok \/ k.v.t # "str" THEN Err(k.st)
          ELSE LET r == Eval(q[1].e, k.st)
               IN IF ~r.ok \/ r.v.t = "void" \/ DIdx(acc, k.v.v) # 0 THEN Err(r.st)
                  ELSE EvalDict(Tail(q), r.st, Append(acc, <<k.v.v, r.v>>))

RECURSIVE EvalF(_, _, _)
EvalF(q, st, acc) ==
  IF q = <<>> THEN Ok(S(acc), st)
  ELSE IF q[1].n = "lit" THEN EvalF(Tail(q), st, acc \o q[1].v)
  ELSE IF ~Has(st, q[1].v) \/ ~Scalar(Get(st, q[1].v)) THEN Err(st)
  ELSE EvalF(Tail(q), st, acc \o Coerce(Get(st, q[1].v)))

(* defaults of keyword parameters, evaluated where the function is defined  *)
RECURSIVE Defaults(_, _, _)
Defaults(kw, st, acc) ==
  IF kw = <<>> THEN Ok(A(acc), st)
  ELSE LET r == Eval(kw[1].e, st)
       IN IF ~r.ok THEN Err(r.st) ELSE Defaults(Tail(kw), r.st, Append(acc, r.v))

(* Calling function object id: its captured scopes plus a fresh one for     *)
(* parameters; what it does to captured variables stays with the function.  *)
RECURSIVE BindKw(_, _, _, _)
BindKw(kw, given, i, m) ==
  IF i > Len(kw) THEN m
  ELSE LET H == {j \in DOMAIN given : given[j][1] = kw[i].k}
       IN BindKw(kw, given, i + 1,
                 Bind(m, kw[i].k, IF H = {} THEN kw[i].d ELSE given[CHOOSE j \in H : TRUE][2]))

TypeOk(v, t) == \/ t = "any" /\ v.t # "void"
                \/ t = v.t \/ IsDis(v)
Call(id, q, given, st) ==
  LET f == st.fn[id]
      pos == [i \in 1..Len(f.ps) |-> f.ps[i]]
      loc0 == [x \in {pos[i] : i \in DOMAIN pos} |-> q[CHOOSE i \in DOMAIN pos : pos[i] = x]]
      loc == BindKw(f.kw, given, 1, loc0)
      r == Block(f.body, [st EXCEPT !.sc = Append(f.sc, loc)])
      back == [r.st EXCEPT !.sc = st.sc, !.fn[id].sc = SubSeq(r.st.sc, 1, Len(r.st.sc) - 1)]
      typed == /\ \A i \in DOMAIN q : TypeOk(q[i], f.pt[i])
               /\ \A j \in DOMAIN given : \A i \in DOMAIN f.kw :
                     f.kw[i].k = given[j][1] => TypeOk(given[j][2], f.kw[i].t)
  IN IF Len(q) # Len(f.ps) THEN Err(st)
     ELSE IF ~typed THEN Err(st)
     ELSE IF \E j \in DOMAIN given : ~\E i \in DOMAIN f.kw : f.kw[i].k = given[j][1] THEN Err(st)
     ELSE IF r.c = "err" THEN Err(back)
     ELSE IF ~TypeOk(IF r.c = "ret" THEN r.v ELSE Void, f.rt) THEN Err(back)
     ELSE Ok(IF r.c = "ret" THEN r.v ELSE Void, back)

Eval(e, st) ==
  CASE e.n = "int" -> Ok(I(e.v), st)
    [] e.n = "str" -> Ok(S(e.v), st)
    [] e.n = "bool" -> Ok(B(e.v), st)
    [] e.n = "arr" -> LET r == EvalSeq(e.e, st, <<>>) IN IF r.ok THEN Ok(A(r.v), r.st) ELSE Err(r.st)
    [] e.n = "dict" -> EvalDict(e.e, st, <<>>)
    [] e.n = "fstr" -> EvalF(e.p, st, "")
    [] e.n = "id" -> IF Has(st, e.v) THEN Ok(Get(st, e.v), st) ELSE Err(st)
    [] e.n = "neg" -> LET r == Eval(e.a, st)
                      IN IF ~r.ok THEN r ELSE IF IsDis(r.v) THEN r
                         ELSE IF r.v.t = "int" THEN Ok(I(0 - r.v.v), r.st) ELSE Err(r.st)
    [] e.n = "not" -> LET r == Eval(e.a, st)
                      IN IF ~r.ok THEN r ELSE IF IsDis(r.v) THEN r
                         ELSE IF r.v.t = "bool" THEN Ok(B(~r.v.v), r.st) ELSE Err(r.st)
    [] e.n \in {"and", "or"} ->
         LET l == Eval(e.a, st)
         IN IF ~l.ok \/ IsDis(l.v) THEN l
            ELSE IF l.v.t # "bool" THEN Err(l.st)
            ELSE IF l.v.v = (e.n = "or") THEN l
            ELSE LET r == Eval(e.b, l.st)
                 IN IF ~r.ok \/ IsDis(r.v) THEN r ELSE IF r.v.t # "bool" THEN Err(r.st) ELSE r
    [] e.n \in {"bin", "cmp"} ->
         LET l == Eval(e.a, st)
         IN IF ~l.ok THEN l
            ELSE LET r == Eval(e.b, l.st)
                 IN IF ~r.ok THEN r
                    ELSE IF IsDis(l.v) \/ IsDis(r.v) THEN Ok(Dis, r.st)
                    ELSE LET x == IF e.n = "bin" THEN Arith(e.op, l.v, r.v) ELSE Compare(e.op, l.v, r.v)
                         IN IF x.ok THEN Ok(x.v, r.st) ELSE Err(r.st)
    [] e.n = "tern" ->
         LET c == Eval(e.c, st)
         IN IF ~c.ok \/ IsDis(c.v) THEN c
            ELSE IF c.v.t # "bool" THEN Err(c.st)
            ELSE Eval(IF c.v.v THEN e.a ELSE e.b, c.st)
    [] e.n = "index" ->
         LET l == Eval(e.a, st)
         IN IF ~l.ok THEN l
            ELSE LET r == Eval(e.b, l.st)
                 IN IF ~r.ok THEN r
                    ELSE IF IsDis(l.v) \/ IsDis(r.v) THEN Ok(Dis, r.st)
                    ELSE LET x == Index(l.v, r.v) IN IF x.ok THEN Ok(x.v, r.st) ELSE Err(r.st)
    [] e.n = "method" ->
         LET l == Eval(e.a, st)
         IN IF ~l.ok THEN l
            ELSE IF l.v.t = "void" THEN Err(l.st)
            ELSE IF IsDis(l.v) THEN Ok(IF e.m = "found" THEN B(FALSE) ELSE Dis, l.st)
            ELSE LET q == Args(e.args, l.st, <<>>)
                 IN IF q.c = "err" THEN Err(q.st)
                    ELSE IF q.c = "dis" THEN Ok(Dis, q.st)
                    ELSE LET x == Method(l.v, e.m, q.v) IN IF x.ok THEN Ok(x.v, q.st) ELSE Err(q.st)
    [] e.n = "call" /\ e.f \in Effects ->      \* only known to disable themselves
         LET q == Args(e.args \o [i \in DOMAIN e.kw |-> e.kw[i].e], st, <<>>)
         IN IF q.c = "dis" THEN Ok(Dis, q.st) ELSE Err(q.st)
    [] e.n = "call" ->
         IF e.f \in Builtins
         THEN IF e.f \in Immune
              THEN LET q == EvalSeq(e.args, st, <<>>) IN IF ~q.ok THEN Err(q.st) ELSE Func(e.f, q.v, q.st)
              ELSE LET q == Args(e.args, st, <<>>)
                   IN IF q.c = "err" THEN Err(q.st)
                      ELSE IF q.c = "dis" THEN Ok(Dis, q.st) ELSE Func(e.f, q.v, q.st)
         ELSE IF ~Has(st, e.f) \/ Get(st, e.f).t # "func" THEN Err(st)
         ELSE LET q == Args(e.args, st, <<>>)
              IN IF q.c = "err" THEN Err(q.st)
                 ELSE IF q.c = "dis" THEN Ok(Dis, q.st)
                 ELSE LET kv == Args([i \in DOMAIN e.kw |-> e.kw[i].e], q.st, <<>>)
                      IN IF kv.c = "err" THEN Err(kv.st)
                         ELSE IF kv.c = "dis" THEN Ok(Dis, kv.st)
                         ELSE Call(Get(st, e.f).v, q.v, [i \in DOMAIN e.kw |-> <<e.kw[i].k, kv.v[i]>>], kv.st)
    [] OTHER -> Err(st)

Ctl(c, v, st) == [c |-> c, v |-> v, st |-> st]
Norm(st) == Ctl("norm", Void, st)

RECURSIVE Chain(_, _, _)          \* the clauses of an if statement
Chain(cl, els, st) ==
  IF cl = <<>> THEN Block(els, st)
  ELSE LET c == Eval(cl[1].c, st)
       IN IF ~c.ok THEN Ctl("err", Void, c.st)
          ELSE IF IsDis(c.v) THEN Norm(c.st)
          ELSE IF c.v.t # "bool" THEN Ctl("err", Void, c.st)
          ELSE IF c.v.v THEN Block(cl[1].b, c.st)
          ELSE Chain(Tail(cl), els, c.st)

(* the items of a loop: a sequence of sequences of values, one per variable *)
RECURSIVE Loop(_, _, _, _)
Loop(vs, items, body, st) ==
  IF items = <<>> THEN Norm(st)
  ELSE LET s1 == SetLocal(st, vs[1], items[1][1])
           s2 == IF Len(vs) = 2 THEN SetLocal(s1, vs[2], items[1][2]) ELSE s1
           r == Block(body, s2)
       IN IF r.c \in {"norm", "cont"} THEN Loop(vs, Tail(items), body, r.st)
          ELSE IF r.c = "brk" THEN Norm(r.st)
          ELSE r

Block(b, st) ==
  IF b = <<>> THEN Norm(st)
  ELSE LET r == Exec(b[1], st) IN IF r.c = "norm" THEN Block(Tail(b), r.st) ELSE r

Expr(r, K(_, _)) == IF r.ok THEN K(r.v, r.st) ELSE Ctl("err", Void, r.st)

Exec(s, st) ==
  CASE s.s = "assign" ->
         LET r == Eval(s.e, st)
         IN IF r.ok /\ r.v.t # "void" THEN Norm(SetLocal(r.st, s.x, r.v)) ELSE Ctl("err", Void, r.st)
    [] s.s = "plus" ->
         IF ~Has(st, s.x) THEN Ctl("err", Void, st)
         ELSE LET r == Eval(s.e, st)
              IN IF ~r.ok THEN Ctl("err", Void, r.st)
                 ELSE LET l == Get(st, s.x)
                          x == IF IsDis(l) \/ IsDis(r.v) THEN Yes(Dis) ELSE Arith("+", l, r.v)
                      IN IF x.ok /\ Has(r.st, s.x) THEN Norm(SetWhere(r.st, s.x, x.v)) ELSE Ctl("err", Void, r.st)
    [] s.s = "if" -> Chain(s.cl, s.els, st)
    [] s.s = "foreach" ->
         LET r == Eval(s.e, st)
         IN IF ~r.ok THEN Ctl("err", Void, r.st)
            ELSE IF r.v.t = "arr" /\ Len(s.vs) = 1
                 THEN Loop(s.vs, [i \in DOMAIN r.v.v |-> <<r.v.v[i]>>], s.b, r.st)
            ELSE IF r.v.t = "dict" /\ Len(s.vs) = 2
                 THEN Loop(s.vs, [i \in DOMAIN r.v.v |-> <<S(r.v.v[i][1]), r.v.v[i][2]>>], s.b, r.st)
            ELSE Ctl("err", Void, r.st)
    [] s.s = "break" -> Ctl("brk", Void, st)
    [] s.s = "continue" -> Ctl("cont", Void, st)
    [] s.s = "out" ->
         LET r == Eval(s.e, st)
         IN IF ~r.ok \/ r.v.t = "void" THEN Ctl("err", Void, r.st)
            ELSE LET s1 == SetLocal(r.st, "o", r.v)
                 IN IF IsDis(r.v) THEN Norm(Say(s1, "DISABLER"))
                    ELSE IF FlatDis(r.v) THEN Norm(s1)      \* message() of a disabler does nothing
                    ELSE Norm(Say(s1, Show(A(<<r.v>>))))
    [] s.s = "expr" -> LET r == Eval(s.e, st) IN IF r.ok THEN Norm(r.st) ELSE Ctl("err", Void, r.st)
    [] s.s = "subdir" -> LET r == Block(st.subs[s.d], st)
                         IN IF r.c = "err" THEN r ELSE Norm(r.st)
    [] s.s = "subdirv" ->                        \* subdir() of a variable
         IF ~Has(st, s.x) THEN Ctl("err", Void, st)
         ELSE LET r == Block(st.subs[Get(st, s.x).v], st) IN IF r.c = "err" THEN r ELSE Norm(r.st)
    [] s.s = "subdir_done" -> Ctl("done", Void, st)
    [] s.s = "func" ->
         LET d == Defaults(s.kw, st, <<>>)
         IN IF ~d.ok THEN Ctl("err", Void, d.st)
            ELSE LET id == Len(d.st.fn) + 1
                     kw == [i \in DOMAIN s.kw |-> [k |-> s.kw[i].k, t |-> s.kw[i].t, d |-> d.v.v[i]]]
                     s1 == [d.st EXCEPT !.fn = Append(@, [ps |-> s.ps, pt |-> s.pt, rt |-> s.rt, kw |-> kw,
                                                         body |-> s.b, sc |-> st.sc])]
                 IN Norm(SetLocal(s1, s.f, F(id)))
    [] s.s = "return" -> LET r == Eval(s.e, st) IN IF r.ok THEN Ctl("ret", r.v, r.st) ELSE Ctl("err", Void, r.st)
    [] OTHER -> Ctl("err", Void, st)

Start(subs) == [sc |-> <<NoVars>>, fn |-> <<>>, out |-> <<>>, subs |-> subs]
=============================================================================
