------------------------------- MODULE Custom -------------------------------
(* Custom targets, generators, run targets and aliases: the command each one *)
(* runs, and when it runs.                                                    *)
(*                                                                            *)
(* A project is a sequence of units.  Configuring derives from them the       *)
(* outputs, command lines, environments and dependencies (Derive); a build    *)
(* runs commands (Step) until everything wanted is up to date.                *)
EXTENDS Paths, FiniteSets

VARIABLES W,      \* what the project declares
          D,      \* derived from it, see Derive
          file,   \* path -> [c content, t when it was written]
          last,   \* unit -> [t when it last ran, sig command line it ran]
          clock, mode,
          bld       \* the build which runs
cvars == <<W, D, file, last, clock, mode, bld>>

Range(s) == {s[i] : i \in DOMAIN s}

----------------------------------------------------------------------------
(* Paths in command lines may be absolute or relative to the build directory, *)
(* which is where commands run.                                               *)
RECURSIVE Common(_, _)
Common(a, b) == IF a # <<>> /\ b # <<>> /\ Head(a) = Head(b) THEN 1 + Common(Tail(a), Tail(b)) ELSE 0
Rel(base, p) == LET a == Parts(base) b == Parts(p) n == Common(a, b)
                    r == [i \in 1..(Len(a) - n) |-> ".."] \o SubSeq(b, n + 1, Len(b))
                IN IF r = <<>> THEN "." ELSE JoinSeq(r, "/")
Forms(bdir, p) == LET r == Rel(bdir, p) IN {p, r, "./" \o r}

Lit(s) == [t |-> "l", s |-> s]
Path(p) == [t |-> "p", s |-> p]
(* s is the concatenation of the pieces *)
RECURSIVE Match(_, _, _)
Match(bdir, s, ps) ==
  IF ps = <<>> THEN s = ""
  ELSE \E f \in (IF Head(ps).t = "l" THEN {Head(ps).s} ELSE Forms(bdir, Head(ps).s)) :
         StartsWith(s, f) /\ Match(bdir, From(s, Len(f) + 1), Tail(ps))
MatchArgs(bdir, args, want) == Len(args) = Len(want) /\ \A i \in DOMAIN args : Match(bdir, args[i], want[i])

----------------------------------------------------------------------------
(* Substitution.                                                              *)
Stem(n) == LET ks == {i \in 1..Len(n) : Chr(n, i) = "."}    \* without the last extension
           IN IF ks = {} THEN n ELSE LET k == CHOOSE i \in ks : \A j \in ks : j <= i IN SubSeq(n, 1, k - 1)
DigitVal(c) == Pos(DIGITS, c) - 1
RECURSIVE NumVal(_, _)
NumVal(s, acc) == IF s = "" THEN acc ELSE NumVal(From(s, 2), acc * 10 + DigitVal(Chr(s, 1)))
Indexed(key, pre) == Len(key) > Len(pre) /\ StartsWith(key, pre) /\ CharsOf(From(key, Len(pre) + 1)) \subseteq DigitSet
Index(key, pre) == NumVal(From(key, Len(pre) + 1), 0)
OutKeys == {"PLAINNAME", "BASENAME"}
CmdKeys == OutKeys \cup {"INPUT", "OUTPUT", "OUTDIR", "DEPFILE", "PRIVATE_DIR", "SOURCE_ROOT", "BUILD_ROOT", "BUILD_DIR", "CURRENT_SOURCE_DIR"}
IsKey(k) == k \in CmdKeys \/ Indexed(k, "INPUT") \/ Indexed(k, "OUTPUT")

(* the pieces of a template: literal text and keys; what is no key is text *)
Key(k) == [t |-> "k", s |-> k]
RECURSIVE Split(_, _, _, _)
Split(s, i, lit, all) ==      \* lit: the text from which no key has been taken yet
  LET a == PosFrom(s, "@", i)
      j == IF a = 0 THEN 0 ELSE PosFrom(s, "@", a + 1)
      k == IF j = 0 THEN "" ELSE SubSeq(s, a + 1, j - 1)
      txt(t) == IF t = "" THEN <<>> ELSE <<Lit(t)>>
  IN IF a = 0 THEN txt(lit \o From(s, i))
     ELSE IF j # 0 /\ (all \/ IsKey(k)) THEN txt(lit \o SubSeq(s, i, a - 1)) \o <<Key(k)>> \o Split(s, j + 1, "", all)
     ELSE Split(s, a + 1, lit \o SubSeq(s, i, a), all)

BAD == [t |-> "bad", s |-> ""]
(* the value of a key in a command line; x: what is known of the unit *)
KeyPiece(w, u, x, k) ==
  CASE k \in OutKeys -> IF Len(x.ins) # 1 THEN BAD ELSE Lit(IF k = "BASENAME" THEN Stem(Base(x.ins[1])) ELSE Base(x.ins[1]))
    [] k = "INPUT" -> IF x.ins = <<>> THEN BAD ELSE Path(x.ins[1])
    [] k = "OUTPUT" -> IF x.outs = <<>> THEN BAD ELSE Path(x.outs[1])
    [] k = "OUTDIR" -> IF x.outs = <<>> THEN BAD ELSE Path(u.bcwd)
    [] k = "DEPFILE" -> IF x.dep = "" THEN BAD ELSE Path(x.dep)
    [] k = "PRIVATE_DIR" -> IF x.outs = <<>> \/ u.k = "gen" THEN BAD ELSE Path(Norm(u.bcwd \o "/" \o u.name \o ".p"))
    [] k = "SOURCE_ROOT" -> Path(w.src)
    [] k = "BUILD_ROOT" -> Path(w.bdir)
    [] k = "BUILD_DIR" -> IF u.k # "gen" THEN BAD ELSE Path(u.gdir)
    [] k = "CURRENT_SOURCE_DIR" -> Path(u.cwd)
    [] Indexed(k, "INPUT") -> IF Index(k, "INPUT") < Len(x.ins) THEN Path(x.ins[Index(k, "INPUT") + 1]) ELSE BAD
    [] OTHER -> IF Index(k, "OUTPUT") < Len(x.outs) THEN Path(x.outs[Index(k, "OUTPUT") + 1]) ELSE BAD
ArgPieces(w, u, x, s) == LET ps == Split(s, 1, "", FALSE)
                         IN [i \in DOMAIN ps |-> IF ps[i].t = "k" THEN KeyPiece(w, u, x, ps[i].s) ELSE ps[i]]
Paths(ps) == [i \in DOMAIN ps |-> <<Path(ps[i])>>]
(* one element of the declared command: the arguments it stands for *)
ArgOf(w, d, u, x, a) ==
  CASE a.t = "f" -> <<<<Path(a.p)>>>>
    [] a.t = "u" -> Paths(d[a.u].outs)
    [] a.t = "s" /\ a.v = "@INPUT@" -> IF x.ins = <<>> THEN <<<<BAD>>>> ELSE Paths(x.ins)
    [] a.t = "s" /\ a.v = "@OUTPUT@" -> IF x.outs = <<>> THEN <<<<BAD>>>> ELSE Paths(x.outs)
    [] a.t = "s" /\ a.v = "@EXTRA_ARGS@" /\ u.k = "gen" -> [i \in DOMAIN u.extra |-> <<Lit(u.extra[i])>>]
    [] OTHER -> <<ArgPieces(w, u, x, a.v)>>
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))

OutName(t, ins) ==        \* <<ok, name>>
  LET ps == Split(t, 1, "", TRUE)
      ok == \A i \in DOMAIN ps : ps[i].t = "k" => ps[i].s \in OutKeys /\ Len(ins) = 1
      val(p) == IF p.t = "l" THEN p.s ELSE IF p.s = "BASENAME" THEN Stem(Base(ins[1])) ELSE Base(ins[1])
  IN <<ok /\ "/" \notin CharsOf(t), IF ok THEN JoinSeq([i \in DOMAIN ps |-> val(ps[i])], "") ELSE "">>

(* files a list of references stands for *)
RefFiles(d, r) == IF r.t = "s" THEN <<r.p>> ELSE IF r.t = "o" THEN <<d[r.u].outs[r.i]>> ELSE d[r.u].outs
Refs(d, rs) == Cat([i \in DOMAIN rs |-> RefFiles(d, rs[i])])

----------------------------------------------------------------------------
(* The environment: operations on the one muon was started with.              *)
EnvOp(e, o) == LET v == JoinSeq(o.vals, o.sep) IN
  (o.key :> (IF o.op = "set" \/ o.key \notin DOMAIN e THEN v ELSE IF o.op = "append" THEN e[o.key] \o o.sep \o v ELSE v \o o.sep \o e[o.key])) @@ e
RECURSIVE EnvOps(_, _)
EnvOps(e, os) == IF os = <<>> THEN e ELSE EnvOps(EnvOp(e, Head(os)), Tail(os))
(* the variables every command gets; the project cannot override them *)
StdEnv(w) == ("MESON_SOURCE_ROOT" :> w.src) @@ ("MESON_BUILD_ROOT" :> w.bdir)
EnvOf(w, u) == IF u.k = "gen" THEN w.outer ELSE StdEnv(w) @@ EnvOps(w.outer, u.env)

----------------------------------------------------------------------------
(* Everything a unit stands for, given the units before it.                   *)
NoUnit == [ok |-> TRUE, outs |-> <<>>, ins |-> <<>>, dep |-> "", args |-> <<>>, deps |-> {}, uses |-> {}, env |-> <<>>, prog |-> "", rel |-> {}, below |-> {}]
DeriveOne(w, d, u) ==
  IF u.k = "alias" THEN LET us == {u.units[i] : i \in DOMAIN u.units} IN [NoUnit EXCEPT !.uses = us, !.below = us \cup UNION {d[j].below : j \in us}]
  ELSE LET
    ins == TLCEval(Refs(d, u.ins))
    on == TLCEval([i \in DOMAIN u.outs |-> OutName(u.outs[i], ins)])
    outs == TLCEval([i \in DOMAIN on |-> Norm(u.dir \o "/" \o on[i][2])])
    dn == IF u.depfile = "" THEN <<TRUE, "">> ELSE OutName(u.depfile, ins)
    x == [ins |-> ins, outs |-> outs, dep |-> IF u.depfile = "" THEN "" ELSE Norm(u.dir \o "/" \o dn[2])]
    args == TLCEval(Cat([i \in DOMAIN u.cmd |-> ArgOf(w, d, u, x, u.cmd[i])]))
    prog == IF u.prog.t = "g" THEN "" ELSE RefFiles(d, u.prog)[1]
    cmdrefs == [i \in DOMAIN u.cmd |-> IF u.cmd[i].t = "f" THEN <<u.cmd[i].p>> ELSE IF u.cmd[i].t = "u" THEN d[u.cmd[i].u].outs ELSE <<>>]
    needs == TLCEval(Range(ins) \cup Range(Cat(cmdrefs)) \cup Range(Refs(d, u.deps)) \cup (IF prog = "" THEN {} ELSE {prog}))
    uses == TLCEval({j \in DOMAIN d : Range(d[j].outs) \cap needs # {}})
    badargs == \E i \in DOMAIN args : \E j \in DOMAIN args[i] : args[i][j].t = "bad"
  IN [ ok |-> /\ \A i \in DOMAIN on : on[i][1]
              /\ dn[1] /\ ~badargs
              /\ (u.k \in {"custom", "gen"} => u.outs # <<>>)
              /\ (u.capture => Len(u.outs) = 1 /\ ~u.console)
              /\ (u.feed => Len(ins) = 1)
              /\ \A i \in DOMAIN u.ins : u.ins[i].t = "s" => u.ins[i].p \in w.files,
       outs |-> outs, ins |-> ins, dep |-> x.dep, args |-> args, prog |-> prog, deps |-> needs,
       uses |-> uses, below |-> TLCEval(uses \cup UNION {d[j].below : j \in uses}), rel |-> TLCEval({Rel(w.bdir, outs[i]) : i \in DOMAIN outs}),
       env |-> TLCEval(EnvOf(w, u)) ]
RECURSIVE DeriveFrom(_, _, _)
DeriveFrom(w, d, us) == IF us = <<>> THEN d ELSE LET n == TLCEval(Append(d, DeriveOne(w, d, Head(us)))) IN DeriveFrom(w, n, Tail(us))
Derive(w) == DeriveFrom(w, <<>>, w.units)
Ok(d) == \A i \in DOMAIN d : d[i].ok

----------------------------------------------------------------------------
(* When a command has to run.                                                 *)
Units == DOMAIN W.units
Real(i) == W.units[i].k # "alias"
Id(i) == W.units[i].id
Sig(i) == [args |-> D[i].args, env |-> D[i].env, prog |-> D[i].prog, cap |-> IF W.units[i].capture THEN D[i].outs ELSE <<>>,
           feed |-> IF W.units[i].feed THEN D[i].ins ELSE <<>>]
Always(i) == W.units[i].k = "run" \/ W.units[i].stale
(* st: the state within a build *)
AllDeps(i) == D[i].deps \cup (IF W.units[i].depfile = "" THEN {} ELSE Range(W.units[i].dyn))
Must(st, i) ==
  \/ Id(i) \notin DOMAIN st.last
  \/ \E o \in Range(D[i].outs) : o \notin DOMAIN st.file
  \/ st.last[Id(i)].sig # Sig(i)
  \/ \E p \in AllDeps(i) : p \in DOMAIN st.file /\ st.file[p].t > st.last[Id(i)].t
(* what it depends on has changed, which by itself need not rebuild *)
May(st, i) == Id(i) \in DOMAIN st.last /\ st.last[Id(i)].deps # AllDeps(i)
UpToDate(st, i) == i \notin st.failed /\ (i \in st.ran \/ (~Must(st, i) /\ ~Always(i)))

Closure(s) == s \cup UNION {D[i].below : i \in s}
(* the unit a target on the command line names *)
Named(t) == {i \in Units : \/ W.units[i].k \in {"run", "alias"} /\ t = (IF W.units[i].proj = "" \/ W.units[i].k = "alias" THEN "" ELSE W.units[i].proj \o "@@") \o W.units[i].name
                           \/ t \in D[i].rel}
Wanted(ts) == Closure(IF ts = <<>> THEN {i \in Units : W.units[i].k = "custom" /\ W.units[i].default}
                      ELSE UNION {Named(ts[k]) : k \in DOMAIN ts})

(* One command, as a record of what it saw: its arguments, environment,       *)
(* standard input, and the contents of the files it reads.                    *)
Content(st, p) == IF p \in DOMAIN st.file THEN st.file[p].c ELSE "<none>"
Reads(i) == W.units[i].reads
Right(st, i, r) ==
  /\ r.cwd = W.bdir
  /\ Len(r.args) = Len(D[i].args) /\ MatchArgs(W.bdir, r.args, D[i].args)
  /\ r.via = (IF D[i].prog = "" THEN "" ELSE Content(st, D[i].prog))
  /\ \A k \in W.envkeys : /\ (k \in DOMAIN r.env) = (k \in DOMAIN D[i].env)
                          /\ k \in DOMAIN r.env => r.env[k] = D[i].env[k]
  /\ W.units[i].k = "run" => "MESON_SUBDIR" \in DOMAIN r.env /\ r.env["MESON_SUBDIR"] \in
                             LET s == Rel(W.src, W.units[i].cwd) IN IF s = "." THEN {".", ""} ELSE {s}
  /\ W.units[i].feed => r.stdin = Content(st, D[i].ins[1])
  /\ Len(r.reads) = Len(Reads(i)) /\ \A k \in DOMAIN r.reads : r.reads[k] = Content(st, Reads(i)[k])
CanRun(st, want, i) == /\ i \in want /\ i \notin st.ran /\ Real(i)
                       /\ Must(st, i) \/ Always(i) \/ May(st, i)
                       /\ \A j \in D[i].below : Real(j) => UpToDate(st, j)
Write(f, o, c, t, keep) == IF keep /\ o \in DOMAIN f /\ f[o].c = c THEN f ELSE (o :> [c |-> c, t |-> t]) @@ f
RECURSIVE WriteAll(_, _, _, _, _)
WriteAll(f, os, c, t, keep) == IF os = <<>> THEN f ELSE WriteAll(Write(f, Head(os), c, t, keep), Tail(os), c, t, keep)
(* what running it changes; c: what it writes; nothing if it fails *)
Effect(st, i, c, fails) ==
  IF fails THEN [st EXCEPT !.failed = @ \cup {i}, !.ran = @ \cup {i}, !.clock = @ + 1]
  ELSE [st EXCEPT !.file = WriteAll(@, D[i].outs, c, st.clock, W.units[i].keep),
                  !.last = (Id(i) :> [t |-> st.clock, sig |-> Sig(i), deps |-> AllDeps(i)]) @@ @,
                  !.ran = @ \cup {i}, !.clock = @ + 1]
Complete(st) == \A i \in st.want : Real(i) => UpToDate(st, i)

----------------------------------------------------------------------------
Configure(w, d) == W' = w /\ D' = d /\ mode' = (IF Ok(d) THEN "ok" ELSE "bad") /\ UNCHANGED <<file, last, clock, bld>>
Idle == [on |-> FALSE]
Edit(p, c) == ~bld.on /\ file' = (p :> [c |-> c, t |-> clock + 1]) @@ file /\ clock' = clock + 1 /\ UNCHANGED <<W, D, last, mode, bld>>
Remove(p) == ~bld.on /\ file' = [q \in DOMAIN file \ {p} |-> file[q]] /\ clock' = clock + 1 /\ UNCHANGED <<W, D, last, mode, bld>>
(* a build begins, runs commands one by one, and ends *)
Begin(ts) == /\ mode = "ok" /\ ~bld.on /\ UNCHANGED <<W, D, file, last, clock, mode>>
             /\ bld' = [on |-> TRUE, want |-> Wanted(ts), file |-> file, last |-> last, clock |-> clock + 1, ran |-> {}, failed |-> {}]
Run(i, c, fails) == /\ bld.on /\ CanRun(bld, bld.want, i) = TRUE /\ bld' = Effect(bld, i, c, fails)
                    /\ UNCHANGED <<W, D, file, last, clock, mode>>
End == /\ bld.on /\ (bld.failed = {} => Complete(bld)) = TRUE /\ bld' = Idle
       /\ file' = bld.file /\ last' = bld.last /\ clock' = bld.clock + 1 /\ UNCHANGED <<W, D, mode>>
=============================================================================
