------------------------------ MODULE Options ------------------------------
(* Options: what get_option() returns in every project of a configuration,  *)
(* given declarations and settings from all sources; when a setting is an   *)
(* error; the feature methods; and when a build reconfigures.               *)
(*                                                                          *)
(* W (the world): [glob |-> declarations of the global options,             *)
(*   per |-> declarations every project has, projects |-> << project >>,    *)
(*   cmd |-> << [proj, name, raw] >>, env |-> << [name, val] >>]            *)
(* project: [name, opts |-> << declaration >>, dopts |-> << setting >>,     *)
(*           body |-> << statement >>, files |-> ...]                       *)
(* declaration: [name, type, ch, min, max, def, yield, dep, dm, dto]        *)
(* raw value: [f |-> "txt", s |-> string] or [f |-> "list", e |-> strings]  *)
(* value: [t |-> "s" | "b" | "i" | "a" | "f", v]                            *)
EXTENDS Strs, FiniteSets

VARIABLES
  W,       \* the world
  val,     \* <<project, option>> -> [v, src]; global options belong to project 0
  pend,    \* settings for projects not entered yet: << [proj, name, raw, src] >>
  stack,   \* projects being evaluated: << [p, pc, req] >>, the last one is current
  subs,    \* subprojects evaluated: name -> found
  reads,   \* files the configuration depends on
  out,     \* what was printed
  mode     \* "idle", "run", "ok", "err"
cvars == <<val, pend, stack, subs, reads, out, mode>>

Range(s) == {s[i] : i \in DOMAIN s}
Src == [default |-> 1, env |-> 2, yield |-> 3, dopts |-> 4, sub |-> 5, rename |-> 7, cmd |-> 8]
TypeTag == [string |-> "s", boolean |-> "b", combo |-> "s", integer |-> "i", array |-> "a", feature |-> "f"]

Project(p) == W.projects[p]
ProjectNamed(n) == CHOOSE p \in DOMAIN W.projects : W.projects[p].name = n
Decls(p) == IF p = 0 THEN W.glob ELSE W.per \o Project(p).opts
Names(p) == {Decls(p)[i].name : i \in DOMAIN Decls(p)}
Decl(p, n) == LET d == Decls(p) IN d[CHOOSE i \in DOMAIN d : d[i].name = n]
(* where an option name leads to in project p: itself, or the global ones *)
Where(p, n) == IF n \in Names(p) THEN <<p, n>> ELSE IF n \in Names(0) THEN <<0, n>> ELSE <<>>

(* ------------------------------------------------------- values of options *)
Bad == [ok |-> FALSE, v |-> [t |-> "?", v |-> "?"]]
Ok(t, v) == [ok |-> TRUE, v |-> [t |-> t, v |-> v]]
States == {"enabled", "disabled", "auto"}
Convert(type, raw) ==
  CASE type = "array" -> IF raw.f = "list" THEN Ok("a", raw.e)
                         ELSE IF raw.s = "" THEN Ok("a", <<>>) ELSE Ok("a", SplitOn(raw.s, ","))
    [] type \in {"string", "combo"} -> Ok("s", raw.s)
    [] type = "boolean" -> IF raw.s \in {"true", "false"} THEN Ok("b", raw.s = "true") ELSE Bad
    [] type = "integer" -> IF IsIntStr(raw.s) THEN Ok("i", ToIntS(raw.s)) ELSE Bad
    [] type = "feature" -> IF raw.s \in States THEN Ok("f", raw.s) ELSE Bad
Valid(d, v) ==
  /\ v.t = TypeTag[d.type]
  /\ (d.type = "combo" => v.v \in Range(d.ch))
  /\ (d.type = "array" /\ d.ch # <<>> => \A i \in DOMAIN v.v : v.v[i] \in Range(d.ch))
  /\ (d.type = "integer" => (\A m \in Range(d.min) : v.v >= m) /\ (\A m \in Range(d.max) : v.v <= m))
  /\ (d.type = "feature" => v.v \in States)

(* deprecated values are replaced by new ones *)
RECURSIVE MapArr(_, _)
MapArr(a, m) ==
  IF m = <<>> THEN a
  ELSE LET o == m[1][1]
           I == {i \in DOMAIN a : a[i] = o}
           k == IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j
       IN MapArr(IF k = 0 THEN a ELSE [a EXCEPT ![k] = m[1][2]], Tail(m))
Replaced(d, raw) ==
  IF d.dep # "map" \/ d.type = "array" THEN raw
  ELSE LET M == {i \in DOMAIN d.dm : d.dm[i][1] = raw.s}
       IN IF M = {} THEN raw ELSE [f |-> "txt", s |-> d.dm[CHOOSE i \in M : TRUE][2]]
FromRaw(d, raw) ==
  LET c == Convert(d.type, Replaced(d, raw))
      c2 == IF c.ok /\ d.type = "array" /\ d.dep = "map" THEN Ok("a", MapArr(c.v.v, d.dm)) ELSE c
  IN IF c2.ok /\ Valid(d, c2.v) THEN c2 ELSE Bad

(* Setting an option takes effect unless its value came from a source of    *)
(* higher precedence.  Result: [ok, m].                                     *)
RECURSIVE Put(_, _, _, _, _)
Put(m, p, n, raw, src) ==
  LET x == Where(p, n) IN
  IF x = <<>> THEN [ok |-> FALSE, m |-> m]
  ELSE IF m[x].src > src THEN [ok |-> TRUE, m |-> m]
  ELSE LET d == Decl(x[1], n)
           c == FromRaw(d, raw)
           m1 == [m EXCEPT ![x] = [v |-> c.v, src |-> src]]
       IN IF ~c.ok THEN [ok |-> FALSE, m |-> m]
          ELSE IF d.dep = "rename" THEN Put(m1, p, d.dto, raw, Src.rename)
          ELSE [ok |-> TRUE, m |-> m1]
RECURSIVE PutAll(_, _, _)
(* s: << [name, raw, src] >> *)
PutAll(m, p, s) ==
  IF s = <<>> THEN [ok |-> TRUE, m |-> m]
  ELSE LET r == Put(m, p, s[1].name, s[1].raw, s[1].src) IN IF r.ok THEN PutAll(r.m, p, Tail(s)) ELSE r

(* ------------------------------------------------------ entering a project *)
Default(d) == [v |-> d.def, src |-> Src.default]
Declared(m, p) == [x \in DOMAIN m \cup {<<p, n>> : n \in Names(p)} |->
                     IF x \in DOMAIN m THEN m[x] ELSE Default(Decl(p, x[2]))]
DeclsOk(p) ==
  LET d == Decls(p) IN
  /\ \A i \in DOMAIN d : Valid(d[i], d[i].def)
  /\ \A i, j \in DOMAIN d : d[i].name = d[j].name => i = j
  /\ p # 0 => \A i \in DOMAIN d : d[i].name \notin Names(0)
(* options of a subproject which yield take the main project's value *)
Yields(m, p) ==
  [x \in DOMAIN m |->
     IF x[1] = p /\ p > 1 /\ Decl(p, x[2]).yield
     THEN LET y == Where(1, x[2]) IN
          IF y # <<>> /\ Decl(y[1], y[2]).type = Decl(p, x[2]).type
          THEN [v |-> m[y].v, src |-> Src.yield] ELSE m[x]
     ELSE m[x]]
YieldsOk(m, p) == \A n \in Names(p) : m[<<p, n>>].src = Src.yield => Valid(Decl(p, n), m[<<p, n>>].v)
For(p) == SelectSeq(pend, LAMBDA s : s.proj = IF p = 1 THEN "" ELSE Project(p).name)
(* -D settings, and those parents made, may only name options of the project;
   for the main project also global ones *)
Known(p, s) == \A i \in DOMAIN s : s[i].name \in Names(p) \cup (IF p = 1 THEN Names(0) ELSE {})
Enter(p) ==
  LET m1 == Yields(Declared(val, p), p)
      r == PutAll(m1, p, For(p))
  IN IF DeclsOk(p) /\ YieldsOk(m1, p) /\ Known(p, For(p)) /\ r.ok THEN r ELSE [ok |-> FALSE, m |-> val]

RECURSIVE EnvList(_)
EnvVar(n) == LET I == {i \in DOMAIN W.env : W.env[i].name = n}
             IN IF I = {} THEN "" ELSE W.env[CHOOSE i \in I : TRUE].val
EnvList(q) == IF q = <<>> THEN <<>> ELSE Words(EnvVar(q[1])) \o EnvList(Tail(q))
FromEnv(n) == CASE n = "c_args" -> [has |-> EnvList(<<"CFLAGS", "CPPFLAGS">>) # <<>>, v |-> [t |-> "a", v |-> EnvList(<<"CFLAGS", "CPPFLAGS">>)]]
                [] n = "c_link_args" -> [has |-> EnvList(<<"CFLAGS", "LDFLAGS">>) # <<>>, v |-> [t |-> "a", v |-> EnvList(<<"CFLAGS", "LDFLAGS">>)]]
                [] n = "pkg_config_path" -> [has |-> EnvVar("PKG_CONFIG_PATH") # "", v |-> [t |-> "s", v |-> EnvVar("PKG_CONFIG_PATH")]]
                [] OTHER -> [has |-> FALSE, v |-> [t |-> "?", v |-> ""]]
Globals == [x \in {<<0, n>> : n \in Names(0)} |->
              LET e == FromEnv(x[2]) IN IF e.has THEN [v |-> e.v, src |-> Src.env] ELSE Default(Decl(0, x[2]))]

Tag(s, src) == [i \in DOMAIN s |-> [proj |-> s[i].proj, name |-> s[i].name, raw |-> s[i].raw, src |-> src]]

(* ------------------------------------------------------------- evaluation *)
Cur == stack[Len(stack)]
P == Cur.p
Stmt == Project(P).body[Cur.pc]
Advance == [stack EXCEPT ![Len(stack)].pc = @ + 1]
FileOf(p, f) == <<Project(p).name, f>>

Begin ==
  /\ mode \in {"idle", "ok", "err"}
  /\ val' = Globals /\ pend' = Tag(W.cmd, Src.cmd)
  /\ stack' = <<[p |-> 1, pc |-> -1, req |-> TRUE]>>
  /\ subs' = <<>> /\ reads' = {} /\ out' = <<>> /\ mode' = "run"

(* The current project failed, and with it those which required it, up to   *)
(* the innermost one that is optional.                                       *)
Optional == {i \in DOMAIN stack : ~stack[i].req}
FailR(m, rd) ==
  IF Optional = {}
  THEN mode' = "err" /\ UNCHANGED <<val, pend, stack, subs, reads>> /\ out' = Append(out, [k |-> "E", m |-> m])
  ELSE LET k == CHOOSE i \in Optional : \A j \in Optional : j <= i
           up == SubSeq(stack, 1, k - 1)
           n == Project(stack[k].p).name
       IN
      /\ stack' = [up EXCEPT ![Len(up)].pc = @ + 1]
      /\ subs' = (n :> FALSE) @@ subs
      /\ out' = Append(out, [k |-> "F", s |-> n, v |-> FALSE])
      /\ reads' = reads \cup rd
      /\ UNCHANGED <<val, pend, mode>>
Fail(m) == FailR(m, {})

(* pc -1: read the option files and apply what is set for the project *)
EnterStep ==
  /\ mode = "run" /\ Cur.pc = -1
  /\ LET r == Enter(P)
         (* the files are read even if there is an error in them *)
         rd == {FileOf(P, "opts")} \cup (IF r.ok THEN {FileOf(P, "build")} ELSE {})
     IN IF r.ok
        THEN /\ val' = r.m /\ stack' = Advance /\ reads' = reads \cup rd
             /\ UNCHANGED <<pend, subs, out, mode>>
        ELSE FailR("", rd)

(* the directories below the prefix are made relative to it *)
Dirs == {"bindir", "libdir", "datadir", "mandir"}
Prefixed(m) ==
  LET pre == m[<<0, "prefix">>].v.v \o "/" IN
  [x \in DOMAIN m |->
     IF x[1] = 0 /\ x[2] \in Dirs /\ StartsWith(m[x].v.v, pre)
     THEN [m[x] EXCEPT !.v = [t |-> "s", v |-> From(m[x].v.v, Len(pre) + 1)]] ELSE m[x]]
(* pc 0: project() with its default_options *)
ProjectStep ==
  /\ mode = "run" /\ Cur.pc = 0
  /\ LET own == SelectSeq(Project(P).dopts, LAMBDA s : s.proj = "")
         sub == SelectSeq(Project(P).dopts, LAMBDA s : s.proj # "")
         r == PutAll(val, P, Tag(own, Src.dopts))
     IN IF r.ok
        THEN /\ val' = (IF P = 1 THEN Prefixed(r.m) ELSE r.m)
             /\ pend' = pend \o Tag(sub, Src.sub)
             /\ stack' = Advance /\ UNCHANGED <<subs, reads, out, mode>>
        ELSE Fail("")

(* ---------------------------------------------------------------- features *)
AutoState == val[<<0, "auto_features">>].v.v
Seen(f) == IF f = "auto" THEN AutoState ELSE f
FeatOp(op, c, f) ==  \* the resulting state or "error"
  LET s == Seen(f) IN
  CASE op = "enable_if" -> IF ~c THEN f ELSE IF s = "disabled" THEN "error" ELSE "enabled"
    [] op = "disable_if" -> IF ~c THEN f ELSE IF s = "enabled" THEN "error" ELSE "disabled"
    [] op = "require" -> IF c THEN f ELSE IF s = "enabled" THEN "error" ELSE "disabled"
    [] op = "enable_auto_if" -> IF c /\ s = "auto" THEN "enabled" ELSE f
    [] op = "disable_auto_if" -> IF c /\ s = "auto" THEN "disabled" ELSE f
RECURSIVE FeatOps(_, _)
FeatOps(f, ops) ==
  IF ops = <<>> THEN [s |-> f, m |-> ""]
  ELSE LET g == FeatOp(ops[1].op, ops[1].c, f) IN
       IF g = "error" THEN [s |-> "error", m |-> ops[1].m] ELSE FeatOps(g, Tail(ops))
Printed(v) == IF v.t = "f" THEN [t |-> "f", v |-> Seen(v.v)] ELSE v

StmtStep ==
  /\ mode = "run" /\ Cur.pc >= 1 /\ Cur.pc <= Len(Project(P).body)
  /\ LET s == Stmt IN
     CASE s.k = "get" ->
            LET x == Where(P, s.o) IN
            IF x = <<>> THEN Fail("")
            ELSE /\ out' = Append(out, [k |-> "R", p |-> Project(P).name, o |-> s.o, v |-> Printed(val[x].v)])
                 /\ stack' = Advance /\ UNCHANGED <<val, pend, subs, reads, mode>>
       [] s.k = "feat" ->
            LET x == Where(P, s.o) r == FeatOps(val[x].v.v, s.ops) IN
            IF r.s = "error" THEN Fail(r.m)
            ELSE /\ out' = Append(out, [k |-> "R", p |-> Project(P).name, o |-> s.o, v |-> [t |-> "f", v |-> Seen(r.s)]])
                 /\ stack' = Advance /\ UNCHANGED <<val, pend, subs, reads, mode>>
       [] s.k = "use" ->
            /\ reads' = reads \cup {FileOf(P, s.file)}
            /\ out' = (IF s.show THEN Append(out, [k |-> "U", f |-> s.file, v |-> s.content]) ELSE out)
            /\ stack' = Advance /\ UNCHANGED <<val, pend, subs, mode>>
       [] s.k = "sub" ->
            IF s.p \in DOMAIN subs /\ subs[s.p]
            THEN /\ out' = Append(out, [k |-> "F", s |-> s.p, v |-> TRUE])
                 /\ stack' = Advance /\ UNCHANGED <<val, pend, subs, reads, mode>>
            ELSE /\ pend' = pend \o Tag([i \in DOMAIN s.dopts |-> [proj |-> s.p, name |-> s.dopts[i].name, raw |-> s.dopts[i].raw]], Src.sub)
                 /\ stack' = Append(stack, [p |-> ProjectNamed(s.p), pc |-> -1, req |-> s.req])
                 /\ UNCHANGED <<val, subs, reads, out, mode>>
       [] s.k = "error" -> Fail("")

(* a -D setting for a subproject which is not part of the build *)
Orphan == \E i \in DOMAIN W.cmd : W.cmd[i].proj # "" /\ ~(W.cmd[i].proj \in DOMAIN subs /\ subs[W.cmd[i].proj])
EndStep ==
  /\ mode = "run" /\ Cur.pc > Len(Project(P).body)
  /\ IF Len(stack) = 1
     THEN IF Orphan THEN Fail("")
          ELSE mode' = "ok" /\ UNCHANGED <<val, pend, stack, subs, reads, out>>
     ELSE LET up == SubSeq(stack, 1, Len(stack) - 1) IN
          /\ stack' = [up EXCEPT ![Len(up)].pc = @ + 1]
          /\ subs' = (Project(P).name :> TRUE) @@ subs
          /\ out' = Append(out, [k |-> "F", s |-> Project(P).name, v |-> TRUE])
          /\ UNCHANGED <<val, pend, reads, mode>>

Eval == EnterStep \/ ProjectStep \/ StmtStep \/ EndStep

(* -------------------------------------------------------- reconfiguration *)
(* creads: what the build files in place were made from; stale: the files    *)
(* edited since then.                                                        *)
MustReconfigure(stale, creads) == stale \cap creads # {}

(* -------------------------------------------------------------- properties *)
AlwaysValid == \A x \in DOMAIN val : Valid(Decl(x[1], x[2]), val[x].v)
=============================================================================
