------------------------------ MODULE Targets ------------------------------
(* Build targets: how the declarations of a project (libraries, executables,
   dependency objects, include directories, arguments) determine what each
   source is compiled with, what each target is linked from, what the results
   are called and what is built.

   A project is a sequence of declarations, S.stmts, evaluated one after the
   other (Eval).  Evaluation gives every declared thing a record in env: what
   it hands on to those which use it, and, for a target, what it is built
   from.  Then targets are built (Generate, Compile, Link), in any order which
   respects what they need. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLES
  S,      \* the project: stmts, opts (options set), copts, lopts (language -> arguments from options), dirs (the directories there are)
  pc,     \* declarations evaluated
  env,    \* name -> what it is
  pargs,  \* key -> arguments of the project or of all projects
  fail,   \* the evaluation failed
  gdone, cdone, ldone   \* generated so far, compiled so far (<<target, source>>), linked so far
tvars == <<S, pc, env, pargs, fail, gdone, cdone, ldone>>

Range(s) == {s[i] : i \in 1..Len(s)}
Langs == {"c", "cpp"}
Join(a, b) == IF a = "" THEN b ELSE IF b = "" THEN a ELSE a \o "/" \o b
RECURSIVE Dedup(_, _)
Dedup(s, acc) == IF s = <<>> THEN acc
                 ELSE IF \E i \in 1..Len(acc) : acc[i] = Head(s) THEN Dedup(Tail(s), acc)
                 ELSE Dedup(Tail(s), Append(acc, Head(s)))
Uniq(s) == Dedup(s, <<>>)
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
RECURSIVE Dots(_)
Dots(v) == IF v = <<>> THEN "" ELSE "." \o Head(v) \o Dots(Tail(v))
LangOf(ls) == IF "cpp" \in ls THEN "cpp" ELSE IF "c" \in ls THEN "c" ELSE ""

(* ---- options of a target: its own, else the project's, else the default *)
Default == [buildtype |-> "debugoptimized", optimization |-> "g", debug |-> "true", warning_level |-> "3", werror |-> "false",
            c_std |-> "none", cpp_std |-> "none", b_ndebug |-> "false", b_pie |-> "false", b_staticpic |-> "true"]
Opt(over, o) == IF o \in DOMAIN over THEN over[o] ELSE IF o \in DOMAIN S.opts THEN S.opts[o] ELSE Default[o]
IsSet(over, o) == o \in DOMAIN over \/ o \in DOMAIN S.opts
BuildTypes == [plain |-> <<"", FALSE>>, debug |-> <<"-O0", TRUE>>, debugoptimized |-> <<"-Og", TRUE>>, release |-> <<"-O3", FALSE>>, minsize |-> <<"-Os", FALSE>>]
OptFlag(o) == IF o = "plain" THEN "" ELSE "-O" \o o
(* a build type someone has chosen decides about optimization and debugging, other than "custom" *)
OptDebug(over) == LET b == Opt(over, "buildtype") IN
                  IF IsSet(over, "buildtype") /\ b # "custom" THEN BuildTypes[b]
                  ELSE <<OptFlag(Opt(over, "optimization")), Opt(over, "debug") = "true">>
Warnings(l) == CASE l = "0" -> {} [] l = "1" -> {"-Wall"} [] l = "2" -> {"-Wall", "-Wextra"} [] l = "3" -> {"-Wall", "-Wextra", "-Wpedantic"}
Std(over, lang) == LET s == Opt(over, IF lang = "c" THEN "c_std" ELSE "cpp_std") IN IF s = "none" THEN "" ELSE "-std=" \o s
NDebug(over) == Opt(over, "b_ndebug") = "true" \/ (Opt(over, "b_ndebug") = "if-release" /\ Opt(over, "buildtype") = "release")
Flags(t, lang) == [opt |-> OptDebug(t.over)[1], debug |-> OptDebug(t.over)[2], warn |-> Warnings(Opt(t.over, "warning_level")),
                   werror |-> Opt(t.over, "werror") = "true", std |-> Std(t.over, lang), ndebug |-> NDebug(t.over),
                   pic |-> t.pic, pie |-> t.pie, vis |-> t.vis]

(* ---- what is handed on *)
Nothing == [with |-> {}, whole |-> {}, largs |-> <<>>, cargs |-> <<>>, incs |-> <<>>, gens |-> <<>>, srcs |-> <<>>, objs |-> {}, lang |-> "", mg |-> {}]
Lib(n) == IF env[n].k = "both" THEN env[n].shared ELSE n
Env(n) == env[Lib(n)]
Names(ns) == {Lib(ns[i]) : i \in 1..Len(ns)}
RECURSIVE Cat(_, _)
Cat(ns, f) == IF ns = <<>> THEN <<>> ELSE Env(Head(ns))[f] \o Cat(Tail(ns), f)
All(ns, f) == UNION {Env(ns[i])[f] : i \in 1..Len(ns)}
LangsOf(ns) == {Env(ns[i]).lang : i \in 1..Len(ns)}

(* include directories: each stands for the directory of the sources and the one of the build *)
IncDir(d, x, sys) == << <<sys, "B:" \o Join(d, x)>>, <<sys, "S:" \o Join(d, x)>> >>
IncItem(d, it) == IF it.t = "i" THEN env[it.v].incs ELSE IncDir(d, it.v, FALSE)
Incs(d, its) == Concat([i \in 1..Len(its) |-> IncItem(d, its[i])])
IncsOk(d, its) == \A i \in 1..Len(its) : its[i].t = "i" \/ "S:" \o Join(d, its[i].v) \in S.dirs
As(incs, sys) == [i \in 1..Len(incs) |-> <<sys, incs[i][2]>>]

(* objects taken from other targets *)
ObjItem(x) == LET t == env[x.of] IN
              IF x.all THEN {<<x.of, s>> : s \in t.srcs} \cup (IF x.rec THEN t.objs \ {<<x.of, s>> : s \in t.srcs} ELSE {})
              ELSE {<<x.of, s>> : s \in Range(x.srcs)}
Objs(xs) == UNION {ObjItem(xs[i]) : i \in 1..Len(xs)}
ObjsOk(xs) == \A i \in 1..Len(xs) : xs[i].all \/ Range(xs[i].srcs) \subseteq env[xs[i].of].srcs

WholeOk(ns) == \A i \in 1..Len(ns) : Env(ns[i]).kind = "static"

Dep(st) == [k |-> "dep",
  with |-> Names(st.with) \cup All(st.with, "with") \cup All(st.whole, "with") \cup All(st.deps, "with"),
  whole |-> Names(st.whole) \cup All(st.with, "whole") \cup All(st.whole, "whole") \cup All(st.deps, "whole"),
  largs |-> st.largs \o Cat(st.with, "largs") \o Cat(st.whole, "largs") \o Cat(st.deps, "largs"),
  cargs |-> st.cargs \o Cat(st.deps, "cargs"),
  incs |-> Incs(st.d, st.incs) \o Cat(st.deps, "incs"),
  gens |-> st.gens \o Cat(st.deps, "gens"),
  srcs |-> st.srcs \o Cat(st.deps, "srcs"),
  objs |-> Objs(st.objs) \cup All(st.deps, "objs"),
  lang |-> LangOf(LangsOf(st.with) \cup LangsOf(st.whole) \cup LangsOf(st.deps)),
  mg |-> All(st.with, "mg") \cup All(st.whole, "mg") \cup All(st.deps, "mg")]
DepOk(st) == WholeOk(st.whole) /\ IncsOk(st.d, st.incs) /\ ObjsOk(st.objs)

AsSystem(st) == LET d == env[st.of] IN [d EXCEPT !.incs = As(@, st.sys)]
Partial(st) == LET d == env[st.of] P == Range(st.parts) IN
  [Nothing @@ [k |-> "dep"] EXCEPT
    !.cargs = IF "compile_args" \in P THEN d.cargs ELSE <<>>,
    !.incs = IF "includes" \in P THEN d.incs ELSE <<>>,
    !.largs = IF "link_args" \in P THEN d.largs ELSE <<>>,
    !.with = IF "links" \in P THEN d.with ELSE {}, !.whole = IF "links" \in P THEN d.whole ELSE {}, !.lang = IF "links" \in P THEN d.lang ELSE "",
    !.gens = IF "sources" \in P THEN d.gens ELSE <<>>, !.srcs = IF "sources" \in P THEN d.srcs ELSE <<>>,
    !.mg = d.mg \cup Range(d.gens)]

(* ---- targets *)
Vis == {"", "default", "hidden", "internal", "protected"}
Dyn(kind) == kind \in {"shared", "module"}
Prefix(st, kind) == IF st.prefix # "-" THEN st.prefix ELSE IF kind = "exe" THEN "" ELSE "lib"
Suffix(st, kind) == IF st.suffix # "-" THEN "." \o st.suffix ELSE CASE kind = "exe" -> "" [] kind = "static" -> ".a" [] OTHER -> ".so"
Plain(st, kind) == Prefix(st, kind) \o st.tname \o Suffix(st, kind)
FileName(st, kind) == Plain(st, kind) \o (IF kind # "shared" THEN "" ELSE IF st.ver # <<>> THEN Dots(st.ver) ELSE IF st.sover # "" THEN "." \o st.sover ELSE "")
SoName(st, kind) == Plain(st, kind) \o (IF kind # "shared" THEN "" ELSE IF st.sover # "" THEN "." \o st.sover ELSE IF st.ver # <<>> THEN "." \o st.ver[1] ELSE "")
Pic(st, kind, both) == CASE st.pic # "unset" -> st.pic = "true"
                         [] both -> TRUE
                         [] kind = "static" -> Opt(st.over, "b_staticpic") = "true"
                         [] Dyn(kind) -> TRUE
                         [] OTHER -> FALSE
Pie(st, kind) == CASE st.pie # "unset" -> st.pie = "true" [] kind = "exe" -> Opt(st.over, "b_pie") = "true" [] OTHER -> FALSE

(* generated files which are sources are compiled, the others are only needed beforehand *)
GenSrc(gs) == {env[g].out : g \in {h \in gs : env[h].src}}
GenHdr(gs) == {g \in gs : ~env[g].src}
SrcLang == [c |-> "c", cpp |-> "cpp"]
Target(st, name, kind, both, given) ==
  LET gs == st.gens \o Cat(st.deps, "gens")
      hd == SelectSeq(gs, LAMBDA g : ~env[g].src)
      srcs == IF given # {} THEN {} ELSE Range(st.srcs) \cup Range(Cat(st.deps, "srcs")) \cup GenSrc(Range(gs))
      objs == {<<name, s>> : s \in srcs} \cup Objs(st.objs) \cup All(st.deps, "objs") \cup given
      tw == Names(st.with) \cup All(st.with, "with") \cup All(st.whole, "with") \cup All(st.deps, "with")
      th == Names(st.whole) \cup All(st.with, "whole") \cup All(st.whole, "whole") \cup All(st.deps, "whole")
      tl == Cat(st.with, "largs") \o Cat(st.whole, "largs") \o Cat(st.deps, "largs")
      used == {S.lang[x[2]] : x \in objs} \cup LangsOf(st.with) \cup LangsOf(st.whole) \cup LangsOf(st.deps)
      mg == Range(gs) \cup All(st.with, "mg") \cup All(st.whole, "mg") \cup All(st.deps, "mg")
  IN [k |-> "tgt", kind |-> kind, pr |-> st.pr, d |-> st.d, name |-> name, out |-> Join(st.d, FileName(st, kind)),
      names |-> {FileName(st, kind)} \cup (IF kind = "shared" THEN {SoName(st, kind), Plain(st, kind)} ELSE {}),
      soname |-> IF Dyn(kind) THEN SoName(st, kind) ELSE "",
      srcs |-> srcs, objs |-> objs, hdrs |-> IF given # {} THEN {} ELSE GenHdr(Range(gs)),
      tw |-> tw, th |-> th, tl |-> tl \o st.largs, tc |-> Cat(st.deps, "cargs"),
      ti |-> (IF st.impl THEN IncDir(st.d, "", FALSE) ELSE <<>>) \o Incs(st.d, st.incs) \o Cat(st.deps, "incs")
             \o (IF st.impl THEN [i \in 1..Len(hd) |-> <<FALSE, "B:" \o env[hd[i]].d>>] ELSE <<>>),
      own |-> [c |-> st.cargs, cpp |-> st.cppargs], over |-> st.over, pic |-> Pic(st, kind, both), pie |-> Pie(st, kind), vis |-> st.vis,
      dflt |-> st.dflt, expdyn |-> st.expdyn, rpath |-> st.rpath,
      \* handed on: only archives need at the end what they were declared with
      with |-> IF kind = "static" THEN tw ELSE {}, whole |-> IF kind = "static" THEN th ELSE {},
      largs |-> IF kind = "static" THEN tl ELSE <<>>,
      cargs |-> <<>>, incs |-> <<>>, gens |-> <<>>, lang |-> LangOf(used), mg |-> mg]
TargetOk(st, kind, objs) ==
  /\ WholeOk(st.whole) /\ IncsOk(st.d, st.incs) /\ ObjsOk(st.objs)
  /\ st.vis \in Vis
  /\ ~(st.pic = "false" /\ Dyn(kind)) /\ ~(st.pie = "true" /\ kind # "exe")
  /\ objs # {} \/ st.whole # <<>> \/ kind = "static"

(* ---- evaluation *)
Key(scope, link, lang) == scope \o (IF link THEN "/l/" ELSE "/c/") \o lang
Get(key) == IF key \in DOMAIN pargs THEN pargs[key] ELSE <<>>
AddTo(a, keys, x) == [k \in keys |-> (IF k \in DOMAIN a THEN a[k] ELSE <<>>) \o x] @@ a
Bind(n, v) == env' = (n :> TLCEval(v)) @@ env /\ UNCHANGED <<pargs, fail>>
Error == fail' = TRUE /\ UNCHANGED <<env, pargs>>
Eval ==
  /\ pc < Len(S.stmts) /\ ~fail /\ pc' = pc + 1
  /\ LET st == S.stmts[pc + 1] IN
     CASE st.k = "args" ->
            /\ pargs' = TLCEval(AddTo(pargs, {Key(IF st.all THEN "all" ELSE st.pr, st.link, l) : l \in Range(st.langs)}, st.args))
            /\ UNCHANGED <<env, fail>>
       [] st.k = "pdeps" ->
            IF ~(Range(st.langs) \subseteq Langs) THEN Error
            ELSE /\ pargs' = TLCEval(AddTo(AddTo(AddTo(pargs, {Key(st.pr, FALSE, l) : l \in Range(st.langs)}, Cat(st.deps, "cargs")),
                                       {Key(st.pr, TRUE, l) : l \in Range(st.langs)}, Cat(st.deps, "largs")),
                                 {"inc" \o Key(st.pr, FALSE, l) : l \in Range(st.langs)}, Cat(st.deps, "incs")))
                 /\ UNCHANGED <<env, fail>>
       [] st.k = "inc" ->
            IF \A i \in 1..Len(st.dirs) : "S:" \o Join(st.d, st.dirs[i]) \in S.dirs
            THEN Bind(st.name, [k |-> "inc", incs |-> Concat([i \in 1..Len(st.dirs) |-> IncDir(st.d, st.dirs[i], st.sys)])])
            ELSE Error
       [] st.k = "dep" -> IF DepOk(st) THEN Bind(st.name, Dep(st)) ELSE Error
       [] st.k = "none" -> Bind(st.name, Nothing @@ [k |-> "dep"])
       [] st.k = "assys" -> Bind(st.name, AsSystem(st))
       [] st.k = "partial" -> Bind(st.name, Partial(st))
       [] st.k = "gen" -> Bind(st.name, [k |-> "gen", out |-> "B:" \o Join(st.d, st.out), d |-> st.d, src |-> st.src])
       [] st.k = "tgt" /\ st.kind # "both" ->
            LET t == TLCEval(Target(st, st.name, st.kind, FALSE, {})) IN
            IF TargetOk(st, st.kind, t.objs) THEN Bind(st.name, t) ELSE Error
       [] OTHER ->  \* both libraries: the shared one is made from the objects of the static one
            LET a == TLCEval(Target(st, st.name \o "!a", "static", TRUE, {})) IN
            LET so == TLCEval(Target(st, st.name \o "!so", "shared", TRUE, a.objs)) IN
            IF TargetOk(st, "static", a.objs) /\ TargetOk(st, "shared", so.objs)
            THEN /\ env' = TLCEval((st.name :> [k |-> "both", shared |-> st.name \o "!so"]) @@ (st.name \o "!a" :> a) @@ (st.name \o "!so" :> so) @@ env)
                 /\ UNCHANGED <<pargs, fail>>
            ELSE Error
  /\ UNCHANGED <<S, gdone, cdone, ldone>>
Evaluated == pc = Len(S.stmts) \/ fail

(* ---- what a target is built with *)
Defs(t, lang) == Uniq(S.copts[lang] \o Get(Key("all", FALSE, lang)) \o Get(Key(t.pr, FALSE, lang)) \o t.tc \o t.own[lang])
IncPath(t, lang) == Uniq(SelectSeq(t.ti \o Get("inc" \o Key(t.pr, FALSE, lang)), LAMBDA x : x[2] \in S.dirs))
LinkArgs(t) == Uniq(t.tl \o S.lopts[t.lang] \o Get(Key("all", TRUE, t.lang)) \o Get(Key(t.pr, TRUE, t.lang)))
Linked(t) == t.kind # "static"
Libs(t) == IF Linked(t) THEN t.tw \cup t.th ELSE {}
DirOf(t) == "B:" \o t.d
RPaths(t) == {DirOf(env[x]) : x \in {y \in t.tw : Dyn(env[y].kind)}} \cup (IF t.rpath = "" THEN {} ELSE {t.rpath})

Targets == {n \in DOMAIN env : env[n].k = "tgt"}
Gens == {n \in DOMAIN env : env[n].k = "gen"}
GenOf(src) == {g \in Gens : env[g].out = src}
(* before one of its sources is compiled, all it needs is there *)
Before(o, src) == env[o].hdrs \cup GenOf(src)

RECURSIVE Close(_)
Close(T) == LET more == T \cup UNION {Libs(env[t]) : t \in T} IN IF more = T THEN T ELSE Close(more)
RECURSIVE CloseMay(_)
CloseMay(T) == LET more == T \cup UNION {env[t].tw \cup env[t].th : t \in T} IN IF more = T THEN T ELSE CloseMay(more)
Defaults == {t \in Targets : env[t].dflt}
Needed == Close(Defaults)
May == CloseMay(Defaults)
NeededObjs == UNION {env[t].objs : t \in Needed}
NeededGens == UNION {env[t].hdrs : t \in Needed} \cup UNION {Before(o[1], o[2]) : o \in NeededObjs}
MayGens == NeededGens \cup UNION {env[t].mg \cup UNION {env[o[1]].mg : o \in env[t].objs} : t \in May}

(* ---- building *)
Building == Evaluated /\ ~fail
Generate(g) == Building /\ g \in MayGens \ gdone /\ gdone' = gdone \cup {g} /\ UNCHANGED <<S, pc, env, pargs, fail, cdone, ldone>>
Compile(o, src) == /\ Building /\ <<o, src>> \notin cdone /\ <<o, src>> \in UNION {env[t].objs : t \in May}
                   /\ Before(o, src) \subseteq gdone
                   /\ cdone' = cdone \cup {<<o, src>>} /\ UNCHANGED <<S, pc, env, pargs, fail, gdone, ldone>>
Link(t) == /\ Building /\ t \in May \ ldone
           /\ env[t].objs \subseteq cdone /\ Libs(env[t]) \subseteq ldone
           /\ ldone' = ldone \cup {t} /\ UNCHANGED <<S, pc, env, pargs, fail, gdone, cdone>>
Built == Needed \subseteq ldone /\ NeededObjs \subseteq cdone /\ NeededGens \subseteq gdone
=============================================================================
