------------------------------- MODULE Ninja -------------------------------
(***************************************************************************)
(* The build executor ("muon samu", the embedded ninja).                   *)
(*                                                                         *)
(* State of the world: files (mtime + content), the build log, the deps    *)
(* log, and, while a build runs, the status of every edge.  The actions    *)
(* are those of a user (edit, touch, delete, switch manifest, crash) and   *)
(* those of the executor (Begin a build, Start/End an edge, Done).         *)
(*                                                                         *)
(* A manifest ("graph") is a sequence of edges, numbered such that an edge *)
(* only consumes outputs of edges with a smaller index.                    *)
(* edge == [id, outs, ins, imp, oo, ver, restat, generator, deps, pool,    *)
(*          phony, coarse, blind]                                          *)
(*   blind: what the edge writes does not depend on its dynamic inputs     *)
(*   deps = ""      no dynamic dependencies                                *)
(*   deps = "gcc"   depfile read into the deps log after the command       *)
(*   deps = "file"  depfile re-read before each build                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLES
  world,     \* [graphs, files, aspects], never changes:
             \*   graphs   sequence of manifests
             \*   files    set of all file names
             \*   aspects  which groups of requirements the actions enforce
  clock,     \* logical time
  gi,        \* index of the manifest in force
  src,       \* [Files -> [c, f, inc]]  state of the source files
  mt,        \* [Files -> Nat], 0 = missing
  ct,        \* [Files -> STRING] content of every file
  blog,      \* [Files -> [m, h]]   build log, m = 0: no entry
  deps,      \* [Files -> [m, l]]   deps log / depfile, keyed by first output
  fuzzy,     \* TRUE after a crash: the logs may have lost records
  run        \* the build in progress (or [on |-> FALSE])

Graphs == world.graphs
Files == world.files
Aspects == world.aspects

vars == <<world, clock, gi, src, mt, ct, blog, deps, fuzzy, run>>

Range(s) == {s[i] : i \in DOMAIN s}
Max(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
Min2(a, b) == IF a < b THEN a ELSE b

Edges(g) == Graphs[g].edges
N(g) == Len(Edges(g))
E(g, i) == Edges(g)[i]
Outs(g, i) == Range(E(g, i).outs)
Out0(g, i) == E(g, i).outs[1]
Static(g, i) == Range(E(g, i).ins) \cup Range(E(g, i).imp)

RECURSIVE GenFrom(_, _, _)
GenFrom(g, f, i) == IF i = 0 THEN 0 ELSE IF f \in Outs(g, i) THEN i ELSE GenFrom(g, f, i - 1)
Gen(g, f) == GenFrom(g, f, N(g))          \* index of the producing edge, 0 for none
IsSrc(g, f) == Gen(g, f) = 0

RECURSIVE Join(_, _)
Join(s, sep) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1]
                ELSE s[1] \o sep \o Join(Tail(s), sep)

SrcText(f, r) == f \o ":" \o ToString(r.c) \o ":" \o ToString(r.f)
Coarse(f, r) == f \o ":" \o ToString(r.c)

(* The files an edge's command reads beyond the manifest's inputs: those    *)
(* its first input names (like #include).                                   *)
Incs(g, i) == IF E(g, i).deps = "" \/ Len(E(g, i).ins) = 0 THEN <<>>
              ELSE IF IsSrc(g, E(g, i).ins[1]) THEN src[E(g, i).ins[1]].inc ELSE <<>>
IsAlias(g, f) == LET i == Gen(g, f) IN i # 0 /\ E(g, i).phony
Reads(g, i) == SelectSeq(E(g, i).ins \o E(g, i).imp, LAMBDA f : ~IsAlias(g, f)) \o Incs(g, i)

(* What the command of edge i writes to output k, given a content function *)
Written(g, i, k, c) ==
  LET e == E(g, i)
      one(f) == IF e.coarse /\ IsSrc(g, f) THEN Coarse(f, src[f]) ELSE c[f]
      rd == IF e.blind THEN SelectSeq(e.ins \o e.imp, LAMBDA f : ~IsAlias(g, f)) ELSE Reads(g, i)
      rs == [j \in DOMAIN rd |-> one(rd[j])]
      v == IF e.generator THEN "g" ELSE "v" \o ToString(e.ver)
  IN e.id \o "." \o v \o "#" \o ToString(k) \o "(" \o Join(rs, ",") \o ")"

(* The command line of an edge, as far as equality is concerned.            *)
(* An alias has no file of its own, so it is not named on command lines.    *)
Cmd(g, i) == <<E(g, i).id, E(g, i).ver,
               SelectSeq(E(g, i).ins, LAMBDA f : ~IsAlias(g, f)),
               SelectSeq(E(g, i).imp, LAMBDA f : ~IsAlias(g, f)), E(g, i).restat>>

\* ------------------------------------------------------------------ clean
(* The content every file has after a build from scratch.                   *)
RECURSIVE CleanUpTo(_, _)
CleanUpTo(g, i) ==
  IF i = 0 THEN [f \in Files |-> IF mt[f] = 0 THEN "" ELSE SrcText(f, src[f])]
  ELSE LET c == CleanUpTo(g, i - 1) e == E(g, i)
       IN IF e.phony THEN c
          ELSE [f \in Files |->
                 IF f \in Outs(g, i)
                 THEN Written(g, i, CHOOSE k \in DOMAIN e.outs : e.outs[k] = f, c)
                 ELSE c[f]]
Clean(g) == CleanUpTo(g, N(g))

\* --------------------------------------------------------------- planning
DepsValid(g, i) ==
  LET e == E(g, i) d == deps[Out0(g, i)]
  IN e.deps = "" \/ (d.m > 0 /\ (e.deps = "file" \/ mt[Out0(g, i)] <= d.m))
Loaded(g, i) == IF E(g, i).deps # "" /\ DepsValid(g, i) THEN Range(deps[Out0(g, i)].l) ELSE {}

Hard(g, i) == Static(g, i) \cup Loaded(g, i)                \* not order-only
Inputs(g, i) == Hard(g, i) \cup Range(E(g, i).oo)

(* edges needed to bring T (a set of files) up to date                      *)
RECURSIVE NeedDown(_, _, _)
NeedDown(g, i, S) ==       \* S: set of needed files; walk indices downwards
  IF i = 0 THEN {}
  ELSE IF Outs(g, i) \cap S # {}
       THEN {i} \cup NeedDown(g, i - 1, S \cup Inputs(g, i))
       ELSE NeedDown(g, i - 1, S)
Need(g, T) == NeedDown(g, N(g), T)

(* effective mtime: an alias without a file of its own is as new as the     *)
(* newest thing it stands for                                               *)
RECURSIVE Eff(_, _)
Eff(g, f) == LET i == Gen(g, f)
             IN IF i = 0 \/ ~E(g, i).phony \/ mt[f] # 0 THEN mt[f]
                ELSE Max({Eff(g, x) : x \in Hard(g, i)})

Newest(g, i) == Max({Eff(g, f) : f \in Hard(g, i)})

OutDirty(g, i, n) ==
  LET e == E(g, i) nw == Newest(g, i) L == blog[n]
  IN \/ mt[n] = 0
     \/ nw > mt[n] /\ (~e.restat \/ L.m = 0)
     \/ L.m = 0 /\ ~e.generator
     \/ L.m > 0 /\ L.m < nw
     \/ ~e.generator /\ L.h # Cmd(g, i)

(* a dynamic dependency which no longer exists and nobody generates         *)
LostDep(g, i) == \E f \in Loaded(g, i) : IsSrc(g, f) /\ mt[f] = 0

OwnDirty(g, i) ==
  IF E(g, i).phony THEN Inputs(g, i) = {} /\ mt[Out0(g, i)] = 0
  ELSE ~DepsValid(g, i) \/ LostDep(g, i) \/ \E n \in Outs(g, i) : OutDirty(g, i, n)

RECURSIVE PD(_, _)
PD(g, i) == OwnDirty(g, i) \/ \E f \in Hard(g, i) : Gen(g, f) # 0 /\ PD(g, Gen(g, f))

(* a source the manifest names but which does not exist: nothing is built   *)
MissingSrc(g, T) ==
  \/ \E f \in T : IsSrc(g, f) /\ mt[f] = 0
  \/ \E i \in Need(g, T) : \E f \in Static(g, i) \cup Range(E(g, i).oo) :
        IsSrc(g, f) /\ mt[f] = 0

\* ------------------------------------------------------------ user actions
Idle == ~run.on
Tick == clock' = clock + 1

Edit(f, r) ==
  /\ Idle /\ Tick
  /\ src' = [src EXCEPT ![f] = r]
  /\ mt' = [mt EXCEPT ![f] = clock']
  /\ ct' = [ct EXCEPT ![f] = SrcText(f, r)]
  /\ UNCHANGED <<world, gi, blog, deps, fuzzy, run>>

Touch(f) ==
  /\ Idle /\ Tick /\ mt[f] # 0
  /\ mt' = [mt EXCEPT ![f] = clock']
  /\ UNCHANGED <<world, gi, src, ct, blog, deps, fuzzy, run>>

Delete(f) ==
  /\ Idle /\ mt[f] # 0 /\ Tick
  /\ mt' = [mt EXCEPT ![f] = 0]
  /\ ct' = [ct EXCEPT ![f] = ""]
  /\ UNCHANGED <<world, gi, src, blog, deps, fuzzy, run>>

Switch(g) ==                                   \* the manifest was regenerated
  /\ Idle /\ gi' = g
  /\ UNCHANGED <<world, clock, src, mt, ct, blog, deps, fuzzy, run>>

(* The logs lost an arbitrary part (power cut, kill, torn write).           *)
LoseLogs ==
  /\ Idle /\ fuzzy' = TRUE
  /\ UNCHANGED <<world, clock, gi, src, mt, ct, blog, deps, run>>

(* The same, concretely: exactly the records of S survive in the build log  *)
(* and those of D in the deps log.                                          *)
Keep(S, D) ==
  /\ blog' = [f \in Files |-> IF f \in S THEN blog[f] ELSE [m |-> 0, h |-> <<>>]]
  /\ deps' = [f \in Files |-> IF f \in D THEN deps[f] ELSE [m |-> 0, l |-> <<>>]]
Lose(S, D) ==
  /\ Idle /\ Keep(S, D)
  /\ UNCHANGED <<world, clock, gi, src, mt, ct, fuzzy, run>>

\* ---------------------------------------------------------------- building
(* Opening the logs drops entries of files the manifest does not generate.  *)
Begin(T, j, k, F) ==
  /\ Idle
  /\ LET g == gi
         miss == MissingSrc(g, T)
         need == IF miss THEN {} ELSE Need(g, T)
     IN /\ blog' = [f \in Files |-> IF IsSrc(g, f) THEN [m |-> 0, h |-> <<>>] ELSE blog[f]]
        /\ deps' = [f \in Files |->
               LET i == Gen(g, f) IN
               IF i # 0 /\ E(g, i).deps = "file" THEN deps[f]
               ELSE IF i # 0 /\ E(g, i).deps = "gcc" /\ Out0(g, i) = f THEN deps[f]
               ELSE [m |-> 0, l |-> <<>>]]
        /\ run' = [on |-> TRUE, T |-> T, j |-> j, k |-> k, F |-> F, miss |-> miss,
                   need |-> need,
                   in |-> [i \in 1..N(g) |-> IF i \in need THEN Inputs(g, i) ELSE {}],
                   hard |-> [i \in 1..N(g) |-> IF i \in need THEN Hard(g, i) ELSE {}],
                   own |-> {i \in need : OwnDirty(g, i)},
                   pd |-> {i \in need : PD(g, i)},
                   active |-> {}, ok |-> {}, bad |-> {},
                   chg |-> {}]
  /\ UNCHANGED <<world, clock, gi, src, mt, ct, fuzzy>>

Started == run.active \cup run.ok \cup run.bad

(* did file f change in this build (through aliases)?                       *)
RECURSIVE Changed(_, _)
Changed(g, f) ==
  LET i == Gen(g, f)
  IN IF i = 0 THEN FALSE
     ELSE IF E(g, i).phony
          THEN i \in run.own \/ \E x \in run.hard[i] : Changed(g, x)
          ELSE f \in run.chg

Lost(g, i) == \E f \in run.hard[i] : Gen(g, f) = 0 /\ mt[f] = 0

Must(g, i) == i \in run.own \/ \E f \in run.hard[i] : Changed(g, f)
May(g, i) == \/ Must(g, i)
             \/ fuzzy
             \/ i \in run.pd /\ \E f \in run.in[i] : Changed(g, f)

(* real edges whose completion edge i waits for, through aliases            *)
RECURSIVE Producers(_, _)
Producers(g, i) ==
  UNION {LET p == Gen(g, f)
         IN IF p = 0 THEN {} ELSE IF E(g, p).phony THEN Producers(g, p) ELSE {p}
        : f \in run.in[i]}
RECURSIVE AllProducers(_, _)
AllProducers(g, i) == LET P == Producers(g, i) IN P \cup UNION {AllProducers(g, p) : p \in P}

InPool(g, p) == {i \in run.active : E(g, i).pool = p}
Depth(g, p) == IF p = "console" THEN 1
               ELSE (CHOOSE q \in Range(Graphs[g].pools) : q.name = p).depth

\* requirements on the start of an edge, grouped by property
OrderOK(g, i) ==
  /\ i \in run.need /\ ~E(g, i).phony
  /\ i \notin Started                                       \* at most once
  /\ AllProducers(g, i) \cap run.active = {}
  /\ \A x \in Started : i \notin AllProducers(g, x)         \* not after a consumer
  /\ Cardinality(run.active) < run.j
  /\ E(g, i).pool # "" => Cardinality(InPool(g, E(g, i).pool)) < Depth(g, E(g, i).pool)

(* failed jobs which have not been collected yet occupy a slot; once k      *)
(* failures were collected nothing is started                               *)
FailOK(g, i) ==
  /\ AllProducers(g, i) \cap run.bad = {}
  /\ LET F == Cardinality(run.bad) c == Min2(F, run.k - 1)
     IN Cardinality(run.active) + (F - c) < run.j

MinOK(g, i) == May(g, i)

(* every producer that has to run has run                                   *)
MustBeforeOK(g, i) == \A p \in AllProducers(g, i) : Must(g, p) => p \in run.ok

Start(i) ==
  /\ run.on
  /\ "order" \in Aspects => OrderOK(gi, i)
  /\ "fail" \in Aspects => FailOK(gi, i)
  /\ "min" \in Aspects => MinOK(gi, i)
  /\ "must" \in Aspects => MustBeforeOK(gi, i)
  /\ run' = [run EXCEPT !.active = @ \cup {i}]
  /\ UNCHANGED <<world, clock, gi, src, mt, ct, blog, deps, fuzzy>>

ReadsMissing(g, i) == \E f \in Range(Reads(g, i)) : mt[f] = 0
WillFail(g, i) == E(g, i).id \in run.F \/ ReadsMissing(g, i)

EndOk(i) ==
  LET g == gi e == E(g, i)
      new(f) == Written(g, i, CHOOSE k \in DOMAIN e.outs : e.outs[k] = f, ct)
      wr == {f \in Outs(g, i) : ~e.restat \/ mt[f] = 0 \/ ct[f] # new(f)}
      nin == Max({Eff(g, f) : f \in run.hard[i]})
  IN /\ run.on /\ i \in run.active /\ ~WillFail(g, i)
     /\ Tick
     /\ mt' = [f \in Files |-> IF f \in wr THEN clock' ELSE mt[f]]
     /\ ct' = [f \in Files |-> IF f \in wr THEN new(f) ELSE ct[f]]
     /\ blog' = [f \in Files |->
                  IF f \notin Outs(g, i) THEN blog[f]
                  ELSE [m |-> IF f \in wr \/ nin = 0 THEN mt'[f] ELSE nin, h |-> Cmd(g, i)]]
     /\ deps' = IF e.deps = "" THEN deps
                ELSE [deps EXCEPT ![Out0(g, i)] = [m |-> mt'[Out0(g, i)], l |-> Incs(g, i)]]
     /\ run' = [run EXCEPT !.active = @ \ {i}, !.ok = @ \cup {i},
                           !.chg = @ \cup wr]
     /\ UNCHANGED <<world, gi, src, fuzzy>>

EndFail(i) ==
  /\ run.on /\ i \in run.active /\ WillFail(gi, i)
  /\ run' = [run EXCEPT !.active = @ \ {i}, !.bad = @ \cup {i}]
  /\ UNCHANGED <<world, clock, gi, src, mt, ct, blog, deps, fuzzy>>

ClosureFiles(g, need) == UNION {Outs(g, i) : i \in {x \in need : ~E(g, x).phony}}

(* After a successful build every requested output is what a clean build    *)
(* would have produced.                                                     *)
UpToDate(g, need) == \A f \in ClosureFiles(g, need) : ct[f] = Clean(g)[f]

Downstream(g, i) == AllProducers(g, i) \cap run.bad # {}

(* rc is the exit status the user sees                                      *)
Done(rc) ==
  LET g == gi F == Cardinality(run.bad) IN
  /\ run.on /\ run.active = {}
  /\ "fail" \in Aspects =>
       /\ (rc = 0) <=> (F = 0 /\ ~run.miss)
       /\ run.miss => Started = {}
       /\ (F > 0 /\ F < run.k) =>
            \A i \in run.need : ~E(g, i).phony /\ Must(g, i) /\ ~Downstream(g, i)
                                  => i \in run.ok \cup run.bad
  /\ "must" \in Aspects =>
       /\ (F = 0 /\ ~run.miss) => rc = 0
       /\ rc = 0 => /\ F = 0 /\ ~run.miss
                    /\ fuzzy => UpToDate(g, run.need)
                    /\ fuzzy \/ \A i \in run.need : ~E(g, i).phony /\ Must(g, i) => i \in run.ok
  /\ fuzzy' = (fuzzy /\ (rc # 0 \/ run.need # 1..N(g)))
  /\ run' = [on |-> FALSE]
  /\ UNCHANGED <<world, clock, gi, src, mt, ct, blog, deps>>

(* The executor is killed while commands run: they leave no output behind   *)
(* and the logs are in an unknown state.                                    *)
Kill ==
  /\ run.on
  /\ fuzzy' = TRUE
  /\ run' = [on |-> FALSE]
  /\ UNCHANGED <<world, clock, gi, src, mt, ct, blog, deps>>

KillKeep(S, D) ==
  /\ run.on /\ Keep(S, D)
  /\ run' = [on |-> FALSE]
  /\ UNCHANGED <<world, clock, gi, src, mt, ct, fuzzy>>

\* -------------------------------------------------------------- properties
(* Nothing is left to do once a build has succeeded.                        *)
NoWork(g, T) == ~MissingSrc(g, T) => \A i \in Need(g, T) : ~E(g, i).phony => ~PD(g, i)
=============================================================================
