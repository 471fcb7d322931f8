------------------------------ MODULE NinjaMC ------------------------------
(* Exhaustive exploration of the build executor for small manifests.        *)
EXTENDS Ninja

CONSTANTS MaxUser,    \* number of user actions (edits, touches, ...) in all
          MaxBuild,   \* number of builds
          Which       \* index into GraphSets

VARIABLES nu, nb, last
mcvars == <<vars, nu, nb, last>>

e0 == [id |-> "", outs |-> <<>>, ins |-> <<>>, imp |-> <<>>, oo |-> <<>>, ver |-> 0,
       restat |-> FALSE, generator |-> FALSE, deps |-> "", pool |-> "",
       phony |-> FALSE, coarse |-> FALSE, blind |-> FALSE]
ed(i, o, n) == [e0 EXCEPT !.id = i, !.outs = o, !.ins = n]

(* 1: a chain with a restat head, a compile with generated and plain headers*)
GA == <<[ed("a", <<"h">>, <<"s">>) EXCEPT !.restat = TRUE, !.coarse = TRUE],
        [ed("b", <<"o">>, <<"c">>) EXCEPT !.deps = "gcc", !.oo = <<"h">>],
        [ed("l", <<"p">>, <<"o">>) EXCEPT !.imp = <<"h">>]>>
GAv == [GA EXCEPT ![2].ver = 1]
(* 2: diamond with two outputs, an alias and a pool                         *)
GB == <<[ed("a", <<"x", "y">>, <<"s">>) EXCEPT !.pool = "one"],
        [ed("P", <<"al">>, <<"x">>) EXCEPT !.phony = TRUE],
        [ed("b", <<"o">>, <<"y">>) EXCEPT !.pool = "one"],
        [ed("c", <<"q">>, <<"c">>) EXCEPT !.imp = <<"al">>]>>
GBv == [GB EXCEPT ![1].ver = 1]
(* 3: generator edge, depfile without deps log, order-only edge             *)
GC == <<[ed("a", <<"h">>, <<"s">>) EXCEPT !.generator = TRUE],
        [ed("b", <<"o">>, <<"c">>) EXCEPT !.deps = "file", !.oo = <<"h">>],
        [ed("l", <<"p">>, <<"o">>) EXCEPT !.restat = TRUE, !.coarse = TRUE, !.imp = <<"c">>]>>
GCv == [GC EXCEPT ![3].ver = 1, ![1].ver = 1]

Set(W) == CASE W = 1 -> <<GA, GAv>> [] W = 2 -> <<GB, GBv>> [] W = 3 -> <<GC, GCv>>
MCGraphs == [i \in 1..2 |-> [edges |-> Set(Which)[i],
                             pools |-> <<[name |-> "one", depth |-> 1]>>]]
Srcs == IF Which = 2 THEN {"s", "c"} ELSE {"s", "c"}
MCFiles == Srcs \cup UNION {Range(Set(Which)[1][i].outs) : i \in DOMAIN Set(Which)[1]}
Sinks == IF Which = 2 THEN {"o", "q"} ELSE {"p"}
Targets == {Sinks, {IF Which = 2 THEN "o" ELSE "o"}}
Incl == IF Which = 2 THEN {<<>>} ELSE {<<>>, <<"h">>, <<"s">>}

Init ==
  /\ world = [graphs |-> MCGraphs, files |-> MCFiles, aspects |-> {"order", "fail", "min", "must"}]
  /\ clock = 1 /\ gi = 1
  /\ src = [f \in MCFiles |-> [c |-> 0, f |-> 0, inc |-> IF f = "c" /\ Which # 2 THEN <<"h">> ELSE <<>>]]
  /\ mt = [f \in MCFiles |-> IF f \in Srcs THEN 1 ELSE 0]
  /\ ct = [f \in MCFiles |-> IF f \in Srcs THEN SrcText(f, src[f]) ELSE ""]
  /\ blog = [f \in MCFiles |-> [m |-> 0, h |-> <<>>]]
  /\ deps = [f \in MCFiles |-> [m |-> 0, l |-> <<>>]]
  /\ fuzzy = FALSE /\ run = [on |-> FALSE]
  /\ nu = 0 /\ nb = 0 /\ last = [ok |-> FALSE, T |-> {}]

(* which records survive: all, none, or those of one side of the graph      *)
Subs == {{}, MCFiles} \cup {{f} : f \in UNION {Outs(gi, i) : i \in 1..N(gi)}}

User ==
  /\ nu < MaxUser /\ nu' = nu + 1 /\ last' = [ok |-> FALSE, T |-> {}] /\ UNCHANGED nb
  /\ \/ \E f \in Srcs :
          \/ Edit(f, [src[f] EXCEPT !.c = @ + 1])
          \/ Edit(f, [src[f] EXCEPT !.f = @ + 1])
     \/ \E l \in Incl : l # src["c"].inc /\ Edit("c", [src["c"] EXCEPT !.inc = l])
     \* touching the output of a "generator" command vouches for it, so only
     \* sources and ordinary outputs are touched
     \/ \E f \in MCFiles : (IF Gen(gi, f) = 0 THEN TRUE ELSE ~E(gi, Gen(gi, f)).generator) /\ Touch(f)
     \/ \E f \in MCFiles : Delete(f)
     \/ Switch(3 - gi)
     \/ blog # [f \in MCFiles |-> [m |-> 0, h |-> <<>>]] /\ \E S, D \in Subs : Lose(S, D)

JK == {<<2, 1>>, <<2, 2>>}
Failing == {{}} \cup {{E(gi, i).id} : i \in 1..N(gi)}

(* The exhaustive model resolves the liberties trace checking leaves open:  *)
(* an edge starts only when its producers are settled.                      *)
Settled(i) == \A p \in AllProducers(gi, i) : Must(gi, p) => p \in run.ok

Build ==
  \/ /\ nb < MaxBuild /\ nb' = nb + 1 /\ UNCHANGED <<nu, last>>
     /\ \E T \in Targets, jk \in JK, F \in Failing : Begin(T, jk[1], jk[2], F)
  \/ /\ UNCHANGED <<nu, nb, last>>
     /\ run.on
     /\ \E i \in run.need : Settled(i) /\ Start(i)
  \/ /\ UNCHANGED <<nu, nb, last>>
     /\ run.on /\ \E i \in run.active : EndOk(i) \/ EndFail(i)
  \/ /\ run.on /\ UNCHANGED <<nu, nb>>
     /\ \E rc \in 0..1 : Done(rc) /\ last' = [ok |-> (rc = 0), T |-> run.T]
  \/ /\ \E S \in {{}, MCFiles} : KillKeep(S, S) /\ UNCHANGED <<nu, nb>> /\ last' = [ok |-> FALSE, T |-> {}]

Next == User \/ Build
Spec == Init /\ [][Next]_mcvars

NoTamper == TRUE
(* P: correctness of a successful build, with no log loss involved          *)
Correct == (last.ok /\ Idle /\ ~fuzzy) => UpToDate(gi, Need(gi, last.T))
Nothing == (last.ok /\ Idle /\ ~fuzzy) => NoWork(gi, last.T)
Parallel == run.on => /\ Cardinality(run.active) <= run.j
                      /\ Cardinality(InPool(gi, "one")) <= 1
Ordered == run.on => \A i \in Started : AllProducers(gi, i) \cap (run.active \cup run.bad) = {}
(* a build can always finish (no deadlock of the executor)                  *)
CanFinish == (run.on /\ run.active = {}) =>
   (\/ \E i \in run.need : Settled(i) /\ OrderOK(gi, i) /\ FailOK(gi, i) /\ MinOK(gi, i)
    \/ LET F == Cardinality(run.bad)
       IN F > 0 \/ run.miss \/ fuzzy
          \/ \A i \in run.need : ~E(gi, i).phony /\ Must(gi, i) => i \in run.ok)
=============================================================================
