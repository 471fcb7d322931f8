------------------------------ MODULE CustomMC ------------------------------
(* All histories of edits, removals, changed declarations and builds of a few *)
(* small projects: what a successful build leaves is what building everything *)
(* from nothing would, and it leaves nothing to do.                           *)
EXTENDS Custom

CONSTANTS MaxClock
VARIABLES wid,   \* which project
          good   \* the units the last build, if it succeeded, was asked for
S(p) == [t |-> "s", p |-> p, u |-> 0, i |-> 0]
A(u) == [t |-> "a", p |-> "", u |-> u, i |-> 0]
Str(v) == [t |-> "s", v |-> v, p |-> "", u |-> 0]
U0 == [id |-> "", k |-> "custom", name |-> "", proj |-> "", cwd |-> "/s", bcwd |-> "/b", dir |-> "/b", gdir |-> "", ins |-> <<>>, outs |-> <<>>,
       prog |-> [t |-> "g", p |-> "", u |-> 0, i |-> 0], cmd |-> <<>>, env |-> <<>>, deps |-> <<>>, depfile |-> "", dyn |-> <<>>, reads |-> <<>>,
       capture |-> FALSE, feed |-> FALSE, console |-> FALSE, keep |-> FALSE, stale |-> FALSE, default |-> TRUE, extra |-> <<>>, units |-> <<>>]
Unit(id, ins, reads) == [U0 EXCEPT !.id = id, !.name = id, !.ins = ins, !.reads = reads, !.outs = <<id \o ".o">>, !.cmd = <<Str("@INPUT@"), Str("v0")>>]
X == "/s/x"  Y == "/s/y"  O(id) == "/b/" \o id \o ".o"
Us == <<
  \* a chain, the first of which leaves equal output alone
  << [Unit("a", <<S(X)>>, <<X>>) EXCEPT !.keep = TRUE], Unit("c", <<A(1)>>, <<O("a")>>), [Unit("d", <<A(2)>>, <<O("c")>>) EXCEPT !.default = FALSE] >>,
  \* a dependency which is found while running, one which is not an input, and a command which always runs
  << [Unit("a", <<S(X)>>, <<X, Y>>) EXCEPT !.depfile = "a.d", !.dyn = <<Y>>],
     [Unit("c", <<S(X)>>, <<X, O("a")>>) EXCEPT !.deps = <<A(1)>>],
     [Unit("d", <<A(2)>>, <<O("c")>>) EXCEPT !.stale = TRUE, !.keep = TRUE] >>,
  \* a tool which is built, the files of an alias, and a run target
  << Unit("a", <<S(X)>>, <<X>>), [Unit("c", <<S(Y)>>, <<Y, O("a")>>) EXCEPT !.prog = A(1), !.default = FALSE],
     [U0 EXCEPT !.id = "al", !.k = "alias", !.name = "al", !.units = <<2>>],
     [U0 EXCEPT !.id = "r", !.k = "run", !.name = "r", !.cmd = <<[t |-> "u", v |-> "", p |-> "", u |-> 2]>>, !.reads = <<O("c")>>, !.default = FALSE] >> >>
World(n, v) == [src |-> "/s", bdir |-> "/b", files |-> {X, Y}, envkeys |-> {}, outer |-> <<>>,
                units |-> [Us[n] EXCEPT ![2].cmd = <<@[1], Str(v)>>]]
Targets == { <<>>, <<"d.o">>, <<"al">>, <<"r">> }

(* what a command writes: a cannot tell the contents 0 and 1 of X apart if it *)
(* leaves equal output alone                                                   *)
Out(i, read(_)) == LET u == W.units[i]
                       v(p) == IF u.id = "a" /\ u.keep /\ p = X /\ read(p) = "1" THEN "0" ELSE read(p)
                       a == IF u.cmd = <<>> \/ u.cmd[Len(u.cmd)].t # "s" THEN "" ELSE u.cmd[Len(u.cmd)].v
                   IN u.id \o a \o "(" \o JoinSeq([n \in DOMAIN u.reads |-> v(u.reads[n])], ",") \o ")"
Made(st, i) == Out(i, LAMBDA p : Content(st, p))
(* from nothing *)
RECURSIVE Anew(_)
Anew(p) == IF p \in {X, Y} THEN file[p].c
            ELSE LET i == CHOOSE j \in Units : p \in Range(D[j].outs) u == W.units[i]
                     v(q) == IF u.id = "a" /\ u.keep /\ q = X /\ Anew(q) = "1" THEN "0" ELSE Anew(q)
                     a == IF u.cmd = <<>> \/ u.cmd[Len(u.cmd)].t # "s" THEN "" ELSE u.cmd[Len(u.cmd)].v
                 IN u.id \o a \o "(" \o JoinSeq([n \in DOMAIN u.reads |-> v(u.reads[n])], ",") \o ")"

Init == /\ wid \in DOMAIN Us /\ W = World(wid, "v0") /\ D = Derive(W) /\ mode = "ok"
        /\ file = (X :> [c |-> "0", t |-> 1]) @@ (Y :> [c |-> "0", t |-> 1]) /\ last = <<>> /\ clock = 1 /\ bld = Idle /\ good = {}
Change == ~bld.on /\ clock < MaxClock /\ good' = {} /\ UNCHANGED wid
MEdit == Change /\ \E p \in {X, Y}, c \in {"0", "1"} : Edit(p, c)
MRemove == Change /\ \E p \in DOMAIN file \ {X, Y} : Remove(p)
MConf == Change /\ \E v \in {"v0", "v1"} : v # W.units[2].cmd[Len(W.units[2].cmd)].v /\ Configure(World(wid, v), Derive(World(wid, v)))
MBegin == clock < MaxClock /\ \E ts \in Targets : (\A n \in DOMAIN ts : Named(ts[n]) # {}) /\ Begin(ts) /\ UNCHANGED <<wid, good>>
MRun == bld.on /\ \E i \in Units, f \in BOOLEAN : Real(i) /\ Run(i, Made(bld, i), f) /\ UNCHANGED <<wid, good>>
MEnd == bld.on /\ End /\ good' = (IF bld.failed = {} THEN bld.want ELSE {}) /\ UNCHANGED wid
Next == MEdit \/ MRemove \/ MConf \/ MBegin \/ MRun \/ MEnd
Spec == Init /\ [][Next]_<<cvars, wid, good>>

Now == [file |-> file, last |-> last, ran |-> {}, failed |-> {}]
Fresh == ~bld.on => \A i \in good : Real(i) => \A n \in DOMAIN D[i].outs : D[i].outs[n] \in DOMAIN file /\ file[D[i].outs[n]].c = Anew(D[i].outs[n])
Idem == ~bld.on => \A i \in good : Real(i) /\ ~Always(i) =>
          (Must(Now, i) => \E j \in D[i].below : Real(j) /\ Always(j))
(* a build can always go on to its end *)
Live == bld.on /\ bld.failed = {} /\ ~Complete(bld) => \E i \in bld.want : CanRun(bld, bld.want, i)
(* nothing has run before what it needs *)
Order == bld.on => \A i \in bld.ran \ bld.failed : \A j \in D[i].below : Real(j) => UpToDate(bld, j) /\ j \notin bld.failed
=============================================================================
