---------------------------- MODULE CustomTrace ----------------------------
(* Recorded setups and builds of the real program against Custom. *)
EXTENDS Custom, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l,
          k   \* the commands of a build which have been looked at
vars == <<cvars, tid, l, k>>
T == Traces[tid]
Ev == T.events[l]
Is(e) == l <= Len(T.events) /\ Ev.ev = e
World(w) == [w EXCEPT !.files = Range(w.files), !.envkeys = Range(w.envkeys)]
FileOf(m) == [p \in DOMAIN m |-> [c |-> m[p], t |-> 1]]

Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ k = 0
        /\ W = <<>> /\ D = <<>> /\ file = FileOf(T.files) /\ last = <<>> /\ clock = 1 /\ mode = "new" /\ bld = Idle
Consume == /\ l' = l + 1 /\ k' = 0 /\ UNCHANGED tid
           /\ IF l = Len(T.events) THEN PrintT(<<"ACCEPT", tid>>) ELSE TRUE
Say(x) == IF T.verbose THEN PrintT(<<"AT", l, x>>) ELSE TRUE

(* the project is set up, or its files are changed, to be noticed by the next build *)
ConfEv ==
  /\ Is("conf") /\ LET w == TLCEval(World(Ev.world)) d == TLCEval(Derive(w)) IN
     /\ Say(<<"conf ok", Ok(d), [i \in DOMAIN d |-> <<i, d[i].ok>>]>>)
     /\ Configure(w, d)
     /\ Ev.rc # "" => Ev.rc = (IF Ok(d) THEN "0" ELSE "1")
  /\ Consume
EditEv == Is("edit") /\ Edit(Ev.p, Ev.c) /\ Consume
RmEv == Is("rm") /\ Remove(Ev.p) /\ Consume

BeginEv == Is("build") /\ k = 0 /\ Begin(Ev.targets) /\ k' = 1 /\ UNCHANGED <<tid, l>>
UnitOf(id) == {i \in Units : Real(i) /\ Id(i) = id}
RunEv ==
  /\ Is("build") /\ k > 0 /\ k <= Len(Ev.runs)
  /\ LET r == Ev.runs[k] us == UnitOf(r.id) IN
     /\ us = {} => Say(<<"unknown", r>>)
     /\ \E i \in us :
        /\ T.verbose => Say(<<"unit", Id(i), "can", CanRun(bld, bld.want, i), "wanted", i \in bld.want, "must", Must(bld, i), "right", Right(bld, i, r), "rec", r,
             "args", D[i].args, "env", D[i].env, "prog", D[i].prog, "reads", [n \in DOMAIN Reads(i) |-> Content(bld, Reads(i)[n])]>>)
        /\ Right(bld, i, r) = TRUE
        /\ Run(i, r.c, r.fail)
  /\ k' = k + 1 /\ UNCHANGED <<tid, l>>
EndEv ==
  /\ Is("build") /\ k > Len(Ev.runs)
  /\ Say(<<"want", {Id(i) : i \in {j \in bld.want : Real(j)}}, "failed", bld.failed, "rc", Ev.rc,
           "not done", {Id(i) : i \in {j \in bld.want : Real(j) /\ ~UpToDate(bld, j)}},
           "files", {<<p, Content(bld, p), Ev.files[p]>> : p \in {q \in DOMAIN Ev.files : Ev.files[q] # Content(bld, q)}}>>)
  /\ (Ev.rc = 0) = (bld.failed = {})
  /\ \A p \in DOMAIN Ev.files : Ev.files[p] = Content(bld, p)
  /\ End /\ Consume
Next == ConfEv \/ EditEv \/ RmEv \/ BeginEv \/ RunEv \/ EndEv
Spec == Init /\ [][Next]_vars
=============================================================================
