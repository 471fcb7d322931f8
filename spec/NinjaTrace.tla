----------------------------- MODULE NinjaTrace -----------------------------
(* Checks recorded executions of the real build executor against Ninja.     *)
EXTENDS Ninja, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l
T == Traces[tid]
Ev == T.events[l]

Init ==
  /\ tid \in 1..Len(Traces) /\ l = 1
  /\ world = [graphs |-> T.graphs, files |-> Range(T.files), aspects |-> Range(T.aspects)]
  /\ clock = 0 /\ gi = 1
  /\ src = [f \in Files |-> [c |-> 0, f |-> 0, inc |-> <<>>]]
  /\ mt = [f \in Files |-> 0]
  /\ ct = [f \in Files |-> ""]
  /\ blog = [f \in Files |-> [m |-> 0, h |-> <<>>]]
  /\ deps = [f \in Files |-> [m |-> 0, l |-> <<>>]]
  /\ fuzzy = FALSE /\ run = [on |-> FALSE]

EIdx(id) == CHOOSE i \in 1..N(gi) : E(gi, i).id = id
Is(k) == Ev.ev = k
Obs(f) == LET S == {i \in DOMAIN Ev.files : Ev.files[i][1] = f}
          IN IF S = {} THEN "" ELSE Ev.files[CHOOSE i \in S : TRUE][2]

DoKill ==
  /\ run.on /\ Tick
  /\ fuzzy' = TRUE
  /\ ct' = [f \in Files |-> IF IsSrc(gi, f) THEN ct[f] ELSE Obs(f)]
  /\ mt' = [f \in Files |-> IF IsSrc(gi, f) THEN mt[f]
                           ELSE IF Obs(f) = "" THEN 0
                           ELSE IF Obs(f) # ct[f] THEN clock' ELSE mt[f]]
  /\ run' = [on |-> FALSE]
  /\ UNCHANGED <<world, gi, src, blog, deps>>

Step ==
  \/ Is("edit") /\ Edit(Ev.f, [c |-> Ev.c, f |-> Ev.v, inc |-> Ev.inc])
  \/ Is("touch") /\ Touch(Ev.f)
  \/ Is("rm") /\ Delete(Ev.f)
  \/ Is("switch") /\ Switch(Ev.g)
  \/ Is("lose") /\ LoseLogs
  \/ Is("begin") /\ Begin(Range(Ev.t), Ev.j, Ev.k, Range(Ev.fail))
  \/ Is("S") /\ Start(EIdx(Ev.id))
  \/ Is("E") /\ (IF Ev.rc = 0 THEN EndOk(EIdx(Ev.id)) ELSE EndFail(EIdx(Ev.id)))
  \/ Is("done") /\ Done(Ev.rc)
               /\ IF "must" \in Aspects /\ Ev.rc = 0
                  THEN LET cl == Clean(gi)
                       IN \A f \in ClosureFiles(gi, run.need) : Obs(f) = cl[f] /\ ct[f] = cl[f]
                  ELSE TRUE
  \/ Is("kill") /\ DoKill

Next ==
  /\ l <= Len(T.events)
  /\ Step
  /\ l' = l + 1 /\ UNCHANGED tid
  /\ IF "verbose" \in Aspects THEN PrintT(<<"AT", tid, l>>) ELSE TRUE
  /\ IF l = Len(T.events) THEN PrintT(<<"ACCEPT", tid>>) ELSE TRUE
Spec == Init /\ [][Next]_<<vars, tid, l>>
=============================================================================
