---------------------------- MODULE OptionsTrace ----------------------------
(* Recorded configurations and rebuilds of the real program against Options. *)
EXTENDS Options, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, stale, creads
vars == <<W, cvars, tid, l, stale, creads>>
T == Traces[tid]
Ev == T.events[l]
Is(k) == l <= Len(T.events) /\ Ev.ev = k

Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ stale = {} /\ creads = {}
        /\ W = T.world /\ val = <<>> /\ pend = <<>> /\ stack = <<>> /\ subs = <<>> /\ reads = {}
        /\ out = <<>> /\ mode = "idle"

Configures == Is("config") \/ (Is("build") /\ MustReconfigure(stale, creads))

(* one line of output; an error must show the message given for it *)
Same(a, b) == a.k = b.k /\ CASE a.k = "R" -> a.p = b.p /\ a.o = b.o /\ a.v = b.v
                             [] a.k = "U" -> a.f = b.f /\ a.v = b.v
                             [] a.k = "F" -> a.s = b.s /\ a.v = b.v
                             [] a.k = "E" -> a.m = "" \/ a.m \in Range(b.m)
OutPrefix(o) == Len(o) <= Len(Ev.out) /\ \A i \in Len(out)+1..Len(o) : Same(o[i], Ev.out[i])

Go == Configures /\ mode # "run" /\ Begin /\ UNCHANGED <<W, tid, l, stale, creads>>
Run == mode = "run" /\ Eval
       /\ (IF T.verbose THEN PrintT(<<"AT", tid, l, Len(out'), mode', IF out' = <<>> THEN "" ELSE out'[Len(out')]>>) ELSE TRUE)
       /\ OutPrefix(out') /\ UNCHANGED <<W, tid, l, stale, creads>>
Consume == /\ l' = l + 1 /\ UNCHANGED tid
           /\ IF l = Len(T.events) THEN PrintT(<<"ACCEPT", tid>>) ELSE TRUE
Finished ==
  /\ Configures /\ mode \in {"ok", "err"} /\ Len(out) = Len(Ev.out)
  /\ IF mode = "ok" THEN Ev.rc = 0 ELSE Ev.rc = 1
  /\ IF mode = "ok" THEN stale' = {} /\ creads' = reads ELSE UNCHANGED <<stale, creads>>
  /\ mode' = "idle" /\ out' = <<>>
  /\ UNCHANGED <<W, val, pend, stack, subs, reads>> /\ Consume
Nothing ==
  /\ Is("build") /\ ~Configures /\ mode = "idle" /\ Ev.out = <<>> /\ Ev.rc = 0
  /\ UNCHANGED <<W, cvars, stale, creads>> /\ Consume
Edit ==
  /\ Is("edit") /\ mode = "idle" /\ W' = Ev.world
  /\ stale' = stale \cup {<<f[1], f[2]>> : f \in Range(Ev.files)}
  /\ UNCHANGED <<cvars, creads>> /\ Consume
Next == Go \/ Run \/ Finished \/ Nothing \/ Edit
Spec == Init /\ [][Next]_vars
=============================================================================
