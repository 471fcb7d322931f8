------------------------------ MODULE LangTrace ------------------------------
(* Every program was run by the real interpreter; the recorded output must  *)
(* be the one the specification prescribes, statement by statement.         *)
EXTENDS Lang, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tid, pc, st, ctl
vars == <<tid, pc, st, ctl>>
T == Traces[tid]

Init == /\ tid \in 1..Len(Traces) /\ pc = 1 /\ ctl = "norm"
        /\ st = Start(T.subs)

OutPrefix(o) == Len(o) <= Len(T.out) /\ \A i \in 1..Len(o) : o[i] = T.out[i]

Step == /\ ctl = "norm" /\ pc <= Len(T.main)
        /\ LET r == Exec(T.main[pc], st)
           IN /\ (T.verbose => PrintT(<<"AT", tid, pc, r.c, r.st.out>>))
              /\ OutPrefix(r.st.out)
              /\ st' = r.st /\ ctl' = r.c
        /\ pc' = pc + 1 /\ UNCHANGED tid

(* the program ended: normally, or with an error; a crash is neither        *)
End == /\ (ctl # "norm" \/ pc > Len(T.main)) /\ ctl # "over"
       /\ st.out = T.out
       /\ T.rc = (IF ctl = "err" THEN 1 ELSE 0)
       /\ ctl' = "over" /\ UNCHANGED <<tid, pc, st>>
       /\ PrintT(<<"ACCEPT", tid>>)

Next == Step \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
