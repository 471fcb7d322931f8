---------------------------- MODULE InstallTrace ----------------------------
(* Recorded installations of the real program against Install. *)
EXTENDS Install, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
vars == <<ivars, tid, l>>
T == Traces[tid]
Ev == T.events[l]
Is(k) == l <= Len(T.events) /\ Ev.ev = k

Init == /\ tid \in 1..Len(Traces) /\ l = 1
        /\ W = T.world /\ src = T.src /\ fs = T.fs /\ ran = <<>> /\ mode = "new"
Consume == /\ l' = l + 1 /\ UNCHANGED tid
           /\ IF l = Len(T.events) THEN PrintT(<<"ACCEPT", tid>>) ELSE TRUE

Same(a, b) == /\ DOMAIN a = DOMAIN b
              /\ \A p \in DOMAIN a : a[p].t = b[p].t /\ a[p].c = b[p].c /\ (a[p].m = <<>> \/ a[p].m = b[p].m)
Diff(a, b) == {p \in DOMAIN a \cup DOMAIN b :
                ~(p \in DOMAIN a /\ p \in DOMAIN b /\ a[p].t = b[p].t /\ a[p].c = b[p].c /\ (a[p].m = <<>> \/ a[p].m = b[p].m))}
At(a, p) == IF p \in DOMAIN a THEN a[p] ELSE <<>>
Show(r) == IF T.verbose
           THEN /\ PrintT(<<"AT", l, "want ok", r.ok, "sure", r.sure, "rc", Ev.rc, "ran", r.ran, Ev.ran,
                            "fs", {<<p, At(r.fs, p), At(Ev.fs, p)>> : p \in Diff(r.fs, Ev.fs)}>>)
           ELSE TRUE
SetupEv ==
  /\ Is("setup") /\ mode = "new" /\ mode' = (IF SetupOk THEN "ok" ELSE "bad")
  /\ (IF T.verbose THEN PrintT(<<"AT", l, "setup", SetupOk, Ev.rc>>) ELSE TRUE)
  /\ Ev.rc = (IF SetupOk THEN 0 ELSE 1)
  /\ src' = Ev.src /\ UNCHANGED <<W, fs, ran>> /\ Consume
(* builds and edits of the sources are inputs *)
SrcEv == Is("src") /\ mode = "ok" /\ src' = Ev.src /\ UNCHANGED <<W, fs, ran, mode>> /\ Consume
FsEv == Is("fs") /\ mode = "ok" /\ fs' = Ev.fs /\ UNCHANGED <<W, src, ran, mode>> /\ Consume
Outside(f, dd) == {p \in DOMAIN f : dd # "" /\ ~(p = dd \/ IsUnder(dd, p) \/ IsUnder(p, dd))}
InstallEv ==
  /\ Is("install") /\ mode = "ok"
  /\ LET r == Result(Ev.destdir, Ev.dry) IN
     /\ Show(r) /\ Ev.same
     /\ Ev.rc = (IF r.ok THEN 0 ELSE 1)
     /\ r.ran = Ev.ran
     /\ IF r.sure THEN Same(r.fs, Ev.fs)
        ELSE /\ Outside(fs, Ev.destdir) = Outside(Ev.fs, Ev.destdir)
             /\ \A p \in Outside(fs, Ev.destdir) : fs[p] = Ev.fs[p]
     /\ fs' = Ev.fs /\ ran' = r.ran
  /\ UNCHANGED <<W, src, mode>> /\ Consume
Next == SetupEv \/ SrcEv \/ FsEv \/ InstallEv
Spec == Init /\ [][Next]_vars
=============================================================================
