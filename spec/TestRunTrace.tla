---------------------------- MODULE TestRunTrace ----------------------------
(* Checks recorded runs of the real test runner against TestRun.            *)
EXTENDS TestRun, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, tt
T == Traces[tid]
Ev == T.events[l]
Is(k) == Ev.ev = k
Aspect(a) == \E i \in DOMAIN T.aspects : T.aspects[i] = a
X == <<Ev.p, Ev.i>>

Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ tt = <<>>
        /\ Init0(T.world, [j |-> 1])

EnvF(e) == [k \in {e[i][1] : i \in DOMAIN e} |-> e[CHOOSE i \in DOMAIN e : e[i][1] = k][2]]
(* what a test was started with *)
With == Aspect("select") =>
  /\ EnvOk(X, EnvF(Ev.env)) /\ Ev.args = Test(X).args /\ Ev.cwd = Test(X).wd

(* launches which must have happened for the next event *)
Need == IF Is("S") THEN {y \in unl : y = X \/ (X \in unl /\ y \in Before(X))
                                     \/ (Test(y).out = "nostart" /\ y[1] = X[1] /\ Test(y).prio >= Test(X).prio)}
        ELSE IF Is("done") THEN LET n == {y \in unl : Test(y).out = "nostart"} IN
             \* the runner may have ended before an abandoned test had begun
             n \cup (IF cmd.f /\ Dev("fail-fast") THEN UNION {Before(y) : y \in n} ELSE {})
        ELSE {}
Hidden ==
  /\ UNCHANGED <<tid, l, tt>>
  /\ \/ Aspect("sched") /\ \E y \in Need : Launch(y)
     \/ /\ ~Aspect("sched")
        /\ \E y \in Need : /\ Test(y).out = "nostart"
                           /\ unl' = unl \ {y} /\ occ' = occ \cup {y}
        /\ UNCHANGED <<world, cmd, seen, ended, t0, verd, phase>>
     \/ \E y \in occ \ ended : NoStart(y)

Late(x) == Tmo(x) > 0 /\ Ev.ms - t0[x] >= Tmo(x) + 2000
Label(x) == Test(x).label
Results ==
  \A L \in {Label(x) : x \in ended} \cup {Ev.results[i][1] : i \in DOMAIN Ev.results} :
    LET xs == {x \in ended : Label(x) = L}
        rs == {i \in DOMAIN Ev.results : Ev.results[i][1] = L}
    IN /\ Cardinality(xs) = Cardinality(rs) \/ (Abandons /\ Cardinality(rs) <= Cardinality(xs \cup {x \in seen : Label(x) = L}))
       /\ Abandons \/ \A v \in {Ev.results[i][2] : i \in rs} \cup UNION {verd[x] : x \in xs} :
            LET c == Cardinality({i \in rs : Ev.results[i][2] = v}) IN
            /\ Cardinality({x \in xs : verd[x] = {v}}) <= c
            /\ c <= Cardinality({x \in xs : v \in verd[x]})
Reported(c) == Cardinality({i \in DOMAIN Ev.results : Ev.results[i][2] \in c})
Summary ==
  /\ Results
  /\ Ev.fail = Reported(Bad) /\ Ev.total = Len(Ev.results) /\ Ev.skip = Reported({"skip"})
  /\ BadSetup \/ ((Ev.rc # 0) <=> (Ev.fail > 0))

ListedAs(p) == IF Dev("stale-project") THEN StaleStart' ELSE Projects[p].name
Listed(p) == SelectSeq(Ev.lines, LAMBDA q : q[1] = Projects[p].name)
RECURSIVE Descending(_, _)
PrioOf(p, lab) == {Test(x).prio : x \in {y \in Selected' : y[1] = p /\ Label(y) = lab}}
Descending(p, s) == IF Len(s) < 2 THEN TRUE
                    ELSE (\E a \in PrioOf(p, s[1][2]), b \in PrioOf(p, s[2][2]) : a >= b) /\ Descending(p, Tail(s))
List ==
  /\ phase = "idle" /\ cmd' = Ev.cmd /\ UNCHANGED <<world, unl, occ, seen, ended, t0, verd, phase>>
  /\ IF BadSetup' THEN Ev.rc # 0
     ELSE /\ Ev.rc = 0
          /\ Len(Ev.lines) = Cardinality(Selected')
          /\ \A x \in Selected' :
               Cardinality({i \in DOMAIN Ev.lines : Ev.lines[i] = <<ListedAs(x[1]), Label(x)>>})
               = Cardinality({y \in Selected' : ListedAs(y[1]) = ListedAs(x[1]) /\ Label(y) = Label(x)})
          /\ Dev("stale-project") \/ \A p \in DOMAIN Projects : Descending(p, Listed(p))

DoS ==
  /\ With
  /\ UNCHANGED tt
  /\ IF Aspect("sched") THEN Start(X, Ev.ms)
     ELSE /\ X \in unl /\ unl' = unl \ {X} /\ occ' = occ \cup {X}
          /\ seen' = seen \cup {X} /\ t0' = t0 @@ (X :> Ev.ms)
          /\ UNCHANGED <<world, cmd, ended, verd, phase>>
DoE == IF X \in DOMAIN tt
       THEN (Aspect("sched") => Ev.ms - tt[X] < 2500) /\ UNCHANGED <<vars, tt>>
       ELSE (Aspect("sched") => ~Late(X)) /\ End(X, Ev.ms) /\ UNCHANGED tt
DoT == (Aspect("sched") => Ev.ms - t0[X] >= Tmo(X) - 400) /\ Expire(X, Ev.ms) /\ tt' = tt @@ (X :> Ev.ms)
DoDone ==
  /\ phase = "run"
  /\ UNCHANGED tt
  /\ (Aspect("sched") => seen \subseteq ended \/ Abandons)
  /\ (Aspect("verdict") => Summary)
  /\ IF Aspect("verdict") THEN Done(Ev.rc)
     ELSE /\ (unl = {} \/ (cmd.f /\ MayStop))
          /\ (BadSetup => Ev.rc # 0)
          /\ phase' = "over"
          /\ UNCHANGED <<world, cmd, unl, occ, seen, ended, t0, verd>>
Step ==
  \/ Is("list") /\ List /\ UNCHANGED tt
  \/ Is("begin") /\ Begin(Ev.cmd) /\ tt' = <<>>
  \/ Is("S") /\ DoS
  \/ Is("E") /\ DoE
  \/ Is("T") /\ DoT
  \/ Is("done") /\ DoDone
  \/ Is("again") /\ Again /\ UNCHANGED tt

Next ==
  \/ l <= Len(T.events) /\ Hidden
  \/ /\ l <= Len(T.events) /\ Step
     /\ l' = l + 1 /\ UNCHANGED tid
     /\ IF Aspect("verbose") THEN PrintT(<<"AT", tid, l>>) ELSE TRUE
     /\ IF l = Len(T.events) THEN PrintT(<<"ACCEPT", tid>>) ELSE TRUE
Spec == Init /\ [][Next]_<<vars, tid, l, tt>>
=============================================================================
