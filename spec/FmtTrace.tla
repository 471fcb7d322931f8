------------------------------ MODULE FmtTrace ------------------------------
(* Recorded runs of the formatter against Fmt. *)
EXTENDS Fmt, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, i
vars == <<fvars, tid, l, i>>
T == Traces[tid]
Ev == T.events[l]
C(c) == T.contents[c]
Say(x) == IF T.verbose THEN PrintT(<<"AT", l, x>>) ELSE TRUE
FilesOf(ps) == [n \in {ps[j][1] : j \in 1..Len(ps)} |-> (CHOOSE j \in 1..Len(ps) : ps[j][1] = n /\ TRUE)]
AsFun(ps) == LET f == FilesOf(ps) IN [n \in DOMAIN f |-> ps[f[n]][2]]
Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ i = 1
        /\ file = AsFun(T.files) /\ ro = {T.ro[j] : j \in 1..Len(T.ro)} /\ F = <<>> /\ run = Idle
Usable(cfg, c) == c # 0 /\ C(c).good /\ T.cfgs[cfg].good
Right(cfg, c, r) ==
  /\ Say(<<"content", c, r, cfg, "same program", Keeps(C(c).toks, C(r).toks), "comments", Norm(C(c).toks).com, Norm(C(r).toks).com,
           "style", Style(T.cfgs[cfg], C(r).toks)>>)
  /\ Keeps(C(c).toks, C(r).toks) = TRUE
  /\ Style(T.cfgs[cfg], C(r).toks) = ""
Begin == /\ l <= Len(T.events) /\ ~run.on
         /\ Start(Ev.mode, Ev.cfg, Ev.files) /\ i' = 1 /\ UNCHANGED <<tid, l>>
FailStep == Fail(Usable) /\ i' = i + 1 /\ UNCHANGED <<tid, l>>
DoneStep == /\ run.on /\ i <= Len(Ev.files)
            /\ LET r == Ev.hints[i] c == file[Cur] IN
               /\ r # 0
               /\ \/ <<run.cfg, c>> \in DOMAIN F
                  \/ Right(run.cfg, c, r) = TRUE
               /\ Done(Usable, r)
            /\ i' = i + 1 /\ UNCHANGED <<tid, l>>
RECURSIVE Cat(_)
Cat(cs) == IF cs = <<>> THEN "" ELSE C(Head(cs)).text \o Cat(Tail(cs))
Finish == /\ run.on /\ run.todo = <<>>
          /\ Say(<<"expected", run, file, "observed", Ev.rc, Ev.after>>)
          /\ Ev.rc = (IF run.bad THEN 1 ELSE 0)
          /\ Ev.out = Cat(run.res)
          /\ AsFun(Ev.after) = file
          /\ End
          /\ l' = l + 1 /\ UNCHANGED <<tid, i>>
          /\ IF l = Len(T.events) THEN PrintT(<<"ACCEPT", tid>>) ELSE TRUE
Next == Begin \/ FailStep \/ DoneStep \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
