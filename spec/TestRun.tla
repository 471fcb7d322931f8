------------------------------ MODULE TestRun ------------------------------
(* The test runner: which tests a command line selects, how they are        *)
(* scheduled, what each is run with, what its verdict is, and the exit      *)
(* status of the runner.                                                    *)
(*                                                                          *)
(* world: [projects |-> << [name, tests, setups] >>, penv |-> process env,  *)
(*   dev |-> known deviations of the program (known_findings.json) which a  *)
(*   behaviour may show; none: the intended behaviour]                      *)
(* A test: [name (characters), label, suites, prio, par, tmo (s), sf, tap,  *)
(*  lines, cat, out, n, env, wd, args]                                      *)
(* cmd: [j, f, suites, names, setup, cat]                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
  world,    \* what the build files declare
  cmd,      \* the command line
  unl,      \* selected tests not launched yet
  occ,      \* launched tests which occupy a job slot
  seen,     \* launched tests whose process has been seen
  ended,    \* tests whose process ended or was told to
  t0,       \* when a test was seen first
  verd,     \* verdicts: function from ended tests to sets of possible verdicts
  phase     \* "idle", "run", "over"
vars == <<world, cmd, unl, occ, seen, ended, t0, verd, phase>>

Range(s) == {s[i] : i \in DOMAIN s}
Dev(d) == d \in Range(world.dev)
Projects == world.projects
Main == 1
Ids == UNION {{<<p, i>> : i \in DOMAIN Projects[p].tests} : p \in DOMAIN Projects}
Test(x) == Projects[x[1]].tests[x[2]]

(* ------------------------------------------------------------ selection *)
RECURSIVE Glob(_, _)
Glob(pat, s) ==
  IF pat = <<>> THEN s = <<>>
  ELSE IF Head(pat) = "*" THEN Glob(Tail(pat), s) \/ (s # <<>> /\ Glob(pat, Tail(s)))
  ELSE s # <<>> /\ Head(s) = Head(pat) /\ Glob(Tail(pat), Tail(s))

(* a name given on the command line or in exclude_suites, as [proj, name]:
   without a project it refers to the main project *)
Names(q, p, name) ==
  /\ IF q.proj = "" THEN p = Main ELSE q.proj = Projects[p].name
  /\ q.name = name

Setups == UNION {{<<p, i>> : i \in DOMAIN Projects[p].setups} : p \in DOMAIN Projects}
SetupOf(x) == Projects[x[1]].setups[x[2]]
Chosen == {x \in Setups : IF cmd.setup.name = "" THEN SetupOf(x).default
                          ELSE Names(cmd.setup, x[1], SetupOf(x).name)}
NoSetup == [name |-> "", env |-> <<>>, exclude |-> <<>>, mult |-> 1, default |-> FALSE, wrap |-> ""]
Setup == IF Chosen = {} THEN NoSetup ELSE SetupOf(CHOOSE x \in Chosen : TRUE)
BadSetup == cmd.setup.name # "" /\ Chosen = {}

(* names are resolved for a project, that is its name and whether it is the  *)
(* main one: as = [name, main]                                               *)
As(p) == [name |-> Projects[p].name, main |-> p = Main]
Refers(q, as, name) == (IF q.proj = "" THEN as.main ELSE q.proj = as.name) /\ q.name = name
InSuites(x, as) ==
  LET t == Test(x) IN
  IF cmd.suites # <<>> THEN \E q \in Range(cmd.suites), s \in Range(t.suites) : Refers(q, as, s)
  ELSE ~ \E q \in Range(Setup.exclude), s \in Range(t.suites) : Refers(q, as, s)
Named(x, as) ==
  cmd.names = <<>> \/ \E q \in Range(cmd.names) :
    /\ q.proj \in {"", as.name}
    /\ q.name = <<>> \/ Glob(q.name, Test(x).name)
SelectedIn(p, as) == {x \in Ids : x[1] = p /\ Test(x).cat = cmd.cat /\ InSuites(x, as) /\ Named(x, as)}
(* deviation "stale-project": the names are resolved for the project of the  *)
(* test setup or else the last one until a project with selected tests has   *)
(* run, and then for that one; the first of these projects is the main one   *)
Written == SelectSeq([p \in DOMAIN Projects |-> p],
                     LAMBDA p : p = Main \/ Projects[p].tests # <<>> \/ Projects[p].setups # <<>>)
StaleStart == IF Chosen # {} THEN Projects[(CHOOSE x \in Chosen : TRUE)[1]].name ELSE Projects[Written[Len(Written)]].name
RECURSIVE StaleFrom(_, _)
StaleFrom(ps, as) ==
  IF ps = <<>> THEN {}
  ELSE LET s == SelectedIn(Head(ps), as)
       IN s \cup StaleFrom(Tail(ps), IF s = {} \/ cmd.list THEN as ELSE [name |-> Projects[Head(ps)].name, main |-> FALSE])
Selected == IF Dev("stale-project") THEN StaleFrom(Written, [name |-> StaleStart, main |-> TRUE])
            ELSE UNION {SelectedIn(p, As(p)) : p \in DOMAIN Projects}

(* ---------------------------------------------------------- environment *)
RECURSIVE Join(_, _)
Join(s, sep) == IF Len(s) = 0 THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o sep \o Join(Tail(s), sep)
(* env functions: from names to values *)
Put(e, k, v) == [x \in DOMAIN e \cup {k} |-> IF x = k THEN v ELSE e[x]]
Apply(e, a) ==
  LET v == Join(a.vals, a.sep)
      has == a.key \in DOMAIN e
      old == IF has THEN e[a.key] ELSE ""
  IN Put(e, a.key, CASE a.op = "set" \/ ~has -> v
                     [] a.op = "append" -> old \o a.sep \o v
                     [] a.op = "prepend" -> v \o a.sep \o old)
RECURSIVE ApplyAll(_, _)
ApplyAll(e, s) == IF s = <<>> THEN e ELSE ApplyAll(Apply(e, Head(s)), Tail(s))
PEnv == ApplyAll(<<>>, world.penv)
Keys(s) == {s[i].key : i \in DOMAIN s}
(* the environments x may run with: where the test and the setup both define
   a variable, either definition may win *)
EnvOk(x, e) ==
  LET te == ApplyAll(PEnv, Test(x).env)
      se == ApplyAll(PEnv, Setup.env)
      w == IF Setup.wrap = "" THEN {} ELSE {"VF_WRAP"}
      V(k) == IF k \in w THEN {Setup.wrap}
              ELSE LET a == IF k \in Keys(Test(x).env) THEN {te[k]} ELSE {}
                       b == IF k \in Keys(Setup.env) THEN {se[k]} ELSE {}
                   IN IF a \cup b # {} THEN a \cup b
                      ELSE IF k \in DOMAIN PEnv THEN {PEnv[k]} ELSE {}
      all == DOMAIN PEnv \cup Keys(Test(x).env) \cup Keys(Setup.env) \cup w
  IN DOMAIN e = all /\ \A k \in all : e[k] \in V(k)

(* -------------------------------------------------------------- verdicts *)
Count(s, P(_)) == Cardinality({i \in DOMAIN s : P(s[i])})
TapPass(t) ==
  LET R(l) == l.k \in {"ok", "notok"}
      F(l) == (l.k = "notok" /\ l.dir = "") \/ (l.k = "ok" /\ l.dir = "todo")
      B(l) == l.k = "bail"
      Pl(l) == l.k = "plan"
      plans == {i \in DOMAIN t.lines : Pl(t.lines[i])}
  IN /\ Count(t.lines, F) = 0 /\ Count(t.lines, B) = 0
     /\ \A i \in plans : t.lines[i].n = Count(t.lines, R)
     /\ t.n = 0 \/ Dev("tap-status")
(* nothing but skipped subtests *)
TapSkip(t) == \A i \in DOMAIN t.lines : t.lines[i].k \in {"ok", "notok"} => t.lines[i].dir = "skip"

(* "fail*": failed as it should; "ok*": should have failed but did not *)
Verdicts(x) ==
  LET t == Test(x)
      bad == IF t.sf THEN {"fail*"} ELSE {"fail"}
      good == IF t.sf THEN IF Dev("unexpected-pass") THEN {"fail*"} ELSE {"ok*"} ELSE {"ok"}
  IN CASE t.out = "nostart" -> (IF t.tap /\ Dev("tap-status") THEN good ELSE {}) \cup bad \cup {IF t.sf THEN "ok*" ELSE "fail"}
       [] t.out = "sig" -> (IF t.tap /\ Dev("tap-status") THEN good ELSE {}) \cup IF t.sf THEN {"fail*", "ok*"} ELSE {"fail"}
       [] t.out = "exit" /\ t.tap -> IF ~TapPass(t) THEN bad
                                     ELSE IF TapSkip(t) /\ ~Dev("tap-skip") THEN {"skip"} ELSE good
       [] t.out = "exit" /\ ~t.tap ->
            CASE t.n = 0 -> good
              [] t.n = 77 -> {"skip"}
              [] t.n = 99 -> IF t.sf THEN {"fail*", "ok*"} ELSE {"fail"}
              [] OTHER -> bad
Bad == {"fail", "ok*", "timeout"}
SureBad(vs) == vs \subseteq Bad
MaybeBad(vs) == vs \cap Bad # {}

(* ------------------------------------------------------------ scheduling *)
Par(x) == Test(x).par
Tmo(x) == Test(x).tmo * Setup.mult * 1000
(* tests of the same project which have to be launched before x *)
Before(x) == {y \in unl : y[1] = x[1] /\ Test(y).prio > Test(x).prio}
Stopped == cmd.f /\ \E y \in ended \cap occ : SureBad(verd[y])

Init0(w, c) ==
  /\ world = w /\ cmd = c /\ unl = {} /\ occ = {} /\ seen = {} /\ ended = {} /\ t0 = <<>> /\ verd = <<>>
  /\ phase = "idle"

Begin(c) ==
  /\ phase = "idle" /\ cmd' = c /\ phase' = "run" /\ UNCHANGED world
  /\ unl' = (IF BadSetup' THEN {} ELSE Selected')
  /\ occ' = {} /\ seen' = {} /\ ended' = {} /\ t0' = <<>> /\ verd' = <<>>

(* With -f a failed test keeps its slot: once the runner has noticed it, it  *)
(* launches nothing.                                                         *)
Keeps(vs) == cmd.f /\ SureBad(vs) /\ ~Dev("fail-fast")
(* deviation "fail-fast": the test which waits for a slot when a failure is  *)
(* noticed is still started, and running tests are left alone                *)
Abandons == cmd.f /\ Dev("fail-fast") /\ \E y \in ended : verd[y] \cap Bad # {}

MayLaunch(x, u, o) ==
  /\ x \in u /\ Cardinality(o) < cmd.j
  /\ ~ \E y \in u : y[1] = x[1] /\ Test(y).prio > Test(x).prio
  /\ ~Par(x) => o = {}
  /\ \A y \in o : Par(y)

Launch(x) ==
  /\ phase = "run" /\ MayLaunch(x, unl, occ)
  /\ unl' = unl \ {x} /\ occ' = occ \cup {x}
  /\ UNCHANGED <<world, cmd, seen, ended, t0, verd, phase>>

(* the process of a launched test starts *)
Start(x, ms) ==
  /\ phase = "run" /\ x \in occ \ (seen \cup ended) /\ Test(x).out # "nostart"
  /\ seen' = seen \cup {x} /\ t0' = t0 @@ (x :> ms)
  /\ UNCHANGED <<world, cmd, unl, occ, ended, verd, phase>>

Finish(x, vs) ==
  /\ ended' = ended \cup {x} /\ verd' = verd @@ (x :> vs)
  /\ occ' = (IF Keeps(vs) THEN occ ELSE occ \ {x})
  /\ UNCHANGED <<world, cmd, unl, seen, t0, phase>>

(* it ends by itself *)
End(x, ms) ==
  /\ phase = "run" /\ x \in seen \ ended
  /\ Finish(x, Verdicts(x))
(* it is told to end because its time is up *)
Expire(x, ms) ==
  /\ phase = "run" /\ x \in seen \ ended /\ Tmo(x) > 0
  /\ Finish(x, {"timeout"})
(* it could not be started *)
NoStart(x) ==
  /\ phase = "run" /\ x \in occ \ ended /\ Test(x).out = "nostart"
  /\ Finish(x, Verdicts(x))

(* the runner is done: everything selected has run, or it stopped at a failure *)
MayStop == \E y \in ended : MaybeBad(verd[y])
Done(rc) ==
  /\ phase = "run" /\ ((occ \cup seen) \subseteq ended \/ Abandons)
  /\ (unl = {} \/ (cmd.f /\ MayStop))
  /\ IF BadSetup THEN rc # 0
     ELSE /\ (\E y \in ended : SureBad(verd[y])) => rc # 0
          /\ (\A y \in ended : ~MaybeBad(verd[y])) => rc = 0
  /\ phase' = "over"
  /\ UNCHANGED <<world, cmd, unl, occ, seen, ended, t0, verd>>

Again == phase = "over" /\ phase' = "idle" /\ UNCHANGED <<world, cmd, unl, occ, seen, ended, t0, verd>>

(* ------------------------------------------------------------ properties *)
Running == occ \ ended
WithinJobs == Cardinality(Running) <= cmd.j
Exclusive == \A x \in Running : ~Par(x) => Running = {x}
ByPriority == \A x \in Running \cup ended, y \in unl : x[1] = y[1] => Test(x).prio >= Test(y).prio
OnlySelected == phase = "run" => (unl \cup occ \cup ended) \subseteq Selected
AllRun == (phase = "over" /\ ~BadSetup) => (unl = {} \/ (cmd.f /\ MayStop))
=============================================================================
