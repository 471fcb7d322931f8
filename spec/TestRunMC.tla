----------------------------- MODULE TestRunMC -----------------------------
(* Exhaustive runs of the test runner's model over small sets of tests.     *)
EXTENDS TestRun
CONSTANTS Shape

T(id, prio, par, tmo, sf, out, n, cat, suites) ==
  [name |-> <<"t">>, label |-> id, suites |-> suites, prio |-> prio, par |-> par, tmo |-> tmo, sf |-> sf,
   tap |-> FALSE, lines |-> <<>>, cat |-> cat, out |-> out, n |-> n, env |-> <<>>, wd |-> "", args |-> <<>>]
Outs == {<<"exit", 0>>, <<"exit", 1>>, <<"exit", 77>>, <<"sig", 9>>, <<"nostart", 0>>}
Cmd(j, f, s) == [j |-> j, f |-> f, suites |-> s, names |-> <<>>, setup |-> [proj |-> "", name |-> ""], cat |-> "test", list |-> FALSE]
P(n, ts) == [name |-> n, tests |-> ts, setups |-> <<>>]

Init ==
  \E o1 \in Outs, o2 \in Outs, p2 \in BOOLEAN, p3 \in BOOLEAN, sf \in BOOLEAN, pr \in 0..1, f \in BOOLEAN, j \in 1..2,
     s \in {<<>>, <<[proj |-> "", name |-> "a"]>>} :
    Init0([penv |-> <<>>, dev |-> <<>>,
           projects |-> <<P("m", <<T("1", 0, TRUE, IF Shape = 1 THEN 1 ELSE 0, sf, o1[1], o1[2], "test", <<"a">>),
                                   T("2", pr, p2, 0, FALSE, o2[1], o2[2], "test", <<"a", "b">>),
                                   T("3", 1, p3, 1, FALSE, "exit", 0, "test", <<"a">>)>>),
                          P("s", <<T("1", 0, TRUE, 0, FALSE, "exit", 0, "test", <<"a">>)>>)>>],
          Cmd(j, f, s))

Next ==
  \/ Begin(cmd)
  \/ \E x \in Ids : Launch(x) \/ Start(x, 0) \/ End(x, 0) \/ Expire(x, 0) \/ NoStart(x)
  \/ \E rc \in 0..1 : Done(rc)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

TypeOK == occ \cap unl = {} /\ seen \cap unl = {} /\ DOMAIN verd = ended
(* the exit status says whether a test failed; no run is stuck *)
NotStuck == phase = "run" => ENABLED Next
Truth == [][(phase = "run" /\ phase' = "over") => (unl = {} \/ (cmd.f /\ MayStop))]_vars
Terminates == <>(phase = "over")
(* without -f every selected test gets a verdict *)
Complete == (phase = "over" /\ ~cmd.f) => ended = Selected
FailFast == (cmd.f /\ cmd.j = 1 /\ phase = "run") =>
   \A y \in ended : SureBad(verd[y]) => occ = {y}
=============================================================================
