TR_NOTE = ("TLC explores TestRunMC exhaustively (scheduler and verdict rules over small sets of tests); generated projects are "
           "set up and tested with the real program, and every recorded run (start/end log written by the tests themselves, "
           "summary, per-test results, exit status) has to be a behaviour of TestRun.tla. Rejections are only reported when "
           "they repeat. Timing bounds are loose (seconds).")
TRF = ["src/cmd_test.c", "src/platform/run_cmd.c", "src/platform/posix/run_cmd.c", "src/formats/tap.c", "src/formats/lines.c"]
prop("P12", "Test verdicts and the exit status of muon test",
     "Each selected test gets exactly one verdict: ok if it exits with 0, skip if with 77, failed for anything else (a "
     "signal, an error status, a start failure), timed out if its time is up; for protocol tap the verdict follows from the plan, "
     "the results of the subtests and the exit status, and should_fail inverts ok and failed. The summary counts agree "
     "with the verdicts, and `muon test` exits with 0 exactly if no test failed.",
     ["inputs", "programs"], "all sets of tests, exit statuses, signals, TAP outputs, timeouts and should_fail flags",
     "The suite's own tests mostly pass; failing, skipped, malformed-TAP, killed and should_fail tests occur in a few shapes only.",
     TRF, [("collection", "src/cmd_test.c: collect_tests, check_test_result_*"), ("tap", "src/formats/tap.c: tap_parse")], TR_NOTE, TV,
     observe=["summary, result lines and exit status of muon test"])
prop("P13", "The test runner's schedule: jobs, serial tests, priority, timeouts",
     "At most -j tests run at the same time, a test with is_parallel: false never runs together with another one, and "
     "within a project tests are started in order of decreasing priority. A test whose timeout (times the setup's "
     "multiplier) expires is terminated, one without is not. With -f no test starts once a failure has been noticed, "
     "and every selected test runs otherwise.",
     ["schedules", "programs"], "all sets of tests, priorities, timeouts, job counts and durations",
     "No test observes which tests of a project overlap or in which order they start.",
     TRF, [("slots and serial tests", "src/cmd_test.c: push_test"), ("priority", "src/cmd_test.c: test_compare"),
           ("timeouts", "src/cmd_test.c: collect_tests")], TR_NOTE, TV, observe=["start/end log written by the tests themselves"])
prop("P14", "Exactly the requested tests run, as they were declared",
     "`muon test` runs exactly the tests (or benchmarks) selected by suites, test names (with * as wildcard) and the "
     "setup's exclude_suites, with names qualified by a project restricted to that project; -l lists the same ones. Each "
     "runs with its declared arguments, working directory, and the variables its env: and the setup's env: define, later "
     "definitions applying to earlier ones.",
     ["inputs", "programs"], "all projects with subprojects, suites, setups and environments, and all selections",
     "The selection rules combine suites, names, setups and projects; tests cover a few combinations.",
     ["src/cmd_test.c", "src/functions/kernel.c", "src/functions/environment.c", "src/lang/string.c", "src/main.c", "src/coerce.c"],
     [("selection", "src/cmd_test.c: test_in_suite, should_run_test, gather_project_tests"),
      ("glob", "src/lang/string.c: str_eql_glob"), ("declarations", "src/functions/kernel.c: add_test_common, func_add_test_setup")],
     TR_NOTE, TV, observe=["environment, arguments and directory recorded by the tests themselves; muon test -l"])
