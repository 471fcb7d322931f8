#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the single place both are kept)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, NA = [], []


def prop(id, title, statement, over, text, tests, files, mech, level_note=None, technique=None, level="model_checking",
         observe=None):
    P.append(dict(p=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                         why_tests_cant=tests,
                         anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                                      observe_at=observe or [], hook_needed=None)),
                  note=level_note, technique=technique, level=level))


SAMU = "src/external/samurai/"
NINJA_NOTE = ("TLC explores all interleavings of small manifests in NinjaMC (the design satisfies the property); for the code, "
              "every recorded execution of generated manifests/histories has to be a behaviour of Ninja.tla. Trusts the "
              "helper command's log and that user edits are separated by a clock tick.")
TV = "TLA+ model (TLC exhaustive) + trace validation of the real program with TLC"

prop("P01", "Commands start only when allowed",
     "While a build runs, a command starts only after every command producing one of its inputs (explicit, implicit, "
     "order-only or discovered) that has to run has finished successfully, at most once per build, and only if it is needed "
     "for the requested targets. Never more than -j commands, and never more than a pool's depth of that pool's commands "
     "(one for the console pool), run at the same time.",
     ["schedules", "programs"], "all dependency graphs, pool assignments, -j values, requested targets and timings of commands",
     "The suite runs a few projects through the embedded ninja and looks at the final result only; no test observes which commands overlap.",
     [SAMU + "build.c", SAMU + "graph.c", SAMU + "samu.c"],
     [("work queue, nblock/nprune counting", SAMU + "build.c: samu_queue, samu_nodedone"),
      ("pool slots", SAMU + "build.c: samu_queue, samu_jobdone"), ("job slots", SAMU + "build.c: samu_build")],
     NINJA_NOTE, TV, observe=["start/end log written by the commands themselves"])
prop("P02", "An incremental build equals a build from scratch",
     "After any history of edits, touches, deletions, manifest changes and earlier builds, a build that reports success "
     "leaves every requested output with the content a build from scratch would give it. Every command whose inputs, "
     "discovered dependencies or command line changed since it last ran has run.",
     ["histories", "programs"], "all graphs (multiple outputs, aliases, restat, generator, depfile and deps=gcc edges) and all histories of user actions and builds",
     "No test edits a tree and rebuilds: the quantifier is over histories, the suite only builds once from an empty tree.",
     [SAMU + "build.c", SAMU + "deps.c", SAMU + "log.c", SAMU + "graph.c"],
     [("dirtiness", SAMU + "build.c: samu_buildadd, samu_isdirty"), ("build log", SAMU + "log.c"),
      ("dependency log", SAMU + "deps.c: samu_depsload, samu_depsrecord"), ("command hash", SAMU + "graph.c: samu_edgehash")],
     NINJA_NOTE, TV)
prop("P03", "Nothing runs without a reason",
     "A build runs only commands that are out of date: one whose inputs, discovered dependencies and command line are "
     "unchanged since it last succeeded, and none of whose inputs was rewritten in this build, does not run. In particular, "
     "repeating a successful build runs nothing, and a restat command which leaves its output alone stops the rebuild there.",
     ["histories", "programs"], "all graphs and histories of edits, manifest changes and builds",
     "The suite does not rebuild, and cannot see which commands a rebuild would run.",
     [SAMU + "build.c", SAMU + "deps.c", SAMU + "log.c"],
     [("dirtiness", SAMU + "build.c: samu_isdirty"), ("pruning", SAMU + "build.c: samu_shouldprune, samu_nodedone"),
      ("logs survive rewriting", SAMU + "deps.c: samu_depsinit; " + SAMU + "log.c: samu_loginit")],
     NINJA_NOTE, TV)
prop("P04", "A failing command fails the build, and only what depends on it",
     "If any command fails, the build exits with a non-zero status and nothing that depends on the failed command runs. No "
     "command is started after -k failures, and with failures to spare everything that does not depend on a failed command "
     "is still built. A build with a missing source runs nothing and fails.",
     ["schedules", "fault_sequences", "programs"], "all graphs, sets of failing commands, -j and -k values and timings",
     "No test makes commands fail at chosen points of a parallel build.",
     [SAMU + "build.c", "src/platform/posix/run_cmd.c"],
     [("numfail / maxfail", SAMU + "build.c: samu_build"), ("pool slots on failure", SAMU + "build.c: samu_jobdone"),
      ("exit status collection", "src/platform/posix/run_cmd.c: run_cmd_collect")],
     NINJA_NOTE, TV)
prop("P05", "Builds are correct after a crash",
     "If the executor is killed at any point, or the logs it keeps are cut short at any byte or deleted, a later build that "
     "reports success leaves every requested output as a build from scratch would. Loss of log records costs extra work at "
     "most, and never makes the executor fail.",
     ["crash_points", "histories"], "all points at which the executor is killed and all lengths to which its logs can be cut, in all histories",
     "No test kills the executor or damages its logs.",
     [SAMU + "log.c", SAMU + "deps.c", SAMU + "build.c"],
     [("log parsing", SAMU + "log.c: samu_log_parse_cb"), ("deps log parsing", SAMU + "deps.c: samu_depsinit"),
      ("record after success only", SAMU + "build.c: samu_edgedone")],
     NINJA_NOTE, TV)

for n in range(2, 20):
    f = os.path.join(ROOT, "tools", "props%d.py" % n)
    if os.path.exists(f):
        exec(open(f).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["p"]["title"]) <= 80, x["p"]["title"]
        assert x["p"]["statement"].count(". ") <= 2, x["p"]["id"]
        f.write(json.dumps(x["p"]) + "\n")
m = dict(version=1, setup_cmd="./setup.sh",
         checks=[dict(property=x["p"]["id"], quick_cmd="./check %s --tier quick" % x["p"]["id"],
                      thorough_cmd="./check %s --tier thorough" % x["p"]["id"],
                      technique=x["technique"], level=x["level"], level_note=x["note"])
                 for x in P if x["note"]],
         not_applicable=NA, notes="Specifications: TLA+ (TLC). See DESIGN.md.")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
