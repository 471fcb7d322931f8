"""P12-P14: the test runner (muon test) against spec/TestRun.tla."""
import json, os, re, shutil
from .common import *

MC_CFG = """SPECIFICATION Spec
CONSTANT Shape = %d
INVARIANTS TypeOK WithinJobs Exclusive ByPriority OnlySelected AllRun NotStuck Complete FailFast
PROPERTIES Truth Terminates
CHECK_DEADLOCK FALSE
"""
SUITES = ["a", "b", "slow", "x"]


def q(s):
    return "'" + s.replace("\\", "\\\\").replace("'", "\\'").replace("\n", "\\n") + "'"


def lst(xs):
    return "[" + ", ".join(xs) + "]"


# ---------------------------------------------------------------- scenarios
def gen_tap(r):
    """(lines for the model, text)"""
    lines, text = [], []
    mode = r.choice(["good", "good", "fail", "todo", "short", "long", "bail", "skipall", "mix", "compensate"])
    n = r.randint(1, 4)
    res = []
    for i in range(n):
        if mode == "skipall":
            res.append(r.choice([("ok", "skip"), ("ok", "skip"), ("notok", "skip")]))
        elif mode in ("todo", "mix") and r.random() < 0.5:
            res.append(r.choice([("notok", "todo"), ("ok", "skip"), ("notok", "todo"), ("notok", "todo")] + [("ok", "todo"), ("notok", "skip")] * (mode == "mix")))
        else:
            res.append(("ok", ""))
    if mode in ("fail", "compensate") or (mode == "mix" and r.random() < 0.5):
        res[r.randrange(n)] = ("notok", "")
    plan = n
    if mode == "short":
        plan = n + r.randint(1, 2)
    if mode == "long":
        plan = max(0, n - 1)
    if mode == "compensate":         # as many passed as were planned, and another one failed
        plan = sum(1 for x in res if x[0] == "ok")
    if mode == "skipall" and r.random() < 0.4:
        res, plan = [], 0
    pl = dict(k="plan", n=plan, dir="")
    ptext = "1..%d" % plan + r.choice(["", "", " # comment", "  ", " # SKIP all of it"])
    first = r.random() < 0.7
    if first:
        lines.append(pl)
        text.append(ptext)
    for i, (k, d) in enumerate(res):
        t = {"ok": "ok", "notok": "not ok"}[k]
        if r.random() < 0.7:
            t += " %d" % (i + 1)
        if r.random() < 0.5:
            t += r.choice([" - works", " something done", " - 3 of 4", " is not ok", " - todo list", " skip it"])
        if d:
            t += " # " + r.choice({"todo": ["TODO", "todo later", "Todo"], "skip": ["SKIP", "skip reason", "Skipped"]}[d])
        lines.append(dict(k=k, n=0, dir=d))
        text.append(t)
        if r.random() < 0.2:
            text.append(r.choice(["# a diagnostic", "  ---", "  message: not ok", "noise", "#not ok 7", ""]))
        if mode == "bail" and i == n - 1 and r.random() < 0.8:
            lines.append(dict(k="bail", n=0, dir=""))
            text.append("Bail out!" + r.choice(["", " no disk"]))
    if not first:
        lines.append(pl)
        text.append(ptext)
    return lines, "\n".join(text) + r.choice(["\n", "\n", ""])


ARGS = ["a", "-x", "--long=1", "two words", "", "it's", 'q"q', "back\\slash", "$HOME", "*", "semi;colon", "a\tb", "#x", "@0@",
        "end\\", "%s", "k=v", "\u00e9", "new\nline", "&&", "`x`", "((", "~"]


def gen_env(r, keys, setonly=False):
    out = []
    for _ in range(r.randint(0, 3)):
        op = "set" if setonly else r.choice(["set", "set", "append", "prepend"])
        n = r.choice([1, 1, 2, 3])
        out.append(dict(op=op, key=r.choice(keys), vals=[r.choice(["1", "x y", "v", "=", "", "a:b", "it's"]) for _ in range(n)],
                        sep=r.choice([":", ":", ",", " ", "::"])))
    return out


def one(k, n, d, text):
    return [dict(k=k, n=n, dir=d)], text


ONELINE = [one("notok", 0, "", "not ok 1 - it"), one("ok", 0, "", "ok"), one("bail", 0, "", "Bail out!"), one("plan", 2, "", "1..2"),
           one("ok", 0, "todo", "ok # TODO"), one("notok", 0, "", "not ok\n"), one("plan", 0, "", "1..0")]


def gen_test(r, kind, p, i, names, has_dep):
    t = dict(name=r.choice(names) if kind == "select" else "t%d%d" % (p, i), suites=[], prio=0, par=True, tmo=30, sf=False, tap=False,
             lines=[], text="", cat="test", out="exit", n=0, env=[], wd="", args=[], sleep=0, ign=False, envas="env", defpar=True,
             hastmo=False, proto="", nost="", dep="")
    t["suites"] = r.sample(SUITES, r.choice([0, 1, 1, 2])) if kind != "sched" else []
    if kind == "verdict":
        k = r.random()
        if k < 0.45:
            t["tap"] = True
            t["lines"], t["text"] = gen_tap(r)
            t["n"] = r.choice([0, 0, 0, 0, 1, 77])
            if r.random() < 0.06:
                t["lines"], t["text"] = [], ""
            elif r.random() < 0.2:
                t["lines"], t["text"] = r.choice(ONELINE)
        else:
            t["n"] = r.choice([0, 0, 0, 1, 2, 77, 77, 99, 127, 255, 78, 76])
            t["text"] = r.choice(["", "", "not ok\n", "hello", "1..2\nok\n"])
            t["proto"] = r.choice(["", "", "exitcode", "gtest", "rust"])
            if r.random() < 0.12:
                t["out"], t["n"] = "sig", r.choice([9, 11, 6, 15])
        t["sf"] = r.random() < 0.35
        if r.random() < 0.05:
            t["out"], t["nost"] = "nostart", r.choice(["cwd", "exe"])
        if r.random() < 0.03:
            t["tmo"], t["hastmo"], t["sleep"] = 1, True, 5000
    elif kind == "sched":
        t["prio"] = r.choice([0, 0, 0, 1, 2, -1, 10, -3, 100, 2000000000, -2000000000])
        t["par"] = r.random() < 0.7
        t["sleep"] = r.choice([0, 0, 10, 30, 80])
        t["n"] = 1 if r.random() < 0.12 else 0
        t["sf"] = r.random() < 0.08
        if r.random() < 0.04:
            t["out"], t["nost"] = "nostart", r.choice(["cwd", "exe"])
        k = r.random()
        if k < 0.04:
            t["tmo"], t["hastmo"], t["ign"] = r.choice([1, 1, 2]), True, r.random() < 0.4
            t["sleep"] = -1
        elif k < 0.12:
            t["tmo"], t["hastmo"] = r.choice([0, -1, -5]), True
            t["sleep"] = r.choice([50, 300])
        elif k < 0.2:
            t["tmo"], t["hastmo"] = r.choice([3, 60]), True
    else:
        t["env"] = gen_env(r, ["VF_A", "VF_B", "VF_P", "VF_Q"])
        if any(e["op"] != "set" or e["sep"] != ":" or len(e["vals"]) > 1 for e in t["env"]):
            t["envas"] = "env"
        else:
            t["envas"] = r.choice(["env", "list", "dict", "str"])
            if t["envas"] == "str" and len(t["env"]) != 1:
                t["envas"] = "list"
        t["wd"] = r.choice(["", "", "", "wd1", "wd 2"])
        t["args"] = [r.choice(ARGS) for _ in range(r.choice([0, 0, 1, 2, 3, 6]))]
        t["n"] = r.choice([0, 0, 0, 0, 1])
        t["cat"] = "benchmark" if r.random() < 0.15 else "test"
        t["prio"] = r.choice([0, 0, 0, 1, 2, -1, 2000000000, -2000000000])
        if has_dep and r.random() < 0.3:
            t["dep"] = r.choice(["depends", "arg"])
    if t["cat"] == "benchmark":
        t["par"] = False
    t["label"] = "+".join(t["suites"]) + (":" if t["suites"] else "") + t["name"]
    t["llabel"] = t["label"]
    return t


def gen_scenario(r, kind):
    np = r.choice([1, 1, 2]) if kind != "select" else r.choice([1, 2, 3])
    names = ["ab", "abc", "a b", "b", "abab", "cab", "bca", "a", "ba-c"]
    projects = []
    has_dep = kind == "select" and r.random() < 0.3
    for p in range(np):
        lo = 0 if kind == "select" else 1
        n = r.randint(lo, 6) if kind != "sched" else r.randint(2, 9)
        if kind == "verdict":
            n = r.randint(1, 10)
        pr = dict(name=["main", "s1", "s2"][p], tests=[gen_test(r, kind, p, i, names, has_dep) for i in range(n)], setups=[])
        seen = set()
        for t in pr["tests"]:
            # two tests of one project which a line of output could not tell apart
            while t["label"] in seen:
                t["name"] += r.choice("abc")
                t["label"] = "+".join(t["suites"]) + (":" if t["suites"] else "") + t["name"]
            seen.add(t["label"])
        projects.append(pr)
    default = False
    if kind != "verdict":
        for p in range(np):
            for i in range(r.choice([0, 1, 1, 2]) if kind == "select" else r.choice([0, 0, 1])):
                d = not default and r.random() < 0.2
                default = default or d
                projects[p]["setups"].append(dict(
                    name=["one", "two"][i], default=d, env=gen_env(r, ["VF_A", "VF_S", "VF_P"], True) if kind == "select" else [],
                    exclude=[dict(proj=r.choice(["", "", "main", "s1"]), name=r.choice(SUITES))
                             for _ in range(r.choice([0, 1, 2]) if kind == "select" else 0)],
                    mult=r.choice([1, 1, 2, 3]) if kind == "sched" else 1, wrap=r.choice(["", "w 1"]) if kind == "select" else ""))
    penv = [dict(op="set", key=k, vals=[r.choice(["base", "p q", ""])], sep=":") for k in ("VF_P", "VF_Q") if r.random() < 0.6] \
        if kind == "select" else []
    cmds = []
    for _ in range(1 if kind != "select" else r.randint(1, 3)):
        c = dict(j=r.randint(1, 4) if kind != "verdict" else r.choice([1, 4]), f=kind == "sched" and r.random() < 0.3,
                 suites=[], names=[], setup=dict(proj="", name=""), cat="test", list=False, v=r.random() < 0.3, S=True, R=False)
        if kind == "select":
            if r.random() < 0.4:
                c["suites"] = [dict(proj=r.choice(["", "", "main", "s1", "nope"]), name=r.choice(SUITES + ["none"]))
                               for _ in range(r.choice([1, 1, 2, 3]))]
            if r.random() < 0.5:
                for _ in range(r.choice([1, 1, 2])):
                    nm = r.choice(names)
                    k = r.random()
                    if k < 0.6:
                        for _ in range(r.choice([1, 1, 2])):
                            x = r.randint(0, len(nm))
                            y = r.randint(x, len(nm))
                            nm = nm[:x] + "*" + nm[y:]
                    elif k < 0.7:
                        nm = ""
                    c["names"].append(dict(proj=r.choice(["", "", "main", "s1", "s2"]), name=nm, colon=r.random() < 0.3))
            c["cat"] = r.choice(["test", "test", "test", "benchmark"])
            c["list"] = r.random() < 0.35
        sts = [(p["name"], s["name"]) for p in projects for s in p["setups"]]
        if kind != "verdict" and sts and r.random() < 0.6:
            pn, sn = r.choice(sts)
            c["setup"] = dict(proj=pn if pn != "main" or r.random() < 0.5 else "", name=sn)
            if kind == "select" and r.random() < 0.1:
                c["setup"] = dict(proj=r.choice(["", "main"]), name="missing")
        cmds.append(c)
    mult = max([s["mult"] for p in projects for s in p["setups"]] or [1])
    for p in projects:
        for t in p["tests"]:
            if t["sleep"] == -1:
                t["sleep"] = t["tmo"] * mult * 1000 + 4000
    return dict(kind=kind, projects=projects, penv=penv, cmds=cmds, dep=has_dep)


# ------------------------------------------------------------------ running
def render(scn, p, d, prog, log):
    pr = scn["projects"][p]
    o = ["project(%s)" % q(pr["name"]), "prog = find_program(%s)" % q(prog)]
    if scn["dep"]:
        o.append("ct = custom_target('ct%d', output: 'ct%d.txt', command: [prog, %s, 'ct', '', '-', '@OUTPUT@'], "
                 "capture: true)" % (p, p, q(log + ".ct")))
    for i, t in enumerate(pr["tests"]):
        opts = []
        if t["out"] == "sig":
            opts.append("k=%d" % t["n"])
        elif t["n"]:
            opts.append("x=%d" % t["n"])
        if t["sleep"]:
            opts.append("s=%d" % t["sleep"])
        if t["ign"]:
            opts.append("i")
        f = q("%s/out.%d.%d" % (d, p, i)) if t["text"] else "'-'"
        kw = []
        if t["dep"] == "depends":
            f = q("%s/b/%sct%d.txt" % (d, "subprojects/%s/" % pr["name"] if p else "", p))
            kw.append("depends: ct")
        elif t["dep"] == "arg":
            f = "ct"
        args = [q(log), q("%d.%d" % (p + 1, i + 1)), q(",".join(opts)), f] + [q(a) for a in t["args"]]
        kw.append("args: " + lst(args))
        exe = "prog"
        if t["nost"] == "exe":
            exe = "find_program(%s)" % q("%s/gone.%d.%d" % (d, p, i))
        if t["suites"]:
            kw.append("suite: " + (q(t["suites"][0]) if len(t["suites"]) == 1 else lst(map(q, t["suites"]))))
        if t["prio"]:
            kw.append("priority: %d" % t["prio"])
        if t["cat"] == "test" and (not t["par"] or i % 3 == 0):
            kw.append("is_parallel: " + ("true" if t["par"] else "false"))
        if t["hastmo"]:
            kw.append("timeout: %d" % t["tmo"])
        if t["sf"]:
            kw.append("should_fail: true")
        if t["tap"]:
            kw.append("protocol: 'tap'")
        elif t["proto"]:
            kw.append("protocol: " + q(t["proto"]))
        if t["nost"] == "cwd":
            kw.append("workdir: " + q(d + "/nowhere"))
        elif t["wd"]:
            kw.append("workdir: " + q(d + "/" + t["wd"]))
        if t["env"]:
            if t["envas"] == "env":
                o.append("e = environment()")
                o += env_stmts("e", t["env"])
                kw.append("env: e")
            elif t["envas"] == "dict":
                last = {a["key"]: a for a in t["env"]}
                kw.append("env: {" + ", ".join("%s: %s" % (q(k), q(a["vals"][0])) for k, a in last.items()) + "}")
            else:
                xs = [q(a["key"] + "=" + a["vals"][0]) for a in t["env"]]
                kw.append("env: " + (lst(xs) if t["envas"] == "list" else xs[0]))
        o.append("%s(%s, %s, %s)" % (t["cat"], q(t["name"]), exe, ", ".join(kw)))
    for s in pr["setups"]:
        kw = []
        if s["default"]:
            kw.append("is_default: true")
        if s["env"]:
            o.append("e = environment()")
            o += env_stmts("e", s["env"])
            kw.append("env: e")
        if s["exclude"]:
            kw.append("exclude_suites: " + lst(q((x["proj"] + ":" if x["proj"] else "") + x["name"]) for x in s["exclude"]))
        if s["mult"] != 1:
            kw.append("timeout_multiplier: %d" % s["mult"])
        if s["wrap"]:
            kw.append("exe_wrapper: [find_program('env'), %s]" % q("VF_WRAP=" + s["wrap"]))
        o.append("add_test_setup(%s)" % ", ".join([q(s["name"])] + kw))
    if p == 0:
        for s in scn["projects"][1:]:
            o.append("subproject(%s)" % q(s["name"]))
    return "\n".join(o) + "\n"


def env_stmts(v, acts):
    out = []
    for a in acts:
        sep = "" if a["sep"] == ":" else ", separator: " + q(a["sep"])
        out.append("%s.%s(%s, %s%s)" % (v, a["op"], q(a["key"]), ", ".join(map(q, a["vals"])), sep))
    return out


LINE = re.compile(r"^(fail\*|fail|ok\*|ok|timeout|skip)\s+(\d+\.\d\d)s (?:\s*\d+/\s*\d+ subtests, )?(.*)$")
FIN = re.compile(r"^finished (\d+) (?:test|benchmark)s, (\d+) expected fail, (\d+) fail, (\d+) skipped$")


def parse(out):
    lines = out.split("\n")
    at = next((i for i, x in enumerate(lines) if FIN.match(x)), None)
    if at is None:
        return [], 0, 0, 0
    m = FIN.match(lines[at])
    res = []
    for x in lines[at + 1:]:
        k = LINE.match(x)
        if k:
            lab = k.group(3)
            lab = re.sub(r": (command|error) .*$", "", lab)
            lab = re.sub(r" - passing test marked as should_fail$", "", lab)
            res.append([lab, k.group(1)])
    return res, int(m.group(1)), int(m.group(3)), int(m.group(4))


def unhex(s):
    return bytes.fromhex(s).decode("utf-8", "replace")


def model_cmd(c):
    return dict(j=c["j"], f=c["f"], suites=c["suites"], cat=c["cat"], setup=c["setup"], list=c["list"],
                names=[dict(proj=n["proj"], name=list(n["name"])) for n in c["names"]])


def world(scn, d):
    ps = []
    for p, pr in enumerate(scn["projects"]):
        ts = []
        for t in pr["tests"]:
            m = {k: t[k] for k in ("label", "suites", "prio", "par", "sf", "tap", "lines", "cat", "out", "n", "env", "args")}
            m["name"] = list(t["name"])
            m["tmo"] = max(0, t["tmo"])
            m["wd"] = d + "/" + (t["wd"] or "b")
            ts.append(m)
        ps.append(dict(name=pr["name"], tests=ts, setups=pr["setups"]))
    return dict(projects=ps, penv=scn["penv"], dev=[])


def execute(sc, scn, aspects):
    d = sc.fresh()
    log = d + "/log"
    for p, pr in enumerate(scn["projects"]):
        base = d + ("/subprojects/" + pr["name"] if p else "")
        sc.write(base + "/meson.build", render(scn, p, d, sc.helpers["testcmd"], log))
        for i, t in enumerate(pr["tests"]):
            if t["text"]:
                sc.write("%s/out.%d.%d" % (d, p, i), t["text"])
            if t["nost"] == "exe":
                sc.write("%s/gone.%d.%d" % (d, p, i), "#!/bin/sh\n", 0o755)
    for w in ("wd1", "wd 2"):
        sc.mkdirs(d + "/" + w)
    rc, out, _ = sc.run([sc.muon, "setup", d + "/b"], d)
    ev = []
    tr = dict(aspects=aspects, world=world(scn, d), events=ev)
    if rc != 0:
        ev.append(dict(ev="setup failed", rc=999 if rc is None else rc, out=out[-600:]))
        return tr
    for p, pr in enumerate(scn["projects"]):
        for i, t in enumerate(pr["tests"]):
            if t["nost"] == "exe":
                os.unlink("%s/gone.%d.%d" % (d, p, i))
    for c in scn["cmds"]:
        if os.path.exists(log):
            os.unlink(log)
        argv = [sc.muon, c["cat"], "-j%d" % c["j"], "-d", "dots"]
        for s in c["suites"]:
            argv += ["-s", (s["proj"] + ":" if s["proj"] else "") + s["name"]]
        if c["setup"]["name"]:
            argv += ["-e", (c["setup"]["proj"] + ":" if c["setup"]["proj"] else "") + c["setup"]["name"]]
        argv += ["-f"] * c["f"] + ["-v"] * c["v"] + ["-S"] * c["S"]
        if c["list"]:
            argv.append("-l")
        argv += [(n["proj"] + ":" if n["proj"] or n["colon"] else "") + n["name"] for n in c["names"]]
        env = {a["key"]: a["vals"][0] for a in scn["penv"]}
        rc, out, _ = sc.run(argv, d + "/b", env, timeout=90)
        rc = 999 if rc is None else abs(rc)
        mc = model_cmd(c)
        if c["list"]:
            lines = []
            for x in out.split("\n"):
                m = re.match(r"^(\w+)(?::\[(.*?)\])? - (.*)$", x)
                if m:
                    ss = re.findall(r"'(.*?)'", m.group(2) or "")
                    lines.append([m.group(1), "+".join(ss) + (":" if ss else "") + m.group(3)])
            ev.append(dict(ev="list", cmd=mc, rc=rc, lines=lines, out=out[-300:]))
            continue
        ev.append(dict(ev="begin", cmd=mc))
        told = set()
        for ln in (open(log).read().split("\n")[:-1] if os.path.exists(log) else []):
            w = ln.split(" ")
            p, i = map(int, w[1].split("."))
            e = dict(ev=w[0], p=p, i=i, ms=int(w[2]))
            if w[0] == "S":
                e["cwd"] = unhex(w[3][1:])
                e["env"] = [unhex(x).split("=", 1) for x in w[4][1:].split(",") if x]
                e["args"] = [unhex(x) for x in w[5][1:].split(",")[1:]]
            if w[0] == "T":
                if w[1] in told:
                    continue
                told.add(w[1])
            ev.append(e)
        res, tot, fail, skip = parse(out)
        ev.append(dict(ev="done", rc=rc, results=res, total=tot, fail=fail, skip=skip, out=out[-600:]))
        ev.append(dict(ev="again"))
    # time stamps relative to the first one
    base = min([e["ms"] for e in ev if "ms" in e] or [0])
    for e in ev:
        if "ms" in e:
            e["ms"] -= base
    shutil.rmtree(d, ignore_errors=True)
    return tr


def describe(tr):
    out = tlc_print("TestRunTrace", [dict(tr, aspects=tr["aspects"] + ["verbose"])], "AT")
    n = max([int(x) for x in re.findall(r'<<"AT", 1, (\d+)>>', out)] or [0])
    e = tr["events"]
    return "Not allowed: event %d %s" % (n, json.dumps(e[n]) if n < len(e) else "?")


KINDS = {"P12": ("verdict", ["verdict"]), "P13": ("sched", ["sched"]), "P14": ("select", ["select"])}


def deviating(tr, keys):
    return dict(tr, world=dict(tr["world"], dev=keys))


# one scenario for each known finding
def demo_test(i, **kw):
    t = dict(name="t%d" % i, suites=[], prio=0, par=True, tmo=30, sf=False, tap=False, lines=[], text="", cat="test", out="exit",
             n=0, env=[], wd="", args=[], sleep=0, ign=False, envas="env", defpar=True, hastmo=False, proto="", nost="", dep="")
    t.update(kw)
    t["label"] = t["llabel"] = "+".join(t["suites"]) + (":" if t["suites"] else "") + t["name"]
    return t


def demo(kind, projects, **kw):
    c = dict(j=1, f=False, suites=[], names=[], setup=dict(proj="", name=""), cat="test", list=False, v=False, S=True, R=False)
    c.update(kw)
    return dict(kind=kind, penv=[], cmds=[c], dep=False,
                projects=[dict(name=n, tests=ts, setups=[]) for n, ts in zip(["main", "s1", "s2"], projects)])


def demo_tap(line, text, **kw):
    return demo("verdict", [[demo_test(0, tap=True, lines=[line, dict(k="plan", n=1, dir="")], text=text, **kw)]])


DEMOS = {
    "tap-status": ("P12", lambda: demo_tap(dict(k="ok", n=0, dir=""), "ok 1\n1..1\n", n=1)),
    "tap-skip": ("P12", lambda: demo_tap(dict(k="ok", n=0, dir="skip"), "ok 1 # SKIP\n1..1\n")),
    "unexpected-pass": ("P12", lambda: demo("verdict", [[demo_test(0, sf=True)]])),
    "fail-fast": ("P13", lambda: demo("sched", [[demo_test(0, prio=5, n=1), demo_test(1, prio=4, sleep=4000), demo_test(2)]],
                                      j=2, f=True)),
    "stale-project": ("P14", lambda: demo("select", [[demo_test(0, suites=["a"])], [demo_test(1, suites=["a"])]],
                                          suites=[dict(proj="s1", name="a")])),
}


def run(ctx):
    kind, aspects = KINDS[ctx.pid]
    ctx.mc("TestRunMC", MC_CFG % 1)
    n = int(os.environ.get("VF_N") or {"verdict": 250, "sched": 220, "select": 250}[kind] * (8 if ctx.thorough else 1))
    scns = [gen_scenario(ctx.rng(i), kind) for i in range(n)]
    with Scratch(["testcmd"]) as sc:
        conform(ctx, "TestRunTrace", scns, lambda s: execute(sc, s, aspects), describe, par=12, chunk=max(5, n // 16),
                known=(deviating, [(k, f()) for k, (pid, f) in DEMOS.items() if pid == ctx.pid]))
    ctx.cov["runs"] = sum(len(s["cmds"]) for s in scns)
    ctx.assumptions += ["the runner's polling adds less than two seconds to the life of a test whose time is up",
                        "grandchildren of tests do not outlive them"]
