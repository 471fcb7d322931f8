"""P01-P05: the build executor (muon samu) against spec/Ninja.tla."""
import json, os, random, signal, time
from .common import *

MC_CFG = """SPECIFICATION Spec
CONSTANTS
  MaxUser = %d
  MaxBuild = 2
  Which = %d
INVARIANTS Correct Nothing Parallel Ordered CanFinish
CHECK_DEADLOCK FALSE
"""


# ---------------------------------------------------------------- scenarios
def edge(id, outs, ins, **kw):
    e = dict(id=id, outs=outs, ins=ins, imp=[], oo=[], ver=0, restat=False, generator=False, deps="", pool="",
             phony=False, coarse=False, blind=False)
    e.update(kw)
    return e


def gen_graph(r, big=False, dyn=False):
    ns, nh = r.randint(2, 4), r.randint(1, 3)
    srcs = ["s%d" % i for i in range(ns)]
    hdrs = ["h%d" % i for i in range(nh)]
    edges, avail = [], []
    pools = r.choice([["", "", "", "one", "two", "console"], ["", "one", "two", "two"], ["two", "two", "two", ""], ["one", "one", ""]])
    wide = r.random() < 0.35
    ne = r.randint(4, 10 if big else 9)
    for i in range(ne):
        id = "e%d" % i
        if i > 1 and r.random() < 0.12 and avail:
            pool = r.sample(avail + srcs, min(len(avail + srcs), r.randint(1, 2)))
            edges.append(edge(id, ["p%d" % i], pool, phony=True))
            avail.append("p%d" % i)
            continue
        outs = ["o%d" % i] if r.random() < 0.8 else ["o%d" % i, "o%dx" % i]
        first = r.choice(srcs)
        deps = r.choice(["gcc", "gcc", "gcc", ""] if dyn else ["", "", "gcc", "gcc", "file"])
        ins = [first]
        cand = [a for a in avail if not a.startswith("p")]
        if wide and i < 4:
            cand = []
        if r.random() < 0.75 and cand:
            ins += r.sample(cand, min(len(cand), r.randint(1, 2)))
            if not deps and r.random() < 0.6:
                ins.pop(0)
        imp, oo = [], []
        rest = [a for a in avail if a not in ins]
        if wide and i < 4:
            rest = []
        if rest and r.random() < 0.3:
            imp.append(r.choice(rest))
        rest = [a for a in rest if a not in imp]
        if rest and r.random() < 0.3:
            oo.append(r.choice(rest))
        e = edge(id, outs, ins, imp=imp, oo=oo, deps=deps, restat=r.random() < (0.8 if dyn else 0.35), generator=r.random() < 0.1,
                 coarse=r.random() < 0.4, blind=bool(deps) and r.random() < (0.7 if dyn else 0.3), pool=r.choice(pools))
        # a generated header has to be ordered before its dynamic users
        if deps:
            g = [x for x in avail if not x.startswith("p") and x not in e["ins"]]
            if g and r.random() < 0.6:
                x = r.choice(g)
                if x not in e["imp"] + e["oo"] and not (wide and i < 4):
                    e["oo"].append(x)
        edges.append(e)
        avail += outs
    return dict(edges=edges, pools=[dict(name="one", depth=1), dict(name="two", depth=2)]), srcs, hdrs


def real_in(e):
    return [x for x in e["ins"] + e["imp"] if not x.startswith("p")]


def mutate_graph(r, g):
    g = json.loads(json.dumps(g))
    for _ in range(r.randint(1, 2)):
        e = r.choice(g["edges"])
        k = r.random()
        if e["phony"] or e["generator"]:
            continue         # (a generator command ignores changes of itself by design)
        if k < 0.5:
            e["ver"] += 1
        elif k < 0.65 and e["imp"]:
            e["imp"].pop()
        elif k < 0.8:
            i = g["edges"].index(e)
            c = [o for x in g["edges"][:i] for o in x["outs"] if o not in e["ins"] + e["imp"] + e["oo"]]
            if c:
                e["imp"].append(r.choice(c))
        elif k < 0.9:
            e["restat"] = not e["restat"]
        else:
            used = {x for y in g["edges"] for x in y["ins"] + y["imp"] + y["oo"]}
            if not any(o in used for o in e["outs"]) and len(g["edges"]) > 3:
                g["edges"].remove(e)
    return g


def inc_choices(g, s, hdrs):
    """Files every dynamic edge starting at source s may name."""
    users = [e for e in g["edges"] if e["deps"] and e["ins"][0] == s]
    c = list(hdrs)
    if users:
        common = set(users[0]["oo"] + users[0]["imp"])
        for u in users[1:]:
            common &= set(u["oo"] + u["imp"])
        c += [x for x in sorted(common) if not x.startswith("p")]
    return c


def gen_scenario(r, kind, nrounds):
    dyn = r.random() < 0.25          # mostly edges which discover their inputs, which change a lot
    g, srcs, hdrs = gen_graph(r, dyn=dyn)
    if dyn and len(hdrs) < 2:
        hdrs.append("h1")
    graphs = [g]
    if r.random() < 0.7:
        graphs.append(mutate_graph(r, g))
        if r.random() < 0.4:
            graphs.append(mutate_graph(r, graphs[-1]))
    # names of includes must be valid in every manifest
    st = {}
    ops = []

    def incs(s):
        cs = [set(inc_choices(x, s, hdrs)) for x in graphs]
        c = sorted(set.intersection(*cs))
        return r.sample(c, min(len(c), 1 if dyn and r.random() < 0.8 else r.randint(0, 2)))

    for s in srcs:
        st[s] = [0, 0, incs(s)]
    for h in hdrs:
        st[h] = [0, 0, []]
    for f in srcs + hdrs:
        ops.append(dict(op="edit", f=f, c=0, v=0, inc=st[f][2]))
    gi = 0
    missing = set()

    def build(targets=None, j=None, k=1, fail=()):
        gg = graphs[gi]
        outs = [o for e in gg["edges"] for o in e["outs"]]
        if targets is None:
            used = {x for y in gg["edges"] for x in y["ins"] + y["imp"] + y["oo"]}
            targets = [o for o in outs if o not in used] if r.random() < 0.75 else [r.choice(outs)]
        ids = [e["id"] for e in gg["edges"] if not e["phony"]]
        j = j or r.choice([1, 2, 2, 3, 4, 8])
        sl = r.choice([0, 3, 8])
        return dict(op="build", t=targets, j=j, k=k, fail=list(fail), sleep={i: r.randint(0, sl) for i in ids})

    def full():
        gg = graphs[gi]
        return [o for e in gg["edges"] for o in e["outs"]]

    ops.append(build(full()))
    for _ in range(nrounds):
        if dyn and kind == "plain" and r.random() < 0.6:
            # what a file includes changes, then the newly included file does
            f = r.choice(srcs)
            for _ in range(2):
                c, v, inc = st[f]
                inc = incs(f)
                st[f] = [c, v, inc]
                missing.discard(f)
                ops.append(dict(op="edit", f=f, c=c, v=v, inc=inc))
                ops.append(build(full()))
            for h in inc:
                if h in hdrs:
                    st[h][1] += 1
                    missing.discard(h)
                    ops.append(dict(op="edit", f=h, c=st[h][0], v=st[h][1], inc=[]))
                    ops.append(build(full()))
                    break
        for _ in range(r.choice([0, 1, 1, 1, 2, 3])):
            k = r.random()
            if k < 0.42:
                f = r.choice(srcs + hdrs)
                c, v, inc = st[f]
                m = r.random()
                if dyn and r.random() < 0.4:
                    m = 1
                if m < 0.4:
                    v += 1
                elif m < 0.75:
                    c += 1
                elif f in srcs:
                    inc = incs(f)
                st[f] = [c, v, inc]
                missing.discard(f)
                ops.append(dict(op="edit", f=f, c=c, v=v, inc=inc))
            elif k < 0.55:
                f = r.choice([x for x in srcs + hdrs if x not in missing])
                ops.append(dict(op="touch", f=f))
            elif k < 0.68:
                gens = {e["id"]: e for e in graphs[gi]["edges"]}
                o = [o for e in gens.values() if not e["phony"] and not e["generator"] for o in e["outs"]]
                ops.append(dict(op=r.choice(["rm", "rm", "touch"]), f=r.choice(o)))
            elif k < 0.72 and hdrs:
                h = r.choice(hdrs)
                if h not in missing:
                    ops.append(dict(op="rm", f=h))
                    missing.add(h)
                    # somebody who includes it usually stops doing so
                    if r.random() < 0.7:
                        for s in srcs:
                            if h in st[s][2]:
                                st[s][2] = [x for x in st[s][2] if x != h]
                                ops.append(dict(op="edit", f=s, c=st[s][0], v=st[s][1], inc=st[s][2]))
            elif k < 0.9 and len(graphs) > 1:
                gi = r.choice([i for i in range(len(graphs)) if i != gi])
                ops.append(dict(op="switch", g=gi))
        ids = [e["id"] for e in graphs[gi]["edges"] if not e["phony"]]
        if kind == "fail" and r.random() < 0.7:
            ops.append(build(fail=r.sample(ids, min(len(ids), r.choice([1, 1, 2]))), k=r.choice([1, 1, 2, 3, 0]),
                             j=r.choice([1, 1, 1, 2, 4])))
            if r.random() < 0.6:
                ops.append(build(full() if r.random() < 0.7 else None))
        elif kind == "crash" and r.random() < 0.7:
            m = r.random()
            if m < 0.45:
                b = build(full() if r.random() < 0.5 else None)
                b["kill"] = r.randint(0, 60)
                b["sleep"] = {i: r.randint(0, 25) for i in ids}
                ops.append(b)
            if m > 0.35:
                ops.append(dict(op="lose", log=r.choice(["keep", "cut", "tear", "tear", "rm", "zero"]),
                                deps=r.choice(["keep", "cut", "cut", "rm", "zero"]),
                                x=r.random(), y=r.random()))
            ops.append(build(full() if r.random() < 0.8 else None))
            if r.random() < 0.6:
                ops.append(build())
        else:
            ops.append(build())
        if r.random() < 0.35 and kind != "fail":
            ops.append(build(full()))
            ops.append(build(full(), j=1))
    files = sorted(set(srcs + hdrs + [x for g in graphs for e in g["edges"] for x in e["outs"]]))
    return dict(graphs=graphs, srcs=srcs, hdrs=hdrs, files=files, ops=ops, kind=kind)


# ---------------------------------------------------------------- execution
def manifest(g, srcs, helper, logf):
    o = ["ninja_required_version = 1.7.1"]
    for p in g["pools"]:
        o += ["pool %s" % p["name"], "  depth = %d" % p["depth"]]
    for e in g["edges"]:
        if e["phony"]:
            o.append("build %s: phony %s%s" % (e["outs"][0], " ".join(e["ins"] + e["imp"]),
                                               " || " + " ".join(e["oo"]) if e["oo"] else ""))
            continue
        opts = "x" + ("r" if e["restat"] else "") + ("c" if e["coarse"] else "") + ("i" if e["deps"] else "") + ("b" if e["blind"] else "") + ("s" if len(e["id"]) + ord(e["id"][-1]) & 1 else "")
        cmd = "%s %s %s %s %s" % (helper, logf, e["id"], "g" if e["generator"] else "v%d" % e["ver"], opts)
        cmd += "".join(" -o " + x for x in e["outs"])
        cmd += "".join(" -r " + x for x in e["ins"] + e["imp"] if not x.startswith("p"))
        if e["generator"]:
            cmd += " -V %d" % e["ver"]
        if e["deps"]:
            cmd += " -d " + e["id"] + ".d"
        o += ["rule r_" + e["id"], "  command = " + cmd]
        if e["restat"]:
            o.append("  restat = 1")
        if e["generator"]:
            o.append("  generator = 1")
        if e["deps"]:
            o.append("  depfile = %s.d" % e["id"])
        if e["deps"] == "gcc":
            o.append("  deps = gcc")
        if e["pool"]:
            o.append("  pool = " + e["pool"])
        o.append("build %s: r_%s %s%s%s" % (" ".join(e["outs"]), e["id"], " ".join(e["ins"]),
                                            " | " + " ".join(e["imp"]) if e["imp"] else "",
                                            " || " + " ".join(e["oo"]) if e["oo"] else ""))
    return "\n".join(o) + "\n"


def execute(sc, scn, aspects):
    d = sc.fresh()
    helper = sc.helpers["edgecmd"]
    logf = d + "/log"
    P = lambda f: d + "/" + f
    ev = []

    def tick():
        # wait until the file system's clock has moved past every file
        newest = 0
        for f in os.listdir(d):
            try:
                newest = max(newest, os.stat(P(f)).st_mtime_ns)
            except OSError:
                pass
        t = P(".tick")
        while True:
            with open(t, "w") as f:
                f.write("x")
            if os.stat(t).st_mtime_ns > newest:
                break
            time.sleep(0.001)
        os.unlink(t)

    gi = 0
    sc.write(P("build.ninja"), manifest(scn["graphs"][0], scn["srcs"], helper, logf))
    for op in scn["ops"]:
        k = op["op"]
        if k == "edit":
            tick()
            txt = "%s:%d:%d\n%s\n" % (op["f"], op["c"], op["v"],
                                      "inc " + " ".join(op["inc"]) if op["inc"] else "src")
            sc.write(P(op["f"]), txt)
            ev.append(dict(ev="edit", f=op["f"], c=op["c"], v=op["v"], inc=op["inc"]))
        elif k == "touch":
            if os.path.exists(P(op["f"])):
                tick()
                os.utime(P(op["f"]))
                # utime(NOW) is taken from the same clock as file writes
                ev.append(dict(ev="touch", f=op["f"]))
        elif k == "rm":
            if os.path.exists(P(op["f"])):
                os.unlink(P(op["f"]))
                ev.append(dict(ev="rm", f=op["f"]))
        elif k == "switch":
            gi = op["g"]
            sc.write(P("build.ninja"), manifest(scn["graphs"][gi], scn["srcs"], helper, logf))
            ev.append(dict(ev="switch", g=gi + 1))
        elif k == "lose":
            for name, how, x in ((".ninja_log", op["log"], op["x"]), (".ninja_deps", op["deps"], op["y"])):
                p = P(name)
                if not os.path.exists(p) or how == "keep":
                    continue
                if how == "rm":
                    os.unlink(p)
                    continue
                data = open(p, "rb").read()
                if how == "cut":
                    data = data[:int(len(data) * x)]
                elif how == "tear":      # the last record ends within the output's name
                    lines = data.split(b"\n")[:-1] or [b""]
                    n = 1 + int((len(lines) - 1) * x)
                    tail = (lines or [b""])[min(n, len(lines) - 1)]
                    at = tail.rfind(b"\t")
                    back = min(at, int(op["y"] * 3))
                    data = b"\n".join(lines[:n]) + b"\n" + tail[:at - back]
                elif how == "zero":
                    data = b""
                elif how == "junk":      # a torn write: the tail never reached the disk
                    n = int(len(data) * x)
                    data = data[:n] + b"\0" * min(64, len(data) - n)
                sc.write(p, data)
            ev.append(dict(ev="lose"))
        elif k == "build":
            tick()
            if os.path.exists(logf):
                os.unlink(logf)
            env = {"EDGE_FAIL": "," + ",".join(op["fail"]) + ",",
                   "EDGE_SLEEP": "," + ",".join("%s=%d" % x for x in op["sleep"].items()) + ","}
            argv = [sc.muon, "samu", "-j%d" % op["j"], "-k%d" % op["k"]] + op["t"]
            ev.append(dict(ev="begin", t=op["t"], j=op["j"], k=op["k"] or 1000, fail=op["fail"]))
            killed = False
            if "kill" in op:
                p = sc.popen(argv, d, env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                try:
                    p.wait(op["kill"] / 1000.0)
                except subprocess.TimeoutExpired:
                    killpg(p)
                    p.wait()
                    killed = True
                rc, out = p.returncode, ""
            else:
                rc, out, _ = sc.run(argv, d, env, timeout=60)
            lines = open(logf).read().split("\n")[:-1] if os.path.exists(logf) else []
            for ln in lines:
                w = ln.split()
                if w[0] == "S":
                    ev.append(dict(ev="S", id=w[1]))
                else:
                    ev.append(dict(ev="E", id=w[1], rc=int(w[2])))
            obs = []
            for e in scn["graphs"][gi]["edges"]:
                for o in e["outs"]:
                    try:
                        obs.append([o, open(P(o)).read().rstrip("\n")])
                    except OSError:
                        pass
            if killed:
                ev.append(dict(ev="kill", files=obs))
            else:
                ev.append(dict(ev="done", rc=999 if rc is None else abs(rc), files=obs, out=out[-400:] if rc else ""))
    shutil.rmtree(d, ignore_errors=True)
    return dict(graphs=scn["graphs"], files=scn["files"], aspects=aspects, events=ev)


def describe(tr):
    t = dict(tr, aspects=tr["aspects"] + ["verbose"])
    out = tlc_print("NinjaTrace", [t], "AT")
    n = max([int(x) for x in re.findall(r'<<"AT", 1, (\d+)>>', out)] or [0])
    e = tr["events"]
    begin = max([i for i in range(min(n + 1, len(e))) if e[i]["ev"] == "begin"] or [0])
    return "Not allowed: event %d %s (build: %s)" % (
        n, json.dumps({k: v for k, v in e[n].items() if k != "files"}) if n < len(e) else "?", json.dumps(e[begin]))


KINDS = {"P01": ("plain", ["order"]), "P02": ("plain", ["must"]), "P03": ("plain", ["min"]),
         "P04": ("fail", ["fail"]), "P05": ("crash", ["must"])}


def run(ctx):
    kind, aspects = KINDS[ctx.pid]
    for w in ((1, 2, 3) if not ctx.thorough else (1, 2, 3)):
        ctx.mc("NinjaMC", MC_CFG % (2 if ctx.thorough else 1, w))
    n = int(os.environ.get('VF_N') or (2500 if ctx.thorough else 320))
    scns = []
    for i in range(n):
        r = ctx.rng(i)
        k = kind
        if ctx.pid == "P01" and i % 4 == 0:
            k = "fail"
        scns.append(gen_scenario(r, k, r.randint(3, 9 if ctx.thorough else 6)))
    with Scratch(["edgecmd"]) as sc:
        conform(ctx, "NinjaTrace", scns, lambda s: execute(sc, s, aspects), describe, chunk=20)
    ctx.cov["builds"] = sum(1 for s in scns for o in s["ops"] if o["op"] == "build")
    ctx.assumptions += ["commands write each output atomically, deterministically from their declared and discovered inputs",
                        "file timestamps are strictly ordered between user actions and builds (the driver waits for a clock tick)"]
