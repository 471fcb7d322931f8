"""P20, P21: custom targets, generators, run targets and aliases: what their
commands are run with and when they are run."""
import copy, json, os, re, shutil, time
from .common import Scratch, conform, tlc_print

SRC = ["a.txt", "b 1.txt", "sub/c.in", "d$e.f", "x.tar.gz", "noext", "w'q.t", "tree/p/a.g", "tree/q r/b.g", "tree/c.g", "h#i.t", "k(1).t"]
HDR = ["inc/h1.h", "inc/h2.h", "inc/h3.h"]
SCRIPTS = ["s1.sh", "bin/s2.sh", "s 3.sh"]
ODD = ["*", "?", "a;b", "a|b", "(", ")", "`id`", "~", "a\tb", "!", "{a,b}", "[i]n", "a=b", "%", "a^b", ":", ",", "+", "-n", "--", "a$b", "$$",
       "$in", "${out}", "a\\b", '"', "'", "x\ny", "", " ", "a b", "a  b ", "#c", "&", ">z", "<a.txt", "ünï", "'\"'", "\\", "\\\\n", "a\nb\n", "x" * 200,
       "-f", "@", "@@", "user@host", "@INPUTX@", "a@b@c", "$(id)", "\\\"", "~/x", "a'b'c", "\r", "\x7f"]
NAMES = ["t%d", "t %d", "t/%d", "t$%d", "t.%d", "t'%d"]
PLAIN = ["v1", "v2", "one", "two", "-x", "k=v"]


def q(s):
    return "'" + s.replace("\\", "\\\\").replace("'", "\\'").replace("\n", "\\n").replace("\r", "\\r").replace("\t", "\\t").replace("\x7f", "\\x7f") + "'"


def uses(us):
    """the units others refer to"""
    res = set()
    for u in us:
        for x in u["ins"] + u["deps"] + u["cmd"] + [u["prog"]]:
            res.add(x.get("uid"))
            if x["t"] == "g" and "deps" in x:
                res |= {y.get("uid") for y in x["deps"] + [x["prog"]]}
    return res


class Gen:
    def __init__(self, r, hist):
        self.r, self.hist = r, hist
        self.n = 0
        self.g = 0

    def uid(self):
        self.n += 1
        return "u%d" % self.n

    def src(self, place):
        """source files of a place, as absolute paths"""
        return [DIRS[place] + "/" + f for f in SRC]

    def string(self, u):
        """a string in a command"""
        r = self.r
        ni, no = u["nins"], len(u["outs"])
        keys = ["@SOURCE_ROOT@", "@BUILD_ROOT@", "@CURRENT_SOURCE_DIR@"]
        if u["k"] == "custom":
            keys += ["@OUTDIR@", "@PRIVATE_DIR@"]
        if u["k"] == "gen":
            keys += ["@BUILD_DIR@"] * 2
        if ni:
            keys += ["@INPUT%d@" % r.randrange(ni)] * 3
        if ni == 1:
            keys += ["@INPUT@", "@PLAINNAME@", "@BASENAME@"]
        if no:
            keys += ["@OUTPUT%d@" % r.randrange(no)] * 3
        if no == 1:
            keys += ["@OUTPUT@"]
        if u["depfile"]:
            keys += ["@DEPFILE@"] * 3
        c = r.random()
        if c < 0.3:
            return r.choice(keys)
        if c < 0.5:
            return "".join(r.choice([r.choice(keys), r.choice(["-o", "=", "a b", "x", ":", "@", "@Q@", "--i="])]) for _ in range(r.choice([2, 3, 4])))
        if c < 0.6:
            return r.choice(PLAIN)
        return r.choice(ODD)

    def ref(self, place, units, wide=False):
        r = self.r
        vis = [u for u in units if u["k"] == "custom" and (u["place"] == place or place != "sp")]
        if vis and r.random() < 0.5:
            u = r.choice(vis)
            if r.random() < 0.4:
                return dict(t="o", uid=u["uid"], i=r.randrange(len(u["outs"])) + 1)
            return dict(t="a", uid=u["uid"])
        return dict(t="s", p=r.choice(self.src(place)), how=r.choice(["str", "file"]))

    def nrefs(self, refs, units):
        by = {u["uid"]: u for u in units}
        n = 0
        for x in refs:
            n += len(by[x["uid"]]["outs"]) if x["t"] == "a" else len(x["files"]) * len(x["outs"]) if x["t"] == "g" else 1
        return n

    def env(self):
        r = self.r
        form = r.choice(["none", "none", "dict", "list", "obj"])
        ops = []
        if form == "none":
            return form, ops
        ks = ["VF_A", "VF_B", "VF_C"]
        vals = ["v", "a b", "", "x=y", "$z", "'", "a\nb", "*", "w;x"]
        if form == "obj":
            for _ in range(r.choice([1, 2, 3])):
                ops.append(dict(op=r.choice(["set", "append", "prepend"]), key=r.choice(ks), vals=[r.choice(vals) for _ in range(r.choice([1, 1, 2]))],
                                sep=r.choice([":", ":", ";", ", "])))
        else:
            for k in r.sample(ks, r.choice([1, 2])):
                ops.append(dict(op="set", key=k, vals=[r.choice(vals)], sep=":"))
        return form, ops

    def prog(self, place, units):
        r = self.r
        c = r.random()
        sc = [u for u in units if u["k"] == "custom" and u["script"] and (u["place"] == place or place != "sp")]
        if sc and c < 0.5:
            return dict(t="a", uid=r.choice(sc)["uid"], how="tgt")
        if c < 0.75:
            return dict(t="g", how=r.choice(["find", "str"]))
        return dict(t="s", p=DIRS[place] + "/" + r.choice(SCRIPTS), how=r.choice(["find", "file"]))

    def base(self, k, place):
        return dict(uid=self.uid(), k=k, place=place, ins=[], outs=[], prog=dict(t="g", how="find"), cmd=[], capture=False, feed=False, console=False,
                    depfile="", env=[], envform="none", deps=[], stale=False, default=False, keep=False, dyn=[], script=False, extra=[], nins=0)

    def unit(self, place, units):
        r = self.r
        k = r.choices(["custom", "run", "alias"], [8, 1.5, 1.2 if units else 0])[0]
        u = self.base(k, place)
        u["name"] = r.choice(NAMES) % self.n
        vis = [x for x in units if x["place"] == place or place != "sp"]
        if k == "alias":
            u["name"] = "al%d" % self.n
            vis = [x for x in vis if not (x["k"] == "run" and x["place"] == "sp" and False)]
            if not vis:
                return self.unit(place, units)
            u["units"] = [x["uid"] for x in r.sample(vis, min(len(vis), r.choice([1, 2, 3])))]
            return u
        u["prog"] = self.prog(place, units)
        if k == "custom":
            for _ in range(r.choice([0, 1, 1, 1, 2, 3])):
                if r.random() < 0.2:
                    u["ins"].append(self.gen(place, units))
                else:
                    u["ins"].append(self.ref(place, units))
            u["nins"] = self.nrefs(u["ins"], units)
            n = self.n
            pool = ["o%d.c" % n, "p %d.h" % n, "q$%d" % n, "r%d.x.y" % n]
            if u["nins"] == 1:
                pool += ["@BASENAME@.%d" % n, "@PLAINNAME@.%d.z" % n, "l%d-@BASENAME@" % n] * 2
            pool = list(dict.fromkeys(pool))
            u["script"] = r.random() < 0.12
            u["outs"] = r.sample(pool, 1 if u["script"] else r.choice([1, 1, 1, 2, 3]))
            u["keep"] = not u["script"] and r.random() < 0.3
            u["default"] = r.random() < (0.6 if self.hist else 0.85)
            u["stale"] = r.random() < 0.1
            if r.random() < 0.25:
                u["depfile"] = ("@BASENAME@.%d.d" % n) if u["nins"] == 1 and r.random() < 0.5 else "f%d.d" % n
                u["dyn"] = [DIRS[place] + "/" + x for x in r.sample(HDR, r.choice([1, 2]))]
            if len(u["outs"]) == 1 and not u["script"] and r.random() < 0.2:
                u["capture"] = True
                u["keep"] = False
            if not u["capture"] and r.random() < 0.08:
                u["console"] = True
            if u["nins"] == 1 and r.random() < 0.2:
                u["feed"] = True
        for _ in range(r.choice([0, 0, 0, 1, 2])):
            x = self.ref(place, units)
            if k == "run" and x["t"] != "a":
                continue
            if x["t"] == "o":
                x = dict(t="a", uid=x["uid"])
            u["deps"].append(x)
        u["envform"], u["env"] = self.env()
        for _ in range(r.choice([0, 1, 2, 3])):
            c = r.random()
            if c < 0.72:
                u["cmd"].append(dict(t="s", v=self.string(u)))
            elif c < 0.84:
                u["cmd"].append(dict(t="f", p=r.choice(self.src(place))))
            elif u["ins"] and c < 0.9:
                u["cmd"].append(dict(t="s", v="@INPUT@"))
            elif u["outs"] and c < 0.94:
                u["cmd"].append(dict(t="s", v="@OUTPUT@"))
            else:
                x = [y for y in vis if y["k"] == "custom"]
                if x:
                    u["cmd"].append(dict(t="u", uid=r.choice(x)["uid"]))
        return u

    def gen(self, place, units):
        """an input made by a generator"""
        r = self.r
        self.g += 1
        n = self.g
        # the subproject has no build of its own programs
        g = dict(t="g", gid="g%d" % n, outs=r.sample(["@BASENAME@.g%d" % n, "@PLAINNAME@.h%d" % n, "k@BASENAME@.%d.z" % n], r.choice([1, 1, 2])),
                 prog=dict(self.prog(place, units) if r.random() < 0.5 else dict(t="g"), how="find"),
                 depfile="", dyn=[], extra=[], preserve=False, capture=False, deps=[], cmd=[])
        if r.random() < 0.5:
            g["files"] = [DIRS[place] + "/" + f for f in r.sample([f for f in SRC if "/" in f], r.choice([1, 2, 3]))]
            g["preserve"] = r.random() < 0.5
        else:
            g["files"] = [DIRS[place] + "/" + f for f in r.sample(SRC, r.choice([1, 2]))]
        seen = set()
        g["files"] = [f for f in g["files"] if not (stem(os.path.basename(f)) in seen or seen.add(stem(os.path.basename(f))))]
        if r.random() < 0.3:
            g["depfile"] = "@BASENAME@.%d.d" % n
            g["dyn"] = [DIRS[place] + "/" + x for x in r.sample(HDR, 1)]
        if len(g["outs"]) == 1 and r.random() < 0.25:
            g["capture"] = True
        if r.random() < 0.35:
            g["extra"] = [r.choice(ODD) for _ in range(r.choice([1, 2]))]
            g["extra"] = [x for x in g["extra"] if "\n" not in x] or ["e"]
        vis = [x for x in units if x["k"] == "custom" and (x["place"] == place or place != "sp")]
        if vis and r.random() < 0.4:
            g["deps"] = [dict(t="a", uid=x["uid"]) for x in r.sample(vis, min(len(vis), r.choice([1, 1, 2])))]
        t = dict(k="gen", nins=1, outs=g["outs"], depfile=g["depfile"])
        for _ in range(r.choice([0, 1, 2])):
            g["cmd"].append(dict(t="s", v=self.string(t)))
        if g["extra"] or r.random() < 0.2:
            g["cmd"].insert(r.randint(0, len(g["cmd"])), dict(t="s", v="@EXTRA_ARGS@"))
        return g

    def spoil(self, units):
        """make one declaration invalid (mostly)"""
        r = self.r
        us = [u for u in units if u["k"] in ("custom", "run")]
        if not us:
            return
        u = r.choice(us)
        kind = r.choice(["key", "key", "key", "out", "capture", "feed", "console", "missing", "depfile", "outkey"])
        if kind == "key":
            c = ["@INPUT%d@" % (u["nins"] + r.choice([0, 1, 7])), "@OUTPUT%d@" % (len(u["outs"]) + r.choice([0, 0, 3]))]
            if not u["depfile"]:
                c.append("@DEPFILE@")
            if u["nins"] != 1:
                c += ["@PLAINNAME@", "x@BASENAME@"]
            if not u["nins"]:
                c += ["@INPUT@", "a@INPUT@"]
            if not u["outs"]:
                c += ["@OUTPUT@", "a@OUTPUT@", "@OUTDIR@"]
            u["cmd"].append(dict(t="s", v=r.choice(c)))
        elif u["k"] == "run":
            return
        elif kind == "out":
            u["outs"][0] = "d/" + u["outs"][0]
        elif kind == "capture":
            u["capture"], u["outs"], u["console"] = True, u["outs"] + ["zz%s" % u["uid"]], False
        elif kind == "feed":
            u["feed"] = True
        elif kind == "console":
            u["capture"] = u["console"] = True
        elif kind == "missing":
            u["ins"].append(dict(t="s", p=DIRS[u["place"]] + "/missing", how="str"))
        elif kind == "depfile":
            u["depfile"] = "@BASENAME@.d"
        else:
            u["outs"][0] = u["outs"][0] + r.choice(["@BASENAME@", "@FOO@"])

    def scenario(self):
        r = self.r
        units = []
        n = r.choice([2, 3, 4, 5, 6, 8]) if self.hist else r.choice([1, 2, 3, 4])
        places = []
        for p, c in (("sp", 0.25), ("A", 1), ("sd", 0.4), ("B", 0.5)):
            if r.random() < c:
                places.append(p)
        cuts = sorted(r.choice(range(len(places))) for _ in range(n))
        for c in cuts:
            units.append(self.unit(places[c], units))
        s = dict(bdir=r.choice(["/R/src/b", "/R/src/b", "/R/bld d"]), outer={"VF_A": "outer"}, jobs=r.choice([1, 4, 4]),
                 modes=[r.random() < 0.6 for _ in range(9)])
        if not self.hist and r.random() < 0.22:
            self.spoil(units)
        s["units"] = units
        s["hist"] = self.history(s) if self.hist else [dict(k="build", targets="all", fail=[])]
        return s

    def history(self, s):
        r = self.r
        h = []
        for i in range(r.choice([3, 4, 6, 8])):
            c = r.random()
            if i == 0 or c < 0.36:
                h.append(dict(k="build", targets=r.choice(["", "", "all", "some"]), x=r.random(), y=r.random(), n=r.choice([1, 2]),
                              fail=r.random() if r.random() < 0.15 else None))
            elif c < 0.62:
                h.append(dict(k="edit", x=r.random(), touch=r.random() < 0.15, n=r.choice([1, 1, 2])))
            elif c < 0.72:
                h.append(dict(k="rm", x=r.random()))
            else:
                h.append(dict(k="conf", what=r.choice(["arg", "arg", "env", "env", "first", "first", "drop", "flag", "in", "swap", "none", "out"]), x=r.random(),
                              seed=r.randrange(1 << 30), setup=r.random() < 0.3))
                if r.random() < 0.7:
                    h.append(dict(k="build", targets=r.choice(["", "all", "all", "some"]), x=r.random(), y=r.random(), n=1, fail=None))
        h.append(dict(k="build", targets="all", fail=None))
        h.append(dict(k="build", targets="all", fail=None))
        return h


DIRS = dict(A="/R/src", B="/R/src", sd="/R/src/s d", sp="/R/src/subprojects/sp")


def stem(n):
    return n[:n.rindex(".")] if "." in n else n


class Run:
    def __init__(self, sc, s):
        self.sc, self.s = sc, s
        self.root = sc.fresh()
        self.tok = 0
        self.files = {}
        self.b = s["bdir"]
        self.units = copy.deepcopy(s["units"])

    def real(self, p):
        return re.sub(r"/R(?=/|$)", lambda m: self.root, p)

    def abst(self, p):
        return p.replace(self.root, "/R")

    # ------------------------------------------------------------- the world
    def bcwd(self, place):
        return self.b + DIRS[place][len("/R/src"):]

    def flat(self):
        """units of the specification, in order of declaration, and their paths"""
        out, idx, self.paths = [], {}, {}

        def add(key, w, paths):
            out.append(w)
            idx[key] = len(out)
            self.paths[len(out)] = paths

        def files(refs):
            res = []
            for x in refs:
                res += [x["p"]] if x["t"] == "s" else [self.paths[idx[x["uid"]]]["outs"][x["i"] - 1]] if x["t"] == "o" else self.paths[idx[x["uid"]]]["outs"]
            return res

        def ref(x):
            if x["t"] == "s":
                return dict(t="s", p=x["p"])
            if x["t"] == "g":
                return dict(t="g")
            return dict(t=x["t"], u=idx[x["uid"]], i=x.get("i", 0))

        def cmdref(x):
            return dict(t="u", u=idx[x["uid"]]) if x["t"] == "u" else dict(x)

        def name(t, ins):
            return t.replace("@BASENAME@", stem(os.path.basename(ins[0])) if ins else "").replace("@PLAINNAME@", os.path.basename(ins[0]) if ins else "")

        def script(p):
            return [] if p["t"] == "g" else []

        for u in self.units:
            place = u["place"]
            w = dict(id=u["uid"], k=u["k"], name=u["name"], proj="sp" if place == "sp" else "", cwd=DIRS[place], bcwd=self.bcwd(place), dir=self.bcwd(place),
                     gdir="", default=u["default"], stale=u["stale"], console=u["console"], capture=u["capture"], feed=u["feed"], keep=u["keep"], extra=[])
            if u["k"] == "alias":
                w.update(units=[idx[x] for x in u["units"]])
                add(u["uid"], w, dict(outs=[], reads=[]))
                continue
            ins = []                    # references for the specification
            inp = []
            for x in u["ins"]:
                if x["t"] != "g":
                    ins.append(ref(x))
                    inp += files([x])
                    continue
                gdir = self.bcwd(place) + "/" + u["name"] + ".p"
                for f in x["files"]:
                    d = gdir
                    if x["preserve"]:
                        d = os.path.normpath(gdir + "/" + os.path.dirname(os.path.relpath(f, DIRS[place])))
                    gid = x["gid"] + "-" + os.path.basename(f)
                    o = [os.path.normpath(d + "/" + name(t, [f])) for t in x["outs"]]
                    dep = d + "/" + name(x["depfile"], [f]) if x["depfile"] else ""
                    gw = dict(id=gid, k="gen", name="", proj=w["proj"], cwd=DIRS[place], bcwd=self.bcwd(place), dir=d, gdir=gdir, default=False, stale=False,
                              console=False, capture=x["capture"], feed=False, keep=False, extra=x["extra"], ins=[dict(t="s", p=f)], outs=x["outs"],
                              prog=ref(x["prog"]), cmd=[cmdref(y) for y in x["cmd"]], env=[], deps=[ref(y) for y in x["deps"]], depfile=x["depfile"],
                              dyn=x["dyn"], reads=[f] + files(x["deps"]) + x["dyn"])
                    add(gid, gw, dict(outs=o, dep=dep, reads=gw["reads"], dyn=x["dyn"], kind="-" if x["capture"] else "w"))
                    for i in range(len(o)):
                        ins.append(dict(t="o", u=idx[gid], i=i + 1))
                    inp += o
            o = [os.path.normpath(self.bcwd(place) + "/" + name(t, inp)) for t in u["outs"]]
            reads = inp + [p for x in u["cmd"] for p in ([x["p"]] if x["t"] == "f" else files([dict(t="a", uid=x["uid"])]) if x["t"] == "u" else [])]
            reads += files(u["deps"]) + u["dyn"]
            w.update(ins=ins, outs=u["outs"], prog=ref(u["prog"]), cmd=[cmdref(x) for x in u["cmd"]], env=u["env"],
                     deps=[ref(x) for x in u["deps"]], depfile=u["depfile"], dyn=u["dyn"], reads=reads)
            add(u["uid"], w, dict(outs=o, dep=self.bcwd(place) + "/" + name(u["depfile"], inp) if u["depfile"] else "", reads=reads, dyn=u["dyn"],
                                  kind="-" if u["capture"] else "x" if u["script"] else "k" if u["keep"] else "w", feed=u["feed"]))
        return out

    def world(self):
        us = self.flat()
        return dict(src="/R/src", bdir=self.b, outer=self.s["outer"], units=us, files=sorted(self.files), envkeys=["VF_A", "VF_B", "VF_C", "MESON_SOURCE_ROOT",
                                                                                                                  "MESON_BUILD_ROOT"])

    def configs(self, us, fail):
        for i, w in enumerate(us):
            if w["k"] == "alias":
                continue
            p = self.paths[i + 1]
            L = ["L " + self.root + "/log"] + ["r " + self.real(x) for x in p["reads"]]
            if p["kind"] == "-":
                L.append("O")
            else:
                L += [p["kind"] + " " + self.real(x) for x in p["outs"]]
            if p["dep"]:
                esc = lambda x: self.real(x).replace(" ", "\\ ")
                rel = lambda x: os.path.relpath(x, self.b).replace(" ", "\\ ").replace("$", "$$").replace("#", "\\#")
                L += ["D " + self.real(p["dep"]), "T " + rel(p["outs"][0])] + ["d " + esc(x) for x in p["dyn"]]
            L += ["e " + x for x in ("VF_A", "VF_B", "VF_C", "MESON_SOURCE_ROOT", "MESON_BUILD_ROOT", "MESON_SUBDIR")]
            if p.get("feed"):
                L.append("I")
            if w["id"] in fail:
                L.append("F")
            self.sc.write(self.root + "/cfg/" + w["id"], "\n".join(L) + "\n")

    # ------------------------------------------------------- meson.build text
    def rel(self, p, place):
        return os.path.relpath(p, DIRS[place])

    def mref(self, x, place):
        if x["t"] == "s":
            r = q(self.rel(x["p"], place))
            return "files(%s)" % r if x["how"] == "file" else r
        by = {u["uid"]: u for u in self.units}
        v = x["uid"] if by[x["uid"]]["place"] == place or by[x["uid"]]["place"] != "sp" else "sp.get_variable(%s)" % q(x["uid"])
        return v if x["t"] == "a" else "%s[%d]" % (v, x["i"] - 1)

    def mprog(self, p, place):
        if p["t"] == "g":
            g = q(self.root + "/bin/gencmd")
            return "find_program(%s)" % g if p["how"] == "find" else g
        if p["t"] == "a":
            return self.mref(p, place)
        return ("find_program(%s)" if p["how"] == "find" else "files(%s)") % q(self.rel(p["p"], place))

    def cmd(self, cmd, place):
        return [q(x["v"]) if x["t"] == "s" else self.mref(dict(t="s", p=x["p"], how="file"), place) if x["t"] == "f"
                else self.mref(dict(t="a", uid=x["uid"]), place) for x in cmd]

    def text(self, u):
        place, out = u["place"], []
        v = u["uid"]
        if u["k"] == "alias":
            return ["%s = alias_target(%s, %s)" % (v, q(u["name"]), ", ".join(self.mref(dict(t="a", uid=x), place) for x in u["units"]))]
        if u["envform"] == "obj":
            out.append("e_%s = environment()" % v)
            for o in u["env"]:
                out.append("e_%s.%s(%s, %s, separator: %s)" % (v, o["op"], q(o["key"]), ", ".join(q(x) for x in o["vals"]), q(o["sep"])))
        ins = []
        for x in u["ins"]:
            if x["t"] != "g":
                ins.append(self.mref(x, place))
                continue
            a = [self.mprog(x["prog"], place), "output: [%s]" % ", ".join(q(y) for y in x["outs"]),
                 "arguments: [%s]" % ", ".join([q(x["gid"] + "-@PLAINNAME@")] + self.cmd(x["cmd"], place))]
            if x["depfile"]:
                a.append("depfile: " + q(x["depfile"]))
            if x["capture"]:
                a.append("capture: true")
            if x["deps"]:
                a.append("depends: [%s]" % ", ".join(self.mref(y, place) for y in x["deps"]))
            out.append("%s = generator(%s)" % (x["gid"], ", ".join(a)))
            b = [q(self.rel(f, place)) for f in x["files"]]
            if x["extra"]:
                b.append("extra_args: [%s]" % ", ".join(q(y) for y in x["extra"]))
            if x["preserve"]:
                b.append("preserve_path_from: meson.current_source_dir()")
            ins.append("%s.process(%s)" % (x["gid"], ", ".join(b)))
        a = [q(u["name"])]
        cmd = [self.mprog(u["prog"], place), q(u["uid"])] + self.cmd(u["cmd"], place)
        if u["k"] == "custom":
            a.append("output: [%s]" % ", ".join(q(x) for x in u["outs"]))
            if ins:
                a.append("input: " + (ins[0] if len(ins) == 1 else "[%s]" % ", ".join(ins)))
            for k, kw in (("capture", "capture"), ("feed", "feed"), ("console", "console"), ("default", "build_by_default"), ("stale", "build_always_stale")):
                if u[k]:
                    a.append(kw + ": true")
            if u["depfile"]:
                a.append("depfile: " + q(u["depfile"]))
            fs = [self.mref(x, place) for x in u["deps"] if x["t"] == "s"]
            if fs:
                a.append("depend_files: [%s]" % ", ".join(fs))
        ds = [self.mref(x, place) for x in u["deps"] if x["t"] != "s"]
        if ds:
            a.append("depends: [%s]" % ", ".join(ds))
        a.append("command: [%s]" % ", ".join(cmd))
        if u["envform"] == "obj":
            a.append("env: e_" + v)
        elif u["envform"] == "dict":
            a.append("env: {%s}" % ", ".join("%s: %s" % (q(o["key"]), q(o["vals"][0])) for o in u["env"]))
        elif u["envform"] == "list":
            a.append("env: [%s]" % ", ".join(q(o["key"] + "=" + o["vals"][0]) for o in u["env"]))
        return out + ["%s = %s(%s)" % (v, "custom_target" if u["k"] == "custom" else "run_target", ", ".join(a))]

    def sources(self):
        t = dict(sp=["project('sub p')"], A=["project('main')"], sd=[], B=[])
        have = {u["place"] for u in self.units}
        if "sp" in have or "sp" in self.ever:
            t["A"].append("sp = subproject('sp')")
        for u in self.units:
            t[u["place"]] += self.text(u)
        if "sd" in have or "sd" in self.ever:
            t["A"].append("subdir('s d')")
        out = {"/R/src/meson.build": t["A"] + t["B"]}
        if "sp" in have or "sp" in self.ever:
            out["/R/src/subprojects/sp/meson.build"] = t["sp"]
        if "sd" in have or "sd" in self.ever:
            out["/R/src/s d/meson.build"] = t["sd"]
        self.ever |= have
        return {p: "\n".join(x) + "\n" for p, x in out.items()}

    # ---------------------------------------------------------------- history
    def put(self, p, same=False):
        if not (same and p in self.files):
            self.tok += 1
            self.files[p] = "s%d" % self.tok
        t = self.files[p] + "\n"
        mode = 0o644
        if p.endswith(".sh"):
            t = "#!/bin/sh\nGENCMD_VIA=%s exec %s/bin/gencmd \"$@\"\n%s" % (self.files[p], self.root, t)
            mode = 0o755 if self.s["modes"][sum(map(ord, p)) % 9] else 0o644
        self.sc.write(self.real(p), t, mode)
        return self.files[p]

    def write_project(self):
        changed = False
        for p, t in self.sources().items():
            if self.mtext.get(p) != t:
                changed = True
                self.mtext[p] = t
                self.sc.write(self.real(p), t)
        return changed

    def go(self):
        sc, s, root = self.sc, self.s, self.root
        self.ever, self.mtext = set(), {}
        os.makedirs(root + "/bin")
        os.link(sc.helpers["gencmd"], root + "/bin/gencmd") if False else shutil.copy2(sc.helpers["gencmd"], root + "/bin/gencmd")
        os.chmod(root + "/bin/gencmd", 0o755)
        sc.write(root + "/cfg/unknown", "L %s/log\n" % root)
        places = {u["place"] for u in self.units} | {"A"}
        for d in sorted({DIRS[p] for p in places}):
            for f in SRC + HDR + SCRIPTS:
                self.put(d + "/" + f)
        self.write_project()
        w = self.world()
        tr = dict(files=dict(self.files), events=[], verbose=False)
        rc, out, _ = sc.run([sc.muon, "setup", self.real(self.b)], root + "/src", env=s["outer"], timeout=60)
        tr["events"].append(dict(ev="conf", rc=str(rc), world=w, text=out[-400:]))
        if rc != 0:
            return tr
        for h in s["hist"]:
            time.sleep(0.012)
            getattr(self, "do_" + h["k"])(h, tr)
        return tr

    def outs(self):
        return sorted({o for i in self.paths for o in self.paths[i]["outs"]})

    def pick(self, xs, x):
        xs = list(xs)
        return xs[int(x * len(xs))] if xs else None

    def token(self, p):
        try:
            with open(self.real(p), errors="replace") as f:
                t = f.read().rstrip("\n")
            return t.split("\n")[-1]
        except OSError:
            return "<none>"

    def do_build(self, h, tr):
        w = self.world()
        us = w["units"]
        ids = [x["id"] for x in us if x["k"] != "alias"]
        fail = [self.pick(ids, h["fail"])] if h.get("fail") is not None and ids and not isinstance(h["fail"], list) else []
        self.configs(us, fail)
        names = [os.path.relpath(o, self.b) for i in self.paths for o in self.paths[i]["outs"]]
        names += [x["name"] for x in us if x["k"] == "alias"] + [("sp@@" if x["proj"] else "") + x["name"] for x in us if x["k"] == "run"]
        ts = []
        if h["targets"] == "all":
            ts = names
        elif h["targets"] == "some" and names:
            ts = sorted({self.pick(names, h["x"]), self.pick(names, h["y"])})[:h["n"]]
        log = self.root + "/log"
        if os.path.exists(log):
            os.unlink(log)
        rc, out, _ = self.sc.run([self.sc.muon, "-C", self.real(self.b), "samu", "-j%d" % self.s["jobs"]] + ts, self.root, env=self.s["outer"], timeout=60)
        runs = []
        if os.path.exists(log):
            with open(log, errors="replace", newline="") as f:
                recs = f.read().split("\x1e")
            runs = [self.record(x) for x in recs[:-1]]
        tr["events"].append(dict(ev="build", targets=ts, rc=-1 if rc is None else min(rc, 1), runs=runs, files={o: self.token(o) for o in self.outs()},
                                 text=out[-600:]))

    def record(self, x):
        f = [self.abst(y) for y in x.split("\x1f")]
        it = iter(f)
        r = dict(id=next(it), cwd=next(it), via=next(it))
        r["args"] = [next(it) for _ in range(int(next(it)))]
        r["env"] = {}
        for _ in range(int(next(it))):
            k = next(it)
            r["env"][k] = next(it)
        r["reads"] = [next(it) for _ in range(int(next(it)))]
        r["stdin"] = next(it)
        r["c"] = next(it)
        r["fail"] = next(it) == "1"
        return r

    def do_edit(self, h, tr):
        used = sorted({p for i in self.paths for p in self.paths[i]["reads"] if p in self.files}
                      | {u["prog"]["p"] for u in self.units if u["k"] != "alias" and u["prog"]["t"] == "s"}
                      | {x["prog"]["p"] for u in self.units for x in u["ins"] if x["t"] == "g" and x["prog"]["t"] == "s"})
        for k in range(h["n"]):
            p = self.pick(used, (h["x"] + k * 0.37) % 1)
            if p:
                tr["events"].append(dict(ev="edit", p=p, c=self.put(p, h["touch"])))

    def do_rm(self, h, tr):
        p = self.pick([o for o in self.outs() if os.path.exists(self.real(o))], h["x"])
        if p:
            os.unlink(self.real(p))
            tr["events"].append(dict(ev="rm", p=p))

    def do_conf(self, h, tr):
        import random
        r = random.Random(h["seed"])
        g = Gen(r, True)
        g.n = g.g = 100 + len(tr["events"]) * 10
        us = self.units
        real = [u for u in us if u["k"] != "alias"]
        u = self.pick(real, h["x"])
        w = h["what"]
        if w == "first":
            n = g.unit("A", [])
            i = next((i for i, x in enumerate(us) if x["place"] != "sp"), len(us))
            us.insert(i, n)
        elif w == "drop":
            used = uses(us) | {z for y in us for z in y.get("units", [])}
            x = self.pick([y for y in us if y["uid"] not in used], h["x"])
            if x and len(us) > 1:
                us.remove(x)
        elif u is None:
            pass
        elif w == "arg":
            if u["cmd"] and r.random() < 0.6:
                k = r.randrange(len(u["cmd"]))
                u["cmd"][k] = dict(t="s", v=g.string(u))
            else:
                u["cmd"].append(dict(t="s", v=r.choice(ODD)))
        elif w == "env":
            u["envform"], u["env"] = g.env()
        elif w == "flag":
            if u["k"] == "custom":
                k = r.choice(["default", "stale"])
                u[k] = not u[k]
        elif w == "in":
            if u["k"] == "custom":
                u["deps"].append(dict(t="s", p=r.choice(g.src(u["place"])), how="file"))
        elif w == "swap":
            if len(u["cmd"]) > 1:
                u["cmd"].reverse()
        elif w == "out":
            if u["k"] == "custom" and not u["capture"] and u["uid"] not in uses(us):
                u["outs"] = u["outs"] + ["extra%d.o" % g.n]
                u["cmd"] = [x for x in u["cmd"] if "@OUTPUT@" not in x.get("v", "") or x["v"] == "@OUTPUT@"]
        self.write_project()
        rc = ""
        if h["setup"]:
            rc, out, _ = self.sc.run([self.sc.muon, "setup", self.real(self.b)], self.root + "/src", env=self.s["outer"], timeout=60)
            rc = str(rc)
        tr["events"].append(dict(ev="conf", rc=rc, world=self.world()))


def execute(sc, s):
    r = Run(sc, s)
    try:
        return r.go()
    finally:
        if not os.environ.get("VF_KEEP"):
            shutil.rmtree(r.root, ignore_errors=True)


def describe(tr):
    out = tlc_print("CustomTrace", [dict(tr, verbose=True)], "AT")
    at = re.findall(r'<<\s*"AT",\s*(\d+),(.*?)(?=<<\s*"AT"|Model checking|Progress|Finished|\Z)', out, re.S)
    if not at:
        return "event 1: %s" % json.dumps(tr["events"][0])[:500]
    i, what = at[-1]
    ev = tr["events"][int(i) - 1]
    return "event %s (%s): %s; text: %s" % (i, ev["ev"], re.sub(r"\s+", " ", what)[:2500], ev.get("text", "")[-300:])


MC_CFG = """SPECIFICATION Spec
CONSTANT MaxClock = %d
INVARIANTS Fresh Idem Live Order
CHECK_DEADLOCK FALSE
"""


def run(ctx):
    os.umask(0o022)
    hist = ctx.pid == "P21"
    ctx.mc("CustomMC", MC_CFG % (13 if ctx.thorough else 10 + hist), timeout=850)
    n = int(os.environ.get("VF_N") or (500 if hist else 1200) * (8 if ctx.thorough else 1))
    scns = [Gen(ctx.rng(i), hist).scenario() for i in range(n)]
    with Scratch(["gencmd"]) as sc:
        conform(ctx, "CustomTrace", scns, lambda s: execute(sc, s), describe, chunk=max(5, n // 16))
    ctx.cov["declarations"] = sum(len(s["units"]) for s in scns)
