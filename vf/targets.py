"""P22-P24: build targets: what sources are compiled with, what targets are
linked from, what they are called and what is built."""
import json, os, re, shutil
from .common import Scratch, conform, tlc_print

SP = "subprojects/sp"
FILES = {"": ["a.c", "b.c", "c.c", "d.c", "m.c", "p.cpp", "q.cpp", "x/m.c", "x/n.c", "sub/x/m.c"],
         "sub": ["a.c", "b.c", "m.c", "p.cpp", "x/m.c"],
         SP: ["a.c", "b.c", "p.cpp", "x/m.c", "x/n.c"]}
DIRS = {"": ["inc", "i2", "x", "sub"], "sub": ["inc", "x"], SP: ["inc", "x"]}
OVER = [("buildtype", ["plain", "debug", "debugoptimized", "release", "minsize", "custom"]), ("optimization", ["plain", "0", "g", "1", "2", "3", "s"]),
        ("debug", ["true", "false"]), ("warning_level", ["0", "1", "2", "3"]), ("werror", ["true", "false"]),
        ("c_std", ["none", "c99", "c11", "gnu17"]), ("cpp_std", ["none", "c++11", "c++17"]), ("b_ndebug", ["true", "false", "if-release"]),
        ("b_pie", ["true", "false"]), ("b_staticpic", ["true", "false"])]


def lang(f):
    return "cpp" if f.endswith(".cpp") else "c"


def join(a, b):
    return a + "/" + b if a and b else a or b


class Gen:
    def __init__(self, r, part):
        self.r, self.part = r, part
        self.n = 0
        self.langs = {"S:" + join(d, f): lang(f) for d in FILES for f in FILES[d]}

    def name(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def pick(self, xs, ks=(0, 1, 2)):
        xs = list(xs)
        return self.r.sample(xs, min(len(xs), self.r.choice(ks)))

    def mark(self, p):
        self.n += 1
        return "-%s%s%d" % (p, self.r.choice(["a", "b", "q'", "s p", "d$", "e=\"1\""]) if self.r.random() < 0.15 else "m", self.n)

    def marks(self, p, ks=(0, 0, 1, 2)):
        return [self.mark(p) for _ in range(self.r.choice(ks))]

    def incs(self, d, vis):
        r = self.r
        res = []
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            i = [s["name"] for s in vis if s["k"] == "inc"]
            res.append(dict(t="i", v=r.choice(i)) if i and r.random() < 0.6 else dict(t="s", v=r.choice(DIRS[d])))
        return res

    def common(self, d, pr, vis):
        r = self.r
        libs = [s["name"] for s in vis if s["k"] == "tgt" and s["kind"] not in ("exe", "module")]
        static = [s["name"] for s in vis if s["k"] == "tgt" and s["kind"] == "static"]
        deps = [s["name"] for s in vis if s["k"] in ("dep", "assys", "partial", "none")]
        link = self.part != "P22"
        return dict(d=d, pr=pr, langs=["c"], with_=self.pick(libs, (0, 1, 1, 2, 3) if link else (0, 0, 1)),
                    whole=self.pick(static, (0, 0, 0, 1, 2) if link else (0, 0, 0, 0, 1)), deps=self.pick(deps, (0, 1, 1, 2)),
                    largs=self.marks("L"), incs=self.incs(d, vis), gens=self.pick([s["name"] for s in vis if s["k"] == "gen"], (0, 0, 1)))

    def objs(self, vis, srcs):
        r = self.r
        t = [s for s in vis if s["k"] == "tgt" and s["kind"] != "both" and (s["srcs"] or s["objs"])]
        if not t or r.random() < 0.85:
            return []
        o = r.choice(t)
        if r.random() < 0.5 or not o["srcs"]:
            return [dict(of=o["name"], all=True, rec=r.random() < 0.5, srcs=[])]
        return [dict(of=o["name"], all=False, rec=False, srcs=r.sample(o["srcs"], r.randint(1, len(o["srcs"]))))]

    def stmt(self, d, pr, vis):
        r = self.r
        k = r.choices(["inc", "dep", "assys", "partial", "none", "gen", "tgt"], [2, 5, 0.7, 0.7, 0.4, 1.2, 8])[0]
        deps = [s["name"] for s in vis if s["k"] in ("dep", "assys", "partial", "none")]
        if k in ("assys", "partial") and not deps:
            k = "dep"
        if k == "inc":
            return dict(k=k, name=self.name("i"), d=d, pr=pr, dirs=self.pick(DIRS[d], (1, 1, 2)), sys=r.random() < 0.35)
        if k == "none":
            return dict(k=k, name=self.name("z"), d=d, pr=pr)
        if k == "assys":
            return dict(k=k, name=self.name("y"), d=d, pr=pr, of=r.choice(deps), sys=r.random() < 0.7)
        if k == "partial":
            return dict(k=k, name=self.name("h"), d=d, pr=pr, of=r.choice(deps),
                        parts=[p for p in ("compile_args", "includes", "link_args", "links", "sources") if r.random() < 0.5])
        if k == "gen":
            n = self.name("g")
            src = r.random() < 0.4
            out = r.choice([n + ".c"] * 3 + ["m.c"]) if src else n + r.choice([".h", ".h", ".inc"])
            if "B:" + join(d, out) in self.langs:
                out = n + ".c"
            if src:
                self.langs["B:" + join(d, out)] = lang(out)
            return dict(k=k, name=n, d=d, pr=pr, out=out, src=src)
        c = self.common(d, pr, vis)
        if k == "dep":
            pool = ["S:" + join(d, f) for f in FILES[d]]
            return dict(c, k=k, name=self.name("e"), cargs=self.marks("D", (0, 1, 1, 2)), srcs=self.pick(pool, (0, 0, 0, 0, 1)), objs=self.objs(vis, []))
        kind = r.choices(["exe", "static", "shared", "module", "both"], [5, 5, 4, 0.7, 0.8])[0]
        n = self.name("t")
        here = ["S:" + join(d, f) for f in FILES[d]]
        srcs = self.pick(here, (1, 1, 1, 2, 2, 3, 4))
        if d == "sub" and r.random() < 0.15:
            srcs += self.pick(["S:x/m.c", "S:a.c", "S:x/n.c"], (1, 1, 2))
        objs = self.objs(vis, srcs)
        if objs and r.random() < 0.2:
            srcs = []
        ver = kind in ("shared", "both") and r.random() < 0.5
        odd = self.part == "P24"
        tname = n
        if odd and r.random() < 0.2:
            tname = r.choice(["%s.x", "%s+y", "%s-z", "a %s", "%s$"]) % n
        return dict(c, k=k, name=n, tname=tname, kind=kind, srcs=srcs, cargs=self.marks("D"), cppargs=self.marks("D", (0, 0, 1)), impl=r.random() < 0.8, objs=objs,
                    dflt=r.random() < (0.6 if odd else 0.85), over=[[o, r.choice(v)] for o, v in r.sample(OVER, r.choice([0, 0, 1, 2]))],
                    pic=r.choice(["true", "false" if kind in ("exe", "static") else "true"]) if r.random() < 0.15 else "unset",
                    pie=r.choice(["true" if kind == "exe" else "false", "false"]) if r.random() < 0.15 else "unset",
                    vis=r.choice(["", "", "", "default", "hidden", "internal", "protected"]),
                    ver=[str(r.randrange(20)) for _ in range(r.choice([1, 2, 3]))] if ver and r.random() < 0.7 else [],
                    sover=str(r.randrange(9)) if ver and r.random() < 0.5 else "",
                    prefix=r.choice(["", "pre", "lib_"]) if odd and r.random() < 0.2 else "-", suffix=r.choice(["xyz", "so.1", "o2"]) if odd and kind != "both" and r.random() < 0.15 else "-",
                    expdyn=kind == "exe" and r.random() < 0.15, rpath=r.choice(["/opt/r p", "$ORIGIN/x", "/q"]) if kind != "static" and r.random() < 0.1 else "")

    def args(self, pr, main, vis):
        r = self.r
        res = []
        for _ in range(r.choice([0, 1, 2, 3])):
            deps = [s["name"] for s in vis if s["k"] in ("dep", "assys", "partial", "none")]
            ls = r.choice([["c"], ["cpp"], ["c", "cpp"]])
            if deps and r.random() < 0.3:
                res.append(dict(k="pdeps", name=self.name("k"), pr=pr, d="", langs=ls, deps=self.pick(deps, (1, 2))))
            else:
                l = r.random() < 0.4
                res.append(dict(k="args", name=self.name("k"), pr=pr, d="", all=main and r.random() < 0.4, link=l, langs=ls, args=self.marks("L" if l else "D", (1, 1, 2))))
        return res

    def block(self, d, pr, vis, own, n):
        for _ in range(n):
            s = self.stmt(d, pr, vis)
            own.append(s)
            vis.append(s)

    def scenario(self):
        r = self.r
        blocks = []
        vis = []
        # main: arguments, some declarations, sub, the subproject, more
        b0 = []
        for _ in range(r.choice([0, 0, 1, 2])):      # things which are not targets, before the arguments
            s = self.stmt("", "p0", vis)
            if s["k"] in ("inc", "none") or (s["k"] == "dep" and not s["srcs"]):
                b0.append(s)
                vis.append(s)
        b0 += self.args("p0", True, vis)
        self.block("", "p0", vis, b0, r.choice([1, 2, 3, 4]))
        blocks.append(["", b0])
        if r.random() < 0.5:
            b = []
            self.block("sub", "p0", vis, b, r.choice([1, 2, 3]))
            blocks.append(["sub", b])
        if r.random() < 0.4:
            b, v = [], []
            for s in self.args("p1", False, v):
                b.append(s)
            self.block(SP, "p1", v, b, r.choice([1, 2, 3]))
            blocks.append([SP, b])
            vis += v
        b = []
        self.block("", "p0", vis, b, r.choice([1, 2, 3]))
        blocks.append(["", b])
        stmts = [s for _, b in blocks for s in b]
        opts = [[o, r.choice(v)] for o, v in r.sample(OVER, r.choice([0, 0, 1, 2, 3]))]
        s = dict(blocks=blocks, opts=opts, inproj=r.random() < 0.4, copts=dict(c=self.marks("D", (0, 0, 1)), cpp=self.marks("D", (0, 0, 1))),
                 lopts=dict(c=self.marks("L", (0, 0, 1)), cpp=self.marks("L", (0, 0, 1))), lang=self.langs, outside=r.random() < 0.2, jobs=r.choice([1, 4]))
        if not s["inproj"]:  # (whether a target may override an option given on the command line is left open)
            for t in stmts:
                if t.get("over"):
                    t["over"] = [x for x in t["over"] if x[0] not in dict(opts)]
        for k in s["copts"], s["lopts"]:
            for l in k:
                k[l] = [re.sub(r"[^-\w]", "", x) for x in k[l]]
        if r.random() < 0.12:
            self.spoil(stmts)
        return s

    def spoil(self, stmts):
        """a declaration which is an error"""
        r = self.r
        t = [s for s in stmts if s["k"] == "tgt"]
        for _ in range(10):
            c = r.choice(["whole", "incs", "vis", "pic", "pie", "objs", "nosrc", "incdir", "pdeps"])
            if c == "pdeps":
                x = [s for s in stmts if s["k"] == "pdeps"]
                if x:
                    r.choice(x)["langs"] = ["c", "rust"] if r.random() < 0.5 else ["objc"]
                    return
                continue
            if c == "incdir":
                x = [s for s in stmts if s["k"] == "inc"]
                if x:
                    r.choice(x)["dirs"].append("nowhere")
                    return
                continue
            if not t:
                return
            s = r.choice(t)
            if c == "whole":
                before = [x["name"] for x in stmts[:stmts.index(s)] if x["k"] == "tgt" and x["kind"] in ("shared", "both") and x["pr"] == s["pr"]]
                if not before:
                    continue
                s["whole"] = s["whole"] + [before[-1]]
            elif c == "incs":
                s["incs"] = s["incs"] + [dict(t="s", v="nowhere")]
            elif c == "vis":
                s["vis"] = "visible"
            elif c == "pic":
                if s["kind"] not in ("shared", "module", "both"):
                    continue
                s["pic"] = "false"
            elif c == "pie":
                if s["kind"] == "exe":
                    continue
                s["pie"] = "true"
            elif c == "objs":
                o = [x for x in stmts[:stmts.index(s)] if x["k"] == "tgt" and x["kind"] != "both" and x["pr"] == s["pr"]]
                if not o:
                    continue
                x = r.choice(o)
                miss = [f for f in ("S:" + join(x["d"], g) for g in FILES[x["d"]]) if f not in x["srcs"]]
                if not miss:
                    continue
                s["objs"] = s["objs"] + [dict(of=x["name"], all=False, rec=False, srcs=[miss[0]])]
            elif c == "nosrc":
                s.update(srcs=[], objs=[], gens=[], deps=[])
            return


def q(s):
    return "'" + s.replace("\\", "\\\\").replace("'", "\\'") + "'"


def ql(xs):
    return "[" + ", ".join(q(x) for x in xs) + "]"


class Run:
    def __init__(self, sc, s):
        self.sc, self.s = sc, s
        self.root = sc.fresh()
        self.src = self.root + "/src"
        self.bld = self.root + "/bld" if s["outside"] else self.src + "/bld"
        self.log = self.root + "/log"
        self.bin = sc.helpers["fakecc"].rsplit("/", 1)[0]

    def file(self, f, d):
        """a source as written in directory d"""
        p = f[2:]
        if d and p.startswith(d + "/"):
            return q(p[len(d) + 1:])
        return q(os.path.relpath(p, d or "."))

    def inc(self, it):
        return it["v"] if it["t"] == "i" else q(it["v"])

    def gensrcs(self, xs):
        return [x for x in xs if x.startswith("S:")]

    def obj(self, x, owner):
        if x["all"]:
            return "%s.extract_all_objects(recursive: %s)" % (x["of"], str(x["rec"]).lower())
        o = self.byname[x["of"]]
        return "%s.extract_objects(%s)" % (x["of"], ", ".join(self.file(f, o["d"]) for f in x["srcs"]))

    def text(self, s):
        k, n = s["k"], s["name"]
        if k == "args":
            return "add_%s_%sarguments(%s, language: %s)" % ("global" if s["all"] else "project", "link_" if s["link"] else "", ", ".join(map(q, s["args"])), ql(s["langs"]))
        if k == "pdeps":
            return "add_project_dependencies(%s, language: %s)" % (", ".join(s["deps"]), ql(s["langs"]))
        if k == "inc":
            return "%s = include_directories(%s, is_system: %s)" % (n, ", ".join(map(q, s["dirs"])), str(s["sys"]).lower())
        if k == "none":
            return "%s = dependency('', required: false)" % n
        if k == "assys":
            return "%s = %s.as_system(%s)" % (n, s["of"], "" if s["sys"] else "'non-system'")
        if k == "partial":
            return "%s = %s.partial_dependency(%s)" % (n, s["of"], ", ".join(p + ": true" for p in s["parts"]))
        if k == "gen":
            return "%s = custom_target(%s, output: %s, command: ['%s/fakegen', '@OUTPUT@'])" % (n, q(n), q(s["out"]), self.bin)
        kw = []

        def lst(key, xs):
            if xs:
                kw.append("%s: [%s]" % (key, ", ".join(xs)))
        lst("link_with", s["with_"])
        lst("link_whole", s["whole"])
        lst("dependencies", s["deps"])
        lst("include_directories", [self.inc(i) for i in s["incs"]])
        lst("link_args", map(q, s["largs"]))
        lst("objects", [self.obj(x, s) for x in s["objs"]])
        if k == "dep":
            lst("compile_args", map(q, s["cargs"]))
            lst("sources", [self.file(f, s["d"]) for f in s["srcs"]] + s["gens"])
            return "%s = declare_dependency(%s)" % (n, ", ".join(kw))
        lst("c_args", map(q, s["cargs"]))
        lst("cpp_args", map(q, s["cppargs"]))
        lst("override_options", [q("%s=%s" % (o, v)) for o, v in s["over"]])
        srcs = [self.file(f, s["d"]) for f in s["srcs"]] + s["gens"]
        if not s["impl"]:
            kw.append("implicit_include_directories: false")
        if not s["dflt"]:
            kw.append("build_by_default: false")
        for key in ("pic", "pie"):
            if s[key] != "unset":
                kw.append("%s: %s" % (key, s[key]))
        if s["vis"]:
            kw.append("gnu_symbol_visibility: " + q(s["vis"]))
        if s["ver"]:
            kw.append("version: " + q(".".join(s["ver"])))
        if s["sover"]:
            kw.append("soversion: " + q(s["sover"]))
        if s["prefix"] != "-":
            kw.append("name_prefix: " + q(s["prefix"]))
        if s["suffix"] != "-":
            kw.append("name_suffix: " + q(s["suffix"]))
        if s["expdyn"]:
            kw.append("export_dynamic: true")
        if s["rpath"]:
            kw.append("build_rpath: " + q(s["rpath"]))
        fn = dict(exe="executable", static="static_library", shared="shared_library", module="shared_module", both="both_libraries")[s["kind"]]
        return "%s = %s(%s)" % (n, fn, ", ".join([q(s["tname"])] + srcs + kw))

    def write(self):
        sc, s = self.sc, self.s
        self.byname = {x["name"]: x for _, b in s["blocks"] for x in b}
        defs = ", default_options: " + ql(["%s=%s" % (o, v) for o, v in s["opts"]]) if s["inproj"] else ""
        top = ["project('p', 'c', 'cpp'%s)" % defs]
        for d, b in s["blocks"]:
            lines = [self.text(x) for x in b]
            if d == "":
                top += lines
            elif d == "sub":
                sc.write(self.src + "/sub/meson.build", "\n".join(lines) + "\n")
                top.append("subdir('sub')")
            else:
                sc.write(self.src + "/" + SP + "/meson.build", "\n".join(["project('sp', 'c', 'cpp')"] + lines) + "\n")
                top.append("sp = subproject('sp')")
                top += ["%s = sp.get_variable('%s')" % (x["name"], x["name"]) for x in b if x["k"] not in ("args", "pdeps")]
        sc.write(self.src + "/meson.build", "\n".join(top) + "\n")
        for d in FILES:
            for f in FILES[d]:
                sc.write(self.src + "/" + join(d, f), "")
            for x in DIRS[d]:
                sc.mkdirs(self.src + "/" + join(d, x))

    def abst(self, p):
        """a path as the compilers are told, as B:... or S:..."""
        p = os.path.normpath(os.path.join(self.bld, p))
        for r, m in (self.bld, "B:"), (self.src, "S:"):
            if p == r:
                return m
            if p.startswith(r + "/"):
                return m + p[len(r) + 1:]
        return p

    def go(self):
        sc, s = self.sc, self.s
        sc.mkdirs(self.root)
        self.write()
        env = {"CC": self.bin + "/fakecc", "CXX": self.bin + "/fakec++", "AR": self.bin + "/fakear", "LD": self.bin + "/fakeld", "FAKE_LOG": self.log}
        argv = [sc.muon, "setup"]
        if not s["inproj"]:
            argv += ["-D%s=%s" % (o, v) for o, v in s["opts"]]
        for key, m in ("_args", s["copts"]), ("_link_args", s["lopts"]):
            for l in m:
                if m[l]:
                    argv.append("-D%s%s=%s" % (l, key, ",".join(m[l])))
        rc, out, _ = sc.run(argv + [self.bld], self.src, env=env)
        events = [dict(ev="setup", rc=rc if rc is not None else -1)]
        dirs = ["S:", "B:"]
        for root, m in (self.src, "S:"), (self.bld, "B:"):
            for d, ds, _ in os.walk(root):
                ds[:] = [x for x in ds if os.path.join(d, x) != self.bld]
                dirs += [m + os.path.relpath(os.path.join(d, x), root) for x in ds if not x.endswith(".p")]
        if rc == 0:
            if os.path.exists(self.log):    # compilers are looked at during the setup
                os.unlink(self.log)
            rc, out2, _ = sc.run([sc.muon, "samu", "-j%d" % s["jobs"]], self.bld, env=env)
            out += out2
            names = {}
            for line in open(self.log, "rb").read().decode("utf-8", "replace").split("\n") if os.path.exists(self.log) else []:
                if line:
                    e = self.record(line.split("\x1f"))
                    events.append(e)
                    if e["ev"] == "link":
                        p = os.path.join(self.bld, e["out"])
                        if os.path.isfile(p):
                            names[e["out"]] = [x for x in os.listdir(os.path.dirname(p)) if os.path.realpath(os.path.join(os.path.dirname(p), x)) == os.path.realpath(p)]
            events.append(dict(ev="end", rc=rc if rc is not None else -1, names=names))
        stmts = []
        for _, b in s["blocks"]:
            for x in b:
                x = dict(x)
                x["with"] = x.pop("with_", [])
                stmts.append(x)
        return dict(scn=dict(stmts=stmts, opts=s["opts"], copts=s["copts"], lopts=s["lopts"], dirs=dirs, lang=s["lang"]), events=events, verbose=False,
                    project=open(self.src + "/meson.build").read(), text=out[-1500:])

    def record(self, f):
        if f[0] == "gen":
            return dict(ev="gen", out=self.abst(f[1]))
        me, miss, a = f[1], f[2], f[3:]
        lg = "cpp" if me == "fakec++" else "c"
        if f[0] == "ar":
            return dict(ev="link", kind="ar", lang=lg, miss=miss, out=self.abst(a[1])[2:], objs=[self.abst(x)[2:] for x in a[2:]])
        e = dict(ev="cc", lang=lg, miss=miss, defs=[], incs=[], opt="", debug=False, warn=[], werror=False, std="", ndebug=False, pic=False, pie=False, vis="", src="", obj="")
        if f[0] == "ld":
            e = dict(ev="link", kind="ld", lang=lg, miss=miss, out="", objs=[], libs=[], whole=[], grouped=True, args=[], rpaths=[], shared=False, soname="", expdyn=False)
        group = whole = False
        i = 0
        while i < len(a):
            x = a[i]
            i += 1
            if x == "-o":
                e["obj" if f[0] == "cc" else "out"] = self.abst(a[i])[2:]
                i += 1
            elif x in ("-MF", "-MQ"):
                i += 1
            elif f[0] == "cc":
                if x in ("-I", "-isystem"):
                    e["incs"].append([x == "-isystem", self.abst(a[i])])
                    i += 1
                elif x == "-D":
                    e["ndebug"] = e["ndebug"] or a[i] == "NDEBUG"
                    i += 1
                elif x.startswith("-D"):
                    e["defs"].append(x)
                elif x in ("-Wall", "-Wextra", "-Wpedantic"):
                    e["warn"].append(x)
                elif x == "-Werror":
                    e["werror"] = True
                elif x == "-g":
                    e["debug"] = True
                elif x.startswith("-O"):
                    e["opt"] = x
                elif x.startswith("-std="):
                    e["std"] = x
                elif x in ("-fpic", "-fPIC"):
                    e["pic"] = True
                elif x in ("-fpie", "-fPIE"):
                    e["pie"] = True
                elif x.startswith("-fvisibility="):
                    e["vis"] = x[13:]
                elif not x.startswith("-"):
                    e["src"] = self.abst(x)
            elif x == "-Wl,--start-group":
                group = True
            elif x == "-Wl,--end-group":
                group = False
            elif x == "-Wl,--whole-archive":
                whole = True
            elif x == "-Wl,--no-whole-archive":
                whole = False
            elif x.startswith("-Wl,-rpath,"):
                p = x[11:]
                e["rpaths"].append(self.abst(p) if p.startswith(self.root) else p)
            elif x.startswith("-Wl,-soname,"):
                e["soname"] = x[12:]
            elif x == "-Wl,-export-dynamic":
                e["expdyn"] = True
            elif x == "-shared":
                e["shared"] = True
            elif x.startswith("-L"):
                e["args"].append(x)
            elif not x.startswith("-"):
                if x.endswith(".o"):
                    e["objs"].append(self.abst(x)[2:])
                else:
                    e["whole" if whole else "libs"].append(self.abst(x)[2:])
                    e["grouped"] = e["grouped"] and group
        return e


def execute(sc, s):
    r = Run(sc, s)
    try:
        return r.go()
    finally:
        if not os.environ.get("VF_KEEP"):
            shutil.rmtree(r.root, ignore_errors=True)


def describe(tr):
    out = tlc_print("TargetsTrace", [dict(tr, verbose=True)], "AT")
    at = re.findall(r'<<\s*"AT",\s*(\d+),(.*?)(?=<<\s*"AT"|Model checking|Progress|Finished|\Z)', out, re.S)
    if not at:
        return "event 1: %s" % json.dumps(tr["events"][0])[:500]
    i, what = at[-1]
    ev = tr["events"][int(i) - 1]
    return "event %s (%s): %s; text: %s" % (i, ev["ev"], re.sub(r"\s+", " ", what)[:2500], tr.get("text", "")[-500:])


MC_CFG = """SPECIFICATION Spec
CONSTANT MaxStmts = %d MaxBuild = %d
INVARIANTS Closure Scope LScope Live Sound
CHECK_DEADLOCK FALSE
"""


def run(ctx):
    os.umask(0o022)
    ctx.mc("TargetsMC", MC_CFG % ((4, 4) if ctx.thorough else (4, 3)), timeout=850)
    n = int(os.environ.get("VF_N") or 900 * (8 if ctx.thorough else 1))
    scns = [Gen(ctx.rng(i), ctx.pid).scenario() for i in range(n)]
    with Scratch(["fakecc"]) as sc:
        for x in ("fakec++", "fakear", "fakeld", "fakegen"):
            os.symlink("fakecc", sc.dir + "/bin/" + x)
        conform(ctx, "TargetsTrace", scns, lambda s: execute(sc, s), describe, chunk=max(5, n // 16))
    ctx.cov["declarations"] = sum(len(b) for s in scns for _, b in s["blocks"])
