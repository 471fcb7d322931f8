"""P18, P19: install declarations, `muon install` histories, install scripts."""
import json, os, re, shutil, stat, subprocess
from .common import Scratch, conform, tlc_print

DIRS = ["x", "x/y", "share/d 1", "/R/abs", "/R/abs/z", "x/./y", "d.e"]
NAMES = ["a.txt", "b 1.txt", "c", "inc/y.h", "inc/a.txt", "x.h"]
MAN = ["foo.1", "foo.fr.1", "bar.de_DE.3", "fr.1", "a.fr.b.fr.8", "q.frx.1"]
LINKS = ["ln1", "l n2", "ln3"]
TREE = ["f1", "g h", "sub/f1", "sub/f2", "sub/deep/f3", "o/p", ".hid", "sub.x/f1"]
MODES = ["rw-r--r--", "rwxr-x---", "r--------", "rwsr-xr-x", "rwxr-sr-x", "rw-rw-rw-", "rwxrwxrwx", "rwSr--r--"]
BADMODES = ["rwxrwxrw", "rwxrwxrwxx", "wrxr-xr-x", "rwxr-xr-s", "rw-r--r-q", "", "rwtr-xr-x"]
FMODES = [0o644, 0o600, 0o755, 0o640, 0o444, 0o664, 0o775]


class Gen:
    def __init__(self, r, p19):
        self.r, self.p19 = r, p19
        self.n = 0
        self.compiled = False

    def mode(self, bad=True, dirs=False):
        r = self.r
        if r.random() < 0.65:
            return ""
        if bad and r.random() < 0.05 * (0.3 if self.p19 else 1):
            return r.choice(BADMODES[:5] + BADMODES[6:])
        return r.choice(["rwxr-xr-x", "rwx------", "rwxrwxr-x", "rwxr-x---"] if dirs else MODES)

    def dir(self):
        return self.r.choice(DIRS)

    def srcs(self, pool, lo=1, hi=3):
        r = self.r
        return [dict(p=p, how=r.choice(["str", "str", "str", "file"])) for p in r.sample(pool, r.randint(lo, min(hi, len(pool))))]

    def decl(self):
        r = self.r
        self.n += 1
        k = r.choice(["data", "data", "headers", "man", "link", "empty", "subdir", "subdir", "conf", "target"] +
                     (["exe", "slib", "lib", "lib"] if self.compiled else []))
        d = dict(k=k)
        if k == "data":
            d.update(srcs=self.srcs(NAMES), dir=self.dir() if r.random() < 0.7 else "", rename=[], preserve=False, mode=self.mode(),
                     kw=r.random() < 0.2)
            c = r.random()
            if c < 0.3:
                n = len(d["srcs"]) + (r.choice([-1, 1]) if r.random() < 0.08 else 0)
                d["rename"] = [r.choice(["r1", "r 2", "s/r3", "s/t/r4", "a.txt"]) for _ in range(n)]
                if not d["rename"]:
                    d["rename"] = ["r1"]
                if r.random() < 0.03:
                    d["preserve"] = True
            elif c < 0.5:
                d["preserve"] = True
                for s in d["srcs"]:
                    if r.random() < 0.9:
                        s["how"] = "str"
        elif k == "headers":
            d.update(srcs=self.srcs(NAMES), dir=self.dir() if r.random() < 0.4 else "", sub="", preserve=r.random() < 0.2, mode=self.mode())
            if r.random() < (0.4 if not d["dir"] else 0.03):
                d["sub"] = r.choice(["s", "s/t", "/R/abs/inc"])
            if d["preserve"]:
                for s in d["srcs"]:
                    if r.random() < 0.9:
                        s["how"] = "str"
        elif k == "man":
            d.update(srcs=self.srcs(MAN), dir="", locale="", mode=self.mode())
            if r.random() < 0.5:
                d["locale"] = r.choice(["fr", "de_DE", "fr"])
            elif r.random() < 0.5:
                d["dir"] = self.dir()
            if r.random() < 0.04:
                d["srcs"].append(dict(p=r.choice(["man", "a.txt", "x.h", "c"]), how="str"))
                d["srcs"][-1]["p"] = r.choice(["a.txt", "x.h", "c"])
        elif k == "link":
            d.update(name=r.choice(LINKS), dir=self.dir(), to=r.choice(["/R/victim", "nowhere", "../x", "a.txt", "/usr/bin/env"]))
        elif k == "empty":
            d.update(dirs=[r.choice(["e1", "x/e2", "x/y/e3", "/R/abs/e4", "x", "e 5"]) for _ in range(r.choice([1, 1, 2]))],
                     mode=self.mode(dirs=True))
        elif k == "subdir":
            d.update(name=r.choice(["tree", "tree", "tr/tree", "tr/tree", "tr", "tr", "gone"]), dir=self.dir(), strip=r.random() < 0.4, mode="", xd=[], xf=[])
            pre = "tree/" if d["name"] == "tr" else ""
            if r.random() < 0.5:
                d["xd"] = [pre + x for x in r.sample(["sub", "sub/deep", "o", "deep", "sub.x", "f1"], r.randint(1, 2))]
            if r.random() < 0.5:
                d["xf"] = [pre + x for x in r.sample(TREE + ["sub", "f2"], r.randint(1, 3))]
            m = self.mode(dirs=True)
            d["mode"] = m
        elif k == "conf":
            d.update(out="c%d" % self.n, dir=self.dir(), install=r.random() < 0.85, mode=self.mode(), how=r.choice(["copy", "conf", "data"]),
                     explicit=r.random() < 0.6)
            if not d["install"]:
                d["explicit"] = True
        elif k == "target":
            outs = ["t%d.%d" % (self.n, i) for i in range(r.choice([1, 1, 2, 3]))]
            d.update(byd=r.random() < 0.85, name="t%d" % self.n, outs=outs, install=r.random() < 0.85, mode=self.mode(), explicit=True)
            if r.random() < 0.4:
                d["dirs"] = [self.dir() if r.random() < 0.85 else ""]
            else:
                n = len(outs) + (r.choice([1, -1]) if r.random() < 0.05 and len(outs) > 1 else 0)
                d["dirs"] = [self.dir() if r.random() < 0.7 else "" for _ in range(max(1, n))]
        elif k == "exe":
            d.update(name="e%d" % self.n, dir=r.choice(["", "", self.dir()]), install=r.random() < 0.85, mode=self.mode(bad=False))
        elif k == "slib":
            d.update(name="s%d" % self.n, dir=r.choice(["", "", self.dir()]), install=r.random() < 0.85, mode=self.mode(bad=False))
        elif k == "lib":
            d.update(name="l%d" % self.n, dir=r.choice(["", "", self.dir()]), install=r.random() < 0.85, mode=self.mode(bad=False),
                     ver=r.choice(["", "", "1.2.3", "4.5", "7"]), sover=r.choice(["", "", "9"]))
        return d

    def place(self, proj, cwd, bcwd, depth, decls):
        """A meson.build: list of entries; decls collects declarations in order of evaluation."""
        r = self.r
        ents = []
        for _ in range(r.choice([1, 2, 3]) if not self.p19 else r.choice([1, 2, 2])):
            d = self.decl()
            d.update(proj=proj, cwd=cwd, bcwd=bcwd)
            decls.append(d)
            ents.append(["decl", d])
        if depth < 2 and r.random() < 0.4:
            s = r.choice(["sd", "s e"])
            ents.append(["subdir", s, self.place(proj, cwd + "/" + s, bcwd + "/" + s, depth + 1, decls)])
        if depth == 0 and r.random() < 0.25:
            ents.append(["subproject", "sp", self.place("Sub P", cwd + "/subprojects/sp", bcwd + "/subprojects/sp", 2, decls)])
        if r.random() < 0.3:
            d = self.decl()
            d.update(proj=proj, cwd=cwd, bcwd=bcwd)
            decls.append(d)
            ents.append(["decl", d])
        return ents

    def scenario(self):
        r = self.r
        self.compiled = r.random() < (0.05 if self.p19 else 0.10)
        b = r.choice(["/R/src/b", "/R/src/b", "/R/bld d"])
        decls = []
        tree = self.place(r.choice(["main", "pro j"]), "/R/src", b, 0, decls)
        scripts = []
        if r.random() < (0.7 if self.p19 else 0.15):
            for i in range(r.choice([1, 1, 2, 3])):
                scripts.append(dict(args=[r.choice(["a", "b c", "", "d'e", 'f"g', "h\\i", "$j", "k;l", "*", "m\nn"]) for _ in range(r.choice([0, 1, 2, 3]))],
                                    fails=r.random() < (0.15 if self.p19 else 0.05), skip=r.random() < 0.35, dry=r.random() < 0.4,
                                    how=r.choice(["sh", "prog", "file"])))
        W = dict(prefix=r.choice(["/R/p", "/R/p", "/R/pre fix/q"]), datadir=r.choice(["share", "share", "/R/abs/sh"]),
                 includedir=r.choice(["include", "x"]), mandir=r.choice(["share/man", "/R/abs/man"]), bindir=r.choice(["bin", "x"]),
                 libdir=r.choice(["lib", "lib/x86"]), bdir=b, src="/R/src", decls=decls, scripts=scripts)
        s = dict(W=W, tree=tree, fm=[r.choice(FMODES) if r.random() < 0.4 else 0o644 for _ in range(40)],
                 links=[[t, r.choice(["f1", "../nope"])] for t in r.sample(["s1", "sub/s2"], r.choice([0, 0, 1, 2]))])
        s["hist"] = self.hist19() if self.p19 else self.hist18()
        return s

    def inst(self, dds, dry=False):
        r = self.r
        return dict(k="install", dd=r.choice(dds), dry=dry, how=r.choice(["env", "env", "opt", "both"]))

    def hist18(self):
        r = self.r
        return ([dict(k="build")] if r.random() < 0.97 else []) + [self.inst([None, "/R/dd", "/R/de st", "../dst", ""])]

    def hist19(self):
        r = self.r
        dds = r.choice([[None], ["/R/dd"], [None, "/R/dd"], ["../dst", ""], [None, "/R/dd", "../dst"]])
        h = []
        if r.random() < 0.9:
            h.append(dict(k="build"))
        for _ in range(r.choice([2, 3, 4, 6])):
            c = r.random()
            if c < 0.45:
                h.append(self.inst(dds, r.random() < 0.3))
            elif c < 0.8:
                h.append(dict(k="tamper", what=r.choice(["rm", "rm", "link", "chmod", "text", "obst", "obst", "mkdir"]), x=r.random(), y=r.random()))
            elif c < 0.95:
                h.append(dict(k="edit", what=r.choice(["text", "chmod", "rm", "add"]), x=r.random(), y=r.random()))
            else:
                h.append(dict(k="build"))
        h.append(self.inst(dds, False))
        return h


# ------------------------------------------------------------------ execution
def q(s):
    return "'" + s.replace("\\", "\\\\").replace("'", "\\'").replace("\n", "\\n") + "'"


class Run:
    def __init__(self, sc, s):
        self.sc, self.s = sc, s
        self.root = sc.fresh()
        self.n = 0
        a = self.root.split("/")
        self.above = tuple("/".join(a[:i]) for i in range(2, len(a)))

    def real(self, p):
        return re.sub(r"/R(?=/|$)", self.root, p)

    def abst(self, p):
        return p.replace(self.root, "/R")

    def src_text(self, x):
        ps = ["files(%s)" % q(y["p"]) if y["how"] == "file" else q(y["p"]) for y in x]
        return ps

    def mode_kw(self, d):
        if not d["mode"]:
            return []
        return ["install_mode: %s" % (q(d["mode"]) if len(d["k"]) % 2 else "[%s]" % q(d["mode"]))]

    def decl(self, d):
        k = d["k"]
        R = lambda x: q(self.real(x))
        if k == "data":
            a = self.src_text(d["srcs"])
            kw = self.mode_kw(d)
            if d["kw"]:
                kw.append("sources: [%s]" % ", ".join(a))
                a = []
            if d["dir"]:
                kw.append("install_dir: " + R(d["dir"]))
            if d["rename"]:
                kw.append("rename: [%s]" % ", ".join(q(x) for x in d["rename"]))
            if d["preserve"]:
                kw.append("preserve_path: true")
            return "install_data(%s)" % ", ".join(a + kw)
        if k == "headers":
            a = self.src_text(d["srcs"]) + self.mode_kw(d)
            if d["dir"]:
                a.append("install_dir: " + R(d["dir"]))
            if d["sub"]:
                a.append("subdir: " + R(d["sub"]))
            if d["preserve"]:
                a.append("preserve_path: true")
            return "install_headers(%s)" % ", ".join(a)
        if k == "man":
            a = self.src_text(d["srcs"]) + self.mode_kw(d)
            if d["dir"]:
                a.append("install_dir: " + R(d["dir"]))
            if d["locale"]:
                a.append("locale: " + q(d["locale"]))
            return "install_man(%s)" % ", ".join(a)
        if k == "link":
            return "install_symlink(%s, install_dir: %s, pointing_to: %s)" % (q(d["name"]), R(d["dir"]), R(d["to"]))
        if k == "empty":
            return "install_emptydir(%s)" % ", ".join([R(x) for x in d["dirs"]] + self.mode_kw(d))
        if k == "subdir":
            a = [q(d["name"]), "install_dir: " + R(d["dir"])] + self.mode_kw(d)
            if d["strip"]:
                a.append("strip_directory: true")
            if d["xd"]:
                a.append("exclude_directories: [%s]" % ", ".join(q(x) for x in d["xd"]))
            if d["xf"]:
                a.append("exclude_files: [%s]" % ", ".join(q(x) for x in d["xf"]))
            return "install_subdir(%s)" % ", ".join(a)
        if k == "conf":
            a = ["output: " + q(d["out"]), "install_dir: " + R(d["dir"])] + self.mode_kw(d)
            if d["explicit"]:
                a.append("install: " + ("true" if d["install"] else "false"))
            if d["how"] == "copy":
                a += ["input: 'a.txt'", "copy: true"]
            else:
                a += ["configuration: {'A': 1}"]
                if d["how"] == "conf":
                    a.append("input: 'x.h'")
            return "configure_file(%s)" % ", ".join(a)
        if k == "target":
            dirs = [R(x) if x else "false" for x in d["dirs"]]
            a = [q(d["name"]), "output: [%s]" % ", ".join(q(x) for x in d["outs"]),
                 "command: ['sh', '-c', 'for i; do echo made $i | sed s,.*/,, > $i; done', 'sh', '@OUTPUT@']",
                 "build_by_default: " + ("true" if d["byd"] else "false"), "install: " + ("true" if d["install"] else "false"),
                 "install_dir: " + (dirs[0] if len(dirs) == 1 else "[%s]" % ", ".join(dirs))] + self.mode_kw(d)
            return "custom_target(%s)" % ", ".join(a)
        a = [q(d["name"]), "'main.c'" if k == "exe" else "'lib.c'", "install: " + ("true" if d["install"] else "false")] + self.mode_kw(d)
        if d["dir"]:
            a.append("install_dir: " + R(d["dir"]))
        if k == "lib":
            if d["ver"]:
                a.append("version: " + q(d["ver"]))
            if d["sover"]:
                a.append("soversion: " + q(d["sover"]))
        if k == "exe":
            a.append("link_with: uselib")
        return "%s(%s)" % (dict(exe="executable", lib="shared_library", slib="static_library")[k], ", ".join(a))

    def text(self, ents):
        out = []
        for e in ents:
            if e[0] == "decl":
                out.append(self.decl(e[1]))
            elif e[0] == "subdir":
                out.append("subdir(%s)" % q(e[1]))
            else:
                out.append("subproject(%s)" % q(e[1]))
        return "\n".join(out) + "\n"

    def fill(self, ents, d):
        """the source files of one directory"""
        s = self.s
        ds = [e[1] for e in ents if e[0] == "decl"]
        use = {x["p"] for e in ds for x in e.get("srcs", [])} | {"a.txt", "x.h", "fr.1"}
        trees = {"tree": "tree/", "tr/tree": "tr/tree/", "tr": "tr/tree/"}
        trees = sorted({trees[e["name"]] for e in ds if e["k"] == "subdir" and e["name"] != "gone"})
        for n in sorted(use) + [t + x for t in trees for x in TREE] + (["main.c", "lib.c"] if self.comp else []):
            self.n += 1
            t = {"main.c": "int f(void);int main(void){return f()-f();}\n", "lib.c": "int f(void);int f(void){return 3;}\n"}.get(n, "%s %d\n" % (n, self.n))
            self.sc.write(d + "/" + n, t, s["fm"][self.n % 40] if not n.endswith(".c") else 0o644)
        for at, to in s["links"]:
            for t in trees:
                os.symlink(to, d + "/" + t + at)
                self.sc.own(d + "/" + t + at)

    def emit(self, ents, d, head):
        self.fill(ents, d)
        self.sc.write(d + "/meson.build", head + self.text(ents))
        for e in ents:
            if e[0] == "subdir":
                self.emit(e[2], d + "/" + e[1], "")
            elif e[0] == "subproject":
                self.emit(e[2], d + "/subprojects/" + e[1], "project('Sub P', 'c')\n" + LIB if self.comp else "project('Sub P')\n")

    def listing(self, keep):
        out = {}
        for d, ds, fs in os.walk(self.root):
            a = self.abst(d)
            for n in ds + fs:
                p = self.abst(d + "/" + n)
                if not keep(p):
                    if n in ds:
                        ds.remove(n) if False else None
                    continue
                out[p] = self.node(d + "/" + n)
            ds[:] = [x for x in ds if not os.path.islink(d + "/" + x)]
        return out

    def node(self, f):
        st = os.lstat(f)
        m = st.st_mode
        bits = [(m >> 9) & 7, (m >> 6) & 7, (m >> 3) & 7, m & 7]
        if stat.S_ISLNK(m):
            return dict(t="l", c=self.abst(os.readlink(f)), m=[])
        if stat.S_ISDIR(m):
            return dict(t="d", c="", m=bits)
        with open(f, "rb") as fh:
            b = fh.read()
        if b[:4] == b"\x7fELF":
            c = "ELF"
            if not self.abst(f).startswith(self.s["W"]["bdir"] + "/"):
                o = subprocess.run(["readelf", "-d", f], capture_output=True, text=True, errors="replace").stdout
                if any(self.root in x for x in o.splitlines() if "PATH" in x):
                    c = "ELF with a path of the build directory"
            return dict(t="f", c=c, m=bits)
        if b[:7] == b"!<arch>":
            return dict(t="f", c="AR", m=bits)
        return dict(t="f", c=self.abst(b.decode("utf-8", "replace")), m=bits)

    def insrc(self, p):
        W = self.s["W"]
        return any(p == x or p.startswith(x + "/") for x in ("/R/src", W["bdir"])) and not p.startswith(W["bdir"] + "/muon-private") \
            and not p.startswith(W["bdir"] + "/.muon") and not re.search(r"/(build\.ninja|\.ninja_\w+|compile_commands\.json)$", p) \
            and not p.endswith((".o", ".d", ".p"))

    def infs(self, p):
        W = self.s["W"]
        if p.endswith(self.above):   # below a destination directory: ancestors of the scratch directory
            return False
        return not any(p == x or p.startswith(x + "/") for x in ("/R/src", W["bdir"], "/R/log"))

    def src(self):
        return self.listing(self.insrc)

    def fs(self):
        f = self.listing(self.infs)
        f["/R"] = dict(t="d", c="", m=[])
        return f

    def go(self):
        s, W, sc, root = self.s, self.s["W"], self.sc, self.root
        self.comp = any(d["k"] in ("exe", "lib", "slib") for d in W["decls"])
        head = "project(%s%s)\n" % (q([d for d in W["decls"]][0]["proj"]), ", 'c'" if self.comp else "")
        if self.comp:
            head += LIB
        self.emit(s["tree"], root + "/src", head)
        mb = root + "/src/meson.build"
        with open(mb) as f:
            t = f.read()
        for i, x in enumerate(W["scripts"]):
            kw = []
            if x["skip"]:
                kw.append("skip_if_destdir: true")
            if x["dry"]:
                kw.append("dry_run: true")
            prog = {"sh": "find_program('sh'), %s" % q(root + "/src/log.sh"), "prog": ("find_program('log.sh')" if i % 2 else "'log.sh'"), "file": "files('log.sh')"}[x["how"]]
            t += "meson.add_install_script(%s)\n" % ", ".join(
                [prog, q(root + "/log"), q("1" if x["fails"] else "0")] + [q(a) for a in x["args"]] + kw)
        sc.write(mb, t)
        sc.write(root + "/src/log.sh", LOGSH, 0o755)
        sc.write(root + "/victim", "victim\n", 0o644)
        build = self.real(W["bdir"])
        opts = ["-D%s=%s" % (o, self.real(W[o])) for o in ("prefix", "datadir", "includedir", "mandir", "bindir", "libdir")]
        opts.append("-Dbuildtype=plain")
        tr = dict(world=self.world(), src=self.src(), fs=self.fs(), events=[], verbose=False)
        rc, out, _ = sc.run([sc.muon, "setup", *opts, build], root + "/src", timeout=60)
        tr["events"].append(dict(ev="setup", rc=-1 if rc is None else rc, src=self.src(), text=out[-300:]))
        if rc != 0:
            return tr
        for h in s["hist"]:
            if h["k"] == "build":
                rc, out, _ = sc.run([sc.muon, "-C", build, "samu"], root, timeout=60)
                tr["events"].append(dict(ev="src", src=self.src()))
            elif h["k"] == "edit":
                self.edit(h)
                tr["events"].append(dict(ev="src", src=self.src()))
            elif h["k"] == "tamper":
                self.tamper(h, tr)
                tr["events"].append(dict(ev="fs", fs=self.fs()))
            else:
                tr["events"].append(self.install(h, build, tr))
        return tr

    def world(self):
        W = dict(self.s["W"])
        W["scripts"] = [dict(args=x["args"], fails=x["fails"], skip=x["skip"], dry=x["dry"]) for x in W["scripts"]]
        keep = {"k", "proj", "cwd", "bcwd", "srcs", "dir", "rename", "preserve", "mode", "sub", "locale", "to", "name", "dirs", "strip", "xd", "xf",
                "out", "outs", "byd", "install", "ver", "sover"}
        ds = []
        for d in W["decls"]:
            d = {k: v for k, v in d.items() if k in keep}
            if d["k"] == "lib" and self.sysplain(d):
                pass
            ds.append(d)
        W["decls"] = ds
        return W

    def sysplain(self, d):
        return False

    def install(self, h, build, tr):
        root, sc = self.root, self.sc
        argv = [sc.muon, "-C", build, "install"]
        if h["dry"]:
            argv.append("-n")
        env = {}
        dd = h["dd"]
        eff = ""
        if dd is not None:
            r = self.real(dd)
            if dd == "../dst":
                r = os.path.relpath(root + "/dst", build)
            if h["how"] == "env" or dd == "":
                env["DESTDIR"] = r
            else:
                argv += ["-d", r]
                if h["how"] == "both":
                    env["DESTDIR"] = root + "/wrong"
            if dd:
                eff = self.abst(os.path.normpath(os.path.join(build, r)))
        before = self.src()
        log = root + "/log"
        if os.path.exists(log):
            os.unlink(log)
        rc, out, _ = sc.run(argv, root, env=env, timeout=60)
        after = self.src()
        if os.environ.get("VF_DEBUG") and after != before:
            print({p: (before.get(p), after.get(p)) for p in set(before) | set(after) if before.get(p) != after.get(p)})
        ran = []
        if os.path.exists(log):
            with open(log) as f:
                recs = f.read().split("\x1e\n")
            for x in recs[:-1]:
                x = x.split("\x1f")
                pre = self.abst
                ran.append(dict(destdir=self.norm(x[0]), prefix=pre(x[1]), dprefix=self.norm(x[2]), dry=x[3], sroot=pre(x[4]), broot=pre(x[5]),
                                args=x[6:-1]))
        return dict(ev="install", destdir=eff, dry=h["dry"], rc=-1 if rc is None else rc, fs=self.fs(), ran=ran, same=after == before,
                    text=out[-300:])

    def norm(self, p):
        return self.abst(os.path.normpath(p)) if p else ""

    def pick(self, xs, x):
        xs = sorted(xs)
        return xs[int(x * len(xs))] if xs else None

    def edit(self, h):
        fs = [p for p, n in self.src().items() if n["t"] == "f" and p.startswith("/R/src/") and not p.startswith(self.s["W"]["bdir"] + "/")
              and not p.endswith(("meson.build", "log.sh", ".c", "/a.txt", "/x.h"))]
        if h["what"] == "add":
            t = [p for p in fs if "/tree/" in p]
            p = self.pick(t, h["x"])
            if p:
                self.sc.write(self.real(os.path.dirname(p)) + "/" + self.pick(["new1", "new/f1", "f1x"], h["y"]), "new\n")
            return
        p = self.pick(fs, h["x"])
        if not p:
            return
        f = self.real(p)
        if h["what"] == "text":
            with open(f, "a") as fh:
                fh.write("edited\n" * (1 + int(h["y"] * 3)))
        elif h["what"] == "chmod":
            os.chmod(f, FMODES[int(h["y"] * len(FMODES))])
        elif h["what"] == "rm":
            os.unlink(f)

    def tamper(self, h, tr):
        cur = self.fs()
        ps = [p for p in cur if p not in ("/R", "/R/victim")]
        files = [p for p in ps if cur[p]["t"] != "d"]
        w, x = h["what"], h["x"]
        if w == "rm":
            p = self.pick(ps, x)
            if p:
                f = self.real(p)
                shutil.rmtree(f) if cur[p]["t"] == "d" else os.unlink(f)
        elif w == "link":
            p = self.pick([p for p in files if not p.endswith(tuple(LINKS))], x)
            if p:
                os.unlink(self.real(p))
                os.symlink(self.root + "/victim", self.real(p))
                self.sc.own(self.real(p))
        elif w == "chmod":
            p = self.pick([p for p in files if cur[p]["t"] == "f"], x)
            if p:
                os.chmod(self.real(p), [0o400, 0o600, 0o777][int(h["y"] * 3)])
        elif w == "text":
            p = self.pick([p for p in files if cur[p]["t"] == "f"], x)
            if p:
                with open(self.real(p), "wb") as fh:
                    fh.write(b"tampered\n" * 9)
        elif w in ("obst", "mkdir"):
            # something of the other kind where a file or directory goes
            W = self.s["W"]
            base = [W["prefix"], "/R/abs", "/R/dd" + W["prefix"], "/R/dd/R/abs"]
            want = sorted({n["p"] for n in ()} | set(base) | {p for p in self.targets()})
            want = [p for p in want if not os.path.lexists(self.real(p)) and not p.endswith(tuple(LINKS)) and ".so" not in p]
            p = self.pick(want, x)
            if p:
                f = self.real(p)
                par = os.path.dirname(f)
                while not os.path.isdir(par):
                    if os.path.lexists(par):
                        return
                    par = os.path.dirname(par)
                if w == "obst" and h["y"] < 0.5:
                    self.sc.write(f, "obstacle\n")
                else:
                    self.sc.mkdirs(f)
                    if w == "mkdir":
                        os.chmod(f, 0o700)

    def targets(self):
        """some paths installed files may have (just a pool for obstacles)"""
        W = self.s["W"]
        out = set()
        for dd in ["", "/R/dd"]:
            for d in W["decls"]:
                for x in [d.get("dir") or "x"] + [y for y in d.get("dirs", []) if y]:
                    p = dd + (x if x.startswith("/") else W["prefix"] + "/" + x)
                    p = os.path.normpath(p)
                    if dd == "":
                        p = os.path.normpath(x if x.startswith("/") else W["prefix"] + "/" + x)
                    out.add(p)
                    for s in d.get("srcs", []):
                        out.add(p + "/" + os.path.basename(s["p"]))
                    if d["k"] == "subdir":
                        n = p + ("" if d["strip"] else "/" + os.path.basename(d["name"]))
                        out.update({n, n + "/sub", n + "/f1", n + "/sub/f1"})
                    if d["k"] in ("conf",):
                        out.add(p + "/" + d["out"])
                    if d["k"] == "target":
                        out.add(p + "/" + d["outs"][0])
        return {("/R" + p[2:]) for p in out if p.startswith("/R/")}


LIB = "uselib = shared_library('uselib', 'lib.c')\n"
LOGSH = r"""#!/bin/sh
log=$1; bad=$2; shift 2
printf '%s\037' "$DESTDIR" "$MESON_INSTALL_PREFIX" "$MESON_INSTALL_DESTDIR_PREFIX" "$MESON_INSTALL_DRY_RUN" "$MESON_SOURCE_ROOT" "$MESON_BUILD_ROOT" >> "$log"
for i; do printf '%s\037' "$i" >> "$log"; done
printf '\036\n' >> "$log"
exit $bad
"""

MC_CFG = """SPECIFICATION Spec
CONSTANT MaxSteps = %d
INVARIANT Confined
INVARIANT Victim
INVARIANT Repeatable
INVARIANT Present
INVARIANT Scripts
CHECK_DEADLOCK FALSE
"""


def execute(sc, s):
    r = Run(sc, s)
    try:
        return r.go()
    finally:
        shutil.rmtree(r.root, ignore_errors=True)


def describe(tr):
    out = tlc_print("InstallTrace", [dict(tr, verbose=True)], "AT")
    at = re.findall(r'<<\s*"AT",\s*(\d+),(.*?)(?=<<\s*"AT"|Model checking|Progress|Finished|\Z)', out, re.S)
    if not at:
        return "event 1: %s" % json.dumps(tr["events"][0])[:500]
    i, what = at[-1]
    ev = tr["events"][int(i) - 1]
    return "event %s (%s): %s; text: %s" % (i, ev["ev"], re.sub(r"\s+", " ", what)[:1500], ev.get("text", "")[-200:])


def run(ctx):
    os.umask(0o022)
    p19 = ctx.pid == "P19"
    ctx.mc("InstallMC", MC_CFG % (2 if ctx.thorough else 1), timeout=850)
    n = int(os.environ.get("VF_N") or (240 if p19 else 500) * (10 if ctx.thorough else 1))
    scns = [Gen(ctx.rng(i), p19).scenario() for i in range(n)]
    with Scratch() as sc:
        conform(ctx, "InstallTrace", scns, lambda s: execute(sc, s), describe, chunk=max(5, n // 16))
    ctx.cov["declarations"] = sum(len(s["W"]["decls"]) for s in scns)
    ctx.cov["installations"] = sum(h["k"] == "install" for s in scns for h in s["hist"])
