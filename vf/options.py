"""Options, features and reconfiguration against spec/Options.tla: generated
configurations are set up (and edited and rebuilt) by the real program; what
get_option() returned everywhere and what was regenerated is checked by TLC."""
import copy, json, os, re, shutil
from .common import *

TYPES = ["string", "boolean", "combo", "integer", "array", "feature"]
TAG = dict(string="s", boolean="b", combo="s", integer="i", array="a", feature="f")
WORDS = ["a", "b", "one", "two", "x=y", "p:q", "sp ace", "$d", "${in}", "q'uote", 'dq"', "back\\slash", "#h", "&", "*", "~", "-z", "ünï",
         "$", "a$$b", "%"]
PLAIN = ["a", "b", "one", "two", "three"]


def D(name, type, **kw):
    d = dict(name=name, type=type, ch=[], min=[], max=[], yield_=False, dep="none", dm=[], dto="")
    d.update(kw)
    if "def" not in d:
        d["def"] = val(type, {"string": "", "boolean": True, "combo": (d["ch"] or [""])[0], "integer": 0,
                              "array": d["ch"] or [], "feature": "auto"}[type])
    return d


def val(type, v):
    return dict(t=TAG[type], v=v)


GLOB = [D("prefix", "string", **{"def": val("string", "/usr/local")}),
        D("bindir", "string", **{"def": val("string", "bin")}),
        D("libdir", "string", **{"def": val("string", "lib")}),
        D("datadir", "string", **{"def": val("string", "share")}),
        D("mandir", "string", **{"def": val("string", "share/man")}),
        D("auto_features", "feature"),
        D("buildtype", "combo", ch=["plain", "debug", "debugoptimized", "release", "minsize", "custom"],
          **{"def": val("combo", "debugoptimized")}),
        D("wrap_mode", "combo", ch=["nofallback", "nodownload", "forcefallback", "nopromote"],
          **{"def": val("combo", "nopromote")}),
        D("unity_size", "integer", min=[2], **{"def": val("integer", 4)}),
        D("b_lto", "boolean", **{"def": val("boolean", False)}),
        D("c_args", "array"), D("c_link_args", "array"), D("pkg_config_path", "string")]
PER = [D("default_library", "combo", ch=["static", "shared", "both"], yield_=True),
       D("warning_level", "combo", ch=["0", "1", "2", "3", "everything"], yield_=True, **{"def": val("combo", "3")}),
       D("werror", "boolean", yield_=True, **{"def": val("boolean", False)})]
SAFE_GLOB = {d["name"] for d in GLOB}


def lit(s):
    return "'" + s.replace("\\", "\\\\").replace("'", "\\'") + "'"


def rawtext(raw):
    if raw["f"] == "list":
        return "[" + ", ".join(lit(x) for x in raw["e"]) + "]"
    return raw["s"]


def txt(s):
    return dict(f="txt", s=s)


def mlit(v):
    if v["t"] == "b":
        return "true" if v["v"] else "false"
    if v["t"] == "i":
        return str(v["v"])
    if v["t"] == "a":
        return "[" + ", ".join(lit(x) for x in v["v"]) + "]"
    return lit(v["v"])


class Gen:
    def __init__(self, r, regen):
        self.r, self.regen = r, regen
        # how likely a setting is an error
        self.err = 0.0 if regen else r.choice([0, 0, 0, 0, 0.04, 0.12])

    def words(self):
        r = self.r
        return [r.choice(WORDS if r.random() < 0.5 else PLAIN) for _ in range(r.choice([0, 1, 1, 2, 3]))]

    def raw_ok(self, d):
        """a raw value d accepts"""
        r, t = self.r, d["type"]
        if t == "string":
            if d["name"] == "prefix":
                return txt(r.choice(["/usr", "/opt/x y", "/p/q", "/usr/local", "/opt/x"]))
            if d["name"] in ("bindir", "libdir", "datadir", "mandir"):
                return txt(r.choice(["bin", "lib/x86_64", "a/b", "/usr/local/lib", "/usr/bin", "/opt/x y/e/f", "/p/q/r", "/usr-x", "/p/qq", "/usr/local2/b"]))
            return txt(r.choice(WORDS + [""]))
        if t == "combo":
            return txt(r.choice(d["ch"]))
        if t == "boolean":
            return txt(r.choice(["true", "false"]))
        if t == "feature":
            return txt(r.choice(["enabled", "disabled", "auto"]))
        if t == "integer":
            lo, hi = (d["min"] or [-20])[0], (d["max"] or [max(20, (d["min"] or [0])[0])])[0]
            n = r.choice([lo, hi, r.randint(lo, hi), r.randint(lo, hi)])
            return txt("+%d" % n if n >= 0 and r.random() < 0.1 else "-0" if n == 0 and r.random() < .1 else str(n))
        if d["ch"]:
            e = r.sample(d["ch"], r.randint(0, len(d["ch"])))
        else:
            e = self.words()
        if r.random() < 0.5 and all("," not in x and x != "" for x in e) and not (e and e[0].startswith("[")):
            return txt(",".join(e))
        return dict(f="list", e=e)

    def raw_bad(self, d):
        r, t = self.r, d["type"]
        if t == "combo":
            return txt(r.choice(["nope", "", d["ch"][0] + "x", d["ch"][0].upper() + "_"]))
        if t == "boolean":
            return txt(r.choice(["yes", "", "1", "truee", "True_"]))
        if t == "feature":
            return txt(r.choice(["true", "", "on", "autoo"]))
        if t == "integer":
            c = ["", "x", "1x", "1.5", "--1", "1 2"]
            if d["min"]:
                c += [str(d["min"][0] - 1)] * 3
            if d["max"]:
                c += [str(d["max"][0] + 1)] * 3
            return txt(r.choice(c))
        if t == "array" and d["ch"]:
            return r.choice([txt(d["ch"][0] + ",nope"), txt("nope"), dict(f="list", e=[d["ch"][0], "nope"]),
                             txt(d["ch"][0] + ",," + d["ch"][0])])
        return self.raw_ok(d)

    def raw(self, d):
        r = self.r
        if d["dep"] == "map" and r.random() < 0.6:
            o = r.choice(d["dm"])[0]
            if d["type"] == "array":
                ok = self.raw_ok(d)
                e = list(ok["e"] if ok["f"] == "list" else [x for x in ok["s"].split(",") if x])
                e.insert(r.randint(0, len(e)), o)
                return r.choice([txt(",".join(e)), dict(f="list", e=e)]) if all("," not in x for x in e) else dict(f="list", e=e)
            return txt(o)
        return self.raw_bad(d) if r.random() < self.err else self.raw_ok(d)

    def decl(self, name):
        r = self.r
        t = r.choice(TYPES)
        kw = {}
        if t == "combo" or (t == "array" and r.random() < 0.5):
            kw["ch"] = r.sample(["a", "b", "c", "one", "two", "A"], r.randint(1, 4))
        if t == "integer":
            if r.random() < 0.5:
                kw["min"] = [r.choice([-5, 0, 1, 3])]
            if r.random() < 0.5:
                kw["max"] = [(kw.get("min") or [0])[0] + r.choice([0, 1, 7])]
        d = D(name, t, **kw)
        d["explicit"] = t == "integer" or r.random() < 0.6
        if d["explicit"]:
            d["def"] = self.value(d)
            if r.random() < self.err * 0.3:
                if t == "combo":
                    d["def"] = val(t, "nope")
                elif t == "integer" and kw.get("max"):
                    d["def"] = val(t, kw["max"][0] + 1)
                elif t == "array" and kw.get("ch"):
                    d["def"] = val(t, ["nope"])
        if r.random() < 0.22:
            d["dep"] = r.choice(["flag", "map", "map", "list"])
            if t in ("string", "integer", "boolean", "feature") and d["dep"] == "map":
                olds = ["o1", "o2"]
            else:
                olds = ["o1", "o2"]
            if d["dep"] == "map":
                for o in olds:
                    n = self.raw_ok(D(name, t, **kw)) if t != "array" else txt(r.choice(kw.get("ch") or PLAIN))
                    d["dm"].append([o, n["s"] if n["f"] == "txt" else ""])
        return d

    def value(self, d):
        raw = self.raw_ok(d)
        t = d["type"]
        if t == "array":
            return val(t, raw["e"] if raw["f"] == "list" else [x for x in raw["s"].split(",")] if raw["s"] else [])
        if t == "integer":
            return val(t, int(raw["s"]))
        if t == "boolean":
            return val(t, raw["s"] == "true")
        return val(t, raw["s"])

    def scenario(self):
        r = self.r
        n = r.choice([1, 2, 2, 3])
        names = ["main", "s1", "s2"][:n]
        projects = []
        pool = ["o%d" % i for i in range(7)]
        for p in range(n):
            os_ = []
            for nm in r.sample(pool, r.randint(1, 5)):
                d = self.decl(nm)
                twin = p and next((x for x in projects[0]["opts"] if x["name"] == nm), None)
                if twin and r.random() < 0.7:
                    d = copy.deepcopy(twin)
                    d.update(dep="none", dm=[], dto="")
                if p:
                    d["yield_"] = r.random() < 0.5
                    # the main project's value has to be acceptable
                    if d["yield_"] and twin and twin["type"] == d["type"] and d["type"] in ("combo", "array", "integer"):
                        for k in ("ch", "min", "max"):
                            d[k] = copy.deepcopy(twin[k])
                        d["def"] = copy.deepcopy(twin["def"])
                        d["explicit"] = True
                        if d["dep"] == "map":
                            d.update(dep="none", dm=[])
                os_.append(d)
            # a renamed option: its type accepts what the new one does
            if r.random() < 0.35:
                new = r.choice(os_)
                if new["dep"] == "none":
                    d = D("old", "string" if new["type"] != "array" or r.random() < .5 else "array", dep="rename", dto=new["name"])
                    if d["type"] == "array":
                        d["ch"] = []
                    d["explicit"] = False
                    os_.append(d)
            projects.append(dict(name=names[p], opts=os_, dopts=[], body=[]))
        W = dict(glob=GLOB, per=PER, projects=projects, cmd=[], env=[])
        # settings
        perdecl = {p["name"]: {d["name"]: d for d in PER + p["opts"]} for p in projects}
        gl = {d["name"]: d for d in GLOB}

        def setting(pn, withglob, own=True):
            ds = list(perdecl[pn].values())
            if withglob and r.random() < 0.45:
                d = gl[r.choice(["prefix", "bindir", "libdir", "datadir", "mandir", "auto_features", "auto_features", "auto_features",
                                 "buildtype", "unity_size", "b_lto", "c_args", "c_args", "c_link_args", "pkg_config_path"])]
            else:
                d = r.choice(ds)
            nm = d["name"]
            raw = self.raw(perdecl[pn][d["dto"]] if d["dep"] == "rename" else d)
            if d["dep"] == "rename":
                if d["type"] == "string" and raw["f"] == "list":
                    raw = txt(rawtext(raw)) if r.random() < 0 else raw
                if d["type"] == "string" and raw["f"] == "list":
                    raw = txt(",".join(raw["e"])) if all("," not in x and x for x in raw["e"]) else txt("a")
                    if not raw["s"]:
                        raw = txt("a") if not perdecl[pn][d["dto"]]["ch"] else txt(perdecl[pn][d["dto"]]["ch"][0])
            if r.random() < self.err * 0.5:
                nm = r.choice(["nosuch", nm + "x"] + (["buildtype"] if pn != "main" and own is False else []))
            return dict(proj="", name=nm, raw=raw)
        parent_set = set()
        for i, p in enumerate(projects):
            for _ in range(r.choice([0, 0, 1, 2, 3])):
                s = setting(p["name"], i == 0)
                p["dopts"].append(s)
        for i, p in enumerate(projects[1:], 1):
            if r.random() < 0.3:
                for _ in range(r.choice([1, 1, 2])):
                    s = setting(p["name"], False)
                    s["proj"] = p["name"]
                    parent_set.add(p["name"])
                    projects[0]["dopts"].insert(r.randint(0, len(projects[0]["dopts"])), s)
        for _ in range(r.choice([0, 1, 2, 3, 4])):
            i = r.randrange(n)
            s = setting(names[i], i == 0, False)
            s["proj"] = "" if i == 0 else names[i]
            W["cmd"].append(s)
        if r.random() < self.err * 0.4:
            W["cmd"].append(dict(proj="ghost", name="o1", raw=txt("a")))
        for e in ("CFLAGS", "CPPFLAGS", "LDFLAGS", "PKG_CONFIG_PATH"):
            if r.random() < 0.25:
                W["env"].append(dict(name=e, val=r.choice(["-O1", "-Da=b -Wl,-z,now", " -x  -y ", "-Dq='w'", "-D$x -Db\\c", "/a:/b c"])))
        # bodies
        for i, p in enumerate(projects):
            b = p["body"]
            reads = [d["name"] for d in p["opts"]] + [d["name"] for d in PER]
            if i == 0 or r.random() < 0.3:
                reads += r.sample([d["name"] for d in GLOB], r.randint(1, 6))
            if i == 0 and r.random() < 0.6:
                reads += ["prefix", "bindir", "libdir", "datadir"]
            r.shuffle(reads)
            for nm in reads:
                b.append(dict(k="get", o=nm))
            if r.random() < self.err * 0.3:
                b.insert(r.randint(0, len(b)), dict(k="get", o="nosuch"))
            fs = [d["name"] for d in p["opts"] if d["type"] == "feature"] + ["auto_features"]
            for _ in range(r.choice([0, 1, 2])):
                b.append(self.feat(r.choice(fs)))
            if self.regen or r.random() < 0.1:
                for _ in range(r.choice([0, 1, 2, 2])):
                    self.use(p, b)
        for i in range(1, n):
            callers = [0] if i == 1 else [0, 0, 1]
            for c in {r.choice(callers)} | ({0} if r.random() < 0.25 else set()):
                st = dict(k="sub", p=names[i], dopts=[], req=r.random() < 0.75)
                if names[i] not in parent_set:
                    st["dopts"] = [setting(names[i], False) for _ in range(r.choice([0, 0, 1, 2]))]
                b = projects[c]["body"]
                b.insert(r.randint(0, len(b)), st)
        if not self.regen and r.random() < 0.05:
            b = projects[-1]["body"]
            b.insert(r.randint(0, len(b)), dict(k="error"))
        self.fix_calls(projects)
        return W

    def fix_calls(self, projects):
        """the order in which parents' settings for one subproject are applied is
        not specified when several calls make them: keep those of the first"""
        for q in projects[1:]:
            calls = [st for p in projects for st in p["body"] if st["k"] == "sub" and st["p"] == q["name"]]
            if len(calls) > 1:
                for st in calls:
                    st["dopts"] = []
                    st["req"] = True

    def feat(self, o):
        r = self.r
        ops = []
        for _ in range(r.choice([1, 1, 2, 3])):
            op = r.choice(["enable_if", "disable_if", "require", "enable_auto_if", "disable_auto_if"])
            m = "msg%d" % r.randrange(1000) + r.choice(["", "", " 50%% of 3%d", " %s"]) if op in ("enable_if", "disable_if", "require") and r.random() < 0.5 else ""
            ops.append(dict(op=op, c=r.random() < (0.5 if r.random() < 0.5 else (0.9 if op == "require" else 0.1)), m=m))
        return dict(k="feat", o=o, ops=ops)

    def use(self, p, b):
        r = self.r
        how = r.choice(["copy", "conf", "read", "read", "keyval", "run", "subdir", "version"])
        nm = r.choice(["", "", "b-aux/", "b d2/", "x/"]) + "in%d" % len([s for s in b if s["k"] == "use"])
        if how == "version" and any(s["k"] == "use" and s["how"] == "version" for s in b):
            return
        st = dict(k="use", file=nm, how=how, show=how in ("read", "keyval", "run", "subdir", "version"), content="c%d" % r.randrange(100))
        b.insert(0 if how == "version" else r.randint(0, len(b)), st)


# ------------------------------------------------------------------ rendering
def render_opts(p):
    o = []
    for d in p["opts"]:
        kw = ["type: " + lit(d["type"])]
        if d["explicit"]:
            kw.append("value: " + mlit(d["def"]))
        if d["ch"]:
            kw.append("choices: [" + ", ".join(map(lit, d["ch"])) + "]")
        for k in ("min", "max"):
            if d[k]:
                kw.append("%s: %d" % (k, d[k][0]))
        if d["yield_"]:
            kw.append("yield: true")
        if d["dep"] == "flag":
            kw.append("deprecated: true")
        elif d["dep"] == "list":
            kw.append("deprecated: ['o1', 'b']")
        elif d["dep"] == "map":
            kw.append("deprecated: {" + ", ".join("%s: %s" % (lit(a), lit(b)) for a, b in d["dm"]) + "}")
        elif d["dep"] == "rename":
            kw.append("deprecated: " + lit(d["dto"]))
        o.append("option(%s, %s)" % (lit(d["name"]), ", ".join(kw)))
    return "\n".join(o) + "\n"


def setlist(ss):
    return "[" + ", ".join(lit((s["proj"] + ":" if s["proj"] else "") + s["name"] + "=" + rawtext(s["raw"])) for s in ss) + "]"


def show(W, p, o, expr):
    d = next((x for x in PER + p["opts"] + GLOB if x["name"] == o), None)
    t = d["type"] if d else "string"
    v = {"string": "s|' + %s", "combo": "s|' + %s", "boolean": "b|' + (not (not %s)).to_string()", "integer": "i|' + (%s + 0).to_string()",
         "array": "a|' + v_.length().to_string() + '|' + '|'.join(%s)",
         "feature": "f|@0@@1@@2@@3@'.format(v_.enabled(), v_.disabled(), v_.auto(), v_.allowed())"}[t]
    if "%s" in v:
        v = v % "v_"
    return "v_ = %s\nmessage('@R|%s|%s|%s + '|.')" % (expr, p["name"], o, v)


def render_build(W, i, d):
    p = W["projects"][i]
    body = p["body"]
    ver = next((s for s in body if s["k"] == "use" and s["how"] == "version"), None)
    o = ["project(%s%s%s)" % (lit(p["name"]), ", default_options: " + setlist(p["dopts"]) if p["dopts"] else "",
                              ", version: files(%s)" % lit(ver["file"]) if ver else "")]
    for s in body:
        k = s["k"]
        if k == "get":
            o.append(show(W, p, s["o"], "get_option(%s)" % lit(s["o"])))
        elif k == "feat":
            e = "get_option(%s)" % lit(s["o"])
            for x in s["ops"]:
                e += ".%s(%s%s)" % (x["op"], "true" if x["c"] else "false", ", error_message: " + lit(x["m"]) if x["m"] else "")
            o.append(show(W, p, s["o"], e))
        elif k == "sub":
            kw = ""
            if s["dopts"]:
                kw += ", default_options: " + setlist(s["dopts"])
            if not s["req"]:
                kw += ", required: false"
            o.append("s_ = subproject(%s%s)\nmessage('@F|%s|' + s_.found().to_string() + '|.')" % (lit(s["p"]), kw, s["p"]))
        elif k == "error":
            o.append("error('stop')")
        elif k == "use":
            f, h = s["file"], s["how"]
            msg = "message('@U|%s|' + %%s.strip() + '|.')" % f
            if h == "copy":
                o.append("configure_file(input: %s, output: %s, copy: true)" % (lit(f), lit(os.path.basename(f) + ".out")))
            elif h == "conf":
                o.append("configure_file(input: %s, output: %s, configuration: {'x': 'y'})" % (lit(f), lit(os.path.basename(f) + ".out")))
            elif h == "read":
                o.append(msg % ("import('fs').read(%s)" % lit(f)))
            elif h == "keyval":
                o.append(msg % ("import('keyval').load(files(%s))['k']" % lit(f)))
            elif h == "run":
                o.append(msg % ("run_command('cat', files(%s), check: true).stdout()" % lit(f)))
            elif h == "version":
                o.append(msg % "meson.project_version()")
            elif h == "subdir":
                o.append("subdir(%s)" % lit(f + "_d"))
    return "\n".join(o) + "\n"


def bases(W, d, pn):
    """where a project may be looked for: below every project which calls it"""
    if pn == "main":
        return [d]
    out = [d + "/subprojects/" + pn]
    for p in W["projects"][1:]:
        if any(s["k"] == "sub" and s["p"] == pn for s in p["body"]):
            out.append(d + "/subprojects/" + p["name"] + "/subprojects/" + pn)
    return out


def path(W, base, pn, f):
    if f == "opts":
        return base + "/" + W.get("optfile", "meson_options.txt")
    if f == "build":
        return base + "/meson.build"
    p = next(x for x in W["projects"] if x["name"] == pn)
    s = next((x for x in p["body"] if x["k"] == "use" and x["file"] == f), None)
    if s and s["how"] == "subdir":
        return base + "/" + f + "_d/meson.build"
    return base + "/" + f


def content(W, i, f, d):
    p = W["projects"][i]
    if f == "opts":
        return render_opts(p)
    if f == "build":
        return render_build(W, i, d)
    s = next((x for x in p["body"] if x["k"] == "use" and x["file"] == f), None)
    if not s:
        return "unrelated\n"
    if s["how"] == "keyval":
        return "# comment\nk=%s\n" % s["content"]
    if s["how"] == "subdir":
        return "message('@U|%s|%s|.')\n" % (f, s["content"])
    return s["content"] + "\n"


def write_all(sc, W, d):
    for i, p in enumerate(W["projects"]):
        for f in ["opts", "build", "other"] + [s["file"] for s in p["body"] if s["k"] == "use"]:
            for b in bases(W, d, p["name"]):
                sc.write(path(W, b, p["name"], f), content(W, i, f, d))


def parse(out, rc, msgs):
    res = []
    for ln in out.split("\n"):
        m = re.search(r"@([RUF])\|(.*)\|\.$", ln.rstrip())
        if not m:
            continue
        w = m.group(2).split("|")
        if m.group(1) == "F":
            res.append(dict(k="F", s=w[0], v=w[1] == "true"))
        elif m.group(1) == "U":
            res.append(dict(k="U", f=w[0], v="|".join(w[1:])))
        else:
            pn, o, t = w[:3]
            x = w[3:]
            if t == "b":
                v = x[0] == "true"
            elif t == "i":
                v = int(x[0])
            elif t == "a":
                v = x[1:] if x[0] != "0" else []
                if len(v) != int(x[0]):
                    v = ["?"] + v
            elif t == "f":
                v = {"truefalsefalsetrue": "enabled", "falsetruefalsefalse": "disabled", "falsefalsetruetrue": "auto"}.get(x[0], "?" + x[0])
            else:
                v = "|".join(x)
            res.append(dict(k="R", p=pn, o=o, v=dict(t=t, v=v)))
    if rc != 0:
        res.append(dict(k="E", m=[m for m in msgs if "error " + m in out]))
    return res


def model(W):
    def fixd(d):
        x = {k: v for k, v in d.items() if k not in ("yield_", "explicit")}
        x["yield"] = d["yield_"]
        return x
    return dict(glob=[fixd(d) for d in W["glob"]], per=[fixd(d) for d in W["per"]], cmd=W["cmd"], env=W["env"],
                projects=[dict(p, opts=[fixd(d) for d in p["opts"]]) for p in W["projects"]])


def messages(W):
    return sorted({x["m"] for p in W["projects"] for s in p["body"] if s["k"] == "feat" for x in s["ops"] if x["m"]})


def execute(sc, scn):
    W = copy.deepcopy(scn["W"])
    W["optfile"] = scn["optfile"]
    d = sc.fresh() + scn["src"]
    sc.mkdirs(d)
    write_all(sc, W, d)
    env = {e["name"]: e["val"] for e in W["env"]}
    args = []
    for s in W["cmd"]:
        a = (s["proj"] + ":" if s["proj"] else "") + s["name"] + "=" + rawtext(s["raw"])
        args += ["-D", a] if scn["sep"] else ["-D" + a]
    tr = dict(world=model(scn["W"]), events=[], verbose=False)
    if scn["via"] == "C":
        cwd, argv = os.path.dirname(d), [sc.muon, "-C", os.path.basename(d), "setup"] + args + [scn["build"]]
    else:
        cwd, argv = d, [sc.muon, "setup"] + args + [scn["build"]]
    rc, out, _ = sc.run(argv, cwd, env)
    bd = d + "/" + scn["build"]

    def put(kind, rc, out):
        tr["events"].append(dict(ev=kind, rc=999 if rc is None else abs(rc), out=parse(out, rc, messages(W)), text=out[-700:]))
    put("config", rc, out)
    for h in [] if rc != 0 else scn["hist"]:
        if h["k"] == "build":
            rc, out, _ = sc.run([sc.muon, "samu"] if not scn["real"] else ["ninja"], bd,
                                env if h["env"] else {k: None for k in env})
            put("build", rc, out)
        else:
            W = copy.deepcopy(h["W"])
            W["optfile"] = scn["optfile"]
            for pn, f in h["files"]:
                i = [p["name"] for p in W["projects"]].index(pn)
                for b in bases(W, d, pn):
                    sc.write(path(W, b, pn, f), content(W, i, f, d))
            tr["events"].append(dict(ev="edit", world=model(h["W"]), files=h["files"]))
    shutil.rmtree(d, ignore_errors=True)
    return tr


def edit(r, W):
    """one edit: the new world and the files it touches"""
    W = copy.deepcopy(W)
    pi = r.randrange(len(W["projects"]))
    p = W["projects"][pi]
    g = Gen(r, True)
    c = r.random()
    uses = [s for s in p["body"] if s["k"] == "use"]
    if uses and c < 0.45:
        s = r.choice(uses)
        s["content"] = "n%d" % r.randrange(1000)
        return W, [[p["name"], s["file"]]]
    if c < 0.6:
        ds = [d for d in p["opts"] if d["explicit"] and d["dep"] != "rename" and not d["yield_"]]
        if ds and pi == 0:
            d = r.choice(ds)
            d["def"] = g.value(d)
            if any(q["opts"] and any(x["yield_"] and x["name"] == d["name"] for x in q["opts"]) for q in W["projects"][1:]):
                pass
            return W, [[p["name"], "opts"]]
    if c < 0.8:
        p["body"].append(dict(k="get", o=r.choice([d["name"] for d in p["opts"] + PER])))
        return W, [[p["name"], "build"]]
    if c < 0.86:
        p["body"].append(dict(k="error"))
        return W, [[p["name"], "build"]]
    if c < 0.92:
        return W, [[p["name"], r.choice(["opts", "build"])]]
    return W, [[p["name"], "other"]]


def gen(r, regen):
    W = Gen(r, regen).scenario()
    s = dict(W=W, hist=[], src=r.choice(["", "", "/so urce", "/a$b", "/c'd"]) if regen else "", sep=r.random() < 0.3,
             build=r.choice(["b", "b", "b d", "out/b$x"]) if regen else "b", via=r.choice(["", "C"]),
             optfile=r.choice(["meson_options.txt", "meson.options"]), real=False)
    if not s["src"] and s["via"] == "C":
        s["src"] = "/src"
    if regen:
        W2 = W
        for _ in range(r.choice([2, 3, 4, 5])):
            c = r.random()
            if c < 0.75:
                old = W2
                W2, files = edit(r, W2)
                s["hist"].append(dict(k="edit", W=W2, files=files))
                if any(x["k"] == "error" for p in W2["projects"] for x in p["body"]):
                    s["hist"].append(dict(k="build", env=r.random() < .5))
                    W2 = old
                    s["hist"].append(dict(k="edit", W=W2, files=files))
            s["hist"].append(dict(k="build", env=r.random() < .5))
            if r.random() < 0.4:
                s["hist"].append(dict(k="build", env=r.random() < .5))
    return s


def describe(tr):
    out = tlc_print("OptionsTrace", [dict(tr, verbose=True)], "AT")
    at = re.findall(r'<<"AT", 1, (\d+), (\d+), "(\w+)", (.*?)\s*>>\s*(?=<<\s*"AT"|Model|Progress|Finished|\Z|\d+ states)',
                    re.sub(r"<<\s+", "<<", out), re.S)
    ev = tr["events"]
    if not at:
        return "event 1: %s" % json.dumps(ev[0])[:600]
    i, n, mode, want = at[-1]
    i, n = int(i), int(n)
    e = ev[i - 1] if i <= len(ev) else {}
    return "event %d (%s, rc %s): expected line %d %s (%s), got %s; text: %s" % (
        i, e.get("ev"), e.get("rc"), n, re.sub(r"\s+", " ", want), mode, json.dumps(e.get("out", [])[max(0, n - 1):n + 1]),
        e.get("text", "")[-300:])


def run(ctx):
    regen = ctx.pid == "P17"
    ctx.mc("OptionsMC", MC_CFG)
    n = int(os.environ.get("VF_N") or (250 if regen else 700) * (10 if ctx.thorough else 1))
    scns = [gen(ctx.rng(i), regen) for i in range(n)]
    if ctx.pid == "P16":
        scns = [only_features(ctx.rng("f", i), s) for i, s in enumerate(scns)]
    with Scratch() as sc:
        conform(ctx, "OptionsTrace", scns, lambda s: execute(sc, s), describe, chunk=max(5, n // 16))
    ctx.cov["options_declared"] = sum(len(p["opts"]) for s in scns for p in s["W"]["projects"])


MC_CFG = """SPECIFICATION Spec
INVARIANT AlwaysValid
INVARIANT Precedence
PROPERTY Terminates
CHECK_DEADLOCK FALSE
"""


def only_features(r, s):
    """feature-heavy variant: every project chains feature methods"""
    g = Gen(r, False)
    for i, p in enumerate(s["W"]["projects"]):
        fs = [d["name"] for d in p["opts"] if d["type"] == "feature"]
        if not fs:
            d = D("ff", "feature")
            d["explicit"] = True
            d["def"] = val("feature", r.choice(["enabled", "disabled", "auto", "auto"]))
            p["opts"].append(d)
            fs = ["ff"]
        p["body"] = [x for x in p["body"] if x["k"] != "get" or x["o"] in fs]
        for _ in range(r.randint(1, 5)):
            p["body"].append(g.feat(r.choice(fs + ["auto_features"])))
    if r.random() < 0.6:
        s["W"]["cmd"].append(dict(proj="", name="auto_features", raw=txt(r.choice(["enabled", "disabled", "auto"]))))
    return s
