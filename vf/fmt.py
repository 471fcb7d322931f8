"""P25, P26: the formatter: formatted programs mean the same, and what it does to files."""
import json, os, re, shutil
from .common import Scratch, conform, tlc_print
from . import lang

TOK = re.compile(r"""[ \t\r]+|\\\n|(?P<nl>\n)|(?P<c>\#[^\n]*)|(?P<s>f?'''(?:.|\n)*?'''|f?'(?:\\.|[^'\\\n])*')|(?P<w>\w+)|(?P<p>==|!=|<=|>=|\+=|->|.)""", re.X)
OPEN, CLOSE = "([{", ")]}"
KEYW = {"if", "elif", "else", "endif", "foreach", "endforeach", "func", "endfunc", "return", "and", "or", "not", "in", "break", "continue", "true", "false"}


def lex(text):
    """[kind, text]: n(ewline), c(omment), s(tring), w(ord), p(unctuation)"""
    return [t[:2] for t in tokens(text, False)]


def tokens(text, multi=True):
    """[kind, text, white space before it]; m: a string over several lines"""
    res = []
    ws = ""
    for m in TOK.finditer(text):
        k, t = m.lastgroup, m.group()
        if not k:
            ws += t
            continue
        k = "n" if k == "nl" else "m" if multi and k == "s" and "\n" in t else k
        res.append([k, t.rstrip() if k == "c" else t, ws])
        ws = ""
    return res


COMMENTS = ["#", "# note", "#x", "#  two  spaces", "# it's ] a 'note", "# )", "## h ##", "#\ttab", "# ,", "# a: 1", "#!x", "# %s %d", "#\\"]


def spaced(a, b):
    """do these tokens need a space between them"""
    return (a[0] == "w" and (b[0] in "w" or b[0] == "s")) or (a[1] + b[1])[:2] in ("==", "!=", "<=", ">=", "+=", "->") or (a[1] == "-" and b[1] == ">")


class Layout:
    """the same program, laid out differently, with comments"""

    def __init__(self, r):
        self.r = r
        self.wild = r.choice([0, 0.02, 0.05, 0.15, 0.4])   # newlines inside brackets
        self.com = r.choice([0, 0.02, 0.05, 0.1, 0.3])     # comments where a line ends
        self.blank = r.choice([0, 0.05, 0.2])
        self.sp = r.choice([0.02, 0.1, 0.5])
        self.depth = 0

    def eol(self):
        r = self.r
        o = r.choice(["", "", " ", "  ", "\t"]) + (r.choice(COMMENTS) if r.random() < self.com else "") + "\n"
        while r.random() < self.blank + self.com / 2:
            o += r.choice(["", "  ", "\t"]) + (r.choice(COMMENTS) if r.random() < self.com * 2 else "") + "\n"
        return o

    def text(self, toks):
        """line breaks between statements, elements of lists and operands in brackets; comments at the end of these lines,
        and on lines of their own, but not among operands"""
        r = self.r
        o = self.eol() if r.random() < 0.1 else ""
        prev = None
        stack = []     # is it a list
        dot = False
        for t in toks:
            if t[0] in "nc":
                if t[0] == "n" and not stack and prev:
                    o += self.eol()
                    prev = None
                continue
            p = t[0] == "p"
            inlist = stack and stack[-1]
            start = prev and prev[0] == "p" and prev[1] in "([{"
            if prev is None:
                o += r.choice(["", "  ", "    ", "\t", " "]) if not stack else ""
            else:
                if p and t[1] in CLOSE and inlist and not start and prev[1] != "," and r.random() < self.wild / 2:
                    o += ","
                if inlist and (start or prev[1] == "," or p and t[1] in CLOSE) and r.random() < self.wild:
                    o += self.eol() + r.choice(["", "  ", "    ", "\t"])
                elif stack and not start and (t[1] in ("and", "or", "+") or prev[1] in ("and", "or", "+", "?", "in")) and r.random() < self.wild:
                    o += r.choice(["", " "]) + "\n" + r.choice(["", "  ", "\t"])
                elif spaced(prev, t):
                    o += r.choice([" ", " ", "  "]) if r.random() < 0.99 else " \\\n "
                elif start or p and t[1] in CLOSE or "." in (prev[1], t[1]) or (p and t[1] in "([" and (prev[0] in "ws" or prev[1] in CLOSE) and prev[1] not in KEYW):
                    o += " " if r.random() < self.sp / 3 else ""
                else:
                    o += r.choice(["", " ", " ", "  "]) if r.random() < self.sp else " "
            if p and t[1] in CLOSE:
                stack.pop()
            o += t[1]
            if p and t[1] in OPEN:
                after = prev and (prev[0] == "s" or prev[0] == "w" and prev[1] not in KEYW or prev[0] == "p" and prev[1] in CLOSE)
                stack.append(t[1] == "{" or (t[1] == "[" and not after) or (t[1] == "(" and bool(after)))
            prev = t
        return o + (self.eol() if r.random() < 0.9 else "")


LONG = ["alpha", "some_longer_name", "x" * 30, "quite_a_long_identifier_this_one_is", "b", "y1"]
STRS = ["'a'", "'b c'", "'-f'", "'--long-option-here'", "'it\\'s'", "''", "f'@a@'", "'src/file.c'", "'" + "z" * 40 + "'", "'# no comment'", "'''m'''",
        "'''two\n  lines'''", "'\\n'", "'%s'", "'(['"]
FILES = ["'a.c'", "'b.c'", "'c/a.c'", "'d.h'", "'A.c'", "'c/b/a.c'", "'a.h'", "'10.c'", "'9.c'"]
BINOPS = ["+", "-", "*", "/", "%", "==", "!=", "<", "<=", ">", ">=", "in", "not in", "and", "or"]
BAD = ["a = [1\n", "if true\n", "x = = 1\n", "foo(\n# c\n", "endif\n", "a = 'x\n", "f(1))\n", "foreach i : [1]\n", "x = 1 +\n", "project('p'", "a b\n", "$\n"]
BADCFG = ["max_line_len = many\n", "indent_by = 4\n", "space_array = yes\n", "max_line_len\n", "[s]\nwide_colon = true\n", "max_line_len = -1\n", "wide_colon =\n"]


class Syntax:
    """programs as text, for their syntax only"""

    def __init__(self, r, funcs):
        self.r, self.funcs = r, funcs

    def name(self):
        return self.r.choice(LONG)

    def args(self, d, kw=0.3):
        r = self.r
        res = [self.expr(d - 1) for _ in range(r.choice([0, 1, 1, 2, 3, 5]))]
        used = set()
        for _ in range(r.choice([1, 2, 2, 4]) if r.random() < kw else 0):
            k = r.choice(["command", "sources", "install", "a_keyword", "k", "dependencies"])
            if k in used:
                continue
            used.add(k)
            v = "[%s]" % ", ".join(r.choice(STRS) for _ in range(r.choice([1, 3, 6, 9]))) if k == "command" else self.expr(d - 1)
            res.append("%s: %s" % (k, v))
        return ", ".join(res)

    def expr(self, d=3):
        r = self.r
        if d <= 0 or r.random() < 0.2:
            return r.choice([self.name(), self.name(), r.choice(STRS), r.choice(STRS), str(r.choice([0, 7, 1234])), "0x1F", "true", "false"])
        k = r.randrange(13)
        if k <= 2:
            return "%s %s %s" % (self.operand(d), r.choice(BINOPS), self.operand(d))
        if k == 3:
            return "[%s]" % ", ".join(self.expr(d - 1) for _ in range(r.choice([0, 1, 2, 4, 8])))
        if k == 4:
            return "{%s}" % ", ".join("%s: %s" % (r.choice(STRS[:6] + ["'k%d'" % i]), self.expr(d - 1)) for i in range(r.choice([0, 1, 2, 4])))
        if k <= 6:
            return "%s(%s)" % (self.name(), self.args(d))
        if k == 7:
            fs = ", ".join(r.choice(FILES) for _ in range(r.choice([1, 2, 3, 5])))
            return "files(%s)" % r.choice([fs, "[%s]" % fs, "%s, [%s]" % (fs, fs), self.args(d, 0), ""])
        if k == 8:
            return "%s.%s(%s)" % (r.choice([self.name(), "'@0@'", "[%s]" % self.expr(d - 1), "%s(%s)" % (self.name(), self.args(d - 1))]), self.name(), self.args(d))
        if k == 9:
            return "%s[%s]" % (r.choice([self.name(), "%s(%s)" % (self.name(), self.args(d - 1))]), self.expr(d - 1))
        if k == 10:
            return "%s ? %s : %s" % (self.operand(d), self.operand(d), self.operand(d))
        if k == 11:
            return r.choice(["not %s", "-%s"]) % r.choice([self.name(), "(%s)" % self.expr(d - 1)])
        return "(%s)" % self.expr(d - 1)

    def operand(self, d):
        e = self.expr(d - 1)
        if self.r.random() < 0.4 or "?" in e or e[:1] == "-" or re.search(r"==|!=|[<>]| in ", e) or e.startswith("not"):
            return "(%s)" % e
        return e

    def simple(self):
        r = self.r
        k = r.randrange(6)
        if k <= 1:
            return "%s = %s" % (self.name(), self.expr())
        if k == 2:
            return "%s += %s" % (self.name(), self.expr())
        if k <= 4:
            return "%s(%s)" % (self.name(), self.args(3, 0.6))
        return "%s.%s(%s)" % (self.name(), self.name(), self.args(3))

    def block(self, n, d, loop=False, func=False):
        r = self.r
        res = []
        for _ in range(n):
            x = r.random()
            if d <= 0 or x < 0.65:
                res.append(self.simple())
            elif x < 0.82:
                res += ["if " + self.expr()] + self.block(r.choice([0, 1, 2]), d - 1, loop, func)
                for _ in range(r.choice([0, 0, 1, 2])):
                    res += ["elif " + self.expr()] + self.block(r.choice([0, 1, 1]), d - 1, loop, func)
                if r.random() < 0.5:
                    res += ["else"] + self.block(r.choice([0, 1, 1]), d - 1, loop, func)
                res.append("endif")
            elif x < 0.94 or not self.funcs or func or loop:
                res += ["foreach %s : %s" % (r.choice(["i", "k, v"]), self.expr())] + self.block(r.choice([1, 2]), d - 1, True, func) + ["endforeach"]
            else:
                ps = r.choice(["", "a int", "a int, b list[str]", "a str, bbbb bool: true", "a int, some_longer_name dict[any]: {}"])
                res += ["func %s(%s)%s" % (self.name(), ps, r.choice(["", " -> int", " -> list[str]"]))] + self.block(r.choice([1, 2]), d - 1, False, True)
                if r.random() < 0.7:
                    res.append("return " + self.expr())
                res.append("endfunc")
            if loop and r.random() < 0.1:
                res.append(r.choice(["break", "continue"]))
        return res

    def text(self, n):
        return "\n".join(self.block(n, 2)) + "\n"


def default():
    return dict(max=80, indent_by="    ", space_array=False, kwa=False, wide_colon=False, no_single=False, good=True)


def config(r):
    c = dict(max=r.choice([80, 80, 40, 20, 120, 1, 0]), indent_by=r.choice(["    ", "  ", "\t", "", "   "]), space_array=r.random() < 0.4, kwa=r.random() < 0.4,
             wide_colon=r.random() < 0.4, no_single=r.random() < 0.4, good=True)
    d = default()
    for k in c:
        if r.random() < 0.3:
            c[k] = d[k]
    t = []
    for k, o in (("max_line_len", "max"), ("indent_by", "indent_by"), ("space_array", "space_array"), (r.choice(["kwargs_force_multiline", "kwa_ml"]), "kwa"),
                 ("wide_colon", "wide_colon"), ("no_single_comma_function", "no_single")):
        if c[o] != d[o] or r.random() < 0.3:
            v = c[o]
            t.append("%s%s%s" % (k, r.choice([" = ", "=", "  =  "]), "'%s'" % v if isinstance(v, str) else str(v).lower()))
    r.shuffle(t)
    if r.random() < 0.3:
        t.insert(0, "; a comment")
    return c, "\n".join(t) + "\n"


def program(r, size, funcs):
    if r.random() < 0.05:
        return r.choice(["", "\n", "# only\n", "\n\n# a\n\n", "a = 1", "# x"])
    t = Syntax(r, funcs).text(size)
    return Layout(r).text(lex(t)) if r.random() < 0.85 else t


def scenario(r, pid):
    big = pid == "P25"
    names = ["main.meson"] if big else r.sample(["main.meson", "meson.build", "sub/meson.build", "b.meson", "meson_options.txt"], r.choice([1, 2, 3]))
    cfgs = [[default(), None]]
    for _ in range(1 if big else 2):
        c, t = config(r)
        if not big and r.random() < 0.15:
            c["good"] = False
            t += r.choice(BADCFG)
        cfgs.append([c, t])
    files = {}
    for n in names:
        bad = not big and r.random() < 0.2
        t = program(r, r.choice([3, 6, 9]) if big else r.choice([1, 2, 4]), n.endswith(".meson"))
        files[n] = [r.choice([t, "", "a = 1\n"]) + "\n" + r.choice(BAD) if bad else t, not bad]
    ro = [] if big else [n for n in names if r.random() < 0.08]
    ops = []
    for _ in range(2 if big else r.choice([2, 3, 4, 6])):
        fs = list(names)
        r.shuffle(fs)
        fs = fs[:r.choice([1, 1, 2, 3])]
        if not big and r.random() < 0.1:
            fs.insert(r.randrange(len(fs) + 1), "gone.meson")
        ops.append(dict(mode=r.choice(["stdout", "inplace", "inplace", "check"]), cfg=r.randrange(len(cfgs)) + 1, files=fs))
    return dict(cfgs=cfgs, files=files, ro=ro, ops=ops)


def execute(sc, s):
    d = sc.fresh()
    contents, ids = [], {}

    def cid(text, good=True):
        if text not in ids:
            contents.append(dict(text=text, good=good, toks=tokens(text) if good else []))
            ids[text] = len(contents)
        return ids[text]

    def read(n):
        try:
            with open(d + "/" + n, newline="") as f:
                return f.read()
        except OSError:
            return None

    cache = {}
    names = list(s["files"]) + ["gone.meson"]
    for n, (t, good) in s["files"].items():
        sc.write(d + "/" + n, t, 0o444 if n in s["ro"] else 0o644)
        cid(t, good)
    for i, (c, t) in enumerate(s["cfgs"]):
        if t is not None:
            sc.write(d + "/cfg%d.ini" % (i + 1), t)

    def argv(op):
        a = [sc.muon, "fmt"]
        if op["cfg"] > 1:
            a += ["-c", "cfg%d.ini" % op["cfg"]]
        return a + {"stdout": [], "inplace": ["-i"], "check": ["-q"]}[op["mode"]]

    def hint(op, n):
        """what formatting makes of it, as a guess for TLC"""
        t = read(n)
        if t is None:
            return 0
        k = (op["cfg"], t, n.endswith(".meson"))
        if k not in cache:
            x = "hint/" + os.path.basename(n)
            sc.write(d + "/" + x, t)
            rc, out, _ = sc.run(argv(dict(op, mode="stdout")) + [x], d, timeout=20, merge=False)
            cache[k] = cid(out) if rc == 0 else 0
        return cache[k]

    def state():
        return [[n, 0 if read(n) is None else cid(read(n))] for n in names]

    first = state()
    events = []
    for op in s["ops"]:
        h = [hint(op, n) for n in op["files"]]
        rc, out, err = sc.run(argv(op) + op["files"], d, timeout=20, merge=False)
        events.append(dict(op, hints=h, rc=999 if rc is None else rc, out=out, after=state(), err=err[-300:]))
    shutil.rmtree(d, ignore_errors=True)
    return dict(contents=contents, files=first, ro=s["ro"], cfgs=[c for c, _ in s["cfgs"]], events=events, verbose=False)


def describe(tr):
    out = tlc_print("FmtTrace", [dict(tr, verbose=True)], "AT")
    at = re.findall(r'<<\s*"AT",\s*(\d+),(.*?)(?=<<\s*"AT"|Model checking|Progress|Finished|\Z)', out, re.S)
    if not at:
        return "event 1: " + out[-600:]
    i, what = at[-1]
    ev = tr["events"][int(i) - 1]
    return "event %s: fmt %s %s: %s; exit status %s; %s" % (i, ev["mode"], " ".join(ev["files"]), re.sub(r"\s+", " ", what)[-2000:], ev["rc"], ev["err"])


def meaning(r):
    """a program of the language, laid out and formatted"""
    s = lang.scenario(r, r.choice(["P06", "P06", "P08", "P10", "P09"]))
    c, t = config(r)
    for k in s["src"]:
        s["src"][k] = Layout(r).text(lex(s["src"][k]))
    return dict(s, cfg=t if r.random() < 0.7 else None)


def execute_formatted(sc, s):
    d = sc.fresh()
    src = {}
    f = "x.meson" if s["mode"] == "eval" else "meson.build"
    for k, t in s["src"].items():
        sc.write(d + "/" + f, t)
        if s["cfg"] is not None:
            sc.write(d + "/c.ini", s["cfg"])
        sc.run([sc.muon, "fmt"] + (["-c", "c.ini"] if s["cfg"] is not None else []) + ["-i", f], d, timeout=20)
        with open(d + "/" + f, newline="") as h:
            src[k] = h.read()
    shutil.rmtree(d, ignore_errors=True)
    return lang.execute(sc, dict(s, src=src))


MC_CFG = """SPECIFICATION Spec
CONSTANT MaxRuns = %d
INVARIANTS Type Law
PROPERTIES Kept
CHECK_DEADLOCK FALSE
"""


def run(ctx):
    os.umask(0o022)
    ctx.mc("FmtMC", MC_CFG % (4 if ctx.thorough else 3))
    n = int(os.environ.get("VF_N") or (800 if ctx.pid == "P25" else 900) * (8 if ctx.thorough else 1))
    with Scratch() as sc:
        conform(ctx, "FmtTrace", [scenario(ctx.rng(i), ctx.pid) for i in range(n)], lambda s: execute(sc, s), describe, chunk=max(5, n // 16))
        if ctx.pid == "P25":
            conform(ctx, "LangTrace", [meaning(ctx.rng("m", i)) for i in range(n)], lambda s: execute_formatted(sc, s), lang.describe, chunk=150)
