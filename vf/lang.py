"""The build language against spec/Lang.tla: generated programs are run by the
real interpreter and their output and exit status checked by TLC."""
import json, os, re
from .common import *

# ------------------------------------------------------------------ unparsing
LEVEL = {"tern": 0, "or": 1, "and": 2, "cmp": 3, "neg": 6, "not": 6}
BIN = {"+": 4, "-": 4, "*": 5, "/": 5, "%": 5}


def level(e):
    n = e["n"]
    if n == "bin":
        return BIN[e["op"]]
    return LEVEL.get(n, 8)


class Unparse:
    """Program text, with the parentheses the grammar needs and some it does not."""

    def __init__(self, r):
        self.r = r

    def sub(self, e, min_level):
        t = self.expr(e)
        if level(e) < min_level or self.r.random() < 0.07:
            return "(" + t + ")"
        return t

    def string(self, v):
        """a string literal: plain, with escapes, or with three quotes"""
        r = self.r
        m = r.random()
        if m < 0.04:
            return "'''" + v + "'''"
        if m < 0.15 and v:
            i = r.randrange(len(v))
            f = r.choice(["\\x%02x", "\\%03o", "\\u%04x", "\\U%08x"])
            return "'" + v[:i] + f % ord(v[i]) + v[i + 1:] + "'"
        return "'" + v + "'"

    def number(self, v):
        m = self.r.random()
        return str(v) if m < 0.85 else hex(v) if m < 0.9 else oct(v) if m < 0.95 else bin(v)

    def sep(self):
        m = self.r.random()
        return ", " if m < 0.94 else ",\n    " if m < 0.97 else ", # note, ]\n  " if m < 0.985 else " ,"

    def args(self, e):
        a = [self.expr(x) for x in e["args"]]
        a += ["%s: %s" % (k["k"], self.expr(k["e"])) for k in e.get("kw", [])]
        return "".join((self.sep() if i else "") + x for i, x in enumerate(a))

    def expr(self, e):
        n = e["n"]
        if n == "int":
            return self.number(e["v"])
        if n == "str":
            return self.string(e["v"])
        if n == "bool":
            return "true" if e["v"] else "false"
        if n == "id":
            return e["v"]
        if n == "arr":
            return "[" + self.args(dict(args=e["e"])) + (", " if e["e"] and self.r.random() < 0.1 else "") + "]"
        if n == "dict":
            return "{" + "".join((self.sep() if i else "") + "%s: %s" % (self.expr(x["k"]), self.expr(x["e"]))
                                 for i, x in enumerate(e["e"])) + "}"
        if n == "fstr":
            return "f'" + "".join(p["v"] if p["n"] == "lit" else "@%s@" % p["v"] for p in e["p"]) + "'"
        if n == "neg":
            return "-" + self.sub(e["a"], 7)
        if n == "not":
            return "not " + self.sub(e["a"], 7)
        if n == "tern":
            return "%s ? %s : %s" % (self.sub(e["c"], 1), self.sub(e["a"], 1), self.sub(e["b"], 1))
        if n in ("and", "or"):
            l = LEVEL[n]
            return "%s %s %s" % (self.sub(e["a"], l), n, self.sub(e["b"], l + 1))
        if n == "cmp":
            op = "not in" if e["op"] == "notin" else e["op"]
            return "%s %s %s" % (self.sub(e["a"], 4), op, self.sub(e["b"], 4))
        if n == "bin":
            l = BIN[e["op"]]
            return "%s %s %s" % (self.sub(e["a"], l), e["op"], self.sub(e["b"], l + 1))
        if n == "index":
            return "%s[%s]" % (self.sub(e["a"], 8), self.expr(e["b"]))
        if n == "method":
            return "%s.%s(%s)" % (self.sub(e["a"], 8), e["m"], self.args(e))
        if n == "call":
            return "%s(%s)" % (e["f"], self.args(e))
        raise Exception(n)

    def block(self, b, ind=0):
        o = []
        p = "  " * ind
        for s in b:
            k = s["s"]
            if k == "assign":
                o.append(p + "%s = %s" % (s["x"], self.expr(s["e"])))
            elif k == "plus":
                o.append(p + "%s += %s" % (s["x"], self.expr(s["e"])))
            elif k == "out":
                o += [p + "o = " + self.expr(s["e"]), p + "if is_disabler(o)", p + "  message('DISABLER')", p + "else",
                      p + "  message([o])", p + "endif"]
            elif k == "expr":
                o.append(p + self.expr(s["e"]))
            elif k == "if":
                for i, c in enumerate(s["cl"]):
                    o.append(p + ("elif " if i else "if ") + self.expr(c["c"]))
                    o += self.block(c["b"], ind + 1)
                if s["els"] or s.get("haselse"):
                    o.append(p + "else")
                    o += self.block(s["els"], ind + 1)
                o.append(p + "endif")
            elif k == "foreach":
                o.append(p + "foreach %s : %s" % (", ".join(s["vs"]), self.expr(s["e"])))
                o += self.block(s["b"], ind + 1)
                o.append(p + "endforeach")
            elif k in ("break", "continue"):
                o.append(p + k)
            elif k == "subdir":
                o.append(p + "subdir('%s')" % s["d"])
            elif k == "subdirv":
                o.append(p + "subdir(%s)" % s["x"])
            elif k == "subdir_done":
                o.append(p + "subdir_done()")
            elif k == "func":
                ps = ["%s %s" % x for x in zip(s["ps"], s["pt"])]
                ps += ["%s %s: %s" % (x["k"], x["t"], self.expr(x["e"])) for x in s["kw"]]
                o.append(p + "func %s(%s)%s" % (s["f"], ", ".join(ps), " -> " + s["rt"] if s["rt"] != "void" else ""))
                o += self.block(s["b"], ind + 1)
                o.append(p + "endfunc")
            elif k == "return":
                o.append(p + "return " + self.expr(s["e"]))
            else:
                raise Exception(k)
        return o


# ----------------------------------------------------------------- generation
def lit(v):
    if isinstance(v, bool):
        return dict(n="bool", v=v)
    if isinstance(v, int):
        return dict(n="int", v=v) if v >= 0 else dict(n="neg", a=dict(n="int", v=-v))
    if isinstance(v, str):
        return dict(n="str", v=v)
    if isinstance(v, list):
        return dict(n="arr", e=[lit(x) for x in v])
    if isinstance(v, dict):
        return dict(n="dict", e=[dict(k=lit(k), e=lit(x)) for k, x in v.items()])


def call(f, *args, **kw):
    return dict(n="call", f=f, args=list(args), kw=[dict(k=k, e=e) for k, e in kw.items()])


def meth(a, m, *args):
    return dict(n="method", a=a, m=m, args=list(args))


def ident(x):
    return dict(n="id", v=x)


def binop(op, a, b):
    return dict(n="bin", op=op, a=a, b=b)


WORDS = ["a", "b", "ab", "abc", "Ab", "x-y", "1", "2.0", "10", "", "foo", "foo bar", "a,b,c", "  pad ", "lib/x", "A_b",
         "@0@", "aXbX", "XX", "007", "zz top", "a.b", "b-1.2"]
KEYS = ["a", "b", "c", "k1", "foo", "x y", ""]
BIGKEYS = ["%s%d" % (a, i) for a in "pq" for i in range(13)]
VERS = ["1", "1.0", "1.0.0", "1.2", "1.10", "1.2.3", "2", "2.0rc1", "2.0", "2.0a", "1.2b", "0", "01.2", "1..2", "1.2-3",
        "10", "9.9", "1.a", "1.B", "a", "3.0.0-beta", "1.2.3.4"]
INTM = 9


class Gen:
    def __init__(self, r, p_err=0.0, p_dis=0.0, funcs=False, alias=False, deep=3, methods=1.0, subs=False):
        self.r, self.p_err, self.p_dis, self.deep = r, p_err, p_dis, deep
        self.vars = {}               # name -> type
        self.nv = 0
        self.loops = 0
        self.infunc = 0
        self.funcs = {} if funcs else None    # name -> (param types, kw types, return type)
        self.alias = alias
        self.methods = methods
        self.subs = {} if subs else None
        self.insub = 0
        self.budget = 60

    def ty(self):
        return self.r.choice(["int", "int", "str", "str", "str", "bool", ("arr", "int"), ("arr", "str"), ("dict", "int"),
                              ("dict", "str")] + ([("arr", ("arr", "int")), ("dict", ("arr", "str"))] if self.funcs is None else []))

    def vars_of(self, t):
        return [v for v, x in self.vars.items() if x == t]

    def small(self):
        r = self.r
        m = r.random()
        if m < 0.6:
            return lit(r.randint(0, INTM))
        if m < 0.8:
            v = [x for x, t in self.vars.items() if t not in ("int", "bool", "str", "func") and t[0] == "arr"]
            if v:
                return meth(ident(r.choice(v)), "length")
        if m < 0.9:
            v = self.vars_of("bool")
            if v:
                return meth(ident(r.choice(v)), "to_int")
        return lit(r.randint(0, 30))

    def idx(self, n):
        """an index, mostly valid for length n"""
        r = self.r
        if n and r.random() < 1 - self.p_err * 3:
            return r.randint(-n, n - 1)
        return r.randint(-n - 2, n + 2) if self.p_err else 0

    def expr(self, t, d=None):
        r = self.r
        d = self.deep if d is None else d
        if self.p_err and r.random() < self.p_err:
            m = r.random()
            if m < 0.3:
                return ident("undefined_var")
            if m < 0.5:
                return binop("+", lit(1), lit("s"))
            if m < 0.6:
                return dict(n="index", a=lit([1, 2]), b=lit(r.choice([2, -3, 5])))
            if m < 0.7:
                return dict(n="index", a=lit({"a": 1}), b=lit("zz"))
            if m < 0.8:
                return meth(lit("abc"), r.choice(["nope", "to_int"]))
            if m < 0.9:
                return binop("/", lit(3), lit(0))
            return self.expr(self.ty(), max(0, d - 1))
        if self.p_dis and r.random() < self.p_dis:
            v = [x for x in self.vars if x.startswith("dz")]
            return ident(r.choice(v)) if v and r.random() < 0.5 else call("disabler")
        if d > 0 and r.random() < 0.06 and self.vars_of(t) and self.r.random() < 0.5:
            v = r.choice(self.vars_of(t))
            return call("get_variable", lit(v), self.expr(t, 0)) if r.random() < 0.7 else call("get_variable", lit(v))
        if d > 0 and r.random() < 0.07:
            return dict(n="tern", c=self.expr("bool", d - 1), a=self.expr(t, d - 1), b=self.expr(t, d - 1))
        if d > 0 and r.random() < 0.08 and not self.loops:
            e = dict(n="index", a=dict(n="arr", e=[self.expr(t, d - 1) for _ in range(r.randint(1, 3))]), b=None)
            e["b"] = lit(self.idx(len(e["a"]["e"])))
            return e
        if self.funcs and d > 0 and r.random() < 0.25:
            c = [f for f, s in self.funcs.items() if s[2] == t]
            if c:
                return self.ucall(r.choice(c), d)
        if d <= 0 or r.random() < 0.25:
            v = self.vars_of(t)
            if v and r.random() < 0.75:
                return ident(r.choice(v))
            return self.leaf(t)
        return getattr(self, "e_" + (t if isinstance(t, str) else t[0]))(t, d)

    def ucall(self, f, d):
        ps, kws, _ = self.funcs[f]
        r = self.r
        g = (lambda t: self.leaf(t)) if self.loops else (lambda t: self.expr(t, d - 1))
        kw = {k: g(t) for k, t in kws.items() if r.random() < 0.6}
        return call(f, *[g(t) for t in ps], **kw)

    def leaf(self, t):
        r = self.r
        if t == "int":
            return lit(r.choice([0, 1, 2, 3, 7, 12, -1, -4, 255]))
        if t == "str":
            m = r.random()
            if m < 0.02 and not self.loops:
                return lit(r.choice(["ab", "x ", "a,bc"]) * r.choice([20, 32, 33, 40]))
            return lit(r.choice(WORDS))
        if t == "bool":
            return lit(r.random() < 0.5)
        if t[0] == "arr":
            return dict(n="arr", e=[self.leaf(t[1]) for _ in range(r.randint(0, 3) if r.random() < 0.97 else 20)])
        ks = r.sample(KEYS, r.randint(0, 3))
        if r.random() < (0.3 if self.p_err else 0.06) and not self.loops:    # large ones are stored differently
            ks = r.sample(BIGKEYS, r.choice([14, 15, 16, 17, 18, 24]))
            if r.random() < 0.5:
                ks[r.randrange(len(ks))] = r.choice(KEYS)
        return dict(n="dict", e=[dict(k=lit(k), e=self.leaf(t[1])) for k in ks])

    def e_int(self, t, d):
        r = self.r
        m = r.random()
        if m < 0.35:
            return binop(r.choice("+-"), self.expr("int", d - 1), self.small() if self.loops else self.expr("int", d - 1))
        if m < 0.45:
            return binop("*", self.small(), self.small()) if r.random() < 0.5 else \
                binop(r.choice("/%"), self.small(), lit(r.randint(1, 7)))
        if m < 0.58:            # chains, for precedence and associativity
            e = self.small()
            for _ in range(r.randint(1, 3)):
                op = r.choice("*/%+-")
                if op in "/%":
                    e = binop(op, e, lit(r.randint(1, 9))) if self.nonneg(e) else binop("-", e, self.small())
                elif op == "*":
                    e = binop(op, e, lit(r.randint(0, 5)))
                else:
                    e = binop(op, e, self.small()) if r.random() < 0.7 else binop(op, self.small(), e)
            return e
        if m < 0.65:
            return dict(n="neg", a=self.expr("int", d - 1))
        if m < 0.8:
            return meth(self.expr(("arr", r.choice(["int", "str"])), d - 1), "length")
        if m < 0.86:
            return meth(lit(r.choice(["12", "0", "-5", "007", "x" if self.p_err else "3"])), "to_int")
        if m < 0.92:
            return meth(self.expr("bool", d - 1), "to_int")
        if r.random() < 0.5:
            a = self.expr(("dict", "int"), d - 1)
            return meth(a, "get", lit(r.choice(KEYS + BIGKEYS[:3])), self.expr("int", d - 1))
        a = self.expr(("arr", "int"), d - 1)
        return meth(a, "get", lit(r.randint(-2, 3)), self.expr("int", d - 1))

    def nonneg(self, e):
        if e["n"] == "int":
            return True
        if e["n"] == "method":
            return e["m"] in ("length", "to_int")
        return e["n"] == "bin" and e["op"] in "+*/%" and self.nonneg(e["a"]) and self.nonneg(e["b"])

    def e_str(self, t, d):
        r = self.r
        m = r.random()
        s = lambda: self.expr("str", d - 1)
        if self.loops and (0.36 <= m < 0.44 or 0.59 <= m < 0.8):
            d = 0                            # what grows by more than a constant takes no variables in loops
            s = lambda: self.leaf("str")
        short = lambda: lit(r.choice(["a", "b", "X", "", ".", "-", "ab", " "])) if r.random() < 0.6 or self.loops else s()
        if m < 0.2:
            return binop("+", s(), short())
        if m < 0.27:
            p = ["a", "b/c", "d", "/abs", "", "x.y", "lib"]
            return binop("/", lit(r.choice(p)), lit(r.choice(p)))
        if m < 0.36:
            return meth(s(), r.choice(["to_upper", "to_lower", "underscorify"]))
        if m < 0.44:
            return meth(s(), "replace", short(), lit(r.choice(["", "_", "a", "yy"])))
        if m < 0.53:
            return meth(s(), "substring", *[lit(r.randint(-6, 9)) for _ in range(r.randint(0, 2))])
        if m < 0.59:
            return meth(s(), "strip", *([lit(r.choice(["a", "ab", " ", "X-", "", "abc"]))] if r.random() < 0.5 else []))
        if m < 0.69:
            a = [self.leaf(("arr", "str")) if self.loops else self.expr(("arr", "str"), d - 1)] if r.random() < 0.7 else [lit("p"), lit(["q", "r"]), lit("s")]
            return meth(short(), "join", *a)
        if m < 0.8:
            n = r.randint(1, 3)
            f = "".join(r.choice(["@0@", "@%d@" % r.randint(0, n - 1), "x", " ", "@", "@a@", "@@", "-", "@1"])
                        for _ in range(r.randint(1, 5)))
            if not self.p_err:
                f = re.sub(r"@(\d+)@", lambda k: k.group(0) if int(k.group(1)) < n else "@0@", f)
                if any(int(k) >= n for k in re.findall(r"(?=@(\d+)@)", f)):
                    f = "@0@"
            return meth(lit(f), "format", *[self.leaf("str") if self.loops else self.expr(r.choice(["int", "str", "bool"]), d - 1) for _ in range(n)])
        if m < 0.85:
            return meth(self.expr("int", d - 1), "to_string")
        if m < 0.9:
            return meth(self.expr("bool", d - 1), "to_string", *[lit(r.choice(WORDS[:8])) for _ in range(r.randint(0, 2))])
        if m < 0.95:
            v = [x for x, ty in self.vars.items() if ty in (("int", "bool") if self.loops else ("int", "str", "bool")) and (not self.p_dis or self.p_err)]
            ps = [dict(n="lit", v=r.choice(["a", "", "-", "b c", "@", "@ ", "@x y", "@1@"]))]
            for _ in range(r.randint(0, 2)):
                if v:
                    ps += [dict(n="id", v=r.choice(v)), dict(n="lit", v=r.choice(["", "_", "q"]))]
            return dict(n="fstr", p=ps)
        w = r.choice([x for x in WORDS if x])
        return dict(n="index", a=lit(w), b=lit(self.idx(len(w))))

    def e_bool(self, t, d):
        r = self.r
        m = r.random()
        if m < 0.15:
            return dict(n=r.choice(["and", "or"]), a=self.expr("bool", d - 1), b=self.expr("bool", d - 1))
        if m < 0.22:
            e = self.expr("bool", d - 1)
            for _ in range(r.randint(1, 2)):
                e = dict(n=r.choice(["and", "or"]), a=e, b=self.expr("bool", 0)) if r.random() < 0.6 else \
                    dict(n=r.choice(["and", "or"]), a=self.expr("bool", 0), b=e)
            return e
        if m < 0.3:
            return dict(n="not", a=self.expr("bool", d - 1))
        if m < 0.45:
            return dict(n="cmp", op=r.choice(["<", "<=", ">", ">=", "==", "!="]), a=self.expr("int", d - 1), b=self.expr("int", d - 1))
        if m < 0.57:
            t = r.choice(["str", "bool", ("arr", "int"), ("arr", "str"), ("dict", "int")])
            a = self.expr(t, d - 1)
            b = self.expr(t, d - 1) if r.random() < 0.7 else self.expr(r.choice([t, self.ty()]), d - 1)
            return dict(n="cmp", op=r.choice(["==", "!="]), a=a, b=b)
        if m < 0.7:
            t = r.choice(["int", "str", "str", ("arr", "str")])
            c = [("arr", t)]
            if t == "str":
                c += [("dict", "int"), "str"]
            return dict(n="cmp", op=r.choice(["in", "notin"]), a=self.expr(t, d - 1), b=self.expr(r.choice(c), d - 1))
        if m < 0.8:
            return meth(self.expr("str", d - 1), r.choice(["startswith", "endswith", "contains"]), self.expr("str", 0))
        if m < 0.85:
            return meth(lit(r.choice(VERS)), "version_compare", lit(r.choice([">=", "<=", "<", ">", "==", "!=", "=", "", ">= "]) + r.choice(VERS)))
        if m < 0.9:
            t = r.choice(["int", "str"])
            return meth(self.expr(("arr", t), d - 1), "contains", self.expr(t, d - 1))
        if m < 0.94:
            return meth(self.expr(("dict", "int"), d - 1), "has_key", lit(r.choice(KEYS if r.random() < 0.7 else BIGKEYS)))
        if m < 0.97:
            return meth(self.expr("int", d - 1), r.choice(["is_odd", "is_even"]))
        if self.p_dis and r.random() < 0.7:
            return call("is_disabler", self.expr(self.ty(), d - 1))
        return call("is_variable", lit(r.choice(list(self.vars) + ["nope"])))

    def e_arr(self, t, d):
        r = self.r
        m = r.random()
        e = t[1]
        if m < 0.35:
            return dict(n="arr", e=[self.expr(e, d - 1) for _ in range(r.randint(0, 3))])
        if m < 0.6:
            if r.random() < 0.3 and isinstance(e, str):
                return binop("+", self.expr(t, d - 1), self.expr(e, d - 1))
            return binop("+", self.expr(t, d - 1), self.leaf(t) if self.loops else self.expr(t, d - 1))
        if e == "str":
            if m < 0.8:
                return meth(self.expr("str", d - 1), "split", *([lit(r.choice([",", " ", "a", "X", "."]))] if r.random() < 0.7 else []))
            return meth(self.expr(("dict", "int"), d - 1), "keys")
        if e == "int":
            a = r.randint(0, 4)
            return call("range", *r.choice([[lit(a)], [lit(a), lit(a + r.randint(0, 4))], [lit(a), lit(a + r.randint(0, 9)), lit(r.randint(1, 3))]]))
        return dict(n="arr", e=[self.expr(e, d - 1) for _ in range(r.randint(1, 2))])

    def e_dict(self, t, d):
        r = self.r
        if r.random() < 0.45:
            return binop("+", self.expr(t, d - 1), self.leaf(t) if self.loops else self.expr(t, d - 1))
        ks = r.sample(KEYS, r.randint(0, 3))
        if self.p_err and ks and r.random() < self.p_err * 2:
            ks.append(ks[0])
        return dict(n="dict", e=[dict(k=lit(k), e=self.expr(t[1], d - 1)) for k in ks])

    # -------------------------------------------------------------- statements
    def newvar(self, t):
        same = [x for x in self.vars_of(t) if not x.startswith("dz")]
        if same and self.r.random() < 0.45:
            return self.r.choice(same)
        self.nv += 1
        return "v%d" % self.nv

    def stmts(self, n, top=False):
        b = []
        for _ in range(n):
            if self.budget <= 0:
                break
            self.budget -= 1
            b += self.stmt(top)
        return b

    def scoped(self, n):
        """a block which may not run: variables it introduces are not relied on after it"""
        save = dict(self.vars)
        b = self.stmts(n)
        self.vars = save
        return b

    def stmt(self, top):
        r = self.r
        m = r.random()
        if m < 0.27:
            t = self.ty()
            if self.alias and self.vars and r.random() < 0.5:
                src = r.choice(list(self.vars))
                t = self.vars[src]
                if t == "func":
                    return []
                e = ident(src)
            else:
                e = self.expr(t)
            x = self.newvar(t)
            if self.alias and r.random() < 0.15:
                s = dict(s="expr", e=call("set_variable", lit(x), e))
            else:
                s = dict(s="assign", x=x, e=e)
            self.vars[x] = t
            return [s]
        if m < 0.5 or (self.infunc and m < 0.45):
            v = [x for x, t in self.vars.items() if t != "func" and (not self.infunc or t in ("int", "str"))
                 and (self.funcs is None or t in ("int", "str"))]
            if v:
                x = r.choice(v)
                t = self.vars[x]
                if t == "int":
                    e = self.small() if self.loops else self.expr("int")
                elif t == "str":
                    e = lit(r.choice(["a", "-", "", "bc"])) if self.loops else self.expr("str", 1)
                elif t == "bool":
                    return [dict(s="out", e=ident(x))]
                elif t[0] == "arr":
                    e = self.leaf(t) if self.loops else self.expr(t, 1)
                    if isinstance(t[1], str) and r.random() < 0.4:
                        e = self.leaf(t[1]) if self.loops else self.expr(t[1], 1)
                else:
                    e = self.leaf(t) if self.loops else self.expr(t, 1)
                return [dict(s="plus", x=x, e=e)] + ([dict(s="out", e=ident(r.choice(v)))] if r.random() < 0.6 else [])
        if m < 0.66:
            v = [x for x, t in self.vars.items() if t != "func"]
            if v and (self.alias or r.random() < 0.4):
                return [dict(s="out", e=ident(r.choice(v)))]
            return [dict(s="out", e=self.expr(self.ty()))]
        if m < 0.8:
            cl = [dict(c=self.expr("bool", 2), b=self.scoped(r.randint(0, 2)))]
            for _ in range(r.choice([0, 0, 1, 2])):
                cl.append(dict(c=self.expr("bool", 2), b=self.scoped(r.randint(0, 2))))
            els = self.scoped(r.randint(0, 2)) if r.random() < 0.5 else []
            return [dict(s="if", cl=cl, els=els)]
        if m < 0.9 and self.loops < 2:
            t = r.choice([("arr", "int"), ("arr", "str"), ("dict", "int")])
            v = [x for x, y in self.vars.items() if y == t]
            e = self.leaf(t) if self.loops else ident(r.choice(v)) if v and r.random() < 0.5 else self.expr(t, 1)
            if t[0] == "dict":
                vs = ["kk", "vv"]
                ts = ["str", t[1]]
            else:
                vs = [r.choice(["it", "jt"])]
                ts = [t[1]]
            save = dict(self.vars)
            self.loops += 1
            for a, b in zip(vs, ts):
                self.vars[a] = b
            body = self.stmts(r.randint(1, 3))
            if r.random() < 0.35:
                j = r.randint(0, len(body))
                k = dict(s=r.choice(["break", "continue"]))
                cond = self.expr("bool", 1)
                body.insert(j, dict(s="if", cl=[dict(c=cond, b=[k] if r.random() < 0.7 else [dict(s="out", e=lit("x")), k])], els=[]))
            self.loops -= 1
            self.vars = save
            out = [dict(s="foreach", vs=vs, e=e, b=body)]
            return out
        if self.p_dis and r.random() < 0.12:
            return self.disabled()
        if self.subs is not None and top and not self.loops and self.insub < 2 and r.random() < 0.03:
            return self.subdir_loop()
        if m < 0.92 and self.p_err:
            return [dict(s="expr", e=r.choice([call("error", lit("stop")), call("assert", self.expr("bool", 1), lit("no"))]))]
        if m < 0.94 and top and self.vars and not self.infunc:
            x = r.choice(list(self.vars))
            if x not in ("o",) and self.funcs is None:
                del self.vars[x]
                return [dict(s="expr", e=call("unset_variable", lit(x))), dict(s="out", e=call("is_variable", lit(x)))]
        if self.subs is not None and top and not self.loops and self.insub < 2 and m >= 0.94:
            d = "d%d" % (len(self.subs) + 1)
            self.subs[d] = []
            self.insub += 1
            body = self.stmts(r.randint(1, 4), top=True)
            if r.random() < 0.6:
                body.insert(r.randint(0, len(body)), r.choice([
                    dict(s="subdir_done"),
                    dict(s="if", cl=[dict(c=self.expr("bool", 1), b=[dict(s="out", e=lit("leave")), dict(s="subdir_done")])], els=[]),
                    dict(s="foreach", vs=["it"], e=lit([1, 2]), b=[dict(s="out", e=ident("it")), dict(s="subdir_done")])]))
                self.vars = {k: t for k, t in self.vars.items() if k in getattr(self, "presub", self.vars)}
            self.insub -= 1
            self.subs[d] = body
            return [dict(s="subdir", d=d if self.insub == 0 else d)]
        if self.funcs is not None and not self.infunc and not self.loops and top and m >= 0.85:
            return self.func()
        return [dict(s="out", e=self.expr(self.ty()))]

    def disabled(self):
        """a call of a function with effects, one of its arguments being or containing a disabler"""
        r = self.r
        dz = ident(r.choice([x for x in self.vars if x.startswith("dz")] or ["dz0"])) if r.random() < 0.7 else call("disabler")
        if r.random() < 0.4:
            dz = dict(n="arr", e=[self.leaf("str"), dz] if r.random() < 0.5 else [dict(n="arr", e=[dz])])
        s = lit("zz.c")
        e = r.choice([
            lambda: call("executable", lit("e"), dz), lambda: call("executable", lit("e"), s, dependencies=dz),
            lambda: call("static_library", lit("l"), s, link_with=dz), lambda: call("shared_library", lit("l"), dz, s),
            lambda: call("custom_target", lit("t"), output=lit("o"), command=dz),
            lambda: call("custom_target", lit("t"), output=lit("o"), input=dz, command=lit(["true"])),
            lambda: call("declare_dependency", compile_args=dz), lambda: call("declare_dependency", dependencies=dz),
            lambda: call("test", lit("t"), dz), lambda: call("run_command", lit("touch"), dz, check=lit(True)),
            lambda: call("install_data", dz, install_dir=lit("x")), lambda: call("find_program", dz),
            lambda: call("error", lit("no"), dz), lambda: call("files", dz),
            lambda: call("add_project_arguments", dz, language=lit("c")),
            lambda: call("dependency", lit("none"), required=dz)])()
        if r.random() < 0.5:
            return [dict(s="out", e=e)]
        if r.random() < 0.5:
            return [dict(s="expr", e=e)]
        x = r.choice(["dz2", "dz3"])
        self.vars[x] = r.choice(["int", "str"])
        return [dict(s="assign", x=x, e=e)]

    def subdir_loop(self):
        r = self.r
        ds = []
        self.insub += 1
        self.loops += 1
        save = dict(self.vars)
        for _ in range(r.randint(1, 3)):
            d = "d%d" % (len(self.subs) + 1)
            self.subs[d] = []
            body = self.stmts(r.randint(1, 3))
            if r.random() < 0.5:
                body.insert(r.randint(0, len(body)), dict(s="subdir_done"))
            self.subs[d] = body
            ds.append(d)
        self.vars = save
        self.loops -= 1
        self.insub -= 1
        b = [dict(s="subdirv", x="sd"), dict(s="out", e=ident("sd"))]
        if r.random() < 0.3:
            b.insert(1, dict(s="if", cl=[dict(c=dict(n="cmp", op="==", a=ident("sd"), b=lit(r.choice(ds))),
                                              b=[dict(s=r.choice(["break", "continue"]))])], els=[]))
        return [dict(s="foreach", vs=["sd"], e=lit(ds), b=b)]

    def func(self):
        r = self.r
        f = "f%d" % len(self.funcs)
        T = ["int", "str", "bool"]
        ps = ["p%d" % i for i in range(r.randint(0, 3))]
        pt = [r.choice(T) for _ in ps]
        kw = {"k%d" % i: r.choice(T) for i in range(r.randint(0, 2))}
        kwl = [dict(k=k, t=t, e=self.expr(t, 1)) for k, t in kw.items()]
        rt = r.choice(T)
        save = dict(self.vars)
        self.infunc += 1
        for a, b in list(zip(ps, pt)) + list(kw.items()):
            self.vars[a] = b
        body = self.stmts(r.randint(1, 4))
        if r.random() < 0.4:
            body.insert(r.randint(0, len(body)), dict(s="if", cl=[dict(c=self.expr("bool", 1) if not body else lit(r.random() < 0.3),
                                                                      b=[dict(s="return", e=self.leaf(rt))])], els=[]))
        if r.random() < 0.3:
            body.append(dict(s="foreach", vs=["it"], e=lit([1, 2, 3]),
                             b=[dict(s="out", e=ident("it")), dict(s="if", cl=[dict(c=lit(r.random() < 0.5),
                                                                                    b=[dict(s="return", e=self.leaf(rt))])], els=[])]))
        body.append(dict(s="return", e=self.expr(rt, 2)))
        self.infunc -= 1
        self.vars = save
        out = [dict(s="func", f=f, ps=ps, pt=pt, kw=kwl, rt=rt, b=body)]
        self.funcs[f] = (pt, kw, rt)
        if r.random() < 0.35:       # a factory of closures
            g = "g%d" % len(self.funcs)
            inner = dict(s="func", f="inner", ps=[], pt=[], kw=[], rt="int",
                         b=[dict(s="plus", x="c", e=ident("n")), dict(s="return", e=ident("c"))])
            out.append(dict(s="func", f=g, ps=["n"], pt=["int"], kw=[], rt="func",
                            b=[dict(s="assign", x="c", e=self.expr("int", 1)), inner, dict(s="return", e=ident("inner"))]))
            for h in ("h%da" % len(self.funcs), "h%db" % len(self.funcs)):
                out.append(dict(s="assign", x=h, e=call(g, lit(r.randint(1, 4)))))
                self.funcs[h] = ([], {}, "int")
        return out

    def program(self, n):
        return self.stmts(n, top=True)


PROFILES = {
    "P06": dict(deep=3, subs=True),
    "P07": dict(deep=2, alias=True),
    "P08": dict(deep=3),
    "P09": dict(deep=3, p_dis=0.06),
    "P10": dict(deep=2, funcs=True),
    "P11": dict(deep=3, p_err=0.012, subs=True),
}


def fill(b):
    """blocks are not empty: the grammar has no empty statement"""
    for s in b:
        if s["s"] == "if":
            for c in s["cl"]:
                fill(c["b"])
            fill(s["els"]) if s["els"] else None
        elif s["s"] in ("foreach", "func"):
            fill(s["b"])
    if not b:
        b.append(dict(s="out", e=lit("-")))


def scenario(r, pid):
    g = Gen(r, **PROFILES[pid])
    if pid == "P08":
        main = []
        for _ in range(r.randint(4, 8)):
            t = g.ty()
            if r.random() < 0.3:
                x = g.newvar(t)
                main.append(dict(s="assign", x=x, e=g.expr(t, 2)))
                g.vars[x] = t
            else:
                main.append(dict(s="out", e=g.expr(t)))
    elif pid == "P09":
        main = []
        for i in range(2):
            main.append(dict(s="assign", x="dz%d" % i, e=call("disabler")))
        g.vars.update(dz0="int", dz1="str")
        main += g.program(r.randint(5, 10))
    else:
        main = g.program(r.randint(6, 14))
    fill(main)
    for b in (g.subs or {}).values():
        fill(b)
    u = Unparse(r)
    mode = "eval" if g.funcs is not None else "setup"
    subs = g.subs or {}
    src = {"": "\n".join(u.block(main)) + "\n"}
    for d, b in subs.items():
        src[d] = "\n".join(u.block(b)) + "\n"
    return dict(main=main, subs=subs or {"-": []}, src=src, mode=mode)


def subdirs(main, subs, base, out):
    """where the directory of every subdir() statement is, nested ones included"""
    for s in main:
        if s["s"] == "subdir":
            p = base + s["d"] + "/"
            out[s["d"]] = p
            subdirs(subs[s["d"]], subs, p, out)
        elif s["s"] == "if":
            for c in s["cl"]:
                subdirs(c["b"], subs, base, out)
            subdirs(s["els"], subs, base, out)
        elif s["s"] == "foreach" and s["vs"] == ["sd"]:
            for x in s["e"]["e"]:
                out[x["v"]] = base + x["v"] + "/"
                subdirs(subs[x["v"]], subs, base + x["v"] + "/", out)
        elif s["s"] == "foreach":
            subdirs(s["b"], subs, base, out)
    return out


def parse_out(text):
    """the messages, whitespace outside quotes removed"""
    res = []
    i = 0
    while True:
        i = text.find("message: ", i)
        if i < 0:
            return res
        if i and text[i - 1] != "\n":
            i += 9
            continue
        i += 9
        depth, q, s = 0, False, ""
        while i < len(text):
            c = text[i]
            if q:
                s += c
                q = c != "'"
            elif c == "'":
                q = True
                s += c
            elif c in "[{":
                depth += 1
                s += c
            elif c in "]}":
                depth -= 1
                s += c
            elif c == "\n" and depth <= 0:
                break
            elif not c.isspace():
                s += c
            i += 1
        res.append(s)


def execute(sc, scn):
    d = sc.fresh()
    if scn["mode"] == "eval":
        sc.write(d + "/main.meson", scn["src"][""])
        rc, out, _ = sc.run([sc.muon, "internal", "eval", "main.meson"], d, timeout=20)
    else:
        sc.write(d + "/meson.build", "project('x')\n" + scn["src"][""])
        for s, p in subdirs(scn["main"], scn["subs"], "", {}).items():
            sc.write(d + "/" + p + "meson.build", scn["src"][s])
        rc, out, _ = sc.run([sc.muon, "setup", "b"], d, timeout=20)
    shutil.rmtree(d, ignore_errors=True)
    return dict(main=scn["main"], subs=scn["subs"], out=parse_out(out), rc=999 if rc is None else rc, verbose=False,
                tail=out[-600:] if rc else "")


def describe(tr):
    out = tlc_print("LangTrace", [dict(tr, verbose=True)], "AT")
    m = re.findall(r'<<\s*"AT",\s*1,\s*(\d+),\s*"(\w+)",\s*(<<.*?>>)\s*>>', out, re.S)
    return "last statement %s gives %s; observed output %s, exit status %s" % (
        m[-1][0] if m else "?", (m[-1][1] + " " + m[-1][2])[-300:] if m else out[-500:], json.dumps(tr["out"])[-300:], tr["rc"])


def run(ctx):
    ctx.mc("LangMC", "SPECIFICATION Spec\nINVARIANTS Laws Ctls ErrKeeps\nPROPERTIES Frame Grows\nCHECK_DEADLOCK FALSE\n"
           "CONSTANT Deep = %s\n" % ("TRUE" if ctx.thorough else "FALSE"))
    n = int(os.environ.get("VF_N") or (20000 if ctx.thorough else 2000))
    scns = [scenario(ctx.rng(i), ctx.pid) for i in range(n)]
    with Scratch() as sc:
        conform(ctx, "LangTrace", scns, lambda s: execute(sc, s), describe, chunk=150)
