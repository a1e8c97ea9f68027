"""Programs that evaluate random expressions: every operator and function, folded and unfolded, with and without parentheses."""
import random
from asmcase import *

EDGE = [0, 1, 2, 3, 5, 7, 8, 10, 15, 16, 31, 32, 63, 64, 100, 127, 128, 255, 256, 0x7FFF, 0x8000, 0xFFFF, 0x10000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF,
        0x100000000, 0x123456789ABCDEF, (1 << 62), (1 << 63) - 1, -1, -2, -3, -7, -8, -128, -129, -32768, -32769, -(1 << 31), -(1 << 31) - 1, -(1 << 62), -(1 << 63) + 1, -(1 << 63)]
WORDS = ["", "a", "b", "ab", "abc", "abcabc", "A", "xyz", "hello", "0", "1", "12", "-1", "255", "aa", "aaa", 'q"q', "b\\s", "x y", "big", "little"]

class Gen:
    def __init__(self, rng, arch):
        self.r = rng
        self.arch = arch
        self.ids = []      # global symbols
        self.params = []   # parameters of the function being written, with their types
        self.ufns = []     # (name, parameter types, result type)
        self.bad = 0.0
        self.inbody = False
    def ch(self, p): return self.r.random() < p
    # integers -------------------------------------------------------------
    def small(self): return self.r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 16, 31, 32, 33, 63, -1, -2, -5])
    def leafi(self):
        r = self.r
        k = r.random()
        ps = [n for n, t in self.params if t == "i"]
        if ps and k < 0.5: return ID(r.choice(ps))
        if self.ids and k < 0.35: return ID(r.choice(self.ids))
        if k < 0.38 and not self.inbody: return DOT
        if k < 0.75: return I(r.choice(EDGE))
        return I(r.choice([r.randrange(1 << r.randrange(1, 64)), -r.randrange(1 << r.randrange(1, 64)), self.small()]))
    def i(self, d):
        r = self.r
        if d <= 0: return self.leafi()
        if self.ch(self.bad): return r.choice([lambda: self.s(d - 1), lambda: BIN(r.choice(["&", "|", "^", "%", "<<"]), *r.sample([self.f(0), self.fi(0)], 2)), lambda: UN("~", self.f(1))])()
        k = r.random()
        if k < 0.08: return self.leafi()
        if k < 0.46: return BIN(r.choice(["+", "-", "*", "&", "|", "^", "+", "-", "*"]), self.i(d - 1), self.i(d - 1))
        if k < 0.53:
            b = I(r.choice(EDGE + [1, 3, 10, -1, -3])) if self.ch(0.7) else self.i(d - 1)
            return BIN(r.choice("/%"), self.i(d - 1), b)
        if k < 0.60:
            n = I(r.randrange(64)) if self.ch(0.7) else BIN("&", self.i(d - 1), I(r.choice([63, 31, 7])))
            return BIN(r.choice(["<<", ">>"]), self.i(d - 1), n)
        if k < 0.70: return BIN(r.choice(["<", "<=", ">", ">=", "==", "!="]), self.i(d - 1), self.i(d - 1))
        if k < 0.76: return BIN(r.choice(["&&", "||"]), self.i(d - 1), self.i(d - 1))
        if k < 0.83: return UN(r.choice("-~!+-~!"), self.i(d - 1))
        if k < 0.89: return TERN(self.i(d - 1), self.i(d - 1), self.i(d - 1))
        if k < 0.905: return BIN(r.choice(["<", "<=", ">", ">=", "==", "!="]), self.s(d - 1), self.s(d - 1))
        if k < 0.91: return BIN(r.choice(["==", "!="]), *r.sample([self.i(d - 1), self.s(d - 1)], 2))
        if k < 0.93: return BIN(r.choice(["<", "<=", ">", ">=", "==", "!=", "&&", "||"]), self.f(d - 1), r.choice([self.f, self.fi])(d - 1))
        return self.icall(d)
    def icall(self, d):
        r = self.r
        c = ["abs", "min", "max", "int", "round", "strlen", "find", "rfind", "defined", "file", "u", "u", "regex"]
        if self.arch in ("psx", "n64", "ps2"): c += ["hi", "lo"]
        f = r.choice(c)
        if f == "u":
            us = [u for u in self.ufns if u[2] == "i"]
            if not us: f = "abs"
            else:
                n, ts, _ = r.choice(us)
                return UCALL(n, *[self.of(t, d - 1) for t in ts])
        if f == "defined": return LAB("defined", r.choice(self.ids + ["nosuch"]))
        if f in ("abs", "hi", "lo"): return CALL(f, self.i(d - 1))
        if f in ("min", "max"): return CALL(f, *[self.i(d - 1) for _ in range(r.choice([1, 2, 2, 3, 4]))])
        if f in ("int", "round"): return CALL(f, self.f(d - 1) if self.ch(0.85) else self.i(d - 1))
        if f == "strlen": return CALL(f, self.s(d - 1))
        if f in ("find", "rfind"): return CALL(f, self.s(d - 1), self.s(d - 2), *([I(r.choice([0, 1, 2, 3, 5, 9]))] if self.ch(0.5) else []))
        if f == "regex": return CALL(r.choice(["regex_match", "regex_search"]), S(r.choice(WORDS[1:10])), S(r.choice(WORDS[1:10])))
        g = r.choice(["fileexists", "filesize", "readu8", "readbyte", "readu16", "readu32", "readu64", "reads8", "reads16", "reads32", "reads64"])
        n = S(r.choice(["in.bin", "in.bin", "in.bin", "text.bin"] + (["none.bin"] if self.ch(0.3) else [])))
        if g in ("fileexists", "filesize"): return CALL(g, n)
        return CALL(g, n, *([I(r.randrange(0, 14 if self.ch(0.95) else 40))] if self.ch(0.8) else []))
    def of(self, t, d): return {"i": self.i, "s": self.s, "f": self.f}[t](d)
    # floats: small dyadic numbers, so that every result is exact ----------
    def leaff(self):
        ps = [n for n, t in self.params if t == "f"]
        if ps and self.ch(0.6): return ID(self.r.choice(ps))
        return F(self.r.choice([1, 3, 5, 7, 9, 11, 27, 63, 64, 2, 0, -1, -3, -5, -27]), self.r.choice([0, -1, -2, -3, 1, 2]))
    def fi(self, d): return I(self.r.choice([0, 1, 2, 3, 5, 8, 100, -1, -2, -7]))
    def f(self, d):
        r = self.r
        d = min(d, 3)
        if d <= 0: return self.leaff()
        k = r.random()
        if k < 0.2: return self.leaff()
        if k < 0.5: return BIN(r.choice("+-"), *r.sample([self.f(d - 1), r.choice([self.f, self.fi])(d - 1)], 2))
        if k < 0.6: return BIN("*", self.leaff(), r.choice([self.leaff, lambda: self.fi(0)])())
        if k < 0.68: return BIN("/", self.f(d - 1), r.choice([F(1, 1), F(1, 2), F(1, -1), F(-1, 0), I(2), I(4), I(-2)]))
        if k < 0.74: return UN(r.choice("-+"), self.f(d - 1))
        if k < 0.82: return TERN(self.i(d - 1), self.f(d - 1), self.f(d - 1))
        if k < 0.86: return CALL("float", r.choice([self.f, self.fi])(d - 1))
        if k < 0.90: return CALL("frac", self.f(d - 1))
        if k < 0.93: return CALL("abs", self.f(d - 1))
        if k < 0.97: return CALL(r.choice(["min", "max"]), *r.sample([self.f(d - 1), self.f(d - 1)] + ([self.fi(0)] if self.ch(0.5) else []), 2))
        us = [u for u in self.ufns if u[2] == "f"]
        if us:
            n, ts, _ = r.choice(us)
            return UCALL(n, *[self.of(t, 0) for t in ts])
        return self.leaff()
    # strings --------------------------------------------------------------
    def leafs(self):
        ps = [n for n, t in self.params if t == "s"]
        if ps and self.ch(0.6): return ID(self.r.choice(ps))
        return S(self.r.choice(WORDS))
    def s(self, d):
        r = self.r
        if d <= 0: return self.leafs()
        k = r.random()
        if k < 0.3: return self.leafs()
        if k < 0.55: return BIN("+", *r.sample([self.s(d - 1), r.choice([self.s, self.s, self.i])(d - 1)], 2))
        if k < 0.65: return CALL("substr", self.s(d - 1), I(r.choice([0, 0, 1, 2, 3])), I(r.choice([0, 1, 2, 3, 10])))
        if k < 0.72: return CALL("tostring", r.choice([self.i, self.s])(d - 1))
        if k < 0.80: return CALL("tohex", self.i(d - 1), *([I(r.choice([0, 1, 2, 4, 8, 16]))] if self.ch(0.6) else []))
        if k < 0.86: return TERN(self.i(d - 1), self.s(d - 1), self.s(d - 1))
        if k < 0.88: return CALL("endianness")
        if k < 0.91: return CALL("readascii", S("text.bin"), I(r.choice([0, 1, 3, 6, 8])), *([I(r.choice([0, 1, 4, 30]))] if self.ch(0.5) else []))
        if k < 0.93: return CALL("regex_extract", S(r.choice(["abc", "xabcabc"])), S(r.choice(["abc", "b", "c"])))
        if k < 0.96 and not self.inbody: return DEG(self.spelled(2))
        us = [u for u in self.ufns if u[2] == "s"]
        if us:
            n, ts, _ = r.choice(us)
            return UCALL(n, *[self.of(t, d - 1) for t in ts])
        return self.leafs()
    def spelled(self, d):
        """An expression whose spelling is asked for."""
        r = self.r
        k = r.random()
        if d == 0 or k < 0.2: return r.choice([ID(r.choice(self.ids)) if self.ids else I(3), I(r.choice(EDGE[:20])), S(r.choice(WORDS))])
        if k < 0.6: return BIN(r.choice(["+", "-", "*", "/", "%", "&", "|", "^", "<", ">", "<<", ">>", "<=", ">=", "==", "!=", "&&", "||"]), self.spelled(d - 1), self.spelled(d - 1))
        if k < 0.75: return UN(r.choice("-~!"), self.spelled(d - 1))
        if k < 0.85: return TERN(self.spelled(d - 1), self.spelled(d - 1), self.spelled(d - 1))
        return CALL(r.choice(["min", "max", "strlen", "abs"]), *[self.spelled(d - 1) for _ in range(r.choice([1, 2]))])

def program(seed):
    r = random.Random(seed)
    p = Prog(r)
    p.bare = r.random() < 0.75
    arch = r.choice(["psx", "n64", "gba", "arm.big", "saturn", "ps2"])
    g = Gen(r, arch)
    good = r.random() < 0.8
    g.bad = 0.0 if good else 0.06
    p.files["in.bin"] = bytes(r.choice([0, 1, 0x7F, 0x80, 0xFF, r.randrange(256)]) for _ in range(24))
    p.files["text.bin"] = b"abcdef\0ghi jkl"
    p.add("arch", a=arch)
    p.add("create", name="o.bin", codes=codes("o.bin"), hv=limbs(0), hvpy=0)
    names = ["sym%d" % i for i in range(r.choice([2, 3, 4]))]
    vals = {}
    cmd, early, late = [], [], []
    for n in names:
        v = r.choice(EDGE)
        k = r.random()
        (cmd if k < 0.3 else early if k < 0.6 else late).append((n, v))
    if r.random() < 0.1: g.ids.append("nowhere") if not good else None
    for n, v in cmd:
        if v == -(1 << 63): v = 5
        p.labels.append({"n": n, "sc": "g", "on": n, "v": limbs(v)})
    for n, v in early: p.add("def", n=n, sc="g", on=n, e=I(v))
    g.ids += names
    # functions of the program's own; bodies may use symbols and earlier functions
    for i in range(r.choice([0, 1, 2, 2])):
        n = "fun%d" % i
        ps = [("par%d_%d" % (i, j), r.choice("iiiisf")) for j in range(r.choice([0, 1, 1, 2, 3]))]
        t = r.choice("iiis" + ("f" if any(x[1] == "f" for x in ps) else ""))
        g.params, g.inbody = ps, True
        b = g.of(t, r.choice([1, 2, 2]))
        g.params, g.inbody = [], False
        p.funcs[n] = {"p": [x[0] for x in ps], "b": strip(b)}
        p.add("txt", txt=".expfunc %s(%s),%s" % (n, ",".join(x[0] for x in ps), bare(b, r) if p.bare else expr(b, r)))
        g.ufns.append((n, [x[1] for x in ps], t))
    for _ in range(r.randrange(3, 9)):
        k = r.random()
        d = r.choice([1, 2, 3, 3, 4])
        if k < 0.72: p.add("data", w="64", t="n", es=[g.i(d) for _ in range(r.choice([1, 1, 2]))])
        elif k < 0.78: p.add("data", w=r.choice(["b", "16", "32"]), t="n", es=[g.i(d)])
        elif k < 0.9: p.add("data", w="b", t=r.choice("az"), es=[g.s(d)])
        else:
            w, t = r.choice([("64", "f"), ("32", "f"), ("64", "n"), ("32", "n")])
            p.add("data", w=w, t=t, es=[BIN("+", F(0, 0), g.f(min(d, 3)))])
    for n, v in late: p.add("def", n=n, sc="g", on=n, e=I(v))
    p.add("close")
    return p

# every operator on every pair of edge values, folded and with a symbol that is defined later; every pair of operators without parentheses
BINOPS = ["+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^", "<", "<=", ">", ">=", "==", "!=", "&&", "||"]
GRID = [0, 1, 2, 3, 7, 10, 63, 64, 255, 0x8000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0x100000000, (1 << 63) - 1, -1, -2, -3, -10, -255, -(1 << 31), -(1 << 31) - 1, -(1 << 62), -(1 << 63)]

def holder(r, stmts, late=()):
    p = Prog(r)
    p.bare = True
    p.add("arch", a=r.choice(["psx", "n64"]))
    p.add("create", name="o.bin", codes=codes("o.bin"), hv=limbs(0), hvpy=0)
    for s in stmts: p.add("data", **s)
    for n, v in late: p.add("def", n=n, sc="g", on=n, e=I(v))
    p.add("close")
    return p

def sweep(seed, n):
    r = random.Random("sweep/%d" % seed)
    out = []
    for op in BINOPS:
        for a in GRID:
            es = []
            for b in GRID:
                if op in ("<<", ">>") and not 0 <= b < 64: b = abs(b) % 64
                es.append(BIN(op, I(a), I(b)))
                es.append(BIN(op, ID("late"), I(b)))
            out.append(holder(r, [{"w": "64", "t": "n", "es": es[i:i + 8]} for i in range(0, len(es), 8)], [("late", a)]))
    def val(): return I(r.choice([0, 1, 2, 3, 5, 6, 9, 12, 40])) if r.random() < 0.7 else ID("late")
    sh = lambda: I(r.choice([0, 1, 2, 3, 5]))
    for o1 in BINOPS:
        es = []
        for o2 in BINOPS:
            for _ in range(4):
                es.append(BIN(o2, BIN(o1, val(), sh() if "<<" in o1 or ">>" in o1 else val()), sh()) if r.random() < 0.5
                          else BIN(o1, val(), BIN(o2, val(), sh())))
                # what is shifted by stays small
                e = es[-1]
                if e["o"] in ("<<", ">>") and e["b"]["k"] == "bin": e["b"] = sh()
            es += [BIN(o1, TERN(val(), val(), val()), sh()), TERN(BIN(o1, val(), sh()), BIN(o2, val(), sh()), BIN(o1, val(), sh())),
                   TERN(val(), val(), TERN(val(), val(), BIN(o1, val(), sh()))), TERN(TERN(val(), val(), val()), val(), val()),
                   BIN(o1, UN(r.choice("-~!"), val()), sh()), UN(r.choice("-~!"), BIN(o1, val(), sh()))]
        out.append(holder(r, [{"w": "64", "t": "n", "es": es[i:i + 6]} for i in range(0, len(es), 6)], [("late", r.choice([3, 5, 10]))]))
    return out
