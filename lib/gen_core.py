"""Random programs for the core specification (layout, files, areas, conditionals, data)."""
import random
from asmcase import *

BASES = [0, 0, 0x10, 0x100, 0x80000000, 0x80010000, 0x7FFFFFF8, 0xFFFFFFE0, 0x08000000, 0x123456789A0]

class Gen:
    def __init__(self, rng, prof):
        self.r = rng
        self.prof = prof
        self.p = Prog(rng)
        self.labels = []        # defined names (name, scope)
        self.open = None        # name of the open file
        self.base = 0
        self.nest = 0
        self.depth = 0
        self.direct = False     # directly inside a function
        self.nlab = 0
        self.outs = 0
        self.arch = "psx"
        self.future = ["fw%d" % i for i in range(prof.get("fwd", 3))]
        self.undecided = 0
        self.inauto = 0
        self.taken = set()      # offsets of regions in the current file
        # most programs avoid everything that is certain to be rejected
        self.good = rng.random() < prof.get("good", 0.7)
    def w(self, k, d=0):
        if self.good and k in ("bad", "undef", "dup", "err"): return 0
        return self.prof.get(k, d)
    def chance(self, p):
        return self.r.random() < p
    # expressions ----------------------------------------------------------
    def small(self):
        r = self.r
        if self.chance(0.02): return r.choice([63, 64, 65, 127, 128, 129, 192, 200, 255, 256, 257, 300, 400])
        return r.choice([0, 1, 2, 3, 4, 5, 7, 8, 12, 16, r.randrange(40)])
    def anyint(self):
        r = self.r
        return r.choice([self.small(), r.randrange(256), r.randrange(1 << 16), r.randrange(1 << 32), r.randrange(1 << 63),
                         -self.small(), -r.randrange(1 << 31), -r.randrange(1 << 63), 0x7F, 0x80, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFF, 0x10000,
                         0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0x100000000, -1, -128, -129, -32768, -32769])
    def ref(self):
        r = self.r
        pool = self.labels + [(n, "g") for n in self.future]
        if self.chance(self.w("undef", 0.01)) or not pool:
            return ID("nowhere") if self.chance(self.w("undef", 0.01) * 5) else I(self.small())
        n, sc = r.choice(pool)
        return ID(self.case(n), sc)
    def back(self):
        """A value known in the first pass."""
        if not self.good: return self.ref()
        return ID(*self.r.choice(self.labels)) if self.labels else I(self.small())
    def case(self, n):
        return n.upper() if self.chance(0.1) else n
    def value(self, d=2):
        r = self.r
        k = r.random()
        if self.w("refs") and k < self.w("refs"): return self.ref()
        if d == 0 or k < 0.35: return I(self.anyint())
        if k < 0.6: return self.ref()
        if k < 0.66: return DOT
        if k < 0.70: return LAB(r.choice(["org", "orga", "headersize"]))
        if k < 0.70 + self.w("fns", 0.06):
            x = self.ref()
            if x["k"] == "id":
                return LAB(r.choice(["org", "org", "orga", "headersize", "defined"]), x["on"], x["sc"])
            return x
        if k < 0.95:
            return BIN(r.choice(["+", "-", "*", "&", "|", "^", "<", ">", "==", "!=", "<=", ">="]), self.value(d - 1), self.value(d - 1))
        return r.choice([UN("-", self.value(d - 1)), UN("~", self.value(d - 1)), UN("!", self.value(d - 1)),
                         TERN(self.value(d - 1), self.value(d - 1), self.value(d - 1))])
    def size(self):
        """A small number, possibly depending on labels."""
        r = self.r
        k = r.random()
        if self.w("thresh") and k < self.w("thresh"):
            # grows or shrinks when a symbol passes a limit
            return TERN(BIN(r.choice([">=", "<", ">", "=="]), self.ref(), I(self.base + r.choice([0, 4, 8, 12, 16, 20, 24, 32, r.randrange(64)]))), I(self.small()), I(r.choice([0, 0, 4, self.small()])))
        if k < 0.55: return I(self.small())
        if k < 0.8: return BIN("&", self.ref(), I(r.choice([3, 7, 12, 15])))
        if k < 0.9: return BIN("&", BIN("-", self.ref(), self.ref()), I(r.choice([7, 15])))
        if k < 0.96: return BIN("*", LAB("defined", *self.refname()), I(self.small()))
        return I(self.small()) if not self.chance(self.w("bad", 0.05)) else I(-self.small())
    def refname(self):
        x = self.ref()
        return (x["on"], x["sc"]) if x["k"] == "id" else ("nowhere", "g")
    def cond(self):
        r = self.r
        k = r.random()
        if k < self.w("constcond", 0.35): return r.choice([I(0), I(1), BIN("<", I(self.small()), I(self.small())), CALL("strlen", S("ab" * r.randrange(2))), UN("!", I(self.small() % 2))])
        if k < 0.7: return BIN(r.choice(["<", ">", "<=", ">=", "==", "!="]), self.ref(), BIN("+", I(self.base), I(self.small() * 4)))
        if k < 0.8: return LAB("defined", *self.refname())
        if k < 0.9: return BIN(">", BIN("-", self.ref(), self.ref()), I(self.small()))
        return self.value(1)
    # statements -----------------------------------------------------------
    def newlabel(self):
        r = self.r
        if self.future and self.chance(0.35) and not (self.good and self.undecided):
            n = self.future.pop(r.randrange(len(self.future)))
            return n, "g"
        if self.labels and self.chance(self.w("dup", 0.01)):
            return r.choice(self.labels)
        self.nlab += 1
        sc = r.choice("ggggsl")
        n = {"g": "", "s": "@", "l": "@@"}[sc] + r.choice(["lab", "Foo", "x_", "B"]) + str(self.nlab)
        return n, sc
    def name(self, n, sc):
        return {"n": n.lower(), "sc": sc, "on": n}
    def section(self):
        """Local names end here."""
        if self.good: self.labels = [x for x in self.labels if x[1] != "l"]
    def stmt_label(self):
        n, sc = self.newlabel()
        if sc != "l": self.section()
        self.p.add("label", **self.name(n, sc))
        self.labels.append((n, sc))
    def stmt_def(self):
        n, sc = self.newlabel()
        # values by expression must be computable in the first pass
        e = I(self.anyint()) if self.chance(0.6) or not self.labels else BIN("+", ID(*self.r.choice(self.labels)), I(self.small()))
        if sc != "l":
            if e["k"] == "bin" and e["a"]["k"] == "id" and e["a"]["sc"] == "l" and self.good: e = I(self.anyint())
            self.section()
        self.p.add("def", e=e, **self.name(n, sc))
        self.labels.append((n, sc))
    def stmt_data(self):
        r = self.r
        w = r.choice(["b", "b", "16", "32", "64", "half", "word", "word", "dword"])
        t = "n"
        es = []
        if self.chance(0.15):
            t = r.choice(["a", "z"])
            w = "b"
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            k = r.random()
            if t in "az" and k < 0.7 or k < 0.06: es.append(S("".join(r.choice("abcXYZ 09") for _ in range(r.randrange(0, 6)))))
            else: es.append(self.value())
        self.p.add("data", w=w, t=t, es=es)
    def stmt_raw(self):
        if self.arch in ("psx", "n64"):
            self.p.add("raw", b=[0, 0, 0, 0], al=4, txt="nop", word="nop", args=[])
        else:
            self.stmt_data()
    def addr(self, phys=False):
        r = self.r
        off = r.choice([0, 4, 8, 0x10, 0x20, 0x40, r.randrange(0x80), r.randrange(0x200)])
        if self.chance(self.w("bad", 0.05) * 0.3): off = -off
        b = 0 if phys else self.base
        if self.labels and self.chance(0.2) and not phys:
            n, sc = r.choice(self.labels)
            return BIN("+", BIN("&", BIN("-", ID(n, sc), I(self.base)), I(0xFC)), I(self.base))
        return I(b + off)
    def stmt_org(self):
        self.p.add("org", e=self.addr())
        self.section()
    def stmt_orga(self):
        self.p.add("orga", e=self.addr(True))
        self.section()
    def stmt_hdr(self):
        if self.undecided or self.nest: return self.stmt_data()
        self.base = self.r.choice(BASES)
        e = I(self.base)
        # a header size that depends on a symbol, possibly a later one
        if self.chance(0.35): e = BIN("-", e, BIN("&", self.ref(), I(self.r.choice([0x30, 0x10, 7]))))
        self.p.add("hdr", e=e)
        if self.chance(0.4): self.stmt_org()
    def stmt_align(self):
        r = self.r
        kw = {}
        if self.chance(0.8): kw["e"] = I(r.choice([1, 2, 4, 8, 16, 32] + ([64, 128, 256, 512] if self.chance(0.15) else []) if not self.chance(self.w("bad", 0.05)) else [0, 3, -4, 12]))
        if "e" in kw and self.chance(0.5): kw["fv"] = I(r.randrange(512)) if self.chance(0.7) else self.back()
        self.p.add(r.choice(["align", "align", "aligna"]), **kw)
    def stmt_fill(self):
        kw = {"fv": I(self.r.randrange(-3, 300))} if self.chance(0.6) else {}
        self.p.add("fill", e=self.size(), **kw)
    def stmt_skip(self):
        e = self.size()
        self.p.add("skip", e=I(4) if self.nest and e["k"] == "int" and e["py"] < 0 else e)
    def stmt_incbin(self):
        r = self.r
        n = r.choice(["i0.bin", "i1.bin"]) if not self.chance(self.w("bad", 0.05) * 0.2) else "missing.bin"
        kw = {}
        if self.chance(0.7):
            kw["e"] = self.size()
            if self.good and len(self.p.files.get(n, b"")) < 16: kw["e"] = I(0)
        if "e" in kw and self.chance(0.7): kw["fv"] = self.size()
        self.p.add("incbin", name=n, codes=codes(n), **kw)
    def stmt_area(self):
        r = self.r
        kw = {}
        if self.chance(0.6): kw["fv"] = I(r.randrange(256)) if self.chance(0.8) else self.size()
        if self.good and not self.chance(0.05):
            # room for what may be nested inside
            e = I(r.choice([[r.randrange(100, 200), 192, 193, 256, 257], [r.randrange(30, 60), 63, 64, 65], [r.randrange(8, 24), 24]][min(self.nest, 2)]))
        elif self.chance(self.w("tight", 0.3)): e = I(r.randrange(4, 24))
        else: e = I(r.randrange(24, 96) if not self.chance(0.05) else r.choice([127, 128, 129, 192, 193, 256, 260, 300]))
        if self.chance(0.15): e = BIN("+", self.size(), I(e["py"] if self.good else 16))
        if self.chance(self.w("bad", 0.05) * 0.3): e = r.choice([I(-4), S("x"), ID("nowhere")])
        self.p.add("area", sh=self.nest == 0 and self.chance(self.w("region", 0.3)), e=e, **kw)
        self.nest += 1
        self.block()
        self.nest -= 1
        self.p.add("endarea")
    def stmt_defregion(self, big=False):
        r = self.r
        kw = {}
        if self.chance(0.6): kw["fv"] = I(r.randrange(256))
        free = [x for x in (0x100, 0x140, 0x180, 0x1C0, 0x200) if x not in self.taken] or [0x240]
        p = r.choice(free if not self.chance(0.03) else [0x100, 0x180])
        self.taken.add(p)
        p = I(self.base + p + (r.randrange(16) if self.chance(0.2) else 0))
        if self.labels and self.chance(0.15): p = BIN("+", ID(*r.choice(self.labels)), I(0x100))
        self.p.add("area", sh=True, p=p, e=I(r.choice([40, 48, 60, 62, 63, 64] if big else [8, 12, 16, 24, 32, 48])), **kw)
        self.p.add("endarea")
    def stmt_auto(self):
        r = self.r
        kw = {}
        if self.chance(0.15 if self.good else 0.35):
            kw["mn"] = I(self.base + r.choice([0, 0x100, 0x120, 0x180, 0x184, 0x1C0]))
            if self.chance(0.5): kw["mx"] = I(self.base + r.choice([0x100, 0x140, 0x17F, 0x180, 0x200, 0x210]))
        self.p.add("auto", **kw)
        self.nest += 1
        self.inauto += 1
        self.block()
        self.inauto -= 1
        self.nest -= 1
        self.p.add("endauto")
    def stmt_func(self):
        r = self.r
        self.nlab += 1
        n = "func%d" % self.nlab
        if self.future and self.chance(0.4): n = self.future.pop(r.randrange(len(self.future)))
        self.p.add("func", **self.name(n, "g"))
        self.labels.append((n, "g"))
        self.nest += 1
        if self.chance(0.8): self.p.add("data", w="word", t="n", es=[self.value()])
        self.block(True)
        self.nest -= 1
        self.p.add("endfunc")
    def scoped(self):
        keep = list(self.labels)
        self.block()
        if self.good: self.labels = [x for x in keep if x[1] != "l"]
    def stmt_if(self):
        r = self.r
        n = r.choice([1, 1, 2, 2, 3, 4])
        haselse = self.chance(0.5)
        opened = 0
        und = 0
        for i in range(n):
            kw = {"elif": i > 0}
            c = r.choice(["if", "if", "if", "ifdef", "ifndef"])
            if i > 0:
                self.p.add("else", elif_=True)
                self.p.c[-1]["elif"] = True
                del self.p.c[-1]["elif_"]
            if c == "if":
                e = self.cond()
                self.p.add("if", c="if", e=e, n="", sc="g", **kw)
            else:
                nm, sc = self.refname()
                self.p.add("if", c=c, **self.name(nm, sc), **kw)
            opened += 1
            self.undecided += 1
            self.scoped()
        if haselse:
            self.p.add("else")
            self.scoped()
        for i in range(opened):
            self.p.add("endif", **({"elif": True} if i < opened - 1 else {}))
            self.undecided -= 1
    def stmt_close(self):
        self.p.add("close")
        self.section()
        self.open = None
    def stmt_open(self):
        r = self.r
        k = r.random()
        b = r.choice(BASES)
        if self.chance(self.w("bad", 0.05) * 0.2): b = -0x10
        if self.undecided: b = self.base
        ins = ["b0.bin", "b1.bin"]
        if k < 0.5:
            n = r.choice(["o0.bin", "o1.bin", "b0.bin"])
            self.p.add("create", name=n, codes=codes(n), hv=limbs(b), hvpy=b)
        elif k < 0.75:
            n = r.choice(ins) if not self.chance(self.w("bad", 0.05)) else "o0.bin"
            self.p.add("open", name=n, codes=codes(n), hv=limbs(b), hvpy=b)
        else:
            a = r.choice(ins)
            n = r.choice(["o0.bin", "o1.bin"] + (ins if self.chance(0.15) else []))
            self.p.add("copy", srcname=a, src=codes(a), name=n, codes=codes(n), hv=limbs(b), hvpy=b)
        self.section()
        self.open = True
        self.base = b
        self.taken = set()
    def stmt_msg(self):
        r = self.r
        sev = r.choice("wwwnn" + ("e" if self.chance(self.w("err", 0.3)) else ""))
        self.p.add("msg", sev=sev, e=S("msg") if self.chance(0.8) else self.value(1))
    def stmt_eow(self):
        if self.undecided and self.chance(0.5): return self.stmt_data()
        self.p.add("eow", on=self.chance(0.6))
    def stmt_symsw(self):
        self.p.add("symsw", on=self.chance(0.5))
    def stmt_arch(self):
        if self.undecided or self.nest: return self.stmt_data()
        self.arch = self.r.choice(["psx", "n64", "gba", "arm.big", "saturn", "ps2", "nds"])
        self.p.add("arch", a=self.arch)
    def stmt(self):
        r = self.r
        # keep a file open most of the time
        if not self.open and self.nest == 0 and not self.undecided and self.chance(1 if self.good else 0.85):
            return self.stmt_open()
        ws = dict(self.prof["stmts"])
        if self.nest and not self.chance(self.w("bad", 0.05)):
            for k in ("open", "close"): ws.pop(k, None)
        # a function directly inside another one ends that one
        if self.direct or (self.nest and not self.w("log")): ws.pop("func", None)
        if self.nest:
            # a block that repositions itself has no size
            for k in ("org", "orga", "defregion"): ws.pop(k, None)
        if self.undecided:
            for k in ("open", "close"):
                if self.good or not self.chance(0.1): ws.pop(k, None)
            if not self.w("log"): ws.pop("func", None)
        if self.depth >= self.w("maxdepth", 2):
            for k in ("if", "area", "auto", "func"): ws.pop(k, None)
        if not ws: return self.stmt_data()
        k = r.choices(list(ws), list(ws.values()))[0]
        getattr(self, "stmt_" + k)()
    def block(self, direct=False):
        self.depth += 1
        old, self.direct = self.direct, direct
        for _ in range(self.r.choice([0, 1, 1, 2, 2, 3])):
            self.stmt()
        self.direct = old
        self.depth -= 1
    def program(self):
        r = self.r
        # read by .incbin (i) and opened for output (b)
        for n in ("i0", "i1", "b0", "b1"):
            self.p.files[n + ".bin"] = bytes(r.randrange(256) for _ in range(r.choice([0, 1, 7, 32, 64, 100, 200])))
        if self.chance(self.w("eowarg", 0.05)): self.p.eow = True
        self.arch = r.choice(self.prof.get("archs", ["psx", "psx", "n64", "gba", "saturn"]))
        self.p.add("arch", a=self.arch)
        n = r.randrange(*self.prof.get("len", (4, 18)))
        if self.good and self.w("stmts").get("auto", 0) >= 1:
            # room for automatic blocks
            self.stmt_open()
            for _ in range(r.choice([2, 2, 3, 4])): self.stmt_defregion(big=True)
            self.p.add("org", e=I(self.base))
        for _ in range(n):
            self.stmt()
        # forward references that are still open get defined at the end, mostly
        if self.open is None and self.chance(0.9): self.stmt_open()
        for f in list(self.future):
            if self.chance(1 - self.w("undef", 0.01)):
                if self.chance(0.85 if self.good else 0.6):
                    self.p.add("label", **self.name(f, "g"))
                    if self.chance(0.5): self.p.add("data", w="b", t="n", es=[I(1)])
                else: self.p.add("def", e=I(self.anyint()), **self.name(f, "g"))
        if self.open and self.chance(0.93): self.p.add("close")
        if self.w("log"):
            self.p.log = r.choice([1, 2, 2])
            if self.chance(0.2): self.p.labels.append({"n": "cmdlabel", "on": "cmdLabel", "sc": "g", "v": limbs(self.anyint())})
        return self.p

PROFILES = {
    "C01": {"stmts": {"data": 6, "label": 5, "def": 1, "org": 2, "orga": 2, "hdr": 1, "align": 3, "fill": 2, "skip": 2, "incbin": 1.5, "area": 1, "if": 1, "raw": 1, "open": 0.3, "close": 0.6, "auto": 0.2, "defregion": 0.3}, "fns": 0.12},
    "C02": {"stmts": {"data": 5, "label": 6, "def": 1, "org": 1, "align": 2, "fill": 3, "skip": 2, "if": 5, "area": 1.5, "incbin": 0.5, "defregion": 0.5, "auto": 0.5, "func": 1.5}, "fwd": 6, "constcond": 0.05, "thresh": 0.25},
    # few statements, most of them depending on where something later is
    "C02s": {"stmts": {"data": 3, "label": 3, "align": 0.5, "fill": 2, "skip": 3, "if": 1.5, "area": 1, "func": 3, "auto": 0.3}, "fwd": 2, "refs": 0.8, "constcond": 0, "thresh": 0.85, "len": (3, 7), "good": 1, "archs": ["psx"], "maxdepth": 1},
    "C03": {"stmts": {"data": 6, "org": 3, "orga": 3, "skip": 2, "align": 1, "fill": 1, "close": 2.5, "open": 2, "incbin": 1, "hdr": 1, "label": 1, "area": 0.5}},
    "C04": {"stmts": {"data": 5, "label": 3, "msg": 3, "eow": 1, "org": 1, "align": 1, "fill": 1, "area": 1.5, "if": 1.5, "open": 1, "close": 1, "incbin": 1, "skip": 1, "func": 0.4}, "bad": 0.15, "undef": 0.05, "dup": 0.08, "eowarg": 0.25},
    "C05": {"stmts": {"data": 6, "area": 6, "label": 2, "org": 1, "fill": 2, "skip": 1, "align": 1, "if": 1, "defregion": 1, "incbin": 0.5}, "maxdepth": 3, "tight": 0.35},
    "C06": {"stmts": {"data": 4, "defregion": 4, "auto": 6, "area": 2, "label": 3, "org": 1, "if": 1, "fill": 1, "close": 0.4, "align": 0.7}, "region": 0.8, "maxdepth": 2, "len": (6, 22)},
    "C09": {"stmts": {"data": 7, "label": 5, "def": 1, "org": 1.5, "orga": 1, "hdr": 0.5, "align": 1.5, "fill": 1.5, "skip": 1, "incbin": 1, "area": 2, "if": 1.5, "raw": 0.7, "open": 0.2, "close": 0.8, "auto": 0.5, "defregion": 0.5, "func": 2, "symsw": 1, "msg": 0.5, "arch": 0.5}, "log": 1, "good": 0.9, "region": 0.4},
    "C08": {"stmts": {"data": 5, "if": 7, "label": 4, "def": 1, "msg": 2, "org": 0.5, "align": 1, "fill": 1, "area": 0.7, "eow": 0.5, "incbin": 0.5}, "maxdepth": 4, "constcond": 0.5},
}

def program(seed, prof):
    return Gen(random.Random(seed), PROFILES[prof]).program()
