"""Programs about symbols: scopes, includes (also repeated), sections, definitions by value, definedness."""
import copy, random
from asmcase import *

NAMES = ["a", "b", "Val", "loop", "x.y", "_z", "a1"]
PRE = {"g": "", "s": "@", "l": "@@"}

class Gen:
    def __init__(self, rng):
        self.r = rng
        self.p = Prog(rng)
        self.good = rng.random() < 0.75
        self.sec = 0
        self.nfile = 1
        self.fstk = [0]
        self.out = []           # (command, file, section before it)
        self.keys = {}          # defined (name, file, section) -> count
        self.phs = []           # references to be chosen: {"ctx": [(file, sec, index)], "slot": fn}
        self.incs = {}          # include name -> template
        self.depth = 0
        self.ninc = 0
        self.cmdlabels = []
    def ch(self, p): return self.r.random() < p
    def key(self, n, sc, f, sec):
        return (n.lower(), f if sc == "s" else -1, sec if sc == "l" else -1)
    def spell(self, n):
        k = self.r.random()
        return n.upper() if k < 0.15 else n.lower() if k < 0.3 else n
    # templates ------------------------------------------------------------
    def ph(self, back=False):
        return {"ph": {"ctx": [], "back": back, "pick": None}}
    def body(self, n, depth, reusable):
        """A list of nodes: (kind, ...)."""
        r = self.r
        res = []
        for _ in range(n):
            k = r.choices(["label", "def", "data", "org", "inc", "if", "ifdef", "func", "msg", "align"],
                          [6, 2, 9, 0.7, 1.6 if depth < 3 else 0, 0.9 if depth < 4 else 0, 0.9 if depth < 4 else 0, 0.4 if depth == 0 else 0, 0.4, 0.3])[0]
            if k == "label": res.append(["label", self.newname(reusable)])
            elif k == "def": res.append(["def", self.newname(reusable), self.value(True) if self.ch(0.5) else I(r.randrange(256))])
            elif k == "data": res.append(["data", [self.value() for _ in range(r.choice([1, 1, 2]))]])
            elif k == "org": res.append([r.choice(["org", "orga"]), I(r.randrange(0, 64))])
            elif k == "align": res.append(["align"])
            elif k == "msg": res.append(["msg", self.value()])
            elif k == "inc":
                known = [x for x in self.incs if x not in self.inside]
                if known and self.ch(0.5): res.append(["inc", r.choice(known)])
                else:
                    nm = "i%d.asm" % self.ninc
                    self.ninc += 1
                    self.inside.append(nm)
                    ru = self.ch(0.5)
                    b = self.body(r.choice([1, 2, 3, 5]), depth + 1, ru)
                    self.inside.pop()
                    if ru: self.incs[nm] = b
                    res.append(["inc", nm, b])
            elif k == "func": res.append(["func", self.newname(reusable, "gs"), self.body(r.choice([1, 2]), 9, reusable)])
            else:
                cond = self.value() if k == "if" else None
                if k == "if" and self.ch(0.4): cond = I(r.randrange(2))
                res.append(["if", "if" if k == "if" else r.choice(["ifdef", "ifndef"]), cond if k == "if" else self.ph(),
                            self.body(r.choice([0, 1, 2]), max(depth, 3) + 1, True), self.body(r.choice([0, 1, 2]), max(depth, 3) + 1, True) if self.ch(0.5) else None])
        return res
    def newname(self, reusable, scs="gggsssllll"):
        sc = self.r.choice(scs)
        if reusable and self.good and sc == "g": sc = "s"
        return {"n": self.r.choice(NAMES), "sc": sc}
    def value(self, back=False):
        r = self.r
        k = r.random()
        if k < 0.5: return self.ph(back)
        if k < 0.6: return {"lab": r.choice(["org", "org", "orga"]), **self.ph(back)}
        if k < 0.72: return {"lab": "defined", **self.ph(back)}
        if k < 0.86: return {"plus": r.randrange(9), **self.ph(back)}
        if k < 0.93: return {"minus": self.ph(back), **self.ph(back)}
        return I(r.randrange(256))
    # walking: sections and file instances are counted as the assembler does ---------
    def use(self, v):
        if "ph" in v: v["ph"]["ctx"].append((self.fstk[-1], self.sec, len(self.out)))
        if "minus" in v: self.use(v["minus"])
        return v
    def define(self, nm, here):
        """A definition; the name is changed where it would be a second one."""
        sc = nm["sc"]
        sec = self.sec + (sc != "l")
        if "on" not in nm:
            n = nm["n"]
            if self.good:
                for c in [n] + self.r.sample(NAMES, len(NAMES)) + ["n%d" % len(self.keys)]:
                    if self.key(c, sc, self.fstk[-1], sec) not in self.keys: n = c; break
            nm["n"], nm["on"] = n.lower(), PRE[sc] + self.spell(n)
        k = self.key(nm["n"], sc, self.fstk[-1], sec)
        if not here: self.maybe.add(k)
        self.keys.setdefault(k, len(self.out))
        self.sec = sec
        return dict(n=(PRE[sc] + nm["n"]).lower(), sc=sc, on=nm["on"])
    def walk(self, body, sure=True):
        for x in body:
            k = x[0]
            if k == "label": self.emit("label", **self.define(x[1], sure))
            elif k == "def":
                e = self.use(x[2])
                self.emit("def", e=e, **self.define(x[1], sure))
            elif k == "data": self.emit("data", w="32", t="n", es=[self.use(v) for v in x[1]])
            elif k in ("org", "orga"):
                self.emit(k, e=x[1])
                self.sec += 1
            elif k == "align": self.emit("align", e=I(8))
            elif k == "msg": self.emit("msg", sev="n", e=self.use(x[1]))
            elif k == "func":
                self.emit("func", **self.define(x[1], sure))
                self.walk(x[2], sure)
                self.emit("endfunc")
            elif k == "if":
                v = self.use(x[2])
                dead = x[1] == "if" and v.get("k") == "int"
                one = dead and v["py"] != 0
                if x[1] == "if": self.emit("if", c="if", e=v)
                else: self.emit("if", c=x[1], ref=v)
                self.branch(x[3], sure and one, dead and not one)
                if x[4] is not None:
                    self.emit("else")
                    self.branch(x[4], sure and dead and not one, one)
                self.emit("endif")
            elif k == "inc":
                b = x[2] if len(x) > 2 else self.incs[x[1]]
                self.emit("inc", name=x[1])
                if not self.dead:
                    self.fstk.append(self.nfile)
                    self.nfile += 1
                    self.walk(b, sure)
                    self.fstk.pop()
                else:
                    # not read at all; the text is the same
                    self.deadinc += 1
                    self.walk_dead(b)
                    self.deadinc -= 1
                self.emit("endinc")
    def branch(self, b, sure, dead):
        old = self.dead
        self.dead = old or dead
        self.walk(b, sure)
        self.dead = old
    def walk_dead(self, b):
        sec, keys, nf = self.sec, dict(self.keys), self.nfile
        self.walk(b, False)
        self.sec, self.keys, self.nfile = sec, keys, nf
    def emit(self, op, **kw):
        self.out.append((op, kw))
    # choosing the symbols referred to ------------------------------------------
    def resolve(self, v):
        if "ph" not in v: return v
        r = self.r
        p = v["ph"]
        if p["pick"] is None:
            cand = None
            for f, sec, i in p["ctx"]:
                vis = set()
                for (n, kf, ks), at in self.keys.items():
                    if (n, kf, ks) in self.maybe: continue
                    if p["back"] and at >= i: continue
                    if ks == sec: vis.add((n, "l"))
                    elif kf == f: vis.add((n, "s"))
                    elif kf == -1 and ks == -1: vis.add((n, "g"))
                cand = vis if cand is None else cand & vis
            # local and static ones are rarer
            cl = sorted(cand or ())
            near = [c for c in cl if c[1] != "g"]
            if near and self.ch(0.6): cl = near
            if (self.good or self.ch(0.9)) and cl: p["pick"] = r.choice(cl)
            elif self.good and v.get("lab") != "defined": p["pick"] = ("", "")
            else: p["pick"] = (r.choice(NAMES).lower(), r.choice("gsl"))
            n, sc = p["pick"]
            p["on"] = PRE.get(sc, "") + self.spell(n)
        n, sc = p["pick"]
        if n == "": return I(7)
        if v.get("lab"): return LAB(v["lab"], p["on"], sc)
        e = ID(p["on"], sc)
        if "plus" in v: return BIN("+", e, I(v["plus"]))
        if "minus" in v: return BIN("-", e, self.resolve(v["minus"]))
        return e
    def program(self):
        r = self.r
        self.maybe, self.dead, self.deadinc, self.inside = set(), False, 0, []
        self.p.add("arch", a="psx")
        if self.ch(0.3):
            for n in r.sample(NAMES, 2):
                sc = r.choice("ggs") if not self.good else "g"
                if any(x["n"] == PRE[sc] + n.lower() for x in self.p.labels): continue
                self.p.labels.append({"n": PRE[sc] + n.lower(), "on": PRE[sc] + n, "sc": sc, "v": limbs(r.randrange(1 << 20))})
                self.keys[self.key(n, sc, 0, 0)] = -1
        b = 0x80 * r.randrange(4)
        name = r.choice(["o0.bin", "o1.bin"])
        self.p.add("create", name=name, codes=codes(name), hv=limbs(b), hvpy=b)
        self.sec = 1 + len([x for x in self.p.labels if x["sc"] != "l"])
        self.walk([["org", I(b)]] if self.ch(0.3) else [])
        self.walk(self.body(r.randrange(4, 14), 0, False))
        for op, kw in self.out:
            kw = dict(kw)
            if "es" in kw: kw["es"] = [self.resolve(v) for v in kw["es"]]
            if "e" in kw: kw["e"] = self.resolve(kw["e"])
            if "ref" in kw:
                v = self.resolve(kw.pop("ref"))
                if v["k"] == "int": v = ID("a")
                kw.update(n=v["n"], sc=v["sc"], on=v["on"])
            if op == "org" and kw["e"]["k"] == "int": kw["e"] = I(kw["e"]["py"] % 64 + b) if kw["e"]["py"] < b else kw["e"]
            self.p.add(op, **kw)
        if self.ch(0.95): self.p.add("close")
        return self.p

def program(seed):
    return Gen(random.Random(seed)).program()
