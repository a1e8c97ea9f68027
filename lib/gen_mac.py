"""Programs of MIPS pseudo-instructions, one per slot (spec/Mac.tla)."""
import random, struct
from asmcase import limbs
from gen_ins import pieces, MT, avail, BASES

LOADS = "lb lbu lh lhu lw lwu ld ll lwc1 l.s ldc1 l.d".split()
STORES = "sb sh sw sd swc1 s.s sdc1 s.d".split()
BR = {"blt": "lt", "bltu": "ltu", "bgt": "gt", "bgtu": "gtu", "bge": "ge", "bgeu": "geu", "ble": "le", "bleu": "leu"}
SETI = {"slt": "lt", "sltu": "ltu", "sgt": "gt", "sgtu": "gtu", "sge": "ge", "sgeu": "geu", "sle": "le", "sleu": "leu", "seq": "eq", "sne": "ne"}
SETR = {k: v for k, v in SETI.items() if k not in ("slt", "sltu", "sgt", "sgtu")}
FPR = {"lwc1", "l.s", "ldc1", "l.d", "swc1", "s.s", "sdc1", "s.d"}
SIZE = {1: "lb lbu sb", 2: "lh lhu sh ulh ulhu ush", 8: "ld sd ldc1 l.d sdc1 s.d uld usd"}
SIZE = {n: k for k, v in SIZE.items() for n in v.split()}
GPR = "r0 at v0 v1 a0 a1 a2 a3 t0 t1 t2 t3 t4 t5 t6 t7 s0 s1 s2 s3 s4 s5 s6 s7 t8 t9 k0 k1 gp sp fp ra".split()
E32 = [0, 1, 2, 0x7FFF, 0x8000, 0x8001, 0xFFFF, 0x10000, 0x10001, 0x17FFF, 0x18000, 0x1FFFF, 0x7FFF8000, 0x7FFFFFFF, 0x80000000, 0x80000001, 0x80008000, 0xFFFF0000,
       0xFFFF7FFF, 0xFFFF8000, 0xFFFF8001, 0xFFFFFFFE, 0xFFFFFFFF, 0x7FFF0000, 0x12345678, 0xABCD0000, 0xFFFEFFFF, 0x8000FFFF]
NEG = [-1, -2, -0x7FFF, -0x8000, -0x8001, -0xFFFF, -0x10000, -0x10001, -0x7FFFFFFF, -0x80000000]
BAD = [0x100000000, -0x100000000, 0x123456789A, 1 << 62, -(1 << 62), 0x1FFFFFFFF, -0x80000001, -0xFFFFFFFF]

def has(a, n):
    es = MT["ops"].get({"l.s": "lwc1", "s.s": "swc1", "l.d": "ldc1", "s.d": "sdc1"}.get(n, n), [])
    return any(avail(a, e) for e in es)

class Mac:
    def __init__(self, rng, a, base):
        self.rng, self.a, self.base = rng, a, base
        self.slots, self.body, self.pre, self.post, self.nsym = [], [], [], [], 0
    def addr(self): return self.base + 64 * len(self.slots)
    def reg(self, n):
        r = self.rng.random()
        return "$%d" % n if r < 0.1 else "r%d" % n if r < 0.3 else GPR[n]
    def num(self, v): return ("-" if v < 0 else "") + (str(abs(v)) if self.rng.random() < 0.4 else "0x%x" % abs(v))
    def val(self, v, dot=True):
        """The value v as it can be written at the slot; returns text."""
        rng, r = self.rng, self.rng.random()
        if dot and r < 0.10 : return ".%+d" % (v - self.addr()) if v != self.addr() or rng.random() < .5 else "."
        if dot and r < 0.18: return "org()%+d" % (v - self.addr())
        if r < 0.40:
            self.nsym += 1
            n = "Sym%d" % self.nsym
            (self.pre if rng.random() < 0.5 else self.post).append(".definelabel %s,%s" % (n, self.num(v)))
            if rng.random() < 0.4:
                k = rng.choice([1, -1, 4, -4, 0x8000, -0x10000, 100])
                self.pre if 0 else None
                return "%s%+d" % (n, 0) if k is None else n
            return n
        if r < 0.46: k = rng.randrange(1, 1000); return rng.choice(["%s+%d" % (self.num(v - k), k), "%s-%d" % (self.num(v + k), k), "(%s)" % self.num(v)])
        if r < 0.50: return "1 ? %s : 0" % self.num(v)
        return self.num(v)
    def states(self, vals, regs, wide):
        """Initial contents of the source registers."""
        rng, r = self.rng, []
        for _ in range(rng.choice([2, 3])):
            def pick():
                x = rng.choice(E32 + vals * 3 + [v + d for v in vals for d in (-1, 1)] + [rng.randrange(1 << 32)])
                x &= 0xFFFFFFFF
                x = x - (1 << 32) if x >> 31 else x
                if wide and rng.random() < 0.6: x = rng.choice([x, rng.randrange(1 << 64), 1 << 63, (1 << 63) - 1, 1 << 31, 0xFFFFFFFF]) % (1 << 64)
                return x
            st = {"seed": rng.randrange(1000), "r": []}
            same = pick()
            for n in regs:
                if n and not any(x["n"] == n for x in st["r"]): st["r"].append({"n": n, "v": limbs((same if rng.random() < 0.2 else pick()) % (1 << 64))})
            r.append(st)
        return r
    def slot(self, texts, **k):
        f = dict(m="li", d=0, s=0, t=0, i=False, set=False, c="eq", b="abs", v=limbs(0), dest=limbs(0), fb=limbs(0), st=[{"seed": 1, "r": []}])
        f.update(k)
        self.body.append((len(self.slots), texts))
        self.slots.append(f)
    def src(self):
        L = [".%s" % self.a, '.create "out.bin",0x%x' % self.base] + self.pre
        for k, ts in self.body:
            L.append(".org 0x%x" % (self.base + 64 * k))
            self.slots[k]["ln"] = list(range(len(L) + 1, len(L) + 1 + len(ts)))
            L += ts
        L += [".org 0x%x" % (self.base + 64 * len(self.slots))] + ["nop", ".close"] + self.post
        return "\n".join(L) + "\n"
    def job(self, binary):
        return {"binary": binary, "src": {"main.asm": self.src().encode()}, "main": "main.asm", "files": {}, "args": [], "names": ["main.asm"], "cap": 1 << 19}
    def case(self, obs):
        self.src()
        b = obs["files"].get("out.bin", b"")
        return {"a": self.a, "base": limbs(self.base), "slots": self.slots, "obs": {"rc": obs["rc"] if obs["rc"] in (0, 1) else 2, "d": obs["d"], "len": len(b), "bytes": pieces(b)}}

def one(P, wrong):
    rng, a = P.rng, P.a
    wide = a in ("n64", "ps2")
    any_ = lambda: rng.choice([0, 2, 3, 4, 4, 5, 5, 6, 7, 8, 9, 24, 29, 31])
    nz = lambda: rng.choice([2, 3, 4, 4, 5, 5, 6, 7, 8, 9, 24, 29, 31])
    up = lambda n: n.upper() if rng.random() < 0.05 else n
    kind = rng.choice(["li", "li", "ls", "ls", "un", "un", "br", "br", "br", "set", "set", "set", "rot", "rot", "abs", "lis"])
    if kind == "li":
        d = rng.choice([1, nz(), nz(), nz()])
        v = rng.choice(BAD if wrong else E32 + NEG + [rng.randrange(1 << 32), rng.randrange(1 << 32)])
        if rng.random() < 0.08 and not wrong: v = P.addr() + rng.randrange(0, 64)
        n = rng.choice(["li", "la"])
        t = P.val(v)
        if rng.random() < 0.25: ts = ["%s.u %s,%s" % (n, P.reg(d), t), "%s.l %s,%s" % (n, P.reg(d), t)] if not t.startswith((".", "org")) else ["%s %s,%s" % (n, P.reg(d), t)]
        else: ts = ["%s %s,%s" % (up(n), P.reg(d), t)]
        P.slot(ts, m=n, d=d, v=limbs(v))
    elif kind == "lis":
        if not has(a, "mtc1"): return
        d = rng.randrange(32)
        x = rng.choice([0.0, 1.0, -1.0, 0.5, 2.0, 0.1, 3.14159, 1e10, -1e-10, 100.25, 65536.0, 1e-45, 3.4e38, 12345.678])
        P.slot(["li.s f%d,%s" % (d, ("%f" % x if 1e-5 < abs(x) < 1e15 or x == 0 else "%e" % x))], m="li.s", d=d,
               fb=limbs(struct.unpack("<I", struct.pack("<f", float("%f" % x if 1e-5 < abs(x) < 1e15 or x == 0 else "%e" % x)))[0]))
    elif kind == "ls":
        n = rng.choice(LOADS + STORES)
        if not has(a, n): return
        d = rng.randrange(32) if n in FPR else rng.choice([1] + [nz() for _ in range(5)]) if n in LOADS else any_()
        v = rng.choice([x for x in E32 + [rng.randrange(1 << 32) for _ in range(6)]])
        al = SIZE.get(n, 4)
        if rng.random() < 0.08: v = P.addr() & 0xFFFFFFFF
        v -= v % al
        if wrong: v = rng.choice([x for x in BAD])
        elif rng.random() < 0.08: v = rng.choice([-al, -0x8000, -0x7FF8, -0x8008, -0x10000])
        t = P.val(v)
        R = ("f%d" % d) if n in FPR else P.reg(d)
        if rng.random() < 0.25 and not t.startswith((".", "org")): ts = ["%s.u %s,%s" % (n, R, t), "%s.l %s,%s" % (n, R, t)]
        else: ts = ["%s %s,%s" % (up(n), R, t)]
        P.slot(ts, m=n, d=d, v=limbs(v), st=P.states([], [] if n in FPR else [d], wide and al == 8))
    elif kind == "un":
        n = rng.choice("ulh ulhu ulw uld ush usw usd".split())
        if not has(a, {"ulh": "lb", "ulhu": "lb", "ush": "sb", "ulw": "lwl", "usw": "swl", "uld": "ldl", "usd": "sdl"}[n]): return
        sz = SIZE.get(n, 4)
        d, s = (any_() if n[1] == "s" else nz()), nz()
        if d == s and sz > 2 and not rng.random() < 0.05: s = 10
        v = rng.choice([0, 1, -1, 2, 3, 4, 5, 7, 100, 101, 0x7FFF - sz, 0x7FFF - sz + 1, -0x8000, -0x7FFF, rng.randrange(-0x8000, 0x7FF0), rng.randrange(-0x8000, 0x7FF0)])
        if wrong: v = rng.choice([0x7FFF - sz + 2, 0x7FFF, 0x10000 + rng.randrange(100), -0x8001, -0x9000, 1 << 32, -(1 << 32), 0x12345])
        if v == 0 and rng.random() < 0.5: t = "%s %s,(%s)" % (n, P.reg(d), P.reg(s))
        else:
            x = P.val(v, False)
            if x.startswith("(") or "?" in x: x = P.num(v)
            t = "%s %s,%s(%s)" % (up(n), P.reg(d), x, P.reg(s))
        P.slot([t], m=n, d=d, s=s, v=limbs(v), st=P.states([], [d, s], sz == 8) + P.states([], [s], False))
        for st in P.slots[-1]["st"]:
            for r in st["r"]:
                if r["n"] == s and s != d: r["v"] = limbs(rng.choice([0x80001000, 0x1000, 0x20000]) + rng.randrange(16) if rng.random() < 0.8 else 0)
                if r["n"] == s and r["v"][1] >> 15: r["v"] = r["v"][:2] + [0xFFFF, 0xFFFF]
    elif kind == "br":
        likely = rng.random() < 0.3
        if likely and not has(a, "beql"): return
        im = rng.random() < 0.6
        names = dict(BR)
        if im: names.update(beq="eq", bne="ne")
        n = rng.choice(sorted(names))
        s, t = any_(), any_()
        v = rng.choice((BAD if wrong else [0, 0, 1, -1, 0x7FFE] + E32 + NEG + [rng.randrange(1 << 32)]) if im else [0])
        dest = P.addr() + rng.choice([64, -4, 0x80, -0x1FF00, 0x1FF00, 4 * rng.randrange(-0x7F00, 0x7F00), 4 * rng.randrange(16, 200)])
        if not 0 <= dest < 1 << 32 or 0 <= dest - P.addr() < 64: dest = P.addr() + 64
        dt = P.val(dest)
        it = P.val(v) if im else P.reg(t)
        P.slot(["%s %s,%s,%s" % (up(n + ("l" if likely else "")), P.reg(s), it, dt)], m=n + ("l" if likely else ""), s=s, t=t, i=im, c=names[n], v=limbs(v), dest=limbs(dest),
               st=P.states([v] if im else [], [s] if im else [s, t], False))
    elif kind == "set":
        im = rng.random() < 0.65
        names = SETI if im else SETR
        n = rng.choice(sorted(names))
        d, s, t = nz(), any_(), any_()
        if rng.random() < 0.35: s = d
        if rng.random() < 0.2: t = d
        v = rng.choice((BAD if wrong else [0, 0, 1, -1] + E32 + NEG + [rng.randrange(1 << 32)]) if im else [0])
        P.slot(["%s %s,%s,%s" % (up(n), P.reg(d), P.reg(s), P.val(v) if im else P.reg(t))], m=n, d=d, s=s, t=t, i=im, set=True, c=names[n], v=limbs(v),
               st=P.states([v] if im else [], [s] if im else [s, t], False))
    elif kind == "rot":
        im = rng.random() < 0.6
        n = rng.choice(["rol", "ror"])
        d, s, t = nz(), any_(), any_()
        if rng.random() < 0.35: s = d
        if rng.random() < 0.2: t = d
        if d == t and not im and d == s: pass
        v = rng.randrange(32) if im else 0
        P.slot(["%s %s,%s,%s" % (up(n), P.reg(d), P.reg(s), P.val(v) if im else P.reg(t))], m=n, d=d, s=s, t=t, i=im, v=limbs(v), st=P.states([], [s, t], False))
    else:
        n = "dabs" if wide and rng.random() < 0.5 else "abs"
        d, s = nz(), any_()
        if rng.random() < 0.3: s = d
        P.slot(["%s %s,%s" % (up(n), P.reg(d), P.reg(s))], m=n, d=d, s=s, st=P.states([], [s], n == "dabs"))

def program(seed):
    rng = random.Random(seed)
    a = rng.choice(["psx", "n64", "ps2", "psp", "rsp"])
    P = Mac(rng, a, rng.choice(BASES[a]) & ~63)
    n = rng.randrange(4, 12)
    w = rng.randrange(n) if rng.random() < 0.3 else -1
    for i in range(n): one(P, i == w)
    if not P.slots: return program(seed + "+")
    return P
