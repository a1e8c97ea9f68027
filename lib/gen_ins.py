"""Programs of machine instructions: MIPS and SuperH (spec/Ins.tla)."""
import json, os, random, re
from asmcase import limbs, unlimbs
from build import VERIF

MT = json.load(open(os.path.join(VERIF, "spec", "mips_table.json")))
ST = json.load(open(os.path.join(VERIF, "spec", "sh_table.json")))
MARCH = {"psx": (17, 4096, 0), "n64": (7, 8192, 28672), "ps2": (71, 16384, 12288), "psp": (135, 32768, 8192), "rsp": (257, 65536, 0)}
def avail(a, e):
    s, x, f = MARCH[a]
    return e["ar"] & s != 0 and e["ar"] & x == 0 and (e["fl"] & 28672) == (e["fl"] & 28672 & f)

# statements that the assembler takes as pseudo instructions, by the shape of their operands (r register, i value)
MACRO = {}
for sh, names in {"ri": "li li.u li.l la la.u la.l lb lbu lh lhu lw lwu ld ll lld sb sh sw sd sc scd li.s lwc1 l.s lwc2 ldc1 l.d ldc2 swc1 s.s swc2 sdc1 s.d sdc2",
                  "rrr": "sge sle sgeu sleu sne seq rol ror blt bgt", "rri": "slt sltu sgt sgtu sge sle sgeu sleu sne seq rol ror blt bgt bltu bgtu bge ble bgeu bleu bltl bgtl bltul bgtul bgel blel bgeul bleul",
                  "rr": "abs dabs", "ri(r)": "ulh ulhu ulw uld ush usw usd", "r(r)": "ulh ulhu ulw uld ush usw usd",
                  "rii": "blt bgt bltu bgtu bge ble bgeu bleu bne beq bltl bgtl bltul bgtul bgel blel bgeul bleul bnel beql"}.items():
    for n in names.split(): MACRO.setdefault(n, set()).add(sh)
def macro_like(nm, ops):
    b = re.sub(r"\.[ul]$", "", nm)
    shapes = MACRO.get(nm, set()) | MACRO.get(b, set())
    if not shapes: return False
    s = ""
    for o in ops:
        if o["k"] == "sym": s += o["c"] if o["c"] in "()" else ""
        elif o["k"] in ("reg", "num", "vr", "el"): s += "r"
        else: s += "i"
    return s in shapes

REL, ABS, SLOT, NOSLOT, LOADS, IGNRT = 2, 1, 32, 64, 128, 256
ENT = [(n, e) for n, es in sorted(MT["ops"].items()) for e in es]
SENT = [(n, e) for n, es in sorted(ST.items()) for e in es]

def sym(c): return {"k": "sym", "c": c}
def imm(v, b="abs", l=-1): return {"k": "imm", "b": b, "v": limbs(v), "l": l, "py": v}

def pieces(b):
    """Parts of the output between long runs of zero bytes."""
    return [{"o": m.start(), "b": list(m.group())} for m in re.finditer(rb"(?:(?!\0{64}).)+", b, re.S)] or [{"o": 0, "b": []}]

class Ins:
    def __init__(self, rng, arch, base):
        self.rng, self.a, self.base = rng, arch, base
        self.lines, self.text = [], []
        self.labs = 0
        self.arch = arch
    # --- text ---------------------------------------------------------------
    def num(self, v):
        r = self.rng.random()
        if v < 0: return "-" + self.num(-v)
        if r < 0.5: return str(v)
        return "0x%x" % v
    def up(self, t): return t.upper() if self.rng.random() < 0.06 else t
    def op(self, o, nxt=None):
        k = o["k"]
        if k == "sym": return o["c"]
        if k == "reg": return self.up(o["nm"])
        if k == "num": return "$%d" % o["n"]
        if k == "imm":
            v = o["py"]
            if o["b"] == "abs": return self.num(v)
            h = "." if o["b"] == "dot" else "L%d" % o["l"]
            if nxt == "(" or v != 0 or o["b"] == "dot": return "%s%s%s" % (h, "+" if v >= 0 else "-", self.num(abs(v)))
            return h
        if k == "hf": return o["txt"]
        if k == "vr": return self.up("%s%d%d%d" % (o["m"], o["x"], o["y"], o["z"]))
        if k == "el": return "[$%d]" % o["n"] if o["d"] else "[%s]" % o["t"]
        if k == "vrot": return "[" + ",".join(o["e"]) + "]"
        if k == "vpfx": return ",".join(("-" if x["n"] else "") + (("|%s|" if x["a"] else "%s") % "xyzw"[x["r"]] if x["r"] >= 0 else x["c"]) for x in o["e"])
        if k == "vpfxd": return ",".join({"": "", "m": "m"}.get(x, "[%s]" % x) for x in o["e"])
        if k == "vcst": return o["t"]
        if k == "atreg": return "@" + o["nm"]
        if k == "at": return "@"
        raise ValueError(k)
    def put(self, t): self.text.append(t); return len(self.text) + 2
    def ins(self, n, ops, rel=False):
        t = ""
        for i, o in enumerate(ops):
            x = self.op(o, ops[i + 1].get("c") if i + 1 < len(ops) else None)
            # words side by side need space between them
            if t and re.match(r"[\w.$@\[]", x) and re.search(r"[\w.$\])]$", t) and not (o["k"] == "el"): t += " "
            t += x
        ln = self.put(self.up(n) + (" " + t if t else ""))
        self.lines.append({"k": "ins", "n": n, "o": ops, "ln": ln, "rel": rel})
    def lab(self):
        self.labs += 1
        self.put("L%d:" % self.labs)
        self.lines.append({"k": "lab", "i": self.labs})
        return self.labs
    def word(self, l): self.lines.append({"k": "word", "l": l, "ln": self.put(".word L%d" % l)})
    def skip(self, v, t, rst=True): self.put(t); self.lines.append({"k": "skip", "v": v, "rst": rst})
    def direct(self, k, t, **kw): self.put(t); self.lines.append(dict(k=k, **kw))
    def nop(self): self.ins("nop", [])
    # --- job and case --------------------------------------------------------
    def job(self, binary):
        src = ".%s\n.create \"out.bin\",0x%x\n" % (self.a, self.base) + "\n".join(self.text) + "\n.close\n"
        return {"binary": binary, "src": {"main.asm": src.encode()}, "main": "main.asm", "files": {}, "args": [], "names": ["main.asm"], "cap": 1 << 19}
    def case(self, obs):
        def cl(o): return {k: v for k, v in o.items() if k not in ("py", "txt")}
        ls = [dict(l, o=[cl(x) for x in l["o"]]) if l["k"] == "ins" else l for l in self.lines]
        b = obs["files"].get("out.bin", b"")
        return {"a": self.a, "base": limbs(self.base), "lines": ls, "obs": {"rc": obs["rc"] if obs["rc"] in (0, 1) else 2, "d": obs["d"], "len": len(b), "bytes": pieces(b)}}

# --- operands ----------------------------------------------------------------
def near(rng, n, wrong):
    """A value for a field of n bits; mostly one that fits."""
    lim = 1 << n
    ok = [0, 1, 2, lim // 2 - 1, lim // 2, lim - 1, lim - 2, rng.randrange(lim), rng.randrange(lim), rng.randrange(lim)]
    if n == 16: ok += [-1, -2, -lim // 2, -lim // 2 + 1, -rng.randrange(lim // 2), -rng.randrange(lim // 2)]
    bad = [lim, lim + 1, lim * 2, -lim // 2 - 1, -lim + 1, -lim, -1, -lim // 2, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xFFFFFFFF - rng.randrange(lim), -0x80000000,
           0x100000000, 0x100000001, -0x100000000, (1 << 32) + rng.randrange(lim), -(1 << 40) + rng.randrange(lim), (1 << 63) - 1]
    return rng.choice(bad if wrong else ok)

def mreg(rng, cls, numeric=True):
    if numeric and rng.random() < 0.12: return {"k": "num", "n": rng.randrange(32)}
    return {"k": "reg", "nm": rng.choice(sorted(MT["regs"][cls]))}

CLS = {"s": "gpr", "t": "gpr", "d": "gpr", "S": "fpr", "T": "fpr", "D": "fpr", "f": "fcr", "z": "cop0", "gs": "psxd", "gt": "psxd", "gc": "psxc", "Rz": "rspc0", "Rc": "rspvc",
       "Rs": "rspv", "Rt": "rspv", "Rd": "rspv", "Vt": "vf"}
VF = 1 << 16
def vsize(e):
    if e["sz"] >= 0: return e["sz"]
    for b, s in ((19, 0), (22, 1), (23, 2), (20, 3)):
        if e["fl"] >> b & 1: return s
    return -1
def vact(p, sz):
    if p in ("vSd", "vSs", "vSt"): return 0
    m = {"vHd": {1: 0, 3: 1}, "vDd": {0: 1, 1: 3}, "vFd": {3: 0}, "vQd": {0: 3}}
    return m[p].get(sz, sz) if p in m else sz
def vreg(rng, size, wrong, six=False):
    if wrong or size < 0: return {"k": "vr", "m": rng.choice("crsme"), "x": rng.randrange(9), "y": rng.randrange(5), "z": rng.randrange(5)}
    m = "s" if size == 0 else rng.choice("cr")
    x, y, z = rng.randrange(8), rng.randrange(4), rng.randrange(4)
    if size in (1, 3):
        if m == "c": z &= 2
        else: y &= 2
        if size == 3 and rng.random() < 0.8:
            if m == "c": z = 0
            else: y = 0
    if size == 2:
        if m == "c": z &= 1
        else: y &= 1
    if six:
        if m == "s": z &= 1
        elif m == "c": z = 0
        else: y = 0
    return {"k": "vr", "m": m, "x": x, "y": y, "z": z}
def vmat(rng, size, wrong):
    if wrong: return vreg(rng, size, True)
    y, z = rng.randrange(4), rng.randrange(4)
    if size in (1, 3): z &= 2
    else: z &= 1
    return {"k": "vr", "m": rng.choice("me"), "x": rng.randrange(8), "y": y, "z": z}
def vrot(rng, sz, wrong):
    n = sz + 1 + (rng.choice([-1, 1]) if wrong and rng.random() < 0.3 else 0)
    if wrong or n < 2: return {"k": "vrot", "e": [rng.choice(["c", "s", "-s", "0"]) for _ in range(max(n, 1))]}
    s = rng.choice(["s", "-s"])
    e = ["0"] * n
    r = rng.random()
    if r < 0.2 and n < 4: e[rng.randrange(n)] = "c"
    elif r < 0.35 and n < 4: e[rng.randrange(n)] = s
    elif r < 0.45 and n < 4: e = [s] * n
    elif r < 0.6:
        e = [s] * n
        e[rng.randrange(n)] = "c"
    else:
        a, b = rng.sample(range(n), 2)
        e[a], e[b] = "c", s
    return {"k": "vrot", "e": e}
def vpfx(rng):
    es = []
    for _ in range(4):
        if rng.random() < 0.6: es.append({"n": rng.random() < 0.3, "a": rng.random() < 0.3, "r": rng.randrange(4), "c": "0"})
        else: es.append({"n": rng.random() < 0.3, "a": False, "r": -1, "c": rng.choice(["0", "1", "2", "1/2", "3", "1/3", "1/4", "1/6"])})
    return {"k": "vpfx", "e": es}
def half(rng):
    if rng.random() < 0.2: return imm(rng.randrange(0, 2048) * rng.choice([1, -1]))
    m, e = rng.randrange(1, 2048), rng.randrange(-24, 5)
    if rng.random() < 0.1: m = 0
    from fractions import Fraction
    v = Fraction(m) * Fraction(2) ** e
    n = 0
    while v.denominator != 1: v *= 10; n += 1
    s = str(v.numerator).rjust(n + 1, "0")
    neg = rng.random() < 0.3
    return {"k": "hf", "m": m, "e": e, "n": neg, "txt": ("-" if neg else "") + (s[:-n] + "." + s[-n:] if n else s + ".0")}

BITS = {"i3": 3, "i5": 5, "i7": 7, "i10": 10, "i16": 16, "i20": 20, "i25": 25, "i26": 26}
def mval(P, e, p, wrong):
    rng = P.rng
    fl = e["fl"]
    if p == "ih": return half(rng) if not wrong else rng.choice([imm(5000), imm(70000), imm(-1)])
    if fl & ABS:
        v = (P.base & 0xF0000000) + 4 * rng.randrange(1 << 26)
        if rng.random() < 0.3 and P.labs: return imm(4 * rng.randrange(-2, 3), "lab", rng.randrange(1, P.labs + 1))
        if wrong: v = rng.choice([v + 1, v + 2, v + 3, v ^ 0x10000000, v + (1 << 32), -4, (1 << 35)])
        return imm(v)
    if fl & REL:
        if rng.random() < 0.3 and P.labs: return imm(4 * rng.randrange(-3, 4), "lab", rng.randrange(1, P.labs + 1))
        if wrong: v = rng.choice([4 + 0x20000, 4 + 0x20000 + 4 * rng.randrange(9), 4 - 0x20004, -0x20004, 5, 6, 7, -1, -2, 4 + 0x1fffd, 1 << 20, -(1 << 20), 1 << 31, 1 << 32, (1 << 32) + 8, -(1 << 32)])
        else: v = rng.choice([0, 4, -4, 4 + 0x1fffc, 4 - 0x20000, 4 * rng.randrange(-0x7fff, 0x8000), 4 * rng.randrange(-0x7fff, 0x8000), 4 * rng.randrange(-9, 9)])
        return imm(v, "dot")
    n = BITS[p]
    sc = 1
    for b, k in ((25, 2), (26, 4), (27, 8), (28, 16)):
        if fl >> b & 1: sc = k
    v = near(rng, n, wrong)
    if fl >> 11 & 1: v = -v if v <= 32768 else v - 65536 * (not wrong)
    if fl >> 10 & 1 and not wrong: v -= v % 4
    v *= sc
    # in range, but not a multiple of the unit
    if sc > 1 and wrong and rng.random() < 0.6: v = near(rng, n, False) * sc + rng.choice([sc // 2, rng.randrange(1, sc)])
    if fl >> 10 & 1 and wrong and rng.random() < 0.5: v = near(rng, n, False) | rng.choice([1, 2, 3])
    return imm(v)

def mops(P, e, wrong, vals_only=False):
    """Operands for a pattern; with wrong one of them gets a value that may not be fit."""
    rng = P.rng
    pat = e["pat"]
    cand = [i for i, p in enumerate(pat) if p not in (",", "(", ")")]
    vals = [i for i in cand if pat[i] in BITS or pat[i] in ("jc", "je", "ji")]
    bad = (rng.choice(vals) if vals and (vals_only or rng.random() < 0.6) else -1 if vals_only else rng.choice(cand)) if wrong and cand else -1
    six = e["fl"] >> 18 & 1
    sz = vsize(e)
    pos = 0
    r = []
    for i, p in enumerate(pat):
        w = i == bad
        if p in (",", "(", ")"): o = sym(p)
        elif p in CLS:
            c = CLS[p]
            if w and rng.random() < 0.8: c = rng.choice(sorted(MT["regs"].keys() - {"cb", "el", "vcond", "vcst"}))
            o = mreg(rng, c, c not in ("rspv", "vf") or w)
        elif p == "r0": o = rng.choice([{"k": "reg", "nm": "r0"}, {"k": "reg", "nm": "zero"}, {"k": "num", "n": 0}]) if not w else mreg(rng, "gpr")
        elif p == "Re":
            if w: o = {"k": "el", "t": str(8 + rng.randrange(4)), "n": 8, "d": False, "i": True}
            elif rng.random() < 0.3: continue
            elif rng.random() < 0.2: o = {"k": "el", "t": "", "n": rng.randrange(16), "d": True, "i": False}
            else:
                t = rng.choice(sorted(MT["regs"]["el"]))
                o = {"k": "el", "t": t, "n": int(t[0]), "d": False, "i": len(t) == 1}
        elif p in ("Rl", "Rm"):
            n = rng.randrange(8) if not w else rng.choice([8, 15, 16])
            o = {"k": "el", "t": str(n), "n": n, "d": False, "i": True}
        elif p == "Ro":
            if not w and rng.random() < 0.3: continue
            n = rng.randrange(16) if not w else rng.choice([16, 17])
            o = {"k": "el", "t": str(n), "n": n, "d": False, "i": True}
        elif p in ("vs", "vt", "vd") or (p[0] == "v" and p[1] in "SHDFQ"): o = vreg(rng, vact(p, sz), w, six)
        elif p in ("ms", "mt", "md"): o = vmat(rng, sz, w)
        elif p == "vc": o = {"k": "reg", "nm": rng.choice(sorted(MT["regs"]["vctl"]))} if rng.random() < 0.7 and not w else imm(rng.randrange(16) if not w else 16)
        elif p == "C": o = {"k": "reg", "nm": rng.choice(sorted(MT["regs"]["vcond"])) if not w else "xx"}
        elif p == "w": o = {"k": "reg", "nm": "wb" if not w else "wt"}
        elif p == "jb": o = {"k": "reg", "nm": rng.choice(["x", "y", "z", "w", "any", "all"])} if rng.random() < 0.7 and not w else imm(rng.randrange(6) if not w else 6)
        elif p == "Wr": o = vrot(rng, sz, w)
        elif p == "Ws": o = vpfx(rng)
        elif p == "Wd": o = {"k": "vpfxd", "e": [rng.choice(["", "m", "0:1", "-1:1"]) for _ in range(4)]}
        elif p == "Wc": o = {"k": "vcst", "t": rng.choice(sorted(MT["regs"]["vcst"]))}
        elif p == "jc": o = imm(rng.randrange(32) if not w else rng.choice([32, -1, 1 << 32, 255]))
        elif p in ("je", "ji"):
            o = imm(rng.randrange(1, 33 - pos) if not w else rng.choice([0, -1, 33, 33 - pos, 32, 64, -31, 1 << 32, -(1 << 32) + 4]))
        else:
            o = mval(P, e, p, w)
            if p == "i5" and o["k"] == "imm" and 0 <= o["py"] < 32: pos = o["py"]
        r.append(o)
    if wrong and not vals_only and rng.random() < 0.12 and not any(o["k"] in ("vpfx", "vpfxd", "vrot", "vcst") for o in r):
        # an operand too many or too few
        if rng.random() < 0.5 and r: r = r[:-2] if len(r) > 1 else []
        else: r = r + ([sym(",")] if r else []) + [mreg(rng, "gpr")]
    return r

def mips_line(P, wrong=False, pool=None):
    rng = P.rng
    while True:
        n, e = rng.choice(pool or ENT)
        if not avail(P.arch, e) and not (wrong and rng.random() < 0.3): continue
        ops = mops(P, e, wrong, n in MACRO)
        if macro_like(n, ops): continue
        # names of the wrong class can be symbols: never the names of labels
        P.ins(n, ops, bool(e["fl"] & 3))
        return e

# --- SuperH --------------------------------------------------------------------
def shops(P, e, wrong):
    rng = P.rng
    pat = e["pat"]
    cand = [i for i, p in enumerate(pat) if p not in (",", "(", ")", "#", "+", "-", "@")]
    vals = [i for i in cand if p_imm(pat[i])]
    bad = (vals[0] if vals and rng.random() < 0.75 else rng.choice(cand)) if wrong and cand else -1
    r = []
    for i, p in enumerate(pat):
        w = i == bad
        if p == "@": o = {"k": "at"}
        elif p in (",", "(", ")", "#", "+", "-"): o = sym(p)
        elif p in ("s", "t"):
            o = {"k": "reg", "nm": "r%d" % rng.randrange(16)}
            if w: o = rng.choice([{"k": "reg", "nm": "r16"}, {"k": "reg", "nm": "pr"}, {"k": "reg", "nm": "gbr"}, {"k": "atreg", "nm": o["nm"]}])
        elif p in ("@s", "@t"):
            o = {"k": "atreg", "nm": "r%d" % rng.randrange(16)}
            if w: o = rng.choice([{"k": "reg", "nm": o["nm"]}, {"k": "atreg", "nm": "r16"}])
        elif p_imm(p): o = shval(P, e, p, w)
        else:
            o = {"k": "reg", "nm": p}
            if w: o = {"k": "reg", "nm": rng.choice(["r0", "r1", "sr", "gbr", "vbr", "mach", "macl", "pr", "pc"])}
        r.append(o)
    return r
def p_imm(p): return re.match(r"i\d+$", p) is not None
def shval(P, e, p, wrong):
    rng = P.rng
    n = int(p[1:])
    lim = 1 << n
    sc = e["sc"]
    if e["man"] or e["rel"]:
        lo, hi = (-lim // 2, lim // 2 - 1) if e["sg"] else (0, lim - 1)
        k = rng.choice([lo, hi, rng.randrange(lo, hi + 1), rng.randrange(lo, hi + 1), 0, 1])
        if wrong: k = rng.choice([lo - 1, hi + 1, lo - rng.randrange(1, 5), hi + rng.randrange(1, 5), lim * 8, -lim * 8, 1 << 31, 1 << 32])
        # the position in front of the operand: distances are counted from it
        base = 4 - (P.pos() + 4) % 4 if sc == 4 else 4
        v = k * sc + base
        if wrong and rng.random() < 0.3: v = rng.randrange(0, 100) * sc + 4 + rng.randrange(1, sc + 1)
        if e["man"]: return imm(v)
        if rng.random() < 0.25 and P.labs and not wrong: return imm(0, "lab", rng.randrange(1, P.labs + 1))
        return imm(v, "dot")
    if e["f"] in ("I", "NI"):
        v = near(rng, n, wrong)
        if not wrong and e["f"] == "NI" and rng.random() < 0.4: v = -rng.randrange(lim // 2 + 1)
        return imm(v)
    v = rng.choice([0, lim - 1, rng.randrange(lim), rng.randrange(lim)]) * sc
    if wrong: v = rng.choice([lim * sc, lim * sc + sc, -sc, -1, -lim * sc, sc * rng.randrange(1, lim) + rng.randrange(sc), (1 << 32) * sc, 0x80000000, 0xFFFFFFFC])
    return imm(v)
def sh_line(P, wrong=False, pool=None):
    n, e = P.rng.choice(pool or SENT)
    P.ins(n, shops(P, e, wrong), e["rel"] or e["man"])
    return e

class ShProg(Ins):
    def pos(self): return self.base + 2 * sum(1 for l in self.lines if l["k"] == "ins") + sum(l.get("v", 4) for l in self.lines if l["k"] in ("skip", "word"))

BASES = {"psx": [0x80010000, 0x8001FFF0, 0], "n64": [0x80000400, 0xA0000000, 0x7FFFFFF0, 0], "ps2": [0x100000, 0x0FFFFFF0], "psp": [0x8804000, 0], "rsp": [0, 0x1000, 0x80000000],
         "saturn": [0x06004000, 0, 0x06004002, 0x80000000, 0x7FFFFF00], "32x": [0x06000000, 0x22000000, 0xFFFE0000]}

def program20(seed):
    rng = random.Random(seed)
    sh = rng.random() < 0.22
    a = rng.choice(["saturn", "32x"] if sh else ["psx", "n64", "ps2", "psp", "psp", "rsp", "rsp"])
    P = (ShProg if sh else Ins)(rng, a, rng.choice(BASES[a]))
    wrongs = rng.choice([0, 0, 0, 1, 1, 2])
    n = rng.randrange(5, 16) if not wrongs else rng.randrange(1, 6)
    at = set(rng.sample(range(n), min(n, wrongs)))
    for i in range(n):
        if rng.random() < 0.12: P.lab()
        if sh:
            sh_line(P, i in at)
        else:
            e = mips_line(P, i in at)
            if e["fl"] & SLOT: P.nop()
    return P

MREL = [(n, e) for n, e in ENT if e["fl"] & 3]
SREL = [(n, e) for n, e in SENT if e["rel"] or e["man"]]
def program19(seed):
    """Branches over labels at every distance."""
    rng = random.Random(seed)
    sh = rng.random() < 0.35
    a = rng.choice(["saturn", "32x"] if sh else ["psx", "n64", "ps2", "psp", "rsp"])
    P = (ShProg if sh else Ins)(rng, a, rng.choice(BASES[a]))
    wrongs = rng.choice([0, 0, 1])
    n = rng.randrange(3, 8)
    at = rng.randrange(n) if wrongs else -1
    total = rng.randrange(1, 4)        # labels, some of them after their use
    P.total = total
    placed = 0
    for i in range(n):
        while placed < total and rng.random() < 0.4:
            P.lab(); placed += 1
        r = rng.random()
        if r < 0.25 and not sh:
            k = 4 * rng.choice([rng.randrange(1, 20), rng.randrange(0x7F00, 0x8100)])
            P.skip(k, ".skip 0x%x" % k if rng.random() < 0.7 else ".fill 0x%x" % k)
        elif r < 0.25:
            k = rng.choice([2, 6, 4 * rng.randrange(1, 20), rng.randrange(0x70, 0x90) * 2, rng.randrange(0x7F0, 0x810) * 2])
            P.skip(k, ".skip 0x%x" % k)
        lab = imm(0, "lab", rng.randrange(1, total + 1))
        if sh:
            nm, e = rng.choice(SREL)
            if e["rel"] and i != at and rng.random() < 0.6 and e["sc"] == 2: P.ins(nm, [lab if p_imm(p) else o for p, o in zip(e["pat"], shops(P, e, False))], True)
            else: P.ins(nm, shops(P, e, i == at), True)
        else:
            pool = [x for x in MREL if avail(P.arch, x[1])]
            nm, e = rng.choice(pool)
            save, P.labs = P.labs, 0
            ops = mops(P, e, i == at and rng.random() < 0.8)
            P.labs = save
            if i != at and rng.random() < 0.6: ops = [lab if o["k"] == "imm" and p in BITS else o for p, o in zip(e["pat"], ops)]
            if macro_like(nm, ops): continue
            P.ins(nm, ops, True)
            P.nop()
    while placed < total: P.lab(); placed += 1
    P.nop()
    return P

LDS = [(n, e) for n, e in ENT if e["fl"] & LOADS and avail("psx", e)]
PSX = [(n, e) for n, e in ENT if avail("psx", e)]
USE = [(n, e) for n, e in PSX if any(p in ("s", "t", "d") for p in e["pat"])]
SLOTS = [(n, e) for n, e in PSX if e["fl"] & SLOT]
def program21(seed):
    rng = random.Random(seed)
    a = "psx" if rng.random() < 0.85 else rng.choice(["n64", "ps2", "psp", "rsp"])
    P = Ins(rng, a, 0x80010000 if a != "rsp" else 0x1000)
    if rng.random() < 0.35 and a == "psx": P.direct("fix", ".fixloaddelay")
    few = rng.sample(["v0", "a0", "t0", "s1", "r9", "zero", "ra", "sp"], 3)
    def ops(e):
        r = mops(P, e, False)
        return [{"k": "reg", "nm": rng.choice(few)} if p in ("s", "t", "d") and len(r) == len(e["pat"]) else o for p, o in zip(e["pat"], r)] if len(r) == len(e["pat"]) else r
    last = "x"
    slot = False
    for i in range(rng.randrange(4, 14)):
        r = rng.random()
        pool = [x for x in (LDS if r < 0.4 else SLOTS if r < 0.5 else USE) if avail(P.arch, x[1])]
        if rng.random() < 0.1:
            P.lab()
        if r > 0.94 and last != "load" and P.labs: P.word(rng.randrange(1, P.labs + 1)); last = "word"; slot = False; P.direct("reset", ".resetdelay"); continue
        if r > 0.9:
            k = rng.randrange(5)
            v = 4 * rng.randrange(1, 5)
            if k == 0: P.skip(v, ".skip %d" % v)
            elif k == 1: P.skip(v, ".fill %d" % v)
            elif k == 2: P.direct("reset", ".resetdelay")
            elif k == 3: P.skip(0, ".area 0x1000", False); P.skip(0, ".endarea", False); continue
            else: P.skip(v, ".org org()+%d" % v)
            last = "x"; slot = False
            continue
        if r > 0.87 and rng.random() < 0.5 and not slot:
            na = rng.choice(["psx", "psp", "ps2"])
            P.direct("arch", "." + na, a=na)
            P.arch = na
            last = "x"
            continue
        if slot and rng.random() < 0.9: pool = [x for x in pool if not x[1]["fl"] & NOSLOT] or [x for x in USE if not x[1]["fl"] & NOSLOT and avail(P.arch, x[1])]
        n, e = rng.choice(pool)
        o = ops(e)
        if macro_like(n, o): continue
        P.ins(n, o, bool(e["fl"] & 3))
        last = "load" if e["fl"] & LOADS else "x"
        slot = bool(e["fl"] & SLOT)
    P.nop()
    return P
