"""Programs of ARM and Thumb statements and literal pools (spec/ArmProg.tla)."""
import random, struct
from asmcase import limbs
from gen_ins import pieces

CONDS = "eq ne cs cc mi pl vs vc hi ls ge lt gt le al".split()
ALIAS = {"cs": "hs", "cc": "lo"}
REGN = ["r%d" % i for i in range(16)]
SPN = {13: "sp", 14: "lr", 15: "pc"}
NONE = {"b": "none"}
NOSH = {"k": "none", "t": 0, "r": 0, "v": NONE}
M32 = 0xFFFFFFFF
FLTS = ["1.0", "0.5", "-2.0", "1.5", "3.14159", "0.1", "1e10", "-0.75", "100.25"]

def rol(v, k): v &= M32; return ((v << k) | (v >> (32 - k))) & M32 if k else v
def enc12(v): return any(rol(v, 2 * k) < 256 for k in range(16))

def f32(t): return struct.unpack("<I", struct.pack("<f", float(t)))[0]

class Arm:
    def __init__(self, rng, a, base):
        self.rng, self.a, self.base = rng, a, base
        self.th = a == "gba"
        self.lines, self.text = [], []
        self.pos = base                 # approximate: exact while no statement is wrong and pools are counted by hand
        self.labs = 0
        self.placed = []
    # --- text ---------------------------------------------------------------
    def up(self, t): return t.upper() if self.rng.random() < 0.05 else t
    def reg(self, n): return self.up(SPN[n] if n in SPN and self.rng.random() < 0.6 else REGN[n])
    def num(self, v): return ("-" if v < 0 else "") + (str(abs(v)) if self.rng.random() < 0.45 else "0x%x" % abs(v))
    def hash(self): return "#" if self.rng.random() < 0.4 else ""
    def put(self, t): self.text.append(t); return len(self.text) + 2
    def val(self, o):
        if o["b"] == "flt": return o["txt"]
        if o["b"] == "abs": return self.num(o["py"])
        h = "." if o["b"] == "dot" else "L%d" % o["l"]
        return h + ("%+d" % o["py"] if o["py"] or o["b"] == "dot" else "")
    def line(self, text, **kw):
        ln = self.put(text)
        d = dict(k="ins", ln=ln, th=self.th, v=NONE, sh=NOSH, s=False, c=14, rel=False, n="")
        d.update(kw)
        self.lines.append(d)
        self.pos += 4 if not self.th or d["f"] == "tcall" else 2
    def state(self, th):
        self.th = th
        self.put(".thumb" if th else ".arm")
        self.lines.append({"k": "state"})
    def align(self, n=4):
        ln = self.put(".align %d" % n)
        self.lines.append({"k": "align", "v": n, "ln": ln})
        self.pos = -(-self.pos // n) * n
    def lab(self, i=None):
        if i is None: self.labs += 1; i = self.labs
        self.put("L%d:" % i)
        self.lines.append({"k": "lab", "i": i})
        self.placed.append((i, self.pos))
    def skip(self, v): k = self.rng.choice(["skip", "fill"]); self.lines.append({"k": k, "v": v}); self.put(".%s 0x%x" % (k, v)); self.pos += v
    def word(self, o): ln = self.put(".word " + self.val(o)); self.lines.append({"k": "word", "v": o, "ln": ln}); self.pos += 4
    def pool(self): ln = self.put(".pool"); self.lines.append({"k": "pool", "ln": ln}); self.pos = -(-self.pos // 4) * 4
    def msg(self, t):
        ln = self.put('.msg "%s"' % t)
        self.lines.append({"k": "msg", "x": list(t.encode()), "th": self.th, "ln": ln})
        self.pos = -(-(self.pos + (8 if self.th else 12) + max(1, len(t))) // 4) * 4
    def job(self, binary):
        src = ".%s\n.create \"out.bin\",0x%x\n" % (self.a, self.base) + "\n".join(self.text) + "\n.close\n"
        return {"binary": binary, "src": {"main.asm": src.encode()}, "main": "main.asm", "files": {}, "args": [], "names": ["main.asm"], "cap": 1 << 19}
    def case(self, obs):
        def cl(o):
            if isinstance(o, dict): return {k: cl(v) for k, v in o.items() if k not in ("py", "txt")}
            return [cl(x) for x in o] if isinstance(o, list) else o
        b = obs["files"].get("out.bin", b"")
        return {"a": self.a, "base": limbs(self.base), "lines": cl(self.lines), "obs": {"rc": obs["rc"] if obs["rc"] in (0, 1) else 2, "d": obs["d"], "len": len(b), "bytes": pieces(b)}}

def imm(v, b="abs", l=-1): return {"b": b, "v": limbs(v), "l": l, "py": v}
def flt(t): return {"b": "flt", "v": limbs(f32(t)), "l": -1, "txt": t}
FAR = [0x80000000, 0x80000001, 0x7FFFFFFF, 0xFFFFFFFF, -0x80000000, -0x80000001, 0x100000000, 0x100000001, -0x100000000, 1 << 40, (1 << 40) + 4, -(1 << 40), (1 << 63) - 1, (1 << 32) + 16]

def ranged(rng, lo, hi, step, wrong):
    if wrong: return imm(rng.choice([lo - step, hi + step, lo - 1, hi + 1, hi + step * 2, lo - step * 2, (hi + step) * 2, -hi - step, rng.randrange(lo, hi + 1) | (step - 1)] + FAR))
    return imm(rng.choice([lo, hi, lo + step, hi - step, 0, rng.randrange(lo, hi + 1, step), rng.randrange(lo, hi + 1, step), rng.randrange(lo, hi + 1, step)]) if hi > step * 2 else rng.randrange(lo, hi + 1, step))

def imm12(rng, n, wrong, fl=True):
    if fl and rng.random() < 0.04 and not wrong: return flt(rng.choice(["1.0", "0.5", "-2.0", "1.5"]))
    b = rng.choice([0, 1, 0xFF, 0x80, 0x81, 0x3F, 0xFC, rng.randrange(256), rng.randrange(256), rng.randrange(256)])
    k = rng.choice([0, 0, 0, rng.randrange(16), rng.randrange(16), rng.randrange(16)])
    v = rol(b, 2 * k)
    if wrong:
        v = rng.choice([rol(0x1FE, 2 * k + 1), rol(0x101, rng.randrange(32)), rol(rng.choice([0x81, 0xFF, 0x41]), 2 * k + 1), rng.randrange(1 << 32), v ^ 0x10100, M32 ^ rol(0x101, 2 * k), -rol(0x101, 2 * k), -v, M32 ^ v,
                        v + (1 << 32), v - (1 << 33)] + FAR)
        return imm(v)
    how = {"and": "~", "bic": "~", "mov": "~", "mvn": "~", "cmp": "-", "cmn": "-", "add": "-", "sub": "-"}.get(n)
    if how and rng.random() < 0.35:
        v = (~v if how == "~" else -v)
    elif v >= 0x80000000 and rng.random() < 0.3: v -= 1 << 32
    if v < -0x80000000: v += 1 << 32
    if v < 0 and rng.random() < 0.3: v += 1 << 32
    return imm(v)

SHN = ["lsl", "lsr", "asr", "ror", "rrx"]
def shift(P, immonly, wrong, some=0.6):
    """Shift of a register operand: record and text."""
    rng = P.rng
    if rng.random() > some and not wrong: return NOSH, ""
    t = rng.choice([0, 1, 2, 3, 4] if rng.random() < 0.5 else [0, 1, 2, 3])
    nm = "asl" if t == 0 and rng.random() < 0.3 else SHN[t]
    if (rng.random() < 0.35 and not immonly and t != 4) or (wrong and rng.random() < 0.15):
        r = rng.randrange(16)
        if immonly: t2 = {"k": "imm", "t": t, "r": 0, "v": imm(-1)}; return t2, "," + nm + " " + P.reg(r)       # never valid
        return {"k": "reg", "t": t, "r": r, "v": NONE}, "," + nm + " " + P.reg(r)
    lo, hi = {0: (0, 31), 1: (0, 32), 2: (0, 32), 3: (0, 31), 4: (1, 1)}[t]
    n = rng.choice([lo, hi, rng.randrange(lo, hi + 1), rng.randrange(lo, hi + 1)])
    if wrong: n = rng.choice([32, 33, 64, -1, 31, 0, 2, 0x100000001, 0x100000000, 1 << 31, -0xFFFFFFFF, 255])
    o = imm(n)
    if n >= 0 and rng.random() < 0.15: txt = "," + nm + str(n)
    else: txt = "," + nm + " " + P.hash() + P.val(o)
    return {"k": "imm", "t": t, "r": 0, "v": o}, txt

DP = "and eor xor sub rsb add adc sbc rsc tst teq cmp cmn orr mov bic mvn".split()
def cond(P):
    c = P.rng.choice([14, 14, 14, 14, P.rng.randrange(15)])
    t = CONDS[c]
    if c == 14 and P.rng.random() < 0.8: t = ""
    if t in ALIAS and P.rng.random() < 0.4: t = ALIAS[t]
    return c, t
def R(P, top=15): return P.rng.choice([P.rng.randrange(top + 1), P.rng.randrange(top + 1), min(top, 14), top, 0])

def a_dp(P, w):
    rng = P.rng
    n = rng.choice(DP)
    c, ct = cond(P)
    s = rng.random() < 0.3 and n not in ("tst", "teq", "cmp", "cmn")
    rd, rn, rm = R(P), R(P), -1
    sh, o = NOSH, NONE
    if rng.random() < 0.5:
        rm = R(P); sh, st = shift(P, False, w); last = P.reg(rm) + st
    else:
        o = imm12(rng, n, w); last = P.hash() + P.val(o)
    regs = [rd]
    if n in ("tst", "teq", "cmp", "cmn"): regs = [rn]
    elif n not in ("mov", "mvn"):
        if rng.random() < 0.25: rn = -1
        else: regs = [rd, rn]
    P.line("%s%s%s %s,%s" % (n, ct, "s" if s else "", ",".join(P.reg(r) for r in regs), last), f="dp", n=n, c=c, s=s, rd=rd, rn=rn, rm=rm, sh=sh, v=o)
def a_shf(P, w):
    rng = P.rng
    t = rng.randrange(4)
    c, ct = cond(P)
    s = rng.random() < 0.3
    rd = R(P); rm = R(P)
    two = rng.random() < 0.3
    if two: rm = rd
    if rng.random() < 0.4:
        r = rng.randrange(16); sh = {"k": "reg", "t": t, "r": r, "v": NONE}; last = P.reg(r)
    else:
        hi = 32 if t in (1, 2) else 31
        o = imm(rng.choice([-1, 32, 33, 64, 0x100000001]) if w else rng.choice([0, 1, hi, rng.randrange(hi + 1)]))
        sh = {"k": "imm", "t": t, "r": 0, "v": o}; last = P.hash() + P.val(o)
    P.line("%s%s%s %s,%s%s" % (SHN[t], ct, "s" if s else "", P.reg(rd), "" if two else P.reg(rm) + ",", last), f="dp", n="mov", c=c, s=s, rd=rd, rn=-1, rm=rm, sh=sh)
def target(P, d, back):
    """Operand that means pos+d: position relative, absolute or a label with an offset."""
    rng = P.rng
    r = rng.random()
    if r < 0.4: return imm(d, "dot")
    if r < 0.6 and P.placed and back:
        i, p = rng.choice(P.placed)
        return imm(P.pos + d - p, "lab", i)
    return imm(P.pos + d)
def a_pcr(P, w):
    rng = P.rng
    c, ct = cond(P)
    s = rng.random() < 0.15
    n = rng.choice(["adr", "adr", "add", "sub"])
    rd = R(P, 14)
    v = rol(rng.choice([0, 1, 4, 0xFF, rng.randrange(256)]), 2 * rng.choice([0, 1, 1, 2, 4, 8, 12, rng.randrange(16)]))
    if v >= 0x80000000: v -= 1 << 32
    if rng.random() < 0.5: v = -v
    if w: v = rng.choice([0x101, 0x3FD, -0x101, 0x1001, 0x10001, 1 << 32, -(1 << 32), rng.randrange(1 << 20), 0x80000000 - P.pos])
    o = target(P, v + 8, True)
    P.line("%s%s%s %s,%s%s%s" % (n, ct, "s" if s else "", P.reg(rd), "" if n == "adr" else "=", P.hash() if n != "adr" or True else "", P.val(o)), f="pcr", n=n, c=c, s=s, rd=rd, rn=-1, v=o, rel=True)
def a_psr(P, w):
    rng = P.rng
    c, ct = cond(P)
    sp = rng.random() < 0.4
    if rng.random() < 0.35:
        rd = R(P, 14)
        P.line("%s%s %s,%s" % (rng.choice(["mrs", "mov"]), ct, P.reg(rd), "spsr" if sp else "cpsr"), f="mrs", c=c, sp=sp, rd=rd)
        return
    fl = rng.sample("fsxc", rng.randrange(1, 5))
    t = "_" + "".join(fl)
    ok = True
    r = rng.random()
    if r < 0.2: fl, t = list("fsxc"), ""
    elif r < 0.3: fl, t = ["c"], "_ctl"
    elif r < 0.4: fl, t = ["f"], "_flg"
    if w and rng.random() < 0.6: ok = False; t = rng.choice(["_", "_fsxcz", "_fsxcf", "_ff", "_z", "_ctlx", "_flgs", "x", "_fsxcc", "_fxq"])
    rm, o = -1, NONE
    if rng.random() < 0.6: rm = R(P, 14); last = P.reg(rm)
    else: o = imm12(rng, "msr", w and ok); last = P.hash() + P.val(o)
    P.line("%s%s %s%s,%s" % (rng.choice(["msr", "msr", "mov"]), ct, "spsr" if sp else "cpsr", t, last), f="msr", c=c, sp=sp, fl=fl, ok=ok, rm=rm, v=o)
def a_mul(P, w):
    rng = P.rng
    c, ct = cond(P)
    n = rng.choice("mul mla umull umlal smull smlal smla smlaw smulw smlalh smul".split())
    cnt = {"mul": 3, "smulw": 3, "smul": 3}.get(n, 4)
    if n in ("mul", "mla") and rng.random() < 0.3: cnt -= 1
    r = [R(P, 14) for _ in range(cnt)]
    if w: r[rng.randrange(cnt)] = 15
    s = x = y = False
    if n in ("mul", "mla", "umull", "umlal", "smull", "smlal"): s = rng.random() < 0.3; nm = n + ct + ("s" if s else "")
    else:
        y = rng.random() < 0.5
        if n in ("smlaw", "smulw"): nm = n + "bt"[y]
        else: x = rng.random() < 0.5; nm = ("smlal" if n == "smlalh" else n) + "bt"[x] + "bt"[y]
        nm += ct
    P.line(nm + " " + ",".join(P.reg(q) for q in r), f="mul", n=n, c=c, s=s, x=x, y=y, r=r)
def a_mem(P, w):
    rng = P.rng
    c, ct = cond(P)
    n = rng.choice(["ldr", "str"])
    b, tr = rng.random() < 0.35, rng.random() < 0.2
    rd, rn, rm = R(P), R(P), R(P, 14)
    m = rng.choice(["0", "oi", "or"] if tr else ["0", "pi", "pi", "pr", "oi", "or"] + ([] if b else ["abs"]))
    wb = m in ("0", "pi", "pr") and not tr and rng.random() < 0.35
    u, sh, o = True, NOSH, NONE
    ex = "!" if wb else ""
    rel = False
    if m == "0": ad = "[%s]%s" % (P.reg(rn), ex)
    elif m in ("pi", "oi"):
        o = ranged(rng, -4095, 4095, 1, w); t = P.hash() + P.val(o)
        ad = "[%s,%s]%s" % (P.reg(rn), t, ex) if m == "pi" else "[%s],%s" % (P.reg(rn), t)
    elif m == "abs":
        o = target(P, 8 + (rng.choice([4096, -4096, 5000, -5000, 1 << 31, 1 << 32]) if w else rng.choice([0, 4095, -4095, rng.randrange(-4095, 4096)])), True)
        ad, rel = "[%s%s]" % (P.hash(), P.val(o)), True
    else:
        sg = rng.choice(["", "", "+", "-"]); u = sg != "-"
        if w and rng.random() < 0.3: rm = 15
        sh, st = shift(P, True, w and rm != 15)
        t = sg + P.reg(rm) + st
        ad = "[%s,%s]%s" % (P.reg(rn), t, ex) if m == "pr" else "[%s],%s" % (P.reg(rn), t)
    P.line("%s%s%s%s %s,%s" % (n, ct, "b" if b else "", "t" if tr else "", P.reg(rd), ad), f="mem", n=n, c=c, b=b, tr=tr, rd=rd, rn=rn, rm=rm, m=m, w=wb, u=u, sh=sh, v=o, rel=rel)
def a_pld(P, w):
    rng = P.rng
    rn, rm, m = R(P), R(P, 14), rng.choice(["0", "pi", "pr"])
    u, sh, o = True, NOSH, NONE
    if m == "0": ad = "[%s]" % P.reg(rn)
    elif m == "pi": o = ranged(rng, -4095, 4095, 1, w); ad = "[%s,%s%s]" % (P.reg(rn), P.hash(), P.val(o))
    else: sg = rng.choice(["", "-"]); u = sg == ""; sh, st = shift(P, True, w); ad = "[%s,%s%s%s]" % (P.reg(rn), sg, P.reg(rm), st)
    P.line("pld " + ad, f="pld", n="pld", rn=rn, rm=rm, m=m, u=u, sh=sh, v=o)
def a_half(P, w):
    rng = P.rng
    c, ct = cond(P)
    n = rng.choice("ldrh ldrsb ldsb ldrsh ldsh strh ldrd strd".split())
    ms = {"strh": ["0", "pr", "pi", "or", "oi", "abs"], "ldrh": ["0", "pr", "pi", "oi"], "ldrsb": ["0", "pr", "pi", "oi"]}.get(n, ["0", "pr", "pi"])
    m = rng.choice(ms)
    rd, rn, rm = R(P, 14), R(P), R(P, 14)
    if n in ("ldrd", "strd") and not w: rd &= 14
    wb = n == "strh" and m in ("pr", "pi") and rng.random() < 0.4
    ex = "!" if wb else ""
    u, o, rel = True, NONE, False
    if m == "0": ad = "[%s]" % P.reg(rn)
    elif m in ("pi", "oi"):
        o = ranged(rng, -255, 255, 1, w); t = P.hash() + P.val(o)
        ad = "[%s,%s]%s" % (P.reg(rn), t, ex) if m == "pi" else "[%s],%s" % (P.reg(rn), t)
    elif m == "abs":
        o = target(P, 8 + (rng.choice([256, -256, 300, 1 << 31]) if w else rng.choice([0, 255, -255, rng.randrange(-255, 256)])), True); rel = True
        ad = "[%s%s]" % (P.hash(), P.val(o))
    else:
        sg = rng.choice(["", "+", "-"]) if n == "strh" else ""; u = sg != "-"
        if w: rm = 15
        ad = "[%s,%s]%s" % (P.reg(rn), sg + P.reg(rm), ex) if m == "pr" else "[%s],%s" % (P.reg(rn), sg + P.reg(rm))
    i = 2 if n[:3] in ("lds",) else 3
    P.line("%s%s%s %s,%s" % (n[:i], ct, n[i:], P.reg(rd), ad), f="half", n=n, c=c, rd=rd, rn=rn, rm=rm, m=m, w=wb, u=u, v=o, rel=rel)
def rlist(P, regs):
    """Text of a register list."""
    rng = P.rng
    parts, i, rs = [], 0, sorted(set(regs))
    while i < len(rs):
        j = i
        while j + 1 < len(rs) and rs[j + 1] == rs[j] + 1: j += 1
        if j > i and rng.random() < 0.7: parts.append(P.reg(rs[i]) + "-" + P.reg(rs[j]))
        else: parts += [P.reg(q) for q in rs[i:j + 1]]
        i = j + 1
    if rng.random() < 0.3: rng.shuffle(parts)
    if rng.random() < 0.1: parts.append(parts[0])
    t = ",".join(parts)
    return "{" + t + "}" if rng.random() < 0.7 else t
def someregs(rng, top):
    return [i for i in range(top + 1) if rng.random() < rng.choice([0.15, 0.5, 0.9])] or [rng.randrange(top + 1)]
def a_blk(P, w):
    rng = P.rng
    c, ct = cond(P)
    li = someregs(rng, 15)
    n = rng.choice(["ldm", "stm", "push", "pop", "ldm", "stm"])
    if n in ("push", "pop"): P.line("%s%s %s" % (n, ct, rlist(P, li)), f="blk", n=n, c=c, m="", rn=13, w=True, p=False, li=li); return
    m = rng.choice("ia ib da db fd ed fa ea".split())
    rn = 15 if w else R(P, 14)
    wb, p = rng.random() < 0.5, rng.random() < 0.2
    P.line("%s%s%s %s%s,%s%s" % (n, ct, m, P.reg(rn), "!" if wb else "", rlist(P, li), "^" if p else ""), f="blk", n=n, c=c, m=m, rn=rn, w=wb, p=p, li=li)
def a_swp(P, w):
    c, ct = cond(P)
    b = P.rng.random() < 0.5
    r = [R(P, 14) for _ in range(P.rng.choice([2, 3]))]
    if w: r[0] = 15
    P.line("swp%s%s %s,[%s]" % (ct, "b" if b else "", ",".join(P.reg(x) for x in r[:-1]), P.reg(r[-1])), f="swp", n="swp", c=c, b=b, r=r)
def a_num(P, w):
    rng = P.rng
    if rng.random() < 0.6:
        c, ct = cond(P)
        o = imm(rng.choice([-1, 1 << 24, -65536, -256, -1 << 24, -1 << 16, 1 << 25, -0x100000000] + FAR)) if w else imm(rng.choice([0, 1, 0xFE, 0xFF, 0x100, 0xFFFFFF, rng.randrange(256), rng.randrange(1 << 24)]))
        P.line("swi%s %s%s" % (ct, P.hash(), P.val(o)), f="swi", n="swi", c=c, v=o)
    else:
        o = ranged(rng, 0, 65535, 1, w)
        P.line("bkpt %s%s" % (P.hash(), P.val(o)), f="bkpt", n="bkpt", v=o)
def a_cop(P, w):
    rng = P.rng
    c, ct = cond(P)
    n = rng.choice("cdp mcr mrc cdp mcr mrc cdp2 mcr2 mrc2 mcrr mrrc".split())
    if n[-1] == "2": c, ct = 14, ""
    pn, cn, cm, rd, rn = rng.randrange(16), rng.randrange(16), rng.randrange(16), rng.randrange(15), rng.randrange(15)
    mx = 15 if n in ("cdp", "cdp2", "mcrr", "mrrc") else 7
    o = ranged(rng, 0, mx, 1, w and rng.random() < 0.6)
    iv, inf = NONE, ""
    sh = NOSH
    d = "c%d" % rd if n in ("cdp", "cdp2") else P.reg(rd)
    if n in ("mcrr", "mrrc"): t = "%s%s p%d,%s,%s,%s,c%d" % (n, ct, pn, P.val(o), d, P.reg(rn), cm)
    else:
        if rng.random() < 0.6:
            iv = ranged(rng, 0, 7, 1, w and rng.random() < 0.6); inf = "," + P.val(iv); sh = {"k": "imm", "t": 0, "r": 0, "v": iv}
        r = rng.random()
        if n in ("mcr", "mrc") and iv is not NONE and r < 0.2:
            t = ("mov%s p%d,%s,c%d,c%d%s,%s" % (ct, pn, P.val(o), cn, cm, inf, d)) if n == "mcr" else ("mov%s %s,p%d,%s,c%d,c%d%s" % (ct, d, pn, P.val(o), cn, cm, inf))
        else: t = "%s%s p%d,%s,%s,c%d,c%d%s" % (n, ct, pn, P.val(o), d, cn, cm, inf)
    P.line(t, f="cop", n=n, c=c, pn=pn, cn=cn, cm=cm, rd=rd, rn=rn, v=o, sh=sh)
def a_misc(P, w):
    rng = P.rng
    c, ct = cond(P)
    n = rng.choice("clz qadd qsub qdadd qdsub".split())
    r = [R(P, 14) for _ in range(2 if n == "clz" else rng.choice([2, 3]))]
    if w: r[-1] = 15
    P.line("%s%s %s" % (n, ct, ",".join(P.reg(x) for x in r)), f="misc", n=n, c=c, r=r)
def a_bx(P, w):
    c, ct = cond(P)
    n = P.rng.choice(["bx", "blxr"])
    r = [15 if w else R(P, 14)]
    P.line("%s%s %s" % (n[:3], ct, P.reg(r[0])), f="bx", n=n, c=c, r=r)
def a_br(P, w, lab=None):
    rng = P.rng
    f = rng.choice(["b", "bl", "blx"])
    c, ct = cond(P) if f != "blx" else (14, "")
    st = 2 if f == "blx" else 4
    d = rng.choice([0, -0x2000000, 0x2000000 - st, -8, rng.randrange(-0x2000000, 0x2000000, st), rng.randrange(-400, 400, st)])
    if w: d = rng.choice([0x2000000, -0x2000000 - st, -0x2000000 - 4, 0x2000002, 2 if st == 4 else 1, 3, -1, 1, 0x80000000, -0x80000000, 0x40000000, -0x40000000, 1 << 32, (1 << 32) + 8, -(1 << 32)])
    o = lab or target(P, d + 8, True)
    if o["b"] == "abs" and not w and not 0 <= o["py"] <= M32: o = imm(o["py"] % (1 << 32))
    P.line("%s%s %s%s" % (f, ct, P.hash() if o["b"] != "lab" or True else "", P.val(o)), f=f, n=f, c=c, v=o, rel=True)
def a_nop(P, w): P.line("nop", f="nop", n="nop")
ARM = [(a_dp, 10), (a_shf, 3), (a_pcr, 3), (a_psr, 3), (a_mul, 4), (a_mem, 8), (a_pld, 1), (a_half, 5), (a_blk, 3), (a_swp, 1), (a_num, 2), (a_cop, 4), (a_misc, 2), (a_bx, 1), (a_br, 3), (a_nop, 1)]

# --- Thumb ---------------------------------------------------------------------
def L(P): return P.rng.randrange(8)
def tl(P, text, **kw): P.line(text, **kw)
def t_3r(P, w):
    n = P.rng.choice(["add", "sub"]); r = [L(P), L(P), L(P)]
    if w: r[P.rng.randrange(3)] = P.rng.randrange(8, 16)
    tl(P, "%s %s" % (n, ",".join(P.reg(x) for x in r)), f="t3r", n=n, r=r)
def t_2r(P, w):
    rng = P.rng
    n = rng.choice("and eor xor lsl lsr asr adc sbc ror tst neg cmp cmn orr mul bic mvn add sub mov".split())
    r = [L(P), L(P)]
    if n in ("add", "cmp", "mov") and rng.random() < 0.6: r = [rng.randrange(16), rng.randrange(16)]
    elif w: r[rng.randrange(2)] = rng.randrange(8, 16)
    tl(P, "%s %s" % (n, ",".join(P.reg(x) for x in r)), f="t2r", n=n, r=r)
def t_2i(P, w):
    rng = P.rng
    n = rng.choice("lsl asl lsr asr mov cmp add sub add sub".split())
    d = L(P)
    if n in ("lsl", "asl"): o = ranged(rng, 0, 31, 1, w)
    elif n in ("lsr", "asr"): o = ranged(rng, 0, 32, 1, w)
    elif n in ("mov", "cmp"): o = ranged(rng, 0, 255, 1, w)
    elif rng.random() < 0.35: d = 13; o = ranged(rng, -508, 508, 4, w)
    else: o = ranged(rng, -255, 255, 1, w)
    if w and rng.random() < 0.2: d = rng.randrange(8, 16)
    tl(P, "%s %s,%s%s" % (n, P.reg(d), P.hash(), P.val(o)), f="t2i", n=n, r=[d], v=o)
def t_3i(P, w):
    rng = P.rng
    n = rng.choice("lsl asl lsr asr add sub add sub".split())
    r = [L(P), L(P)]
    if n in ("lsl", "asl"): o = ranged(rng, 0, 31, 1, w)
    elif n in ("lsr", "asr"): o = ranged(rng, 0, 32, 1, w)
    else:
        k = rng.random()
        if k < 0.25: r = [13, 13]; o = ranged(rng, -508, 508, 4, w)
        elif k < 0.5: n = "add"; r = [L(P), rng.choice([13, 15])]; o = ranged(rng, 0, 1020, 4, w)
        else: o = ranged(rng, -7, 7, 1, w)
    if w and rng.random() < 0.2: r[rng.randrange(2)] = rng.randrange(8, 16)
    tl(P, "%s %s,%s,%s%s" % (n, P.reg(r[0]), P.reg(r[1]), P.hash(), P.val(o)), f="t3i", n=n, r=r, v=o)
def t_mem(P, w):
    rng = P.rng
    n = rng.choice("str strh strb ldsb ldrsb ldr ldrh ldrb ldsh ldrsh ldr str".split())
    m = rng.choice("0ir") if n not in ("ldsb", "ldrsb", "ldsh", "ldrsh") else "r"
    rd, rn, rm, o = L(P), L(P), L(P), NONE
    sc = {"str": 4, "ldr": 4, "strh": 2, "ldrh": 2}.get(n, 1); hi = 31
    if m in "0i" and n in ("ldr", "str") and rng.random() < 0.5: rn = 15 if n == "ldr" and rng.random() < 0.4 else 13; hi = 255
    if w and rng.random() < 0.3:
        if rng.random() < 0.5: rd = rng.randrange(8, 16)
        else: rn = rng.randrange(8, 16)
    if m == "0": ad = "[%s]" % P.reg(rn)
    elif m == "r": ad = "[%s,%s]" % (P.reg(rn), P.reg(rm))
    else: o = ranged(rng, 0, hi * sc, sc, w); ad = "[%s,%s%s]" % (P.reg(rn), P.hash(), P.val(o))
    tl(P, "%s %s,%s" % (n, P.reg(rd), ad), f="tmem", n=n, rd=rd, rn=rn, rm=rm, m=m, v=o)
def t_pc(P, w):
    rng = P.rng
    pc = (P.pos + 4) & ~3
    d = rng.choice([0, 1020, 4 * rng.randrange(256)])
    if w: d = rng.choice([1024, -4, 2, 1, 1022, 3, 1 << 31, 1 << 32, -1024, 4096])
    o = target(P, pc - P.pos + d, True)
    rd = L(P)
    if rng.random() < 0.5: tl(P, "ldr %s,[%s%s]" % (P.reg(rd), P.hash(), P.val(o)), f="tabs", n="ldr", rd=rd, v=o, rel=True)
    else: tl(P, "add %s,=%s%s" % (P.reg(rd), P.hash(), P.val(o)), f="tadr", n="add", rd=rd, v=o, rel=True)
def t_list(P, w):
    rng = P.rng
    li = someregs(rng, 7)
    if rng.random() < 0.6:
        n = rng.choice(["push", "pop"])
        if rng.random() < 0.5: li.append(14 if n == "push" else 15)
        if w: li.append(rng.choice([8, 9, 12, 13, 15 if n == "push" else 14]))
        tl(P, "%s %s" % (n, rlist(P, li)), f="tpush", n=n, li=li)
    else:
        n = rng.choice(["stmia", "ldmia"]); rn = L(P)
        if w:
            if rng.random() < 0.5: rn = rng.randrange(8, 16)
            else: li.append(rng.randrange(8, 16))
        tl(P, "%s %s!,%s" % (n, P.reg(rn), rlist(P, li)), f="tldm", n=n, rn=rn, li=li)
TB = "beq bne bcs bhs bcc blo bmi bpl bvs bvc bhi bls bge blt bgt ble b b b".split()
def t_br(P, w, lab=None):
    rng = P.rng
    n = rng.choice(TB)
    k = 2048 if n == "b" else 256
    d = rng.choice([-k, k - 2, 0, -4, rng.randrange(-k, k, 2)])
    if w: d = rng.choice([k, -k - 2, 1, 3, -1, k + 2, -k - 4, 1 << 31, 1 << 32, k * 2])
    o = lab or target(P, d + 4, True)
    if o["b"] == "abs" and not w and not 0 <= o["py"] <= M32: o = imm(o["py"] % (1 << 32))
    tl(P, "%s %s%s" % (n, P.hash(), P.val(o)), f="tb", n=n, v=o, rel=True)
def t_call(P, w, lab=None):
    rng = P.rng
    n = rng.choice(["bl", "bl", "blx"])
    st = 4 if n == "blx" else 2
    b = 4 if n == "bl" else ((P.pos + 4) & ~3) - P.pos
    k = 0x400000
    d = rng.choice([-k, k - st, 0, rng.randrange(-k, k, st), rng.randrange(-k, k, st), rng.randrange(-400, 400, st)])
    if w: d = rng.choice([k, -k - st, 1, 3, k + 2, 2 if st == 4 else -1, k * 2, 1 << 31, -(1 << 31), 1 << 32, k * 4])
    o = lab or target(P, d + b, True)
    if o["b"] == "abs" and not w and not 0 <= o["py"] <= M32: o = imm(o["py"] % (1 << 32))
    tl(P, "%s %s%s" % (n, P.hash(), P.val(o)), f="tcall", n=n, v=o, rel=True)
def t_misc(P, w):
    rng = P.rng
    k = rng.randrange(5)
    if k == 0: tl(P, "nop", f="nop", n="nop")
    elif k == 1:
        r = rng.random()
        if r < 0.3: tl(P, "bl %s" % P.reg(14), f="tbl2", n="bl")
        else:
            o = ranged(rng, 0, 4094, 2, w)
            tl(P, ("bl %s+%s%s" % (P.reg(14), P.hash(), P.val(o))) if r < 0.7 else "blh %s%s" % (P.hash(), P.val(o)), f="tbl2", n="bl", v=o)
    elif k in (2, 3): o = ranged(rng, 0, 255, 1, w); n = rng.choice(["swi", "bkpt"]); tl(P, "%s %s%s" % (n, P.hash(), P.val(o)), f="tnum", n=n, v=o)
    else: n = rng.choice(["bx", "bx", "blxr"]); r = [rng.randrange(16)]; tl(P, "%s %s" % (n[:3], P.reg(r[0])), f="tbx", n=n, r=r)
THUMB = [(t_3r, 2), (t_2r, 5), (t_2i, 6), (t_3i, 5), (t_mem, 7), (t_pc, 3), (t_list, 4), (t_br, 4), (t_call, 2), (t_misc, 3)]

def pick(rng, tab): return rng.choices([f for f, _ in tab], [k for _, k in tab])[0]
BASES = {"gba": [0x08000000, 0x02000000, 0], "nds": [0x02000000, 0x01FF8000, 0x37F8000], "3ds": [0x00100000, 0x7FFFFF00, 0x80000000], "arm.little": [0, 0x8000, 0xC0000000, 0xFFFF0000], "arm.big": [0, 0x8000, 0x40000000]}
ARCH = ["gba", "nds", "nds", "3ds", "arm.little", "arm.big"]

def program18(seed):
    rng = random.Random(seed)
    a = rng.choice(ARCH)
    P = Arm(rng, a, rng.choice(BASES[a]))
    wrongs = rng.choice([0, 0, 0, 1, 1, 2])
    n = rng.randrange(6, 16) if not wrongs else rng.randrange(1, 5)
    at = set(rng.sample(range(n), min(n, wrongs)))
    for i in range(n):
        if rng.random() < 0.15 or (i == 0 and rng.random() < 0.6):
            if P.th and rng.random() < 0.93: P.align()
            P.state(not P.th)
        if rng.random() < 0.1: P.lab()
        mis = not P.th and P.pos % 4
        tab = THUMB if P.th else ARM
        f = pick(rng, tab)
        if mis and f in (a_pcr, a_br, a_mem, a_half): f = a_dp
        f(P, i in at)
    return P

def poolload(P, o):
    rng = P.rng
    if P.th: rd = L(P); P.line("ldr %s,=%s%s" % (P.reg(rd), P.hash(), P.val(o)), f="tpool", n="ldr", rd=rd, v=o, rel=True)
    else:
        c, ct = cond(P); rd = R(P)
        P.line("ldr%s %s,=%s%s" % (ct, P.reg(rd), P.hash(), P.val(o)), f="pool", n="ldr", c=c, rd=rd, rn=-1, v=o, rel=True)
VALS = [0, 1, 0xFF, 0x100, 0x101, 0x1FF, 0x3FC, 0x12345678, 0xFFFFFFFF, 0xFFFFFF00, 0xFFFFFEFF, 0xFFFFFEFE, 0x80000000, 0x80000001, 0x7FFFFFFF, 0xF000000F, 0xF000001F, 0xDEADBEEF, -1, -2, -0x101, -0x12345, 0x00FF00FF, 0xFF000000, 0x00FF0000, 0x0FF00000, 0x1FE0000, 0xFF0000FF]
def program17(seed):
    """Pool loads, pools and what lies between them."""
    rng = random.Random(seed)
    a = rng.choice(ARCH)
    P = Arm(rng, a, rng.choice(BASES[a] + [0, 0x100]))
    few = rng.sample(VALS, rng.randrange(2, 7)) + [rng.randrange(1 << 32) for _ in range(rng.randrange(4))]
    total = rng.randrange(0, 4)
    todo = list(range(1, total + 1)); P.labs = total
    far = rng.random() < 0.3
    long = rng.random() < 0.06
    n = rng.randrange(60, 300) if long else rng.randrange(3, 14)
    err = rng.random() < 0.12
    mode = rng.random() < 0.5
    if mode != P.th: P.state(mode)
    pend = 0
    for i in range(n):
        if rng.random() < 0.1 and not long: (P.align() if rng.random() < 0.9 or P.th is False else None); P.state(not P.th)
        if not P.th and P.pos % 4: P.align()
        if todo and rng.random() < 0.2: P.lab(todo.pop(0))
        r = rng.random()
        if r < 0.6:
            q = rng.random()
            if q < 0.25 and total: o = imm(rng.choice([0, 0, 4, -4, 1, 0x100]), "lab", rng.randrange(1, total + 1))
            elif q < 0.30: o = imm(rng.choice([0, 8, -8, 0x100]), "dot")
            elif q < 0.34: o = flt(rng.choice(FLTS))
            elif err and q < 0.45: o = imm(rng.choice([1 << 32, -(1 << 32), (1 << 32) + 0x12345, -0x80000001, 1 << 40]))
            else: o = imm(rng.choice(few) if not long or rng.random() < 0.3 else rng.randrange(1 << 32))
            poolload(P, o); pend += 1
        elif r < 0.72 and not long: P.pool(); pend = 0
        elif r < 0.80:
            k = rng.choice([2 if P.th else 4, 4, 8, rng.randrange(1, 20) * 4])
            if far and rng.random() < 0.7: k = rng.choice([1000, 1012, 1016, 1020, 1024, 1028, 900] if P.th else [4000, 4080, 4084, 4088, 4092, 4096, 4100]) - rng.choice([0, 0, 2 if P.th else 4])
            P.skip(k)
        elif r < 0.84: P.word(imm(rng.choice(few)) if not total or rng.random() < 0.5 else imm(0, "lab", rng.randrange(1, total + 1)))
        elif r < 0.87: P.msg("".join(rng.choice("abc XYZ09.%,") for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 17, 120, 121 if err else 119]))))
        else: pick(rng, THUMB if P.th else ARM[:1])(P, False) if not P.th else t_2r(P, False)
    if rng.random() < 0.93:
        P.pool()
        if rng.random() < 0.6: P.word(imm(0x1234))
    while todo: P.lab(todo.pop(0))
    if rng.random() < 0.3: P.align()
    return P

def program19(seed):
    """Branches and calls to labels before and after."""
    rng = random.Random(seed)
    a = rng.choice(ARCH)
    P = Arm(rng, a, rng.choice(BASES[a]))
    total = rng.randrange(1, 4); todo = list(range(1, total + 1)); P.labs = total
    if rng.random() < 0.5: P.align(); P.state(not P.th)
    n = rng.randrange(3, 9)
    at = rng.randrange(n) if rng.random() < 0.35 else -1
    for i in range(n):
        if rng.random() < 0.1: P.align(); P.state(not P.th)
        while todo and rng.random() < 0.35: P.lab(todo.pop(0))
        if rng.random() < 0.3:
            P.skip(2 * rng.choice([1, 2, rng.randrange(120, 136), rng.randrange(1015, 1035), rng.randrange(100)]) if P.th else 4 * rng.randrange(1, 2000))
        lab = imm(0, "lab", rng.randrange(1, total + 1)) if rng.random() < 0.5 and i != at else None
        f = rng.choice([t_br, t_br, t_call, t_pc] if P.th else [a_br, a_br, a_br, a_pcr])
        if f in (t_pc, a_pcr): f(P, i == at)
        else: f(P, i == at, lab)
    while todo: P.lab(todo.pop(0))
    P.line("nop", f="nop", n="nop")
    return P
