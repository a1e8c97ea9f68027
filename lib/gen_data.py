"""Programs of data and text directives: every name, width, value type and architecture, with switches between them."""
import codecs, random, struct
from asmcase import *
from gen_expr import EDGE

ARCHS = ["psx", "ps2", "psp", "n64", "rsp", "gba", "nds", "3ds", "arm.big", "arm.little", "saturn", "32x"]
DIRS = [".byte", ".halfword", ".hword", ".word", ".doubleword", ".dword", ".db", ".dh", ".dw", ".dd", ".dcb", ".dcw", ".dcd", ".dcq",
        "db", "dh", "dw", "dd", "dcb", "dcw", "dcd", "dcq", ".d8", ".d16", ".d32", ".d64"]

def flt(r):
    k = r.random()
    if k < 0.25: x = r.choice([0.1, 0.5, 1.5, 3.14159, 100.25, 1e10, 1e-10, 16777217.0, 16777219.0, 33554435.0, 1e38, 3.5e38, 1e-38, 1e-40, 1.4e-45, 7e-46, 1e-46, 2.0 ** -149, 3 * 2.0 ** -150,
                               0.99999999, 4294967295.5, 1e300, 2.2250738585072014e-308, 8388608.5, 8388609.5])
    elif k < 0.5: x = struct.unpack("<d", struct.pack("<Q", r.randrange(1023 - 150, 1023 + 130) << 52 | r.randrange(1 << 52)))[0]
    elif k < 0.7:
        # half way between two singles, or next to it
        b = struct.unpack("<f", struct.pack("<I", r.randrange(100, 150) << 23 | r.randrange(1 << 23)))[0]
        m = struct.unpack("<d", struct.pack("<Q", (struct.unpack("<Q", struct.pack("<d", b))[0] | 1 << 28) + r.choice([0, 0, 1, -1])))[0]
        x = m
    else: x = r.choice([r.random(), r.random() * 1000, r.randrange(100000) / 16, r.randrange(1 << 40) / 8])
    t = repr(x)
    if "e" not in t and "." not in t: t += ".0"
    return FX(x, t)

class Gen:
    def __init__(self, r):
        self.r = r
        self.p = Prog(r)
        self.arch = None
        self.nocash = False
        self.good = r.random() < 0.8
        self.p.bare = r.random() < 0.5
    def ch(self, p): return self.r.random() < p
    def text(self, high=False):
        r = self.r
        t = "".join(r.choice("abcdefghiXYZ 0189,;:#'\"\\/=*@~") for _ in range(r.choice([0, 1, 2, 3, 5, 9])))
        if high: t += r.choice(["\u00e9", "\u3042", "\u00df", "\u20ac"])
        return S(t)
    def val(self):
        r = self.r
        k = r.random()
        if k < 0.45: return I(r.choice(EDGE))
        if k < 0.6: return I(r.choice([r.randrange(1 << 64) - (1 << 63), r.randrange(1 << 32), -r.randrange(1 << 32), r.randrange(256)]))
        if k < 0.7: return BIN(r.choice("+-*&|^"), ID("late"), I(r.choice(EDGE)))
        if k < 0.75: return ID("late")
        if k < 0.8: return DOT
        if k < 0.95: return self.text(high=not self.good and self.ch(0.15))
        return I(ord("A"))
    def data(self):
        r = self.r
        k = r.random()
        if k < 0.62:
            d = r.choice([x for x in DIRS if not (self.nocash and x in (".dh", "dh"))])
            es = [self.val() for _ in range(r.choice([1, 1, 2, 3, 4]))]
            wide = d in (".d32", ".d64") or (self.arch != "saturn" and self.arch != "32x" and d in (".word", ".dcd", "dcd", ".doubleword", ".dword", ".dcq", "dcq"))
            if wide and self.ch(0.35) or not self.good and self.ch(0.2): es.append(flt(r))
        elif k < 0.82:
            d = r.choice([".float", ".double"])
            es = [flt(r) if self.ch(0.75) else I(r.choice(EDGE + [16777217, -16777219, (1 << 53) + 1, 0x123456789])) for _ in range(r.choice([1, 2, 3]))]
            if not self.good and self.ch(0.15): es.append(self.text())
        else:
            d = r.choice([".ascii", ".asciiz", ".asciiz"])
            es = [self.text(high=not self.good and self.ch(0.2)) if self.ch(0.7) else I(r.choice([0, 10, 65, 255, 256, -1, 128])) for _ in range(r.choice([1, 1, 2, 3]))]
        self.p.add("data", dir=d, t="n", w="b", es=es)
    def setarch(self):
        self.arch = self.r.choice(ARCHS)
        self.p.add("arch", a=self.arch)
    def block(self, d):
        r = self.r
        for _ in range(r.randrange(1, 5)):
            k = r.random()
            if k < 0.6 or d > 2: self.data()
            elif k < 0.75: self.setarch()
            elif k < 0.82:
                self.nocash = self.ch(0.5)
                self.p.add("nocash", on=self.nocash)
            elif k < 0.88:
                self.p.add("area", sh=False, e=I(400), **({"fv": I(r.randrange(256))} if self.ch(0.4) else {}))
                self.block(d + 1)
                self.p.add("endarea")
            elif k < 0.92:
                self.p.add("label", n="lab%d" % len(self.p.c), sc="g", on="lab%d" % len(self.p.c))
            else:
                # in blocks that take no effect the names keep their meaning of outside
                keep = (self.arch, self.nocash)
                e = r.choice([I(0), I(1), BIN(">", ID("late"), I(r.choice(EDGE)))])
                self.p.add("if", c="if", e=e, n="", sc="g")
                self.block(d + 1)
                if e["k"] == "int" and e["py"] == 0: self.arch, self.nocash = keep
                if self.ch(0.5):
                    keep = (self.arch, self.nocash)
                    self.p.add("else")
                    self.block(d + 1)
                    if e["k"] == "int" and e["py"] == 1: self.arch, self.nocash = keep
                self.p.add("endif")
    def program(self):
        r = self.r
        self.setarch()
        self.p.add("create", name="o.bin", codes=codes("o.bin"), hv=limbs(0), hvpy=0)
        for _ in range(r.randrange(1, 5)): self.block(0)
        self.p.add("def", n="late", sc="g", on="late", e=I(r.choice(EDGE)))
        self.p.add("close")
        return self.p

def program(seed):
    return Gen(random.Random(seed)).program()

# tables ---------------------------------------------------------------------
KANA = [chr(c) for c in list(range(0x3041, 0x3094)) + list(range(0x30A1, 0x30F7))]
HALF = [chr(c) for c in range(0xFF61, 0xFFA0)]
WIDE = [chr(c) for c in list(range(0xFF10, 0xFF1A)) + list(range(0xFF21, 0xFF3B)) + list(range(0xFF41, 0xFF5B))]
ALPHA = ["a", "b", "c", "d", "e", " ", "=", "/", "*", "0", "A", "\u00e9", "\u3042", "\u3044"]

def table(r, alpha):
    lines, keys = [], []
    for _ in range(r.randrange(2, 14)):
        k = "".join(r.choice(alpha) for _ in range(r.choice([1, 1, 1, 2, 2, 3, 4])))
        if keys and r.random() < 0.35: k = r.choice(keys) + r.choice(alpha)          # shared prefixes
        if keys and r.random() < 0.05: k = r.choice(keys)
        h = "".join("%02x" % r.choice([0, 1, 0x7F, 0x80, 0xFF, r.randrange(256)]) for _ in range(r.choice([1, 1, 1, 2, 2, 3, 4, 31, 32])))
        if r.random() < 0.5: h = h.upper()
        lines.append(h + "=" + k)
        keys.append(k)
    if r.random() < 0.6: lines.insert(r.randrange(len(lines) + 1), "/" + "".join("%02X" % r.randrange(256) for _ in range(r.choice([1, 2, 3, 32]))))
    if r.random() < 0.3: lines.insert(r.randrange(len(lines) + 1), "*comment=here")
    if r.random() < 0.2: lines.insert(r.randrange(len(lines) + 1), "")
    if r.random() < 0.1: lines.insert(r.randrange(len(lines) + 1), "zz=" + r.choice(alpha))
    return ("\n".join(lines) + r.choice(["", "\n"])).encode(), keys

def tables(seed):
    r = random.Random(seed)
    p = Prog(r)
    good = r.random() < 0.75
    alpha = r.sample(ALPHA, r.choice([3, 4, 6]))
    tabs, encs = {}, {}
    for n in ["t0.tbl", "t1.tbl"][:r.choice([1, 2])]:
        b, tabs[n] = table(r, alpha)
        encs[n] = [None, "utf8", "UTF-8"]
        if r.random() < 0.1: b = codecs.BOM_UTF8 + b
        elif r.random() < 0.1: b = codecs.BOM_UTF16_LE + b.decode().encode("utf-16-le")
        elif r.random() < 0.1: b = codecs.BOM_UTF16_BE + b.decode().encode("utf-16-be")
        elif r.random() < 0.35:
            c, k = r.choice([("cp932", ["sjis", "Shift-JIS"]), ("utf-16-le", ["utf16", "UTF-16"]), ("utf-16-be", ["utf16-be", "UTF-16-BE"]), ("latin-1", ["ascii"])])
            try: b, encs[n] = b.decode().encode(c), k
            except UnicodeEncodeError: pass
        if r.random() < 0.2 and encs[n][0] not in ("utf16", "utf16-be") and b[:1] not in b"\xff\xfe": b = b.replace(b"\n", b"\r\n")
        p.files[n] = b
    p.add("arch", a=r.choice(["psx", "n64", "gba", "saturn"]))
    p.add("create", name="o.bin", codes=codes("o.bin"), hv=limbs(0), hvpy=0)
    cur = [None]
    def load(may=None):
        n = r.choice(list(tabs)) if good or r.random() < 0.97 else "none.tbl"
        cur[0] = tabs.get(n, [])
        e = r.choice(encs.get(n, [None]))
        p.add("table", name=n, codes=codes(n), **({"enc": e, "te": {"shift-jis": "sjis", "utf-8": "utf8", "utf-16": "utf16", "utf-16-be": "utf16-be"}.get(e.lower(), e.lower())} if e else {}))
    def es():
        out = []
        for _ in range(r.choice([1, 1, 2, 3])):
            k = r.random()
            if k < 0.15: out.append(I(r.choice([0, 10, 255, 256, -1, 0x141])))
            elif k < 0.2: out.append(ID("late"))
            elif cur[0]:
                t = "".join(r.choice(cur[0]) for _ in range(r.choice([0, 1, 2, 3, 5, 8])))
                if r.random() < 0.3: t = t[:-1]
                if not good and r.random() < 0.3 or r.random() < 0.02: t += r.choice(alpha + ["Q"])
                out.append(S(t))
            else: out.append(I(7) if good else S("a"))
        if not good and r.random() < 0.05: out.append(F(3, -1))
        return out
    def stmt(d):
        k = r.random()
        if k < 0.2: load()
        elif k < 0.62: p.add("data", dir=r.choice([".string", ".str", ".stringn", ".strn"]), t="n", w="b", es=es())
        elif k < 0.74:
            t = "".join(r.choice(r.choice([KANA, HALF, WIDE, list("abc XYZ019!?.,")])) for _ in range(r.choice([0, 1, 3, 6])))
            if not good and r.random() < 0.1: t += "\u00e9"
            p.add("data", dir=r.choice([".sjis", ".sjisn"]), t="n", w="b", es=[S(t)] + ([I(r.randrange(300))] if r.random() < 0.3 else []))
        elif k < 0.82: p.add("data", dir=".db", t="n", w="b", es=[I(0xEE)])
        elif k < 0.9 and d < 2:
            keep = cur[0]
            p.add("if", c="if", e=r.choice([I(0), I(1), BIN(">", ID("late"), I(5)), LAB("defined", "late")]), n="", sc="g")
            for _ in range(r.randrange(0, 3)): stmt(d + 1)
            if r.random() < 0.5:
                cur[0] = keep
                p.add("else")
                for _ in range(r.randrange(0, 3)): stmt(d + 1)
            p.add("endif")
            if good: load()
        elif k < 0.95: p.add("label", n="l%d" % len(p.c), sc="g", on="l%d" % len(p.c))
        else: p.add("align", e=I(4))
    if good or r.random() < 0.8: load()
    for _ in range(r.randrange(3, 12)): stmt(0)
    p.add("def", n="late", sc="g", on="late", e=I(r.choice([0, 3, 9])))
    p.add("close")
    return p
