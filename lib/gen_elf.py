"""Programs that import object files and libraries (spec/Elf.tla)."""
import random, re, string
from asmcase import limbs
from elfobj import elf, ar, lnk, plib

BIG = {"n64", "rsp", "arm.big", "saturn", "32x"}
ARM = ["gba", "nds", "3ds", "arm.big", "arm.little"]
MIPS = ["psx", "ps2", "psp", "n64"]
SH = ["saturn", "32x"]
VALID = re.compile(r"^(@@?)?[A-Za-z_.][A-Za-z0-9_.]*$")
UNDEF, ABS, COM = 0, 0xFFF1, 0xFFF2

class Imports:
    def __init__(self, rng, arch, ctor):
        self.rng, self.arch = rng, arch
        self.big = arch in BIG
        self.arm, self.mips = arch in ARM, arch in MIPS + ["rsp"]
        self.machine = 40 if self.arm else 8 if self.mips else 42
        small = [0, 0x100, 0x1000, 0x8000, 0x7FF8, 0x200000, 0x600000]
        self.base = rng.choice(small if ctor and not self.mips else small + [0x2000000, 0x8000000, 0x80010000, 0x8000FFF0, 0x7FFFFF0])
        self.lines, self.prog, self.libs, self.files, self.extra = [], [], {}, {}, {}
        self.exported, self.labels, self.later, self.own = [], [], [], []
        self.thumb = arch == "gba"
        self.ctor = ctor
        self.cname = ""
        self.nfile = 0
        self.weird = rng.random() < 0.08
        # names: exported by an object, labels of the program, and ones nobody has
        self.free = ["%s%d" % (rng.choice(["fn", "Obj", "_x", "sym.", "MAIN_", "aVar"]), k) for k in range(40)]
        rng.shuffle(self.free)
        self.far = []
        if rng.random() < 0.5 and not ctor:
            lim = rng.choice([0x400000, 0x2000000]) if self.arm else 0x10000000
            for _ in range(rng.choice([1, 2, 3])):
                v = self.base + rng.choice([1, 1, -1]) * lim + rng.choice([2, 4, 4, 4, 1]) * rng.randrange(-8, 24)
                if 0 <= v < 1 << 32: self.far.append((self.free.pop(), v))
    def emit(self, text, **st):
        self.lines.append(text)
        if st: st["ln"] = len(self.lines); self.prog.append(st)
    def word(self):
        rng = self.rng
        return rng.choice([0, 0, 4, 8, -4, -8, 1, 2, 0x8000, 0x7FFF, 0xFFFF, 0x10000, -0x8000, rng.randrange(1 << 32)]) % (1 << 32)

    # --- objects ----------------------------------------------------------
    def object(self, last, ctor):
        rng = self.rng
        secs, syms = [], []
        kinds = [rng.choice(["text", "text", "data", "bss", "rodata", "nonalloc", "note", "init"]) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
        if ctor:
            if rng.random() < 0.8: kinds += ["ctors"] * rng.choice([1, 1, 1, 2, 3])
            if "text" not in kinds: kinds.insert(0, "text")
            if rng.random() < 0.3: rng.shuffle(kinds)
        for k in kinds:
            name, ty, fl = {"text": (".text", 1, 6), "data": (".data", 1, 3), "bss": (".bss", 8, 3), "rodata": (".rodata", 1, 2), "nonalloc": (".comment", 1, 0),
                            "note": (".note", 7, 2), "init": (".fini_array", 14, 3), "ctors": (rng.choice([".ctors", ".init_array"]), 1, 3)}[k]
            if k == "ctors" and name == ".init_array": ty = rng.choice([1, 14])
            n = rng.choice([0, 4, 8, 12, 16, 20, 32, 32]) if rng.random() < 0.8 else rng.randrange(1, 40)
            al = rng.choice([0, 1, 2, 4, 4, 4, 8, 16, 32])
            if k == "text" and ctor: n, al = rng.choice([16, 24, 32]), rng.choice([4, 8, 16])
            if k == "ctors": n, al = 4 * rng.choice([0, 1, 1, 2, 3, 5]), rng.choice([4, 4, 8, 16])
            if ctor and self.arm: al = max(al, 4)
            secs.append(dict(k=k, name=name, type=ty, flags=fl, align=al, size=n, data=[rng.randrange(256) for _ in range(n)] if ty != 8 else [], rels=[]))
        loaded = [i + 1 for i, s in enumerate(secs) if s["flags"] & 2 and s["type"] in (1, 8, 14)]
        # section symbols, local and global ones
        for i in loaded:
            if rng.random() < 0.7: syms.append(dict(name="", value=0, size=0, bind=0, type=3, sec=i))
        def value(sec, ty):
            s = secs[sec - 1]
            v = rng.randrange(0, max(s["size"], 1))
            if ty == 2:
                if self.arm: return v // 4 * 4 if rng.random() < 0.5 else (v // 2 * 2) | 1
                return v // 4 * 4 if self.mips else v // 2 * 2
            return v if rng.random() < 0.3 else v // 4 * 4
        for _ in range(rng.choice([0, 0, 1, 2])):
            if not loaded: break
            sec, ty = rng.choice(loaded), rng.choice([0, 1, 2, 2])
            syms.append(dict(name="local%d" % rng.randrange(3), value=value(sec, ty), size=4, bind=0, type=ty, sec=sec))
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            r = rng.random()
            if r < 0.04 and self.exported: name = rng.choice(self.exported)
            elif r < 0.07 and self.labels: name = rng.choice(self.labels)
            elif r < 0.09: name = rng.choice(["foo bar", "9lives", "a$b", "x@y", "", "na-me"])
            else: name = self.free.pop() if self.free else "late%d" % rng.randrange(10 ** 6)
            if rng.random() < 0.2: name = name.swapcase()
            self.exported.append(name)
            r = rng.random()
            if r < 0.12: y = dict(value=rng.choice([0, 1, 4, 0x100, 0x12345, 0x7FFFFFFC, 0x04000000]), sec=ABS, type=rng.choice([0, 0, 1, 2]), size=0)
            elif r < 0.27: y = dict(value=rng.choice([0, 1, 2, 4, 4, 8, 16]), sec=COM, type=1, size=rng.choice([1, 2, 4, 8, 12, 0]))
            elif loaded:
                sec, ty = rng.choice(loaded), rng.choice([0, 1, 2, 2, 2])
                y = dict(value=value(sec, ty), sec=sec, type=ty, size=rng.choice([0, 4, 8, 2]))
            else: y = dict(value=rng.randrange(100) * 4, sec=ABS, type=0, size=0)
            syms.append(dict(name=name, bind=rng.choice([1, 1, 1, 2]), **y))
        # names from elsewhere
        ext = []
        pool = [n for n in self.exported + self.labels + [f[0] for f in self.far] if n]
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            n = rng.choice(pool) if pool and rng.random() < 0.75 else self.forward()
            if rng.random() < 0.02: n = rng.choice(["nowhere", "", "bad name"])
            if n in [y["name"] for y in syms]: continue
            if rng.random() < 0.15: n = n.swapcase()
            if n.lower() in [y["name"].lower() for y in syms]: continue
            syms.append(dict(name=n, value=0, size=0, bind=rng.choice([1, 1, 2]), type=0, sec=UNDEF))
            ext.append(len(syms))
        # local symbols come first; the relative order of the others stays
        order = sorted(range(len(syms)), key=lambda i: syms[i]["bind"] != 0)
        syms = [syms[i] for i in order]
        usable = [i + 1 for i, y in enumerate(syms) if not (y["sec"] == COM and y["bind"] == 0)]
        funcs = [i + 1 for i, y in enumerate(syms) if y["type"] == 2 and y["sec"] in loaded and secs[y["sec"] - 1]["k"] == "text"]
        for i, s in enumerate(secs):
            s["rela"] = not self.arm and not self.mips and rng.random() < 0.7
            if s["k"] == "ctors":
                if not funcs:
                    t = [j + 1 for j, x in enumerate(secs) if x["k"] == "text"][0]
                    v = rng.randrange(4) * 4
                    syms.insert(0, dict(name="start", value=v | 1 if self.arm and rng.random() < 0.5 else v, size=4, bind=0, type=2, sec=t))
                    funcs = [1]
                    for z in secs:
                        for r in z["rels"]: r["sym"] += r["sym"] != 0
                    usable = [u + 1 for u in usable] + [1]
                for o in range(0, s["size"], 4):
                    s["data"][o:o + 4] = [0, 0, 0, 0]
                    s["rels"].append(dict(off=o, type=2 if self.arm or self.mips else 1, sym=rng.choice(funcs), add=0))
                continue
            if s["k"] in ("bss", "note") or not usable: continue
            if s["k"] == "nonalloc":
                if rng.random() < 0.3 and s["size"] >= 4: s["rels"].append(dict(off=0, type=2, sym=rng.choice(usable), add=0))
                continue
            self.relocs(s, usable, ctor)
        fit = rng.random() >= 0.02 or ctor and self.arch == "psx"
        o = dict(name="o%d.o" % rng.randrange(100), machine=self.machine, big=self.big, etype=1, sections=secs, syms=syms, shfirst=rng.random() < 0.1)
        if not fit:
            k = rng.randrange(3)
            if k == 0: o["machine"] = rng.choice([m for m in (3, 8, 40, 42) if m != self.machine])
            if k == 1: o["big"] = not self.big
            if k == 2: o["etype"] = rng.choice([2, 3])
        return o
    def psx(self):
        """An object of the PlayStation's own kind."""
        rng = self.rng
        segs, syms, psyms = [], [], []
        ids = rng.sample(range(1, 300), 12)
        for k in range(rng.choice([1, 2, 2, 3])):
            chunks, size = [], 0
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                if rng.random() < 0.25: c = {"zeros": rng.choice([1, 4, 8, 2])}
                else:
                    n = rng.choice([4, 8, 12, 16, 24, 32]) if rng.random() < 0.85 else rng.randrange(1, 14)
                    c = {"data": [rng.randrange(256) for _ in range(n)], "rels": []}
                c["at"] = size
                size += c.get("zeros", 0) or len(c["data"])
                chunks.append(c)
            segs.append(dict(id=ids.pop() if rng.random() < 0.5 else k + 1000, name=rng.choice([".text", ".data", ".bss", ".rdata"]), chunks=chunks, size=size))
        pool = [n for n in self.exported + self.labels + [f[0] for f in self.far] if n]
        for _ in range(rng.choice([0, 1, 2, 3, 4])):
            k = rng.choice(["int", "intid", "intid", "func", "bss", "ext", "ext"])
            r = rng.random()
            if k == "ext":
                n = rng.choice(pool) if pool and rng.random() < 0.75 else self.forward()
                if rng.random() < 0.02: n = rng.choice(["nowhere", "bad name"])
            elif k in ("int", "func"): n = self.free.pop() if self.free else "late%d" % rng.randrange(10 ** 6)
            else:
                if r < 0.04 and self.exported: n = rng.choice(self.exported)
                elif r < 0.07 and self.labels: n = rng.choice(self.labels)
                elif r < 0.085: n = rng.choice(["foo bar", "9lives", "a$b", ""])
                else: n = self.free.pop() if self.free else "late%d" % rng.randrange(10 ** 6)
            if rng.random() < 0.2: n = n.swapcase()
            if n.lower() in [y["name"].lower() for y in psyms]: continue
            if k in ("int", "func"): self.own.append(n)
            elif k != "ext": self.exported.append(n)
            sg = rng.randrange(len(segs))
            y = dict(kind=k, id=ids.pop(), seg=segs[sg]["id"], off=rng.randrange(max(segs[sg]["size"], 1)) if rng.random() < .3 else rng.randrange(0, max(segs[sg]["size"], 1), 4), size=rng.choice([1, 2, 3, 4, 8, 12]), name=n)
            psyms.append(y)
            syms.append(dict(name=n, value=0 if k in ("ext", "bss") else y["off"], size=y["size"], bind=1, type=0, sec={"ext": UNDEF, "bss": COM}.get(k, sg + 1)))
        rels = [[] for _ in segs]
        refs = [i for i, y in enumerate(psyms) if y["kind"] in ("ext", "bss", "intid")]
        for k, s in enumerate(segs):
            made = []
            for c in s["chunks"]:
                if "zeros" in c: continue
                o = 0
                while o + 4 <= len(c["data"]):
                    if rng.random() < 0.4: o += 4; continue
                    def target():
                        add = rng.choice([0, 0, 0, 4, -4, 8, 0x8000, -0x8000, 1, rng.randrange(0x20000)]) if rng.random() < 0.4 else 0
                        if refs and rng.random() < 0.6: return dict(sym=rng.choice(refs), add=add)
                        return dict(seg=rng.randrange(len(segs)), pos=rng.choice([0, 4, 8, 0x7FFC, 0x8000, 0x12345]), add=add)
                    def one(ty, t, off):
                        w = {0x10: lambda: self.word(), 0x4A: lambda: 0x0C000000 | rng.choice([0, 0, 1, 4]), 0x52: lambda: 0x3C010000 | rng.choice([0, 0, 1, 0xFFFF]),
                             0x54: lambda: rng.choice([0x24210000, 0x8C220000]) | rng.choice([0, 0, 4, 0x7FFF, 0x8000, 0xFFFF])}[ty]()
                        c["data"][off:off + 4] = list(w.to_bytes(4, "little"))
                        r = dict(off=off, type=ty, add=t["add"])
                        e = dict(off=c["at"] + off, type={0x10: 2, 0x4A: 4, 0x52: 5, 0x54: 6}[ty], sym=0, seg=0, pos=t["add"], add=0)
                        if "sym" in t: r["id"] = psyms[t["sym"]]["id"]; e["sym"] = t["sym"] + 1
                        else: r["seg"] = segs[t["seg"]]["id"]; r["pos"] = t["pos"]; e["seg"] = t["seg"] + 1; e["pos"] += t["pos"]
                        c["rels"].append(r); rels[k].append(e)
                    ty = rng.choice([0x10, 0x4A, 0x52, 0x52])
                    if ty != 0x52: one(ty, target(), o); o += 4
                    else:
                        # upper halves and a lower half, in any order, of the same place or of several
                        room = (len(c["data"]) - o) // 4
                        if room < 2: break
                        t = rng.choice(made) if made and rng.random() < 0.3 else target()
                        made.append(t)
                        n = rng.randrange(2, min(room, 4) + 1)
                        tys = [0x52] * rng.randrange(1, n) ; tys += [0x54] * (n - len(tys))
                        if rng.random() < 0.4: rng.shuffle(tys)
                        for x in tys: one(x, t, o); o += 4
            if rng.random() < 0.3:
                # order within a chunk is free
                for c in s["chunks"]: rng.shuffle(c.get("rels", []))
                rels[k].sort(key=lambda e: next((x, y) for x, c in enumerate(s["chunks"]) for y, r in enumerate(c.get("rels", [])) if c["at"] + r["off"] == e["off"]))
        noise = b"".join(rng.sample([b"\x14\x01\x00\x00\x03abc", b"\x1c\x01\x00\x04x.c1", b"\x3c\x00\x01", b"\x32\x05\x00", b"\x3a" + b"\x10" * 8, b"\0"], rng.choice([0, 0, 1, 3])))
        data = [[b for c in s["chunks"] for b in (c["data"] if "data" in c else [0] * c["zeros"])] for s in segs]
        return dict(name="p.obj", psx=True, machine=8, big=False, etype=1, syms=syms, psyms=psyms, segs=segs, noise=noise, symslast=rng.random() < 0.2, sizes=rng.random() < 0.5, end=rng.choice([1, 1, 0, 3]),
                    sections=[dict(name=s["name"], type=1, flags=2, align=0, size=s["size"], data=data[k], rels=rels[k]) for k, s in enumerate(segs)])
    def forward(self):
        """A name that something after this will have."""
        n = self.free.pop() if self.free else "later%d" % self.rng.randrange(10 ** 6)
        self.later.append(n)
        return n
    def put(self, s, off, v):
        s["data"][off:off + 4] = list((v % (1 << 32)).to_bytes(4, "big" if self.big else "little"))
    def relocs(self, s, usable, ctor):
        rng = self.rng
        off = rng.choice([0, 0, 0, 2, 1]) if rng.random() < 0.2 else 0
        pend = []
        if rng.random() < 0.15: return
        while off + 4 <= s["size"]:
            if rng.random() < 0.3: off += rng.choice([4, 4, 2]) if self.arm else 4; continue
            sym = rng.choice(usable)
            add = 0
            if rng.random() < 0.004: sym = 0
            if self.arm:
                ty = rng.choice([2, 2, 38, 10, 10, 28, 28, 29, 40])
                if rng.random() < 0.004: ty = rng.choice([3, 5, 1, 42])
                if ty in (2, 38): self.put(s, off, self.word())
                elif ty == 10:
                    a = rng.choice([-4, -4, -4, 0, 4, -6, rng.randrange(-200, 200)]) // 2
                    h1, h2 = 0xF000 | (a >> 11) & 0x7FF, rng.choice([0xF800, 0xF800, 0xE800]) | a & 0x7FF
                    if self.big: self.put(s, off, h1 << 16 | h2)
                    else: self.put(s, off, h2 << 16 | h1)
                elif ty in (28, 29):
                    a = rng.choice([-8, -8, -8, -4, 0, rng.randrange(-200, 200)]) // 4
                    top = rng.choice([0xEB, 0xEB, 0xEB, 0x0B, 0x1B, 0xFA, 0xFB]) if ty == 28 else rng.choice([0xEA, 0xEA, 0x0A, 0xEB])
                    self.put(s, off, top << 24 | a & 0xFFFFFF)
            elif self.mips:
                ty = rng.choice([2, 2, 4, 5, 5, 6])
                if rng.random() < 0.004: ty = rng.choice([1, 7, 3])
                if ty == 2: self.put(s, off, self.word())
                elif ty == 4: self.put(s, off, rng.choice([0x08, 0x0C]) << 24 | rng.choice([0, 0, 1, 4, rng.randrange(1 << 26), 0x3FFFFFF]))
                elif ty == 5:
                    if pend and rng.random() > 0.02: sym = pend[0]
                    pend.append(sym)
                    self.put(s, off, 0x3C010000 | rng.choice([0, 0, 1, 0xFFFF, 0x7FFF, rng.randrange(1 << 16)]))
                elif ty == 6:
                    if pend and rng.random() > 0.02: sym = pend[0]
                    pend = []
                    self.put(s, off, rng.choice([0x24210000, 0x8C220000, 0xA4430000]) | rng.choice([0, 0, 4, 0x7FFF, 0x8000, 0xFFFF, 0x7FFC, rng.randrange(1 << 16)]))
            else:
                ty = rng.choice([1, 1, 2])
                if rng.random() < 0.004: ty = rng.choice([3, 9])
                add = (rng.choice([0, 4, -4, 0x7FFFFFFF, -1, rng.randrange(-(1 << 31), 1 << 31)]) if rng.random() < 0.7 else 0) if s["rela"] else 0
                self.put(s, off, 0 if s["rela"] and rng.random() < 0.6 else self.word())
            s["rels"].append(dict(off=off, type=ty, sym=sym, add=add))
            off += 4
            if rng.random() < 0.05: off += 2
    # --- the program --------------------------------------------------------
    def library(self, ctor):
        rng = self.rng
        n = rng.choice([1, 1, 1, 2, 3])
        if self.arch == "psx" and not ctor and rng.random() < 0.6:
            objs = [self.psx() for k in range(n)]
            self.nfile += 1
            name = "lib%d.%s" % (self.nfile, "obj" if n == 1 else "lib")
            self.libs[name] = objs
            self.files[name] = lnk(objs[0]) if n == 1 and rng.random() < 0.6 else plib([("M%d" % k, [y["name"] for y in o["psyms"] if y["name"] and y["kind"] != "ext"], lnk(o)) for k, o in enumerate(objs)])
            return name
        objs = [self.object(k == n - 1, ctor) for k in range(n)]
        self.nfile += 1
        name = "lib%d.%s" % (self.nfile, "o" if n == 1 else "a")
        if n == 1 and rng.random() < 0.6: data = elf(objs[0])
        else:
            ms = []
            for k, o in enumerate(objs):
                if rng.random() < 0.2: ms.append(("/", bytes(rng.randrange(256) for _ in range(rng.randrange(5, 20)))))
                ms.append(("m%d.o/" % k if rng.random() < 0.7 else "member%d_long.o" % k, elf(o)))
            data = ar(ms)
        self.libs[name] = objs
        self.files[name] = data
        return name
    def imp(self, ctor=""):
        rng = self.rng
        r = rng.random()
        k = rng.choice([".importobj", ".importlib", ".importobj", ".IMPORTOBJ"])
        if r < 0.015 and not (ctor and self.arch == "psx"):
            n = rng.choice(["missing.o", "text.o", "empty.a"])
            self.files["text.o"] = b"not an object"
            self.files["empty.a"] = b"!<arch>\n"
            self.emit('%s "%s"' % (k, n), k="import", lib="", ctor="")
            return
        name = self.library(bool(ctor))
        arg = '"%s"' % name + (",%s" % ctor if ctor else "")
        if r < 0.06:
            self.emit(".relativeinclude on")
            self.extra["sub%d/part.asm" % self.nfile] = "\n" * (300 + self.nfile - 1) + "%s %s\n" % (k, arg)
            self.files["sub%d/%s" % (self.nfile, name)] = self.files.pop(name)
            self.lines.append('.include "sub%d/part.asm"' % self.nfile)
            self.prog.append(dict(k="import", lib=name, ctor=ctor.lower(), ln=300 + self.nfile))
            self.emit(".relativeinclude off")
        elif r < 0.10:
            m = "getobj%d" % self.nfile
            for l in (".macro " + m, "%s %s" % (k, arg), ".endmacro"): self.lines.append(l)
            # what is wrong with the file itself is reported where the macro is called too
            self.emit(m, k="import", lib=name, ctor=ctor.lower())
        else: self.emit("%s %s" % (k, arg), k="import", lib=name, ctor=ctor.lower())
    def label(self, name):
        rng = self.rng
        if rng.random() < 0.6:
            if self.arm and rng.random() < 0.8: self.emit(".align 4", k="align", n=4)
            self.emit(name + ":", k="label", key=name.lower())
        else:
            v = rng.choice([0, 4, 0x1000, 0x1002, 0x1001, self.base + 0x100, self.base + rng.randrange(-1 if self.base else 0, 0x4000) * 2, 0x03001000])
            v = max(v, 0)
            self.define(name, v)
        self.labels.append(name)
    def define(self, name, v):
        rng = self.rng
        how = rng.choice(["cur", "arm", "thumb"]) if self.arm else "cur"
        self.emit("%s %s,0x%x" % ({"cur": ".definelabel", "arm": ".definearmlabel", "thumb": ".definethumblabel"}[how], name, v), k="def", key=name.lower(), v=limbs(v), how=how)
    def build(self):
        rng = self.rng
        self.emit("." + self.arch)
        if self.arch == "gba" and False: pass
        self.emit('.create "out.bin",0x%x' % self.base)
        n = rng.randrange(2, 8)
        imports = sorted(rng.sample(range(n), min(n, rng.choice([1, 1, 2, 3]))))
        at = rng.choice(imports) if self.ctor else -1
        if self.far and rng.random() < 0.6:
            for f, v in self.far: self.define(f, v)
            self.labels += [f for f, _ in self.far]; self.far = []
        for i in range(n):
            r = rng.random()
            if i in imports:
                if i == at:
                    self.emit(".align 4", k="align", n=4)
                    self.cname = "Init_%d" % rng.randrange(100) if rng.random() > 0.03 or not self.exported else rng.choice([e for e in self.exported + ["x"] if VALID.match(e)])
                    self.imp(self.cname)
                    self.labels.append(self.cname)
                else: self.imp()
                if self.later and rng.random() < 0.5: self.settle()
            elif r < 0.2 and self.arm:
                self.thumb = rng.random() < 0.5
                self.emit(".thumb" if self.thumb else ".arm", k="mode", thumb=self.thumb)
            elif r < 0.45:
                b = [rng.randrange(256) for _ in range(rng.choice([1, 2, 3, 4, 4, 8]))]
                self.emit(".byte " + ",".join("0x%x" % x for x in b), k="bytes", b=b)
            elif r < 0.6: self.label(self.free.pop())
            elif r < 0.7:
                k = rng.choice([2, 4, 8, 16])
                self.emit(".align %d" % k, k="align", n=k)
            elif r < 0.8:
                # what is not assembled is not looked for
                for l in (".if 0", '.importobj "nothing.o"', ".endif"): self.lines.append(l)
            else: self.ref()
        self.settle()
        for f, v in self.far: self.define(f, v)
        self.labels += [f for f, _ in self.far]
        for _ in range(rng.choice([0, 1, 2])): self.ref()
        if rng.random() < 0.02: self.emit(".d32 nobody", k="ref", key="nobody", add=0)
        self.emit(".close")
        if rng.random() < 0.05 and self.lines[1].startswith(".create"): pass
        return self
    def settle(self):
        for n in self.later:
            if self.rng.random() < 0.97: self.label(n)
        self.later = []
    def ref(self):
        rng = self.rng
        names = [n for n in self.exported + self.labels + self.own if VALID.match(n) and not n.startswith("@")]
        if not names: return
        n = rng.choice(names)
        if rng.random() < 0.3: n = n.swapcase()
        a = rng.choice([0, 0, 0, 4, 1])
        self.emit(".d32 %s" % n + ("+%d" % a if a else ""), k="ref", key=n.lower(), add=a)
    def src(self): return "\n".join(self.lines) + "\n"
    def job(self, binary):
        src = {"main.asm": self.src().encode()}
        for n, t in self.extra.items(): src[n] = t.encode()
        self.names = list(src)
        return {"binary": binary, "src": src, "main": "main.asm", "files": self.files, "args": ["-sym2", "out.sym"], "sym": "out.sym", "names": self.names, "cap": 1 << 18}
    def case(self, o):
        out = o["files"].get("out.bin", b"")
        syms, csize = [], 0
        for l in (o["sym"] or b"").split(b"\n"):
            m = re.match(rb"^([0-9A-F]{8,16}) (.*)$", l)
            if not m: continue
            a = int(m.group(1), 16)
            t = m.group(2).decode("latin-1")
            n, _, z = t.partition(",")
            syms.append([(a >> 16) & 0xFFFF, a & 0xFFFF, n])
            if self.cname and n.lower() == self.cname.lower() and z: csize = int(z, 16)
        def obj(q):
            return dict(psx="psx" in q, machine=q["machine"], big=q["big"], etype=q["etype"],
                        sections=[dict(name=s["name"], type=s["type"], alloc=bool(s["flags"] & 2), align=s["align"], size=s["size"], data=s["data"],
                                       rels=[dict(off=r["off"], type=r["type"], sym=r["sym"], addv=limbs(r["add"]), seg=r.get("seg", 0), posv=limbs(r.get("pos", 0))) for r in s["rels"]]) for s in q["sections"]],
                        syms=[dict(name=y["name"], key=y["name"].lower(), valid=bool(VALID.match(y["name"])), value=y["value"], vv=limbs(y["value"]), size=y["size"], bind=y["bind"], type=y["type"], sec=y["sec"]) for y in q["syms"]])
        return dict(arch=self.arch, big=self.big, base=limbs(self.base), thumb=self.arch == "gba", prog=self.prog, libs={n: [obj(q) for q in os] for n, os in self.libs.items()},
                    obs=dict(rc=o["rc"] if o["rc"] in (0, 1) else 2, d=o["d"], out=list(out), csize=csize, syms=syms))

def program(seed, only=None):
    rng = random.Random(seed)
    r = rng.random()
    arch = rng.choice(ARM) if r < 0.45 else rng.choice(MIPS) if r < 0.8 else rng.choice(SH)
    if rng.random() < 0.01: arch = "rsp"
    if only: arch = only
    return Imports(rng, arch, rng.random() < 0.3).build()
