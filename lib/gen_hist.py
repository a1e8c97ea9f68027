"""Histories of several programs in one process: behaviours of spec/History.tla, with programs for what each area keeps,
and threads interleaved as in behaviours of spec/Writers.tla."""
import hashlib, random, re
import runner
from tla import run_tlc

_beh = {}
def behaviours(module):
    if module not in _beh:
        out = run_tlc(module, workers=1)
        rows = [x.replace('\\"', '"').replace("<<", "[").replace(">>", "]") for x in re.findall(r'"(?:HIST|SCHED) (.*)"\n', out)]
        m = re.search(r"(\d+) states generated, (\d+) distinct", out)
        import json
        _beh[module] = ([json.loads(x) for x in rows], int(m.group(1)), int(m.group(2)))
    return _beh[module][0]

def schedule(r):
    t = r.choice(behaviours("Writers"))
    big = r.choice([1, 1, 3, 10, 40])
    return ",".join("%s%d" % (x, r.choice([1, 2, 3, 5, 8]) * r.choice([1, big])) for x in t for _ in range(1)) if r.random() < 0.7 else \
           ",".join("%s%d" % (x, r.randrange(1, 5)) for _ in range(30) for x in t)

# --- programs that write to (w) and read (r) what an area keeps -------------
TBL = b"41=A\n42=AB\n43=a\n/FF\n"
W, R = {}, {}
def area(n, w, r): W[n], R[n] = w, r
area("section",
     ["one:\ntwo:\n@@a: .byte @@a\nthree:\n@@a: .byte @@a", "@@q equ 4\nx1:\n@@q equ 5\n.byte @@q\nx2:"],
     ["@@a: .byte @@a\nl:\n@@a: .byte @@a", "@@q equ 1\n.byte @@q\nl:\n.byte @@q", ".byte @@a\n@@a:"])
area("equs",
     ["alpha equ 7\n.byte alpha", "@beta equ 8\n.byte @beta", "@@gam equ 9\n.byte @@gam", "alpha equ 1\n@@gam equ 2\nbeta equ .byte 3\nbeta", "-equ alpha 5|.byte alpha", "-strequ delta x|.ascii delta"],
     ["alpha:\n.byte alpha", "alpha equ 2\n.byte alpha", "@beta:\n.byte @beta", "@beta equ 6\n.byte @beta", "@@gam:\n.byte @@gam", "beta:\n.byte beta", ".byte alpha", ".byte @@gam", "-equ alpha 6|.byte alpha", "-definelabel alpha 3|.byte alpha"])
area("log",
     [".warning \"w\"\n.notice \"n\"", ".byte 0x100\n.byte 0x1000", ".byte nowhere", ".error \"e\"", ".if\n.byte 1\n.endif"],
     [".byte 1", ".warning \"x\"", ".notice \"x\"\n.byte 2", ".byte 0x200"])
area("strict",
     [".erroronwarning on", "-erroronwarning|.byte 1", "-erroronwarning|.warning \"w\"", ".erroronwarning on\n.warning \"w\""],
     [".warning \"x\"\n.byte 1", ".byte 0x1234", ".byte 1\nmain: main2:\n.warning \"a\""])
area("silent", ["mem|.byte 1", "mem -silent|.error \"e\"", "mem -silent|.byte nowhere", "mem -silent|.byte 1\n.bogus"], [".error \"e\"", ".warning \"w\"\n.byte 1", ".byte nowhere", "args"])
area("allocs",
     [".area 0x10\n.byte 1\n.endarea", ".region 0x20\n.byte 2\n.endregion", ".defineregion 0x100,0x20\n.autoregion\n.byte 3\n.endautoregion", ".defineregion 0x140,0x20,5", ".org 0x110\n.area 8,0xFF\n.byte 4\n.endarea", ".region 0x10\n.byte 5\n.endregion\n.autoregion\n.byte 6\n.endautoregion",
      ".area 0x10\n.byte 1", ".area 2\n.word 1\n.endarea", "-stat|.region 0x20\n.byte 2\n.endregion"],
     [".autoregion\n.byte 1\n.endautoregion", ".org 0x108\n.area 0x10\n.byte 1\n.endarea", ".defineregion 0x100,0x10\n.autoregion\n.word 1,2,3\n.endautoregion", "-stat|.area 0x10\n.byte 1\n.endarea", "-stat|.byte 1", ".endarea", ".area 0x20\n.byte 1\n.endarea\n.autoregion\n.byte 2\n.endautoregion"])
area("tables",
     [".loadtable \"t.tbl\"\n.string \"ABa\"", ".loadtable \"t.tbl\"", ".loadtable \"t.tbl\"\n.string \"z\"", ".loadtable \"none.tbl\"", ".sjis \"a\""],
     [".string \"ABa\"", ".stringn \"AB\"", ".loadtable \"u.tbl\"\n.string \"ABa\"", ".string \"A\"\n.loadtable \"u.tbl\""])
area("symbols",
     ["alpha: .byte 1", ".definelabel beta,5", "@stat: .byte 2", "@@loc: .byte 3", "-definelabel gamma 0x30|.byte gamma", "alpha:\nbeta:\ngamma:\n.word alpha", ".func foo\n.byte 1\n.endfunc", "alpha:\nalpha:"],
     ["alpha: .byte 2", ".word alpha", ".byte defined(alpha),defined(beta),defined(gamma)", ".definelabel beta,6\n.byte beta", ".byte @stat", "@@loc: .byte @@loc", ".byte gamma", ".ifdef beta\n.byte 1\n.else\n.byte 2\n.endif", ".func foo\n.byte 2\n.endfunc", "-definelabel gamma 0x31|.byte gamma", "alpha equ 3\n.byte alpha"])
area("functions",
     [".expfunc fun(x),x+1\n.byte fun(1)", ".expfunc fun(x),x+1", ".expfunc one(),1\n.expfunc fun(a,b),a*b\n.byte fun(one(),2)"],
     [".byte fun(2)", ".expfunc fun(x),x+2\n.byte fun(1)", ".expfunc fun(a,b),a-b\n.byte fun(5,1)", ".byte defined(fun)", ".byte one()", "fun equ 5\n.byte fun"])
area("macros",
     [".macro mac\n.byte 1\n.endmacro\nmac", ".macro mac,x\nlab: .byte x,lab\n.endmacro\nmac 1\nmac 2", ".macro mac\nmac\n.endmacro\nmac", ".macro mac\n.byte 1", ".macro mac,x\n@@l: @s: .byte x\n.bogus\n.endmacro\nmac 1"],
     ["mac", "mac 1", ".macro mac\n.byte 2\n.endmacro\nmac", ".macro mac,x\nlab: .byte x,lab\n.endmacro\nmac 3", "mac: .byte mac", "lab: .byte lab", ".endmacro"])
area("files",
     ["noclose|.byte 1", "noclose|.close\n.create \"b.bin\",0x200\n.byte 2", ".close\n.create \"b.bin\",0x80\n.byte 3", "noclose|.byte nowhere", ".org 0x10", ".close\n.open \"in.bin\",0x50\n.org 0x52\n.byte 7", ".close\n.open \"none.bin\",0"],
     ["nocreate|.byte 1", ".close", ".byte 1", ".close\n.create \"b.bin\",0\n.byte 4", ".headersize 4\n.byte org(),orga()", "nocreate|.org 5", "nocreate|lab:", "nocreate|.psx"])
area("order",
     ["n64|.word 1", "saturn|.halfword 1", "arm.big|.word 1", "n64|.word nowhere", "rsp|.dw 1", "psx|.word 1"],
     ["psx|.word 1", "gba|.halfword 1", "nocreate|.create \"b.bin\",0\n.word 1\n.psx\n.close", "noarch|.halfword 1", "noarch|.word 1,2", "noarch|.dw 1", "psx|.incbin \"in.bin\"\n.word 1"])
area("arm",
     ["gba|ldr r0,=0x12345678", "gba|.arm\nldr r1,=0x1234567\nnop", "nds|.thumb\nldr r2,=nowhere", "gba|ldr r0,=lab\nlab:\n.pool\nldr r1,=5", "gba|.arm\nmov r0,r0", "gba|.thumb\nbl nowhere", "gba|ldr r0,=0x1234567\n.pool\n.bogus"],
     ["gba|mov r0,r1", "nds|mov r0,r1", "gba|ldr r0,=0x7654321\n.pool", "gba|.pool\n.byte 1", "nds|ldr r0,=1234567\n.pool", "gba|.arm\nldr r0,=5\n.pool\n.byte 1", "gba|.byte 1\n.align 4\nnop", "gba|add r0,1\nbl lab\nlab:"])
area("armver",
     ["nds|blx r0", "3ds|nop", "arm.big|nop", "gba|.thumb", "arm.little|nop", "nds|.thumb\nblx r1"],
     ["gba|.arm\nblx r0", "gba|.arm\nclz r0,r1", "gba|blx r0", "nds|blx r0", "arm.big|.word 1\n nop", "gba|.word 1", "nds|clz r0,r1"])
area("mips",
     ["psx|lw a0,(a1)", "psx|lw a0,(a1)\nj lab\nlab:", "psx|.fixloaddelay\nlw a0,0(a1)", "psx|jr ra", "psx|.resetdelay\nlw a1,(a2)", "n64|dadd a0,a1,a2", "ps2|lq a0,(a1)", "psp|vadd.s s000,s001,s002", "rsp|lqv v1[0],0(a0)", "psx|.fixloaddelay\nlw a0,0(a1)\naddu a0,a0,a0", "psx|lw a0,4(a1)\n.bogus"],
     ["psx|addu a0,a0,a0", "psx|nop\nlw a0,(a1)\nnop\naddu a0,a0,a0", "psx|lw a0,(a1)\naddu a0,a0,a0", "psx|dadd a0,a1,a2", "psx|bnez a0,lab\nlw a0,(a1)\nlab: addu a0,a0,a0", "n64|lw a0,(a1)\naddu a0,a0,a0", "psx|li a0,0x12345678", "psp|addu a0,a0,a0", "ps2|dadd a0,a1,a2"])
area("sh",
     ["saturn|nop\nmov r0,r1", "32x|nop", "saturn|mov.l lab,r0\n.align 4\nlab: .word 1", "saturn|bf lab\nlab:"],
     ["saturn|mov r1,r2", "psx|.word 1\n nop", "noarch|nop", "32x|.word 1", "saturn|.word 1,2", "32x|add 1,r0"])
area("nocash",
     [".nocash on", ".nocash on\n.dw 1", "gba|.nocash on\ndw 1"],
     [".dw 1", "dw 1", ".dd 1", "gba|dw 1\ndd 2", ".dh 1"])
area("relative",
     [".relativeinclude on", ".relativeinclude on\n.include \"sub/rel.asm\"", ".relativeinclude on\n.incbin \"in.bin\""],
     [".include \"sub/rel.asm\"", ".include \"sub/abs.asm\"", ".relativeinclude off\n.include \"sub/abs.asm\"", ".byte filesize(\"in.bin\")", ".include \"none.asm\"", ".incbin \"sub/in2.bin\""])
area("memory",
     ["mem|.word 1,2", "mem|.byte nowhere", "mem|.bogus", "mem|.org 0x110\n.byte 1", "mem|.warning \"w\""],
     ["nocreate|.byte 1", ".byte 0x100", "noclose|.byte 1", ".byte nowhere", "nosrc", ".byte orga(),org()", ".error \"e\"", "args"])
area("place",
     ["\n\n\n.include \"sub/rel.asm\"", ".include \"inc.asm\"\n.include \"inc2.asm\"\n.bogus", "\n\n\n\n.byte nowhere", ".include \"inc.asm\"", ".macro m\n\n.byte nowhere\n.endmacro\n\nm"],
     ["args", "args2", "args3", "nosrc", ".byte 1", "-equ alpha 1 -equ alpha 2|.byte 1", "noinput", ".include \"none.asm\"", "-definelabel q 1x|.byte 1", "mem|.byte nowhere"])
area("suppress",
     [".macro m,x\n.byte x\n.bogus\n.endmacro\nm 1", ".macro m\nm2\n.endmacro\nm", ".if 0\n.bogus\n.byte nowhere\n.endif", ".macro m,x\n.include \"none.asm\"\n.endmacro\nm 1", ".macro m\n.macro n\n.endmacro\n.endmacro\nm", ".if 0\n.include \"none.asm\"\n.endif", ".macro m\n.if 1\n.endmacro\nm"],
     [".byte nowhere", ".warning \"w\"", "args", ".bogus", ".notice \"x\"\n.byte 1", "-stat|.byte 1"])
area("switches",
     [".sym off\nalpha:\n.sym on", ".sym off\nbeta: .byte 1", ".fixloaddelay\n.nocash on\n.erroronwarning off"],
     ["alpha: .byte 1\nbeta:\n.word 5", "one: .ascii \"ab\"", "psx|lw a0,(a1)\naddu a0,a0,a0"])
area("arch",
     ["gba|nop", "psx|nop", "saturn|nop", "rsp|nop", "ps2|nop", "nds|.bogus", "n64|.psx\nnop"],
     ["noarch|nop", "noarch|.byte 1", "noarch|.word 1", "noarch|lab: .byte lab", "noarch|mov r0,r0", "noarch|addu a0,a0,a0", "noarch|.align 4\n.byte 2", "noarch|.pool"])
area("sym",
     ["lab1: .byte 1\nlab2: .word 2", ".func foo\n.byte 1\n.endfunc", ".include \"inc.asm\"\nlab3:", "-definelabel gamma 4|alpha: .byte 1"],
     ["lab1: .ascii \"a\"", "lab4:\n.word 1", ".byte 5", ".func foo\n.word 1\n.endfunc\n.func bar\n.byte 1\n.endfunc", "-definelabel delta 4|.byte 1"])
area("writing",
     ["\n\n.close\n.create \"x.bin\",0\n.incbin \"x.bin\"", ".close\n.create \"x.bin\",0\nlab1: lab2:\n.incbin \"x.bin\",1\nlab3:\n.word 1", ".close\n.create \"nodir/x.bin\",0\n.byte 1", ".close\n.open \"in.bin\",\"x.bin\",0\n.incbin \"x.bin\",20"],
     ["args", ".byte 1", "\n.close\n.create \"x.bin\",0\nlab: .byte 1\n.include \"inc.asm\"\n.incbin \"x.bin\"", ".word 1,2\nlab:\n.include \"inc.asm\"", ".byte nowhere", "mem|.warning \"w\""])
NEUTRAL = [".byte 1", "lab: .word lab", "gba|nop", "n64|li a0,5", ".ascii \"abc\""]
FATE = {"parse": [".bogus", ".if", ".byte (1", ".include \"none.asm\"", ".macro", "5", ".byte 1 2"], "layout": [".byte nowhere2", "dup:\ndup:", ".byte 1/0", ".org -1", ".align 3", ".error \"stop\"", ".ascii 1,\"\\\\\"+1", ".incbin \"none.bin\""]}
SRCS = {"inc.asm": b"inci: .byte 1\n@st: .byte @st\n", "inc2.asm": b"@st: .byte @st\nbeta equ 9\n.byte beta\n", "sub/rel.asm": b".include \"deep.asm\"\n", "sub/deep.asm": b"dd1: .byte 0x44\n", "sub/abs.asm": b".include \"sub/deep.asm\"\n", "deep.asm": b".byte 0x45\n"}
FILES = {"t.tbl": TBL, "u.tbl": b"61=A\n62=B\n63=a\n", "in.bin": bytes(range(16)), "x.bin": bytes(range(32)), "sub/in2.bin": b"xyz"}

def text(r, spec, fate):
    """A job for a template."""
    args, arch, create, close, mode, body = [], None, True, True, "cli", spec
    if "|" in spec.split("\n")[0] and not spec.startswith("."):
        pre, body = spec.split("|", 1)
        if pre.startswith("mem"): mode, args = "mem:0x100", pre.split()[1:]
        elif pre.startswith("-"): args = pre.split()
        elif pre == "noclose": close = False
        elif pre == "nocreate": create = False
        else: arch = pre
    j = {"files": dict(FILES), "mode": mode, "main": "main.asm"}
    if spec == "args": body, args = ".byte 1", ["-bogus"]
    if spec == "args2": body, args = ".byte 1", ["second.asm"]
    if spec == "args3": body, args = ".byte 1", ["-sym"]
    if spec == "noinput": j["noinput"], body = 1, ".byte 1"
    if fate in FATE:
        bad = r.choice(FATE[fate])
        body = body + "\n" + bad if r.random() < 0.7 else bad + "\n" + body
    if arch is None: arch = r.choice(["psx", "psx", "gba", "n64", "saturn"])
    lines = []
    if arch != "noarch": lines.append("." + arch)
    if mode == "cli" and create: lines.append('.create "out.bin",0x100')
    lines += body.split("\n")
    if mode == "cli" and create and close: lines.append(".close")
    j["src"] = dict(SRCS, **{"main.asm": ("\n".join(lines) + "\n").encode()})
    if spec == "nosrc": del j["src"]["main.asm"]
    j["args"] = args
    j["names"] = sorted(j["src"])
    if mode == "cli" and not any(a in ("-sym", "-sym2") for a in args) and spec not in ("args", "args2", "args3", "noinput"):
        j["listing"] = "-sym2" if r.random() < 0.8 else "-sym"
    return j

def kind(r, k, fate):
    a, d = k
    return text(r, r.choice((W if d == "w" else R)[a] if a != "none" else NEUTRAL), fate)

# --- programs of the other suites ------------------------------------------
POOL = {}
def pool(seed, per=25):
    """Programs of all kinds, as (module, item)."""
    if seed not in POOL:
        from suites import CHECKS
        res = []
        for p in sorted(CHECKS):
            if p == "C23": continue
            for s in CHECKS[p]["suites"]:
                if s.name == "operators" or s.binary != "cli": continue
                for it in s.items(700000 + int(seed), per if s.module != "InsRun" and s.module != "ArmRun" else per // 2):
                    res.append((s.module, it))
        POOL[seed] = res
    return POOL[seed]

def stripped(j):
    """Without listing."""
    j = dict(j)
    if "sym" in j:
        a = list(j["args"])
        k = [i for i, x in enumerate(a) if x in ("-sym", "-sym2")][0]
        j["listing"] = a[k]
        del a[k:k + 2]
        if "-temp" in a:
            k = a.index("-temp")
            del a[k:k + 2]
        j["args"] = a
        del j["sym"]
        j.pop("temp", None)
    return j

def withlisting(j):
    j = dict(j)
    if j.get("listing"):
        j["args"] = j.get("args", []) + [j["listing"], "out.sym", "-temp", "out.temp"]
        j["sym"], j["temp"] = "out.sym", "out.temp"
    return j

def digest(b): return hashlib.sha256(b).hexdigest()[:24]
def outcome(o):
    root = o.get("root", "").encode()
    def norm(b): return digest(b.replace(root, b"")) if b is not None else ""
    return {"rc": o["rc"], "out": norm(o["out"]), "files": sorted([n, norm(b)] for n, b in o["files"].items()), "sym": norm(o["sym"]), "temp": norm(o["temp"])}

class Hist:
    """A history and, for each of its programs, the same program alone."""
    def __init__(self, seed, runs, alone):
        # runs: [(area, does, fate, job)]
        self.runs = runs
        self.r = random.Random(seed)
        self.jobs = []
        for i, (a, d, f, j) in enumerate(runs):
            k = withlisting(j) if self.r.random() < 0.6 else dict(j)
            if self.r.random() < 0.5: k["sched"] = schedule(self.r)
            self.jobs.append(k)
    def job(self, binary):
        src = {"run%d/%s" % (i, n): b for i, j in enumerate(self.jobs) for n, b in j["src"].items() if n not in SRCS}
        solo = [{"binary": binary, "runs": [withlisting(j)]} for _, _, _, j in self.runs]
        return {"binary": binary, "runs": self.jobs, "alone": solo, "src": src, "files": {}, "args": [" ".join([j["main"]] + j.get("args", [])) + (" @" + j["sched"][:80] if "sched" in j else "") for j in self.jobs], "main": "", "names": ["main.asm"]}
    def case(self, obs):
        rs = []
        for i, ((a, d, f, _), o) in enumerate(zip(self.runs, obs["runs"])):
            x = outcome(o)
            x.update(p=str(i), area=a, does=d, fate=f)
            rs.append(x)
        return {"runs": rs, "alone": {str(i): outcome(o) for i, o in enumerate(obs["alone"])}}

def histories(seed, n):
    r = random.Random("hist/%s" % seed)
    beh = behaviours("HistGen")
    ps = pool(seed)
    res = []
    order = list(range(len(beh)))
    r.shuffle(order)
    def other():
        m, it = r.choice(ps)
        return ("none", "n", "ok", stripped(it.job("")))
    for i in range(n):
        runs = []
        # several behaviours, with programs of the other suites in between
        for _ in range(r.choice([1, 1, 2])):
            b = beh[order[i % len(beh)]] if not runs else r.choice(beh)
            for a, d, f in b:
                runs.append((a, d, f, kind(r, (a, d), f)))
                if r.random() < 0.15: runs.append(other())
        if r.random() < 0.3: runs.append(other())
        if r.random() < 0.4:
            k = r.randrange(len(runs))
            runs.append(runs[k])
        res.append(Hist("%s/%d" % (seed, i), runs, None))
    return res

class After:
    """A program of another suite, assembled after others in the same process."""
    def __init__(self, seed, item, before):
        self.item, self.before = item, before
        self.sched = schedule(random.Random(seed))
    def job(self, binary):
        j = dict(self.item.job(binary))
        j["sched"] = self.sched
        r = dict(j)
        r["runs"] = self.before + [j]
        r["before"] = 1
        return r
    def case(self, obs): return self.item.case(obs)

def after(module):
    def items(seed, n):
        r = random.Random("after/%s/%s" % (module, seed))
        ps = pool(seed)
        beh = behaviours("HistGen")
        mine = [it for m, it in ps if m == module]
        res = []
        for i in range(n):
            it = mine[i % len(mine)]
            before = []
            for _ in range(r.choice([1, 2, 3])):
                if r.random() < 0.5: before.append(stripped(r.choice(ps)[1].job("")))
                else:
                    a, d, f = r.choice(r.choice(beh))
                    before.append(kind(r, (a, d), f))
            if r.random() < 0.2: before.append(stripped(it.job("")))
            res.append(After("%s/%d" % (seed, i), it, before))
        return res
    return items
