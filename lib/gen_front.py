"""Source text: spelling, equs and macros.  What a text means is decided by spec/Lex and spec/Front."""
import random, re
from fractions import Fraction
from asmcase import codes, limbs, unlimbs, M64, intlit
import gen_core, gen_sym, gen_data, gen_expr

TOK = re.compile(r'"(?:\\["\\]|[^"])*"|\'[^\']\'|\d+\.\d*(?:[eE][+-]?\d+)?|\d+[eE][+-]?\d+(?![\w])|[A-Za-z0-9_.@]+|<<|>>|<=|>=|==|!=|&&|\|\||\S')
WORD = re.compile(r'^[A-Za-z0-9_.@]')
def toks(t): return TOK.findall(t)
FLOATS = ["0.0", "1.0", "2.5", "0.125", "1024.75", "3.0625", "65536.5", "1.5e1", "25.0e-2", "5e-1", "1e3", "1.", "0x1.8", "0xFF.F", "125e-3", "1E2"]
POWERS = ["1.0", "2.0", "0.5", "0.25", "4.", "5e-1", "25e-2", "0x0.8", "1.6e1", "0x10.0"]
def exact(ts, r, pick):
    """Fractions that are no binary fractions are left to another check."""
    def one(t):
        if not re.match(r"^\d+(\.\d*([eE]|$)|[eE][+-]?\d+$)", t): return t
        f = Fraction(t)
        d = f.denominator
        if d & (d - 1) == 0 and len(t) < 17 and f < 1 << 40: return t
        return r.choice(pick)
    return [one(t) for t in ts]

class Plain(list):
    """A statement that stays on a line of its own, spelled as it is."""

def number(t):
    m = re.match(r"^(?:0x([0-9a-f]+)|([0-9][0-9a-f]*)h|([0-9]+))$", t, re.I)
    if not m: return None
    return int(m.group(1) or m.group(2), 16) if m.group(1) or m.group(2) else int(m.group(3))
def case(t, r):
    k = r.randrange(4)
    if k == 0: return t.upper()
    if k == 1: return t.lower()
    if k == 2: return "".join(r.choice([c.upper(), c.lower()]) for c in t)
    return t
def spellnum(n, r):
    """Any spelling of a number below 2^64."""
    k = r.randrange(9)
    z = "0" * r.choice([0, 0, 0, 1, 3])
    if k == 0: s = z + str(n) if n < 1 << 63 else "0x%x" % n
    elif k == 1: s = "0x" + z + "%x" % n
    elif k == 2: s = "0" + z + "%xh" % n
    elif k == 3: s = ("%xh" % n) if ("%x" % n)[0].isdigit() else "0%xh" % n
    elif k == 4: s = "0b" + z + bin(n)[2:]
    elif k == 5: s = z + bin(n)[2:] + "b"
    elif k == 6: s = "0o" + z + oct(n)[2:]
    elif k == 7: s = z + oct(n)[2:] + "o"
    else: s = "'%c'" % n if 32 <= n < 127 and n not in (39, 92) else str(n) if n < 1 << 63 else "0x%x" % n
    return s if s[0] == "'" else case(s, r)
COMMENTS = ["", "x", "a : b", '"', "'", "/* no", "*/", "::", "\\", ".word 5", '"unfinished', "equ", "// ;", "\u00e9\u3042", "\u30bd", "\uff7f\uff8c", "\u3042\u30bc \\ x", "a\rb", "\r"]
def comment(r, multi=False):
    c = r.choice([x for x in COMMENTS if "*/" not in x])
    if multi and r.random() < 0.3: c += r.choice(["\n", "\n\n"]) + r.choice([x for x in COMMENTS if "*/" not in x])
    return "/*" + c + r.choice(["*/", " */", "**/"])

class Speller:
    """Turns lists of tokens into text."""
    def __init__(self, r, level):
        self.r, self.level = r, level
    def p(self, x): return self.r.random() < x * self.level
    def gap(self, need):
        r = self.r
        if self.p(0.02): return comment(r, True)
        if self.p(0.02): return r.choice([" ", ""]) + "\\" + r.choice(["", "", " ", "\t", "; c", " // c", " /* c */"]) + "\n" + r.choice(["", " "])
        s = r.choice(["", "", " "]) if not need else " "
        if self.p(0.2): s = r.choice([" ", "\t", "  ", " \t "])
        return s
    def token(self, t):
        r = self.r
        if not self.p(0.5): return t
        n = number(t)
        if n is not None: return spellnum(n, r) if n <= M64 else t
        if t[0] in "\"'" or not WORD.match(t) or t[0].isdigit(): return t
        return case(t, r)
    def stmt(self, ts):
        s, last = "", ""
        for i, t in enumerate(ts):
            x = self.token(t)
            # tokens that would run into each other
            need = bool(last and ((WORD.match(x) and (WORD.match(last) or re.match(r".*[A-Za-z0-9_.@]$", last))) or last[-1] in "/:<>=!&|" or (x[0] in "'\"" and WORD.match(last))))
            if last and self.level == 0: s += " " if need or i == 1 or (WORD.match(x) and len(last) > 1) else ""
            elif last:
                g = self.gap(need)
                if last == "/" and g.startswith("/"): g = " " + g
                # a comment alone does separate words
                s += g
            s += x
            last = x
        return s
    def file(self, sts):
        r = self.r
        out, line = "", ""
        for i, ts in enumerate(sts):
            plain = isinstance(ts, Plain)
            if not line:
                while self.p(0.1):
                    out += r.choice(["", " ", "\t", "; " + r.choice(COMMENTS), "//" + r.choice(COMMENTS), comment(r, True)]) + "\n"
                if self.p(0.3): line = r.choice([" ", "\t", "   "])
            line += " ".join(ts) if plain else self.stmt(ts)
            nxt = sts[i + 1] if i + 1 < len(sts) else None
            if nxt is not None and not plain and not isinstance(nxt, Plain):
                # a label may stand in front of a statement
                if len(ts) == 2 and ts[1] == ":" and self.p(0.3):
                    line += r.choice([" ", "\t"] + (["", comment(r)] if WORD.match(nxt[0]) else []))
                    continue
                if self.p(0.12):
                    line += " " if ts[-1] == ":" else ""
                    line += r.choice(["::", " :: ", " ::", " :: :: ", "::" + comment(r)])
                    continue
            if self.p(0.15) and not plain: line += r.choice([" ", "\t", "  "])
            if self.p(0.15) and not plain: line += r.choice([";", " ; ", "//", " // "]) + r.choice(COMMENTS)
            out += line + "\n"
            line = ""
        if self.p(0.2): out = out[:-1]
        if self.p(0.08): out += "/* " + r.choice(["end", ";", '"']) + " */"
        return out

NAMES = {"sjis": ["sjis", "shift-jis"], "utf8": ["utf8", "utf-8", "nosuch"], "utf16": ["utf16", "utf-16"], "utf16-be": ["utf16-be", "utf-16-be"], "ascii": ["ascii"]}
ENCODINGS = ["sjis", "sjis", "utf8", "utf16", "utf16-be", "ascii", "ascii"]
CODEC = {"sjis": "cp932", "utf8": "utf-8", "utf16": "utf-16-le", "utf16-be": "utf-16-be", "ascii": "latin-1"}
def encode(t, enc):
    """Characters that the encoding does not have are left out."""
    t = "".join(c for c in t if ord(c) < 128 or enc != "sjis" or c in SJIS)
    b = t.encode(CODEC[enc], "ignore")
    # what looks like a byte order mark or another encoding stays away
    return b, enc
SJIS = set(gen_data.KANA + gen_data.HALF + gen_data.WIDE)

class Front:
    def __init__(self, r, level=0.0):
        self.r, self.level = r, level
        self.srcs = {"main.asm": []}
        self.files, self.labels, self.equs, self.eow = {}, [], [], False
        self.text = None
    def render(self):
        r = self.r
        sp = Speller(r, self.level)
        self.text, self.bytes, self.encs = {}, {}, {}
        # the encodings that included files are asked for in
        want = {}
        if self.level:
            want = {n: r.choice(ENCODINGS) for n in self.srcs if n != "main.asm" and r.random() < 0.6}
            for n, sts in self.srcs.items():
                for ts in sts:
                    if len(ts) == 2 and ts[0].lower() == ".include" and ts[1].strip('"') in want:
                        ts += [",", '"%s"' % case(r.choice(NAMES[want[ts[1].strip('"')]]), r)]
        for n, sts in self.srcs.items():
            t = sp.file(sts)
            self.text[n] = t
            if sp.p(0.25): t = t.replace("\n", "\r\n")
            k = r.random() if self.level else 1
            self.encs[n] = "utf8"
            if k < 0.06: b = t.encode("utf-8-sig")
            elif k < 0.1: b = b"\xff\xfe" + t.encode("utf-16-le")
            elif k < 0.14: b = b"\xfe\xff" + t.encode("utf-16-be")
            elif n in want: b, self.encs[n] = encode(t, want[n])
            else: b = t.encode()
            self.bytes[n] = b
    def job(self, binary):
        if self.text is None: self.render()
        args = []
        if self.eow: args.append("-erroronwarning")
        for n, v, s in self.equs: args += ["-strequ" if s else "-equ", n, v]
        for l in self.labels:
            v = unlimbs(l["v"])
            args += ["-definelabel", l["on"], "0x%x" % v if v >= 0 else str(v)]
        return {"binary": binary, "src": self.bytes, "main": "main.asm", "files": self.files, "args": args, "names": list(self.srcs)}
    def case(self, obs):
        o = {"rc": obs["rc"] if obs["rc"] in (0, 1) else 2, "d": obs["d"],
             "files": [{"codes": codes(n), "data": list(b)} for n, b in sorted(obs["files"].items())]}
        return {"srcs": [{"codes": codes(n), "bytes": list(b), "enc": self.encs[n]} for n, b in self.bytes.items()],
                "files": [{"codes": codes(n), "data": list(b)} for n, b in self.files.items()],
                "labels": [{"n": l["n"], "sc": l["sc"], "v": l["v"], "oc": codes(l["on"])} for l in self.labels],
                "equs": [{"n": n.lower(), "v": codes('"%s"' % v if s else v)} for n, v, s in self.equs],
                "eow": self.eow, "log": 0, "obs": o}

def base(r, seed, kinds):
    """The statements of a program of another generator."""
    k = r.choice(kinds)
    if k == "sym": p = gen_sym.program(seed)
    elif k == "data": p = gen_data.program(seed)
    elif k == "tables": p = gen_data.tables(seed)
    elif k == "expr": p = gen_expr.program(seed)
    else: p = gen_core.program(seed, k)
    p.log = 0
    p.finish()
    src = p.render()
    f = Front(r)
    f.srcs = {n: [exact(toks(l), r, POWERS if k == "expr" else FLOATS) for l in b.decode().split("\n") if l.strip()] for n, b in src.items()}
    f.files, f.labels, f.eow = p.files, p.labels, p.eow
    return f

BAD = ["nosuchop 5", ".nosuch", ".word", ".word 1 2", ".word 1,", ".word (1", ".byte 5)", ".fill", ".org 1,2", "5", "+", ".word $", ".word {1}",
       ".nocash maybe", ".area", ".definelabel", ".definelabel x", ".definelabel 5,5", "9x:", ".include", '.include "missing.asm"', ".word 1 +", ".word * 2", ".word 1 ? 2",
       ".byte max(1,2", ".byte ,1", ".byte 1,,2", ".psx 1", ".close 1", ".byte 0b2", ".byte 0x1g", ".byte 12q", ".byte 8o", '.ascii "abc', ".byte 'ab'", ".byte 1 \\ 2", ".byte --1", ".byte ~~1",
       ".byte `", ".if", ".byte 1 == == 1", ".byte (1,2)", ".byte ()", ".byte []", ".create", '.create "x.bin"', ".skip", ".headersize", ".orga", ".align 4,0,0", "x y", "= 5", "abc = 5"]
BAD = [b for b in BAD if b != ".if"]

def program13(seed):
    r = random.Random(seed)
    f = base(r, seed, ["C01", "C01", "C03", "C05", "C06", "C08", "C04", "sym", "data", "tables", "expr", "expr"])
    f.level = r.choice([0.3, 1, 1, 2])
    if r.random() < 0.12:
        n = r.choice(list(f.srcs))
        j = r.randrange(len(f.srcs[n]) + 1)
        f.srcs[n][j:j] = [Plain([r.choice(BAD)]), Plain([".byte 0"]), Plain([".byte 0"])]
    return f

# --- equs ----------------------------------------------------------------
def depths(sts):
    """For every place between statements whether it is outside of blocks."""
    d, res = 0, []
    for ts in sts:
        res.append(d)
        w = ts[0].lower() if ts else ""
        if w in (".if", ".ifdef", ".ifndef", ".macro"): d += 1
        if w in (".endif", ".endmacro"): d -= 1
    return res + [d]
def special(ts): return isinstance(ts, Plain) or not ts or ts[0].lower() in (".macro", ".endmacro", ".expfunc", ".include", ".else", ".endif", ".elseif", ".elseifdef", ".elseifndef", ".if", ".ifdef", ".ifndef")
SCOPES = ["", "", "", "", "@", "@@"]
def hoist(f, r, n):
    """Gives parts of statements names."""
    main = f.srcs["main.asm"]
    for i in range(n):
        cand = [j for j in range(1, len(main)) if not special(main[j])]
        if not cand: return
        j = r.choice(cand)
        ts = main[j]
        lo = 2 if len(ts) > 2 and ts[1] == "equ" else 0
        if len(ts) <= lo: continue
        a = r.randrange(lo, len(ts))
        b = min(len(ts), a + r.choice([1, 1, 1, 2, 3, 5, 9]))
        if a + 1 < len(ts) and ts[a + 1] == "equ": continue
        val = ts[a:b]
        name = r.choice(SCOPES) + r.choice(["eq", "Val", ".e", "y_"]) + str(i)
        if lo and name[0] == "@": name = name.lstrip("@")
        main[j] = ts[:a] + [name] + ts[b:]
        dp = depths(main)
        ok = [k for k in range(1, j + 1) if dp[k] == 0] or [1]
        if name.startswith("@@"): ok = ok[-2:]
        if r.random() < 0.02: ok = list(range(1, j + 1))
        k = r.choice(ok)
        if r.random() < 0.08 and not lo and name[0] != "@" and len(f.equs) < 3 and all(t[0] != '"' for t in val):
            f.equs.append((name, " ".join(val), False))
        elif r.random() < 0.3 and not lo and name[0] != "@" and len(val) == 1 and val[0][0] == '"' and not any(c in val[0][1:-1] for c in '"\\') and len(val[0]) > 2:
            f.equs.append((name, val[0][1:-1], True))
        else: main.insert(k, [name, "equ"] + val)
        # other places where the same tokens stand
        if r.random() < 0.5:
            for q in range(k + 1, len(main)):
                us = main[q]
                if special(us) or (len(us) > 1 and us[1] == "equ") or r.random() < 0.5: continue
                for x in range(len(us) - len(val) + 1):
                    if us[x:x + len(val)] == val:
                        main[q] = us[:x] + [name] + us[x + len(val):]
                        break
def strings(f, r, n):
    """Data whose text looks like other things."""
    main = f.srcs["main.asm"]
    dp = depths(main)
    for i in range(n):
        t = "".join(r.choice(["a", "Z", ";", "//", "::", "/*", "*/", " ", "equ", ",", "'", "(", "\\\\", '\\"']) for _ in range(r.randrange(5)))
        k = r.choice([j for j in range(2, len(main) + 1) if dp[j] == 0] or [len(main)])
        main[k:k] = [[r.choice([".ascii", ".asciiz", ".byte"]), '"%s"' % t, ","] + ([r.choice(["';'", "':'", "'/'", "'\"'"])])]
        dp = depths(main)
EQUERR = ["dup", "self", "nest", "label", "undecided", "name", "late"]
def equerror(f, r):
    main = f.srcs["main.asm"]
    defs = [j for j, ts in enumerate(main) if len(ts) > 2 and ts[1] == "equ" and ts[0][0] != "@"]
    k = r.choice(EQUERR)
    end = len(main) if not main or main[-1][0] not in (".close", ".closefile") else len(main) - 1
    if k == "dup" and defs:
        main.insert(end, Plain(["%s equ 5" % main[r.choice(defs)][0].upper()]))
    elif k == "self": main.insert(end, Plain(["selfref equ 1 + SelfRef"]))
    elif k == "nest": main.insert(end, Plain(["outer equ inner equ 5"]))
    elif k == "label": main[end:end] = [["takenname", ":"], Plain(["takenname equ 5"])]
    elif k == "undecided": main[end:end] = [[".if", "org", "(", ")", ">", "5"], Plain(["cond equ 5"]), [".endif"]]
    elif k == "name": main.insert(end, Plain(["%s equ 5" % r.choice(["a@b", "@@@x", "@", "@@"])]))
    elif k == "late": main.insert(end, ["eq0late", "equ", "5"])

def program10(seed):
    r = random.Random(seed)
    f = base(r, seed, ["C01", "C01", "C03", "C05", "C08", "C08", "sym", "data", "expr", "expr"])
    f.level = r.choice([0, 0.2, 0.5, 1])
    strings(f, r, r.choice([0, 1, 2]))
    hoist(f, r, r.choice([1, 2, 3, 4, 6, 9]))
    if r.random() < 0.08: equerror(f, r)
    return f

# --- macros --------------------------------------------------------------
class MacroGen:
    """Programs built around macros."""
    def __init__(self, r):
        self.r = r
        self.f = Front(r, r.choice([0, 0, 0.2, 0.6]))
        self.macros = {}        # name -> parameter kinds
        self.n = 0
        self.names = []         # labels of the program outside of macros
        self.good = r.random() < 0.8
        self.count = 0
    def fresh(self, p):
        self.n += 1
        return p + str(self.n)
    def num(self):
        r = self.r
        return [str(r.choice([0, 1, 2, 3, 4, 7, 8, 16, 100, 255, r.randrange(256), 0x1234, 0x80000000]))]
    def expr(self, names, d=2):
        r = self.r
        k = r.random()
        if names and k < 0.5: return [r.choice(names)]
        if d == 0 or k < 0.7: return self.num()
        if k < 0.78: return ["max", "("] + self.expr(names, d - 1) + [","] + self.expr(names, d - 1) + [")"]
        labs = [n for n in names if n.lstrip("@")[:3] in ("loc", "lab", "arg", "out")]
        if k < 0.82 and labs: return ["defined", "(", r.choice(labs), ")"]
        x = self.expr(names, d - 1) + [r.choice(["+", "-", "*", "&", "|", "<", "=="])] + self.expr(names, d - 1)
        return ["("] + x + [")"] if r.random() < 0.6 else x
    def string(self):
        r = self.r
        return '"%s"' % "".join(r.choice(["a", "B", " ", ",", ";", "(", "x1", "\\\\"]) for _ in range(r.randrange(4)))
    def data(self, names):
        r = self.r
        es = []
        for _ in range(r.choice([1, 1, 2, 3])): es += [","] + self.expr(names)
        return [r.choice([".byte", ".byte", ".halfword", ".word", ".d32", ".d64"])] + es[1:]
    # bodies ----------------------------------------------------------------
    def local(self, p, own, keep=True):
        """A name for a label or an equ of a macro. Other macros may use the same one."""
        r = self.r
        n = r.choice(["", "", "@", "@@"]) + (r.choice([p + "1", p + "2", p + "3", "loc1_" + p + "2"]) if r.random() < 0.7 else "")
        if n in own or n in self.taken or not n.strip("@"): n += self.fresh(p)
        (own if keep else self.taken).append(n)
        return n
    def body(self, ps, own, d, callable_):
        """Statements of a macro; ps: [(name, kind)], own: its labels so far."""
        r = self.r
        vals = [n for n, k in ps if k in "ve"]
        out = []
        for _ in range(r.choice([0, 1, 2, 2, 3, 4])):
            k = r.random()
            names = vals * 2 + own + self.names[-3:]
            if k < 0.3: out.append(self.data(names))
            elif k < 0.42:
                n = self.local("loc", own)
                out.append([n, ":"])
                if r.random() < 0.5: out.append(self.data(names + [n]))
            elif k < 0.5:
                n = self.local("tmp", own, False)
                out.append([n, "equ"] + r.choice([lambda: self.expr(names), lambda: self.data(names), lambda: self.expr(names) + [","] + self.expr(names)])())
                v = out[-1][2:]
                out.append([n] if v[0][0] == "." else [".word", n])
                if r.random() < 0.3: out.append([n] if v[0][0] == "." else [".byte", "1", "+", n])
            elif k < 0.56 and any(k2 == "l" for _, k2 in ps):
                n = r.choice([n for n, k2 in ps if k2 == "l"])
                if n not in own:
                    out.append([n, ":"])
                    own.append(n)
            elif k < 0.62 and any(k2 == "s" for _, k2 in ps):
                out.append([r.choice([".ascii", ".asciiz", ".byte"]), r.choice([n for n, k2 in ps if k2 == "s"])])
            elif k < 0.66 and any(k2 == "d" for _, k2 in ps):
                out.append([r.choice([n for n, k2 in ps if k2 == "d"])] + self.expr(names))
            elif k < 0.80 and d:
                c = self.expr(vals) if r.random() < 0.7 else self.expr(names)
                out.append([".if"] + c)
                out += self.body(ps, list(own), d - 1, callable_)
                if r.random() < 0.3:
                    out.append([".elseif"] + self.expr(vals or names))
                    out += self.body(ps, list(own), d - 1, callable_)
                if r.random() < 0.5:
                    out.append([".else"])
                    out += self.body(ps, list(own), d - 1, callable_)
                out.append([".endif"])
            elif k < 0.9 and callable_:
                out.append(self.call(r.choice(callable_), names, [n for n, k2 in ps if k2 == "s"], [n for n, k2 in ps if k2 == "l"]))
            elif k < 0.92: out.append([r.choice([".warning", ".notice"]), self.string()])
            elif k < 0.94: out.append([".definelabel", self.fresh("dl"), ","] + self.expr(vals))
            elif k < 0.96: out.append([".align", r.choice(["2", "4"])])
            elif k < 0.975:
                out += [[".area", "64", ",", "0xEE"]] + self.body(ps, list(own), 0, callable_) + [[".endarea"]]
            elif k < 0.985: out.append([".include", '"inc.asm"'])
            elif k < 0.992: out.append([r.choice([".psx", ".n64", ".nocash", ".erroronwarning"])])
            else: out.append([".fill", "("] + self.expr(vals) + [")", "&", "7"])
            if out and out[-1][0] in (".nocash", ".erroronwarning"): out[-1] = [out[-1][0], r.choice(["on", "off"])]
        return out
    def macro(self, sts, callable_):
        r = self.r
        name = self.fresh(r.choice(["mac", "Put_", ".m", "do"]))
        if self.macros and not self.good and r.random() < 0.05: name = r.choice(list(self.macros))
        if self.macros and r.random() < 0.2: name = r.choice(list(self.macros)) + "_loc1"
        while name in self.macros and self.good: name += "_"
        self.taken = []
        callable_ = [c for c in callable_ if c != name]
        ps = [(r.choice(["a", "b", "par", "x_", "@p", ".q"]) + str(i), r.choice("vvvvelsd")) for i in range(r.choice([0, 1, 1, 2, 2, 3]))]
        sts.append([".macro", name] + sum([[",", n] for n, _ in ps], []))
        own = []
        if r.random() < 0.12 and ps:
            # counts down
            p = ps[0][0]
            ps[0] = (p, "c")
            self.macros[name] = [k for _, k in ps]
            sts += self.body(ps[1:] + [(p, "v")], own, 0, callable_)
            sts.append([".byte", p])
            sts += [[".if", p, ">", "0"], [name, "(", p, ")", "-", "1"] + sum([[",", n] for n, _ in ps[1:]], []), [".endif"]]
        else:
            self.macros[name] = [k for _, k in ps]
            sts += self.body(ps, own, 2, callable_)
        # what follows a macro that is not accepted may be skipped
        sts += [[".endmacro"], [".byte", "0"]]
        return name
    def call(self, name, names, strs=(), labs=()):
        r = self.r
        a = []
        for k in self.macros[name]:
            if k == "c": x = [str(r.randrange(5))]
            elif k == "v": x = self.num() if r.random() < 0.5 else self.expr(names)
            elif k == "e": x = self.expr(names, 3)
            elif k == "s": x = [r.choice(strs)] if strs and r.random() < 0.7 else [self.string()]
            elif k == "d": x = [r.choice([".byte", ".word", ".halfword", ".d64"])]
            else:
                x = [self.fresh("arg")] if not labs or r.random() < 0.3 else [r.choice(labs)]
                if not labs: self.names.append(x[0])
            a += [","] + x
        a = a[1:]
        if not self.good and r.random() < 0.04:
            a = r.choice([a + [",", "5"], a[:-2], a[:-1], a + ["("], [], a + [","]])
            self.odd = True
            return Plain([" ".join([name] + a)])
        return [name] + a
    def program(self):
        r, f = self.r, self.f
        sts = f.srcs["main.asm"]
        sts += [[r.choice([".psx", ".psx", ".n64", ".gba", ".saturn"])], [".create", '"out.bin"', ",", r.choice(["0", "0x100", "0x80000000"])]]
        f.srcs["inc.asm"] = [[".byte", "0x49"]] + r.choice([[], [["@in", ":"], [".word", "@in"]], [["@in", "equ", "7"], [".byte", "@in"]], [["infile", ":"]], [[".macro", "frominc"], [".byte", "1"], [".endmacro"]]])
        defs = []
        for _ in range(r.choice([1, 2, 3, 4])):
            # macros may call macros that are defined later
            names = list(self.macros)
            defs.append([])
            self.macro(defs[-1], names)
        if r.random() < 0.2: r.shuffle(defs)
        if r.random() < 0.5: self.names.append("outer")
        k = r.randrange(len(defs) + 1)
        for d in defs[:k]: sts += d
        if "outer" in self.names and r.random() < 0.5: sts.append(["outer", ":"])
        late = [d for d in defs[k:]]
        calls = 0
        def some(depth):
            nonlocal calls
            res = []
            for _ in range(r.choice([1, 2, 3])):
                k = r.random()
                defined = [m for m in self.macros if any(s[:2] == [".macro", m] for s in sts)] if self.good else list(self.macros)
                if k < 0.6 and defined: res.append(self.call(r.choice(defined), self.names[-4:]))
                elif k < 0.7: res.append(self.data(self.names[-4:]))
                elif k < 0.8:
                    n = r.choice(["", "@", "@@"]) + self.fresh("lab")
                    res += [[n, ":"]] + ([[".word", n]] if r.random() < 0.5 else [])
                    if n[0] != "@": self.names.append(n)
                elif k < 0.9 and depth:
                    c = r.choice([["0"], ["1"], ["outer", ">", "4"], ["1", "==", "2"], ["org", "(", ")", ">=", "0x10"]])
                    res.append([".if"] + c)
                    res += some(depth - 1)
                    if r.random() < 0.4: res += [[".else"]] + some(depth - 1)
                    res.append([".endif"])
                elif k < 0.95:
                    n = self.fresh("gl")
                    res += [[n, "equ"] + self.expr(self.names[-2:])]
                    res.append([".word", n])
                else: res.append([".include", '"inc.asm"'])
            return res
        for _ in range(r.choice([2, 3, 4, 5])):
            x = some(2)
            # equs inside of blocks that are not decided are an error
            sts += x
            if late and r.random() < 0.7: sts += late.pop(0)
        for d in late: sts += d
        if ["outer", ":"] not in sts: sts.append(["outer", ":"])
        for n in set(self.names):
            if n.startswith("arg") and not self.good: pass
        sts.append([".close"])
        return f
def program11(seed):
    r = random.Random(seed)
    g = MacroGen(r)
    f = g.program()
    if r.random() < 0.3: hoist(f, r, r.choice([1, 2, 3]))
    return f

# --- conditional definitions ----------------------------------------------
class CondGen:
    """Equs, macros, functions and switches in taken and not taken branches."""
    def __init__(self, r):
        self.r, self.n = r, 0
        self.live = {}      # name -> kind of what is defined by now
    def const(self, want):
        """A constant condition with the wanted result."""
        r = self.r
        a, b = r.randrange(5), r.randrange(5)
        t = r.choice([("%d" % (a + 1), True), ("0", False), ("%d < %d" % (a, b), a < b), ("%d == %d" % (a, a + (b % 2)), b % 2 == 0), ('strlen("%s")' % ("x" * a), a > 0),
                      ("!%d" % a, a == 0), ("%d && %d" % (a, b), a > 0 and b > 0), ("(%d > %d) ? 0 : 1" % (a, b), not a > b), ("-%d" % a, a > 0), ('"a" == "%s"' % ("ab"[b % 2]), b % 2 == 0)])
        ts = toks(t[0])
        return ts if t[1] == want else ["!", "("] + ts + [")"]
    def define(self, ok):
        """A definition; ok: whether it is going to take effect."""
        r = self.r
        if ok:
            self.n += 1
            n, k = "n%d" % self.n, r.choice("eemf")
        else:
            n, k = (r.choice(["n%d" % i for i in range(1, self.n + 3)]), r.choice("eemf"))
            if self.live.get(n) == "e": k = "e"
        if ok: self.live[n] = k
        v = str(r.randrange(256))
        if k == "e": return [[n, "equ", v]]
        if k == "f": return [[".expfunc", n, "(", "p", ")", ",", "p", "+", v]]
        return [[".macro", n, ",", "p"], [".byte", "p", ",", v], [".endmacro"]]
    def use(self):
        r = self.r
        if not self.live: return [[".byte", str(r.randrange(256))]]
        n = r.choice(list(self.live))
        k = self.live[n]
        return [[".byte", n]] if k == "e" else [[".byte", n, "(", "1", ")"]] if k == "f" else [[n, "2"]]
    def block(self, ok, und, d):
        """ok: None when that depends on the layout."""
        r = self.r
        out = []
        for _ in range(r.choice([1, 2, 2, 3, 4])):
            k = r.random()
            if k < 0.3 and not (und and ok): out += self.define(ok)
            elif k < 0.55 or not d:
                out += self.use() if ok else r.choice([self.use, lambda: [["nowhere", "5"][:r.randrange(1, 3)] + [":"]] if False else [[".byte", "undef%d" % r.randrange(3)]]])()
            elif k < 0.62: out.append([r.choice([".warning", ".notice"]), '"m"'])
            elif k < 0.68 and not und: out.append([r.choice([".nocash", ".erroronwarning", ".psx", ".n64", ".gba"])])
            elif k < 0.72 and not ok: out.append(r.choice([['.include', '"none.asm"'], [".incbin", '"none.bin"'], [".error", '"e"'], [".loadtable", '"none.tbl"']]))
            elif k < 0.75 and ok and not und: out.append([".include", '"inc.asm"'])
            else: out += self.cond(ok, und, d - 1)
            if out and out[-1][0] in (".nocash", ".erroronwarning") and len(out[-1]) == 1: out[-1].append(r.choice(["on", "off"]))
        return out
    def cond(self, ok, und, d):
        r = self.r
        out = []
        taken = not ok
        lay = False
        n = r.choice([1, 1, 2, 3])
        for i in range(n):
            pre = ".else" if i else "."
            if r.random() < 0.25:
                out.append(r.choice([[pre + "if", "later", ">", r.choice(["4", "0x1000"])], [pre + "ifdef", r.choice(["later", "nolabel"])], [pre + "ifndef", r.choice(["later", "nolabel"])]]))
                lay = True
                # undecided: what is inside is read as if it were taken
                out += self.block(not taken and bool(ok), True, d)
            else:
                w = r.random() < 0.5
                out.append([pre + "if"] + self.const(w))
                out += self.block(bool(ok) and not taken and w, und or lay, d)
                if w: taken = True
        if r.random() < 0.5:
            out.append([".else"])
            out += self.block(bool(ok) and not taken, und or lay, d)
        out.append([".endif"])
        return out
    def program(self):
        r = self.r
        f = Front(r, r.choice([0, 0, 0.2, 0.5]))
        sts = f.srcs["main.asm"]
        f.srcs["inc.asm"] = [[".byte", "0x49"]]
        sts += [[".psx"], [".create", '"out.bin"', ",", "0"]]
        for _ in range(r.choice([2, 3, 4])):
            sts += self.cond(True, False, 3) if r.random() < 0.7 else self.block(True, False, 0)
        sts += self.use() + self.use()
        sts += [["later", ":"], [".close"]]
        return f
def program08(seed):
    return CondGen(random.Random(seed)).program()
