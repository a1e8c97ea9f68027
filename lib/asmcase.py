"""Programs as command lists (the input of spec/Asm.tla) and their rendering as assembler source."""
import copy, re

M64 = (1 << 64) - 1
def limbs(n):
    n &= M64
    return [n & 0xFFFF, (n >> 16) & 0xFFFF, (n >> 32) & 0xFFFF, (n >> 48) & 0xFFFF]
def unlimbs(l):
    v = l[0] | l[1] << 16 | l[2] << 32 | l[3] << 48
    return v - (1 << 64) if v >> 63 else v
def codes(s):
    return list(s.encode() if isinstance(s, str) else s)

# --- expressions ---------------------------------------------------------
def I(n): return {"k": "int", "v": limbs(n), "py": n}
def S(s): return {"k": "str", "v": codes(s)}
def F(m, e): return {"k": "flt", "m": limbs(m), "e": e, "py": m}
def FX(x, txt):
    """The double x, spelled txt."""
    import math
    m, e = math.frexp(x)
    return {"k": "flt", "m": limbs(int(m * (1 << 53))), "e": e - 53, "py": 0, "ftxt": txt}
def ID(n, sc="g"): return {"k": "id", "n": n.lower(), "sc": sc, "on": n, "cs": codes(n.lower())}
DOT = {"k": "dot"}
def UN(o, a): return {"k": "un", "o": o, "a": a}
def BIN(o, a, b): return {"k": "bin", "o": o, "a": a, "b": b}
def TERN(a, b, c): return {"k": "tern", "a": a, "b": b, "c": c}
def CALL(f, *a): return {"k": "call", "f": f, "a": list(a), "cs": codes(f)}
def DEG(a): return {"k": "deg", "a": a}
def UCALL(f, *a): return {"k": "ucall", "f": f.lower(), "a": list(a)}
def LAB(f, n=None, sc="g"):
    r = {"k": "lab", "f": f}
    if n is not None:
        r.update(n=n.lower(), sc=sc, on=n)
    return r

def strlit(cs):
    out = b'"'
    for c in cs:
        if c in (34, 92): out += b"\\"
        out += bytes([c])
    return (out + b'"').decode("utf-8", "surrogateescape")

def fltlit(m, e):
    from fractions import Fraction
    v = Fraction(m) * (Fraction(2) ** e)
    neg = v < 0
    v = abs(v)
    n = 0
    while v.denominator != 1 and n < 60:
        v *= 10
        n += 1
    s = str(v.numerator).rjust(n + 1, "0")
    s = s[:-n] + "." + s[-n:] if n else s + ".0"
    return "(-%s)" % s if neg else s

def intlit(n, rng=None):
    """A spelling of n that is always an operand of its own."""
    if n < 0:
        return "(-%s)" % intlit(-n, rng) if n != -(1 << 63) else "0x8000000000000000"
    k = rng.randrange(4) if rng else (0 if n < 10 else 1)
    if k == 0: return str(n) if n < (1 << 63) else "0x%x" % n
    if k == 1: return "0x%X" % n
    if k == 2: return ("0%xh" % n) if n > 9 else "0x%x" % n
    return "0x%x" % n

def expr(e, rng=None):
    k = e["k"]
    if k == "int": return intlit(e["py"], rng)
    if k == "str": return strlit(e["v"])
    if k == "flt": return e["ftxt"] if "ftxt" in e else fltlit(e["py"], e["e"])
    if k == "id": return e["on"]
    if k == "dot": return "."
    if k == "un": return "(%s%s)" % (e["o"], expr(e["a"], rng))
    if k == "bin": return "(%s %s %s)" % (expr(e["a"], rng), e["o"], expr(e["b"], rng))
    if k == "tern": return "(%s ? %s : %s)" % tuple(expr(e[x], rng) for x in "abc")
    if k in ("call", "ucall"): return "%s(%s)" % (e["f"], ",".join(expr(x, rng) for x in e["a"]))
    if k == "lab": return "%s(%s)" % (e["f"], e.get("on", ""))
    if k == "deg": return "(\u00b0(%s))" % expr(e["a"], rng)
    raise ValueError(k)

PREC = {"?": 0, "||": 1, "&&": 2, "|": 3, "^": 4, "&": 5, "==": 6, "!=": 6, "<": 7, "<=": 7, ">": 7, ">=": 7, "<<": 8, ">>": 8,
        "+": 9, "-": 9, "*": 10, "/": 10, "%": 10}
def bare(e, rng, lvl=0):
    """A spelling with only the parentheses C needs (and now and then more)."""
    k = e["k"]
    sp = lambda: rng.choice(["", " ", " ", "  "])
    def wrap(t, p): return "(" + t + ")" if p < lvl or rng.random() < 0.05 else t
    if k == "int":
        n = e["py"]
        if n < 0 and n != -(1 << 63):
            # a minus sign takes an operand of its own
            return wrap("-" + sp() + intlit(-n, rng), 11)
        return intlit(n, rng)
    if k == "flt":
        return expr(e, rng)
    if k == "bin":
        p = PREC[e["o"]]
        a, b = bare(e["a"], rng, p), bare(e["b"], rng, p + 1)
        s1, s2 = rng.choice([(" ", " "), (" ", " "), ("", ""), ("  ", " ")])
        if a.endswith("."): s1 = " "
        if b.startswith("."): s2 = " "
        return wrap(a + s1 + e["o"] + s2 + b, p)
    if k == "un":
        return wrap(e["o"] + bare(e["a"], rng, 12), 11)
    if k == "tern":
        return wrap(bare(e["a"], rng, 1) + " ? " + bare(e["b"], rng, 0) + " : " + bare(e["c"], rng, 0), 0)
    if k in ("call", "ucall"):
        return "%s(%s)" % (e["f"], ("," + sp()).join(bare(x, rng, 0) for x in e["a"]))
    if k == "deg":
        return wrap("\u00b0" + bare(e["a"], rng, 12), 11)
    return expr(e, rng)

def strip(o):
    """Drop the fields the specification does not read."""
    if isinstance(o, dict):
        return {k: strip(v) for k, v in o.items() if k not in ("py", "ftxt", "enc", "txt", "kw", "elif", "endkw")}
    if isinstance(o, list):
        return [strip(x) for x in o]
    return o

# --- symbol file and listing -------------------------------------------
def parse_sym(b):
    """[[address, text], ...]; anything unexpected becomes an entry no specification allows."""
    ls = b.split(b"\n")
    res = []
    if not ls or ls[0] != b"00000000 0" or ls[-1] != b"\x1a": res.append([limbs(0), codes("bad frame")])
    for l in ls[1:-1]:
        m = re.match(rb"^([0-9A-F]{8,16}) (.*)$", l)
        res.append([limbs(int(m.group(1), 16)), list(m.group(2))] if m else [limbs(0), codes("bad line")])
    return res

def parse_list(b, names):
    """Rows as word and arguments: numbers as limbs, names as character codes."""
    res = []
    for l in b.decode("utf-8-sig", "replace").split("\n"):
        if l == "" or l.startswith(";"): continue
        m = re.match(r"^([0-9A-F]{8}) (.*?) *; (\S+) line (\d+)$", l)
        if not m:
            res.append({"a": limbs(0), "w": "bad row", "x": [codes(l)], "f": -2, "l": 0})
            continue
        t = m.group(2).strip()
        if t.endswith(":") and not t.startswith(".byte"):
            w, x = "label", [codes(t[:-1])]
        else:
            w, _, rest = t.partition(" ")
            x = []
            for a in re.findall(r'"[^"]*"|[^,]+', rest):
                a = a.replace(" ", "")
                if a.startswith('"'): x.append(codes(a[1:-1].split("/")[-1]))
                else:
                    n = re.match(r"^(-?)0x([0-9A-Fa-f]+)$", a)
                    x.append(limbs(int(n.group(2), 16) * (-1 if n.group(1) else 1)) if n else codes(a))
        n = m.group(3).split("/")[-1]
        res.append({"a": limbs(int(m.group(1), 16)), "w": w, "x": x, "f": names.index(n) if n in names else -2, "l": int(m.group(4))})
    return res

# --- programs ------------------------------------------------------------
DATA = {"b": [".byte", ".db", "db", ".d8", ".dcb", "dcb"], "16": [".d16"], "32": [".d32"], "64": [".d64"],
        "half": [".halfword", ".hword", ".dh", "dh", ".dcw", "dcw"], "word": [".word", ".dw", "dw", ".dcd", "dcd"],
        "dword": [".doubleword", ".dword", ".dd", "dd", ".dcq", "dcq"]}

class Prog:
    """Builds the flat command list; blocks by nested calls."""
    def __init__(self, rng=None):
        self.c = []
        self.rng = rng
        self.files = {}      # input files
        self.labels = []     # command line labels
        self.funcs = {}
        self.eow = False
        self.log = 0         # symbol file format to write, with a listing
        self.bare = False    # spell expressions without needless parentheses
        self.args = []
    def add(self, op, **kw):
        d = {"op": op}
        d.update(kw)
        self.c.append(d)
        return len(self.c)   # 1-based index
    # layout ---------------------------------------------------------------
    def render(self, rng=None):
        """Assigns lines and returns {source name: text}."""
        rng = rng or self.rng
        names = ["main.asm"]
        lines = {"main.asm": []}
        stack = ["main.asm"]
        def out(t):
            lines[stack[-1]].append(t)
            return len(lines[stack[-1]])
        E = (lambda e: bare(e, rng)) if self.bare else (lambda e: expr(e, rng))
        pick = lambda l: rng.choice(l) if rng else l[0]
        for i, c in enumerate(self.c, 1):
            op = c["op"]
            t = None
            if op == "label": t = c["on"] + ":"
            elif op == "def": t = ".definelabel %s,%s" % (c["on"], E(c["e"]))
            elif op in ("org", "orga"): t = pick([".", ""]) + "%s %s" % (op, E(c["e"]))
            elif op == "hdr": t = ".headersize " + E(c["e"])
            elif op == "skip": t = ".skip " + E(c["e"])
            elif op in ("align", "aligna", "fill"):
                kw = "." + op if op != "fill" else pick([".fill", "defs"])
                t = kw + (" " + E(c["e"]) if "e" in c else "") + ("," + E(c["fv"]) if "fv" in c else "")
            elif op == "incbin":
                t = pick([".incbin", ".import"]) + ' "%s"' % c["name"] + ("," + E(c["e"]) if "e" in c else "") + ("," + E(c["fv"]) if "fv" in c else "")
            elif op == "table": t = pick([".loadtable", ".table"]) + ' "%s"' % c["name"] + (',"%s"' % c["enc"] if "enc" in c else "")
            elif op == "nocash": t = ".nocash " + ("on" if c["on"] else "off")
            elif op == "data":
                if "txt" in c: t = c["txt"]
                elif "dir" in c: t = (c["dir"].upper() if rng and rng.random() < 0.1 else c["dir"]) + " " + ",".join(E(e) for e in c["es"])
                else:
                    kw = c.get("kw") or {"n": pick(DATA[c["w"]]), "a": ".ascii", "z": ".asciiz", "f": ".float" if c["w"] == "32" else ".double"}[c["t"]]
                    t = kw + " " + ",".join(E(e) for e in c["es"])
            elif op == "raw": t = c["txt"]
            elif op in ("open", "create", "copy"):
                h = intlit(c["hvpy"], rng)
                if op == "copy": t = pick([".open", ".openfile"]) + ' "%s","%s",%s' % (c["srcname"], c["name"], h)
                else: t = pick(["." + op, "." + op + "file"]) + ' "%s",%s' % (c["name"], h)
            elif op == "close": t = pick([".close", ".closefile"])
            elif op == "if":
                pre = ".else" if c.get("elif") else "."
                t = pre + c["c"] + " " + (E(c["e"]) if c["c"] == "if" else c["on"])
            elif op == "else":
                if not c.get("elif"): t = ".else"
            elif op == "endif":
                if not c.get("elif"): t = ".endif"
            elif op == "area":
                if "p" in c: t = ".defineregion %s,%s" % (E(c["p"]), E(c["e"])) + ("," + E(c["fv"]) if "fv" in c else "")
                else: t = (".region " if c["sh"] else ".area ") + E(c["e"]) + ("," + E(c["fv"]) if "fv" in c else "")
            elif op == "endarea":
                b = self.c[c["b"] - 1]
                if "p" not in b: t = ".endregion" if b["sh"] else ".endarea"
            elif op == "auto":
                t = ".autoregion" + (" " + E(c["mn"]) if "mn" in c else "") + ("," + E(c["mx"]) if "mx" in c else "")
            elif op == "endauto": t = ".endautoregion"
            elif op == "func": t = pick([".func", ".function"]) + " " + c["on"]
            elif op == "endfunc": t = pick([".endfunc", ".endfunction"])
            elif op == "msg": t = {"w": ".warning", "e": ".error", "n": ".notice"}[c["sev"]] + " " + E(c["e"])
            elif op == "arch": t = "." + c["a"]
            elif op == "eow": t = ".erroronwarning " + ("on" if c["on"] else "off")
            elif op == "symsw": t = ".sym " + ("on" if c["on"] else "off")
            elif op == "inc":
                t = '.include "%s"' % c["name"]
            elif op == "txt": t = c["txt"]
            elif op == "endinc": pass
            else: raise ValueError(op)
            if op == "endinc":
                stack.pop()
                c["f"], c["l"] = names.index(stack[-1]), 1
                continue
            if t is not None:
                ln = out(t)
            else:
                ln = self.c[c["b"] - 1]["l"] if op == "endarea" else len(lines[stack[-1]])
            c["f"], c["l"] = names.index(stack[-1]), ln
            if op == "inc":
                stack.append(c["name"])
                if c["name"] not in names:
                    names.append(c["name"])
                lines[c["name"]] = []
        self.names = names
        return {n: ("\n".join(l) + "\n").encode() for n, l in lines.items()}
    def finish(self):
        """Matches block begin and end markers."""
        st = []
        for i, c in enumerate(self.c, 1):
            op = c["op"]
            if op == "if": st.append([i, None])
            elif op == "else": st[-1][1] = i
            elif op == "endif":
                b, e = st.pop()
                self.c[b - 1]["en"] = i
                self.c[b - 1]["el"] = e or i
                if e: self.c[e - 1]["en"] = i
            elif op in ("area", "auto", "func", "inc"): st.append([i, None])
            elif op in ("endarea", "endauto", "endfunc", "endinc"):
                b, _ = st.pop()
                self.c[b - 1]["en"] = i
                c["b"] = b
        assert not st
        return self
    def job(self, binary):
        self.finish()
        src = self.render()
        args = list(self.args)
        j = {"binary": binary, "src": src, "main": "main.asm", "files": self.files, "args": args, "names": self.names}
        if self.eow: args.append("-erroronwarning")
        for l in self.labels:
            args += ["-definelabel", l["on"], "0x%x" % (unlimbs(l["v"]) & M64) if unlimbs(l["v"]) >= 0 else str(unlimbs(l["v"]))]
        if self.log:
            args += ["-sym" if self.log == 1 else "-sym2", "out.sym", "-temp", "out.temp"]
            j["sym"], j["temp"] = "out.sym", "out.temp"
        return j
    def case(self, obs):
        fs = [{"codes": codes(n), "data": list(b)} for n, b in self.files.items()]
        o = {"rc": obs["rc"] if obs["rc"] in (0, 1) else 2, "d": obs["d"],
             "files": [{"codes": codes(n), "data": list(b)} for n, b in sorted(obs["files"].items())]}
        prog = strip(self.c)
        if self.log:
            o.update(hassym=obs["sym"] is not None, haslst=obs["temp"] is not None, sym=parse_sym(obs["sym"] or b""), lst=parse_list(obs["temp"] or b"", self.names))
            for c in prog:
                if c["op"] in ("label", "def", "func"): c["oc"], c["lc"] = codes(c["on"]), codes(c["on"].lower())
        for c in prog:
            for k in ("on", "name", "srcname", "hvpy") if c["op"] not in ("eow", "symsw", "nocash") else ():
                c.pop(k, None)
        return {"prog": prog, "files": fs, "labels": [{"n": l["n"], "sc": l["sc"], "v": l["v"], "oc": codes(l["on"])} for l in self.labels],
                "funcs": self.funcs, "eow": self.eow, "log": self.log, "obs": o}
