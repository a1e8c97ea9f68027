"""Writes ELF objects and ar archives from a description.
obj = {"name", "machine", "big", "sections": [{"name","type","flags","align","size","data","rels":[{"off","type","sym","add"}],"rela"}], "syms": [{"name","value","size","bind","type","sec"}]}
sections are numbered from 1, symbols from 1; sec 0 undefined, 0xFFF1 absolute, 0xFFF2 common."""
import struct

def elf(o, order="hstr"):
    E = ">" if o["big"] else "<"
    secs = [dict(s) for s in o["sections"]]
    n = len(secs)
    rels = [(i + 1, s) for i, s in enumerate(secs) if s.get("rels")]
    symidx = n + len(rels) + 1
    stridx, shstridx = symidx + 1, symidx + 2
    strtab, shstr = b"\0", b"\0"
    sym = b"\0" * 16
    first = len(o["syms"]) + 1
    for i, s in enumerate(o["syms"]):
        if s["name"]:
            nm = len(strtab); strtab += s["name"].encode() + b"\0"
        else: nm = 0
        if s["bind"] != 0: first = min(first, i + 1)
        sym += struct.pack(E + "IIIBBH", nm, s["value"], s["size"], s["bind"] << 4 | s["type"], 0, s["sec"])
    allsec = [dict(name="", type=0, flags=0, align=0, size=0, data=b"", link=0, info=0, ent=0)]
    for s in secs: allsec.append(dict(name=s["name"], type=s["type"], flags=s["flags"], align=s["align"], size=s["size"], data=bytes(s["data"]) if s["type"] != 8 else b"", link=0, info=0, ent=0))
    for i, s in rels:
        ra = bool(s.get("rela"))
        d = b""
        for r in s["rels"]:
            d += struct.pack(E + "II", r["off"], r["sym"] << 8 | r["type"]) + (struct.pack(E + "i", r["add"]) if ra else b"")
        allsec.append(dict(name=(".rela" if ra else ".rel") + s["name"], type=4 if ra else 9, flags=0, align=4, size=len(d), data=d, link=symidx, info=i, ent=12 if ra else 8))
    allsec.append(dict(name=".symtab", type=2, flags=0, align=4, size=len(sym), data=sym, link=stridx, info=first, ent=16))
    allsec.append(dict(name=".strtab", type=3, flags=0, align=1, size=len(strtab), data=strtab, link=0, info=0, ent=0))
    allsec.append(dict(name=".shstrtab", type=3, flags=0, align=1, size=0, data=b"", link=0, info=0, ent=0))
    for s in allsec:
        s["nm"] = 0 if not s["name"] else len(shstr)
        if s["name"]: shstr += s["name"].encode() + b"\0"
    allsec[-1]["data"], allsec[-1]["size"] = shstr, len(shstr)
    shtab_first = o.get("shfirst")
    pos = 52 + (40 * len(allsec) if shtab_first else 0)
    body = b""
    for s in allsec[1:]:
        pad = -(pos + len(body)) % 4
        body += b"\0" * pad
        s["off"] = pos + len(body)
        body += s["data"]
    body += b"\0" * (-(pos + len(body)) % 4)
    shoff = 52 if shtab_first else pos + len(body)
    sh = b""
    for s in allsec:
        sh += struct.pack(E + "10I", s["nm"], s["type"], s["flags"], 0, s.get("off", 0), s["size"], s["link"], s["info"], s["align"], s["ent"])
    eh = b"\x7fELF" + bytes([1, 2 if o["big"] else 1, 1]) + b"\0" * 9
    eh += struct.pack(E + "HHIIIIIHHHHHH", o.get("etype", 1), o["machine"], 1, 0, 0, shoff, 0, 52, 0, 0, 40, len(allsec), shstridx)
    return eh + (sh + body if shtab_first else body + sh)

def ar(members):
    """members: [(name, bytes)]"""
    out = b"!<arch>\n"
    for n, d in members:
        out += n.encode().ljust(16) + b"0".ljust(12) + b"0".ljust(6) + b"0".ljust(6) + b"644".ljust(8) + str(len(d)).encode().ljust(10) + b"`\n" + d
        if len(d) % 2: out += b"\n"
    return out

# --- PlayStation objects ------------------------------------------------------
def pstr(n): return bytes([len(n)]) + n.encode("latin-1")
def lnk(o):
    """o: segs [{id, name, chunks: [{data} or {zeros}], with rels [{off, type, neg, add, id or seg, pos}]}], records in the order of o["order"];
    psyms [{kind, id, seg, off, size, name}], noise: bytes of records without a meaning here."""
    b = b"LNK\x02\x2e\x07"
    def syms():
        r = b""
        for y in o["psyms"]:
            k = y["kind"]
            if k == "ext": r += struct.pack("<BH", 0x0E, y["id"])
            elif k == "int": r += struct.pack("<BHI", 0x12, y["seg"], y["off"])
            elif k == "intid": r += struct.pack("<BHHI", 0x0C, y["id"], y["seg"], y["off"])
            elif k == "bss": r += struct.pack("<BHHI", 0x30, y["id"], y["seg"], y["size"])
            elif k == "func": r += struct.pack("<BHI", 0x4A, y["seg"], y["off"]) + b"\0" * 22
            r += pstr(y["name"])
            if k == "func" and o.get("sizes"): r += struct.pack("<BHII", 0x4C, y["seg"], y["off"] + y["size"], 9)
        return r
    for s in o["segs"]: b += struct.pack("<BI", 0x10, s["id"]) + b"\x08" + pstr(s["name"])
    b += o.get("noise", b"")
    if not o.get("symslast"): b += syms()
    for s in o["segs"]:
        b += struct.pack("<BH", 0x06, s["id"])
        for c in s["chunks"]:
            if "zeros" in c: b += struct.pack("<BH", 0x08, c["zeros"])
            else: b += struct.pack("<BH", 0x02, len(c["data"])) + bytes(c["data"])
            for r in c.get("rels", []):
                b += struct.pack("<BBH", 0x0A, r["type"], r["off"])
                if r["add"]: b += struct.pack("<BBI", 0x2E if r["add"] < 0 else 0x2C, 0, abs(r["add"]))
                if "seg" in r: b += struct.pack("<BBHBI", 0x2C, 4, r["seg"], 0, r["pos"])
                else: b += struct.pack("<BH", 2, r["id"])
    if o.get("symslast"): b += syms()
    return b + b"\0" * o.get("end", 1)
def plib(members):
    b = b"LIB\x01"
    for name, names, d in members:
        n = b"".join(pstr(x) for x in names) + b"\0"
        b += name.encode().ljust(16) + struct.pack("<I", 20 + len(n) + len(d)) + n + d
    return b
