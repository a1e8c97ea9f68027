-------------------------------- MODULE Mips --------------------------------
(***************************************************************************)
(* MIPS instructions (R3000, R4000, EmotionEngine, Allegrex with VFPU,     *)
(* RSP): which statement has which encoding.  The table mips_table.json    *)
(* lists per mnemonic the operand patterns, fixed bits, processors and     *)
(* properties; this module says what the operand letters mean.             *)
(***************************************************************************)
EXTENDS Isa

MT == CachedTable("mips_table.json")
MReg(cls, nm) == IF nm \in DOMAIN MT.regs[cls] THEN MT.regs[cls][nm] ELSE -1

\* processors: instruction sets, excluding bit, features (64 bit, fpu, double fpu)
MArch == [psx |-> [s |-> 17, x |-> 4096, f |-> 0], n64 |-> [s |-> 7, x |-> 8192, f |-> 28672],
          ps2 |-> [s |-> 71, x |-> 16384, f |-> 12288], psp |-> [s |-> 135, x |-> 32768, f |-> 8192],
          rsp |-> [s |-> 257, x |-> 65536, f |-> 0]]
MBig(a) == a \in {"n64", "rsp"}
Fl(e, b) == (e.fl \div P2[b]) % 2 = 1
Avail(a, e) == /\ (e.ar & MArch[a].s) # 0
               /\ (e.ar & MArch[a].x) = 0
               /\ (e.fl & 28672) = ((e.fl & 28672) & MArch[a].f)

\* VFPU register: bank x, column y, row z; m: c/r vectors, s single, m/e matrices; -1: not for this size
VReg(o, size) ==
  LET m == o.m
      col == IF m = "r" THEN o.z ELSE o.y
      row == IF m = "r" THEN o.y ELSE o.z
      tr == IF m \in {"r", "e"} THEN 32 ELSE 0
      half == IF size = 2 THEN (IF row < 2 THEN row * 2 ELSE -1) ELSE IF row % 2 = 0 THEN row ELSE -1
      rr == IF m = "s" THEN (IF size = 0 THEN row ELSE -1) ELSE IF size \in 1..3 THEN half ELSE -1
      num(r) == o.x * 4 + col + ((r * 32) | tr)
  IN IF o.x > 7 \/ o.y > 3 \/ o.z > 3 \/ rr < 0 THEN -1 ELSE num(rr)
VSize(e) == IF e.sz >= 0 THEN e.sz
            ELSE IF Fl(e, 19) THEN 0 ELSE IF Fl(e, 22) THEN 1 ELSE IF Fl(e, 23) THEN 2 ELSE IF Fl(e, 20) THEN 3 ELSE -1
VActual(p, sz) ==
  CASE p \in {"vSd", "vSs", "vSt"} -> 0
    [] p = "vHd" -> IF sz = 1 THEN 0 ELSE IF sz = 3 THEN 1 ELSE -1
    [] p = "vDd" -> IF sz = 0 THEN 1 ELSE IF sz = 1 THEN 3 ELSE -1
    [] p = "vFd" -> IF sz = 3 THEN 0 ELSE -1
    [] p = "vQd" -> IF sz = 0 THEN 3 ELSE -1
    [] OTHER -> sz

\* rotation prefix: elements c, s, -s, 0 of a vector
VRot(es, sz) ==
  LET n == Len(es)
      C == {i \in 1..n : es[i] = "c"}
      SP == {i \in 1..n : es[i] = "s"}
      SN == {i \in 1..n : es[i] = "-s"}
      S == SP \cup SN
      k == Cardinality(S)
      neg == IF SN # {} THEN 16 ELSE 0
      c == (CHOOSE i \in C : TRUE) - 1
      s == (CHOOSE i \in S : TRUE) - 1
  IN IF n # sz + 1 \/ Cardinality(C) > 1 \/ (SP # {} /\ SN # {}) \/ (C = {} /\ S = {}) THEN -1
     ELSE IF S = {} THEN (IF n = 4 THEN -1 ELSE c + 4 * n)
     ELSE IF C = {} THEN (IF n = 4 THEN -1 ELSE IF k = 1 THEN neg + n + 4 * s ELSE IF k = n THEN neg + n + 4 * n ELSE -1)
     ELSE IF k = 1 THEN neg + c + 4 * s
     ELSE IF k + 1 = n THEN neg + c + 4 * c ELSE -1

VPfxConst == [c \in {"0", "1", "2", "1/2", "3", "1/3", "1/4", "1/6"} |->
              CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "1/2" -> 3 [] c = "3" -> 4 [] c = "1/3" -> 5 [] c = "1/4" -> 6 [] c = "1/6" -> 7]
RECURSIVE VPfx(_, _, _)
VPfx(es, i, w) ==
  IF i > 4 THEN w
  ELSE LET x == es[i] k == i - 1
           c == IF x.r < 0 THEN VPfxConst[x.c] ELSE 0
           a == IF x.r >= 0 THEN x.r * P2[2 * k] + (IF x.a THEN P2[8 + k] ELSE 0)
                ELSE P2[12 + k] + (c % 4) * P2[2 * k] + (c \div 4) * P2[8 + k]
       IN VPfx(es, i + 1, w + a + (IF x.n THEN P2[16 + k] ELSE 0))
RECURSIVE VPfxD(_, _, _)
VPfxD(es, i, w) ==
  IF i > 4 THEN w
  ELSE VPfxD(es, i + 1, w + (CASE es[i] = "m" -> P2[7 + i] [] es[i] = "0:1" -> P2[2 * (i - 1)] [] es[i] = "-1:1" -> 3 * P2[2 * (i - 1)] [] OTHER -> 0))

\* bits of the half float m * 2^e, m < 2048
RECURSIVE Half(_, _)
Half(m, e) ==
  IF m = 0 THEN 0
  ELSE IF m < 1024 /\ e > -24 THEN Half(m * 2, e - 1)
  ELSE IF m >= 1024 THEN (e + 25) * 1024 + (m - 1024)
  ELSE m                                     \* denormal: e = -24

NoF == [s |-> -1, t |-> -1, d |-> -1, S |-> -1, T |-> -1, D |-> -1, Vt |-> -1, Rs |-> -1, Rt |-> -1, Rd |-> -1,
        Re |-> -1, Rm |-> -1, Ro |-> -1, vs |-> -1, vt |-> -1, vd |-> -1, C |-> -1,
        imm |-> [k |-> "none"], it |-> "", sec |-> [k |-> "none"], st |-> "", jb |-> -1, w |-> -1, wt |-> ""]

\* register of a class: by name, or by number where numbers are allowed
RegOf(o, cls, num) == IF o.k = "reg" THEN MReg(cls, o.nm) ELSE IF o.k = "num" /\ num /\ o.n < 32 THEN o.n ELSE -1
GprLike(o) == (o.k = "num" /\ o.n < 32) \/ (o.k = "reg" /\ MReg("gpr", o.nm) >= 0)
IsImm(o) == o.k \in {"imm", "hf", "vr"} \/ (o.k = "reg" /\ ~GprLike(o))      \* other names are symbols
SetF(f, key, v) == IF v < 0 THEN <<>> ELSE <<[f EXCEPT ![key] = v]>>
ElNum(o) == IF o.t = "" THEN o.n ELSE MReg("el", o.t)

\* matches pattern from position i with operands from j; <<fields>> or <<>>
RECURSIVE Match(_, _, _, _, _, _)
Match(e, pat, i, os, j, f) ==
  IF i > Len(pat) THEN (IF j > Len(os) THEN <<f>> ELSE <<>>)
  ELSE
  LET p == pat[i]
      none == j > Len(os)
      o == IF none THEN [k |-> "end"] ELSE os[j]
      sz == VSize(e)
      go(r) == IF r = <<>> THEN <<>> ELSE Match(e, pat, i + 1, os, j + 1, r[1])
      stay(r) == Match(e, pat, i + 1, os, j, r)
      vec(key, want6, q) == IF o.k # "vr" \/ (o.m \in {"m", "e"}) THEN <<>>
               ELSE LET a == VActual(q, sz) n == IF a < 0 THEN -1 ELSE VReg(o, a) IN
                    IF n < 0 \/ (Fl(e, 18) /\ n >= 64) THEN <<>> ELSE SetF(f, key, n)
      mat(key) == IF o.k # "vr" \/ ~(o.m \in {"m", "e"}) THEN <<>>
               ELSE LET n == VReg(o, sz) IN
                    IF n < 0 THEN <<>> ELSE SetF(f, key, IF key = "vs" /\ Fl(e, 21) THEN n ^^ 32 ELSE n)
  IN
  CASE p \in {",", "(", ")"} -> IF o.k = "sym" /\ o.c = p THEN go(<<f>>) ELSE <<>>
    [] p \in {"s", "t", "d"} -> go(SetF(f, p, RegOf(o, "gpr", TRUE)))
    [] p \in {"S", "T", "D"} -> go(SetF(f, p, RegOf(o, "fpr", TRUE)))
    [] p = "f" -> go(SetF(f, "S", RegOf(o, "fcr", TRUE)))
    [] p = "z" -> go(SetF(f, "d", RegOf(o, "cop0", TRUE)))
    [] p = "gs" -> go(SetF(f, "d", RegOf(o, "psxd", TRUE)))
    [] p = "gt" -> go(SetF(f, "t", RegOf(o, "psxd", TRUE)))
    [] p = "gc" -> go(SetF(f, "d", RegOf(o, "psxc", TRUE)))
    [] p = "Rz" -> go(SetF(f, "d", RegOf(o, "rspc0", TRUE)))
    [] p = "Rc" -> go(SetF(f, "d", RegOf(o, "rspvc", TRUE)))
    [] p \in {"Rs", "Rt", "Rd"} -> go(SetF(f, p, RegOf(o, "rspv", FALSE)))
    [] p = "Vt" -> go(SetF(f, p, RegOf(o, "vf", FALSE)))
    [] p = "r0" -> IF RegOf(o, "gpr", TRUE) = 0 THEN go(<<f>>) ELSE <<>>
    [] p = "Re" -> IF o.k = "el" THEN (IF o.d /\ o.n < 16 THEN go(SetF(f, "Re", o.n)) ELSE IF ~o.d THEN go(SetF(f, "Re", MReg("el", o.t))) ELSE <<>>)
                   ELSE stay([f EXCEPT !.Re = 0])
    [] p \in {"Rl", "Rm"} -> IF o.k = "el" /\ ~o.d /\ o.i /\ o.n < 8 THEN go(SetF(f, IF p = "Rl" THEN "Re" ELSE "Rm", o.n + 8)) ELSE <<>>
    [] p = "Ro" -> IF o.k = "el" THEN (IF ~o.d /\ o.i /\ o.n < 16 THEN go(SetF(f, "Ro", o.n)) ELSE <<>>)
                   ELSE stay([f EXCEPT !.Ro = 0])
    [] p \in {"vs", "vSs"} -> go(vec("vs", TRUE, p))
    [] p \in {"vt", "vSt"} -> go(vec("vt", TRUE, p))
    [] p \in {"vd", "vSd", "vHd", "vDd", "vFd", "vQd"} -> go(vec("vd", TRUE, p))
    [] p = "ms" -> go(mat("vs"))
    [] p = "mt" -> go(mat("vt"))
    [] p = "md" -> go(mat("vd"))
    [] p = "vc" -> go(SetF(f, "vd", IF o.k = "reg" THEN MReg("vctl", o.nm) ELSE IF o.k = "imm" /\ o.b = "abs" /\ Small(o.v) /\ ToInt(o.v) \in 0..15 THEN ToInt(o.v) ELSE -1))
    [] p = "C" -> go(SetF(f, "C", IF o.k = "reg" THEN MReg("vcond", o.nm) ELSE -1))
    [] p = "w" -> IF o.k = "reg" /\ o.nm = "wb" THEN go(<<f>>) ELSE <<>>
    [] p = "jb" -> go(SetF(f, "jb", IF o.k = "reg" THEN MReg("cb", o.nm) ELSE IF o.k = "imm" /\ o.b = "abs" /\ Small(o.v) /\ ToInt(o.v) \in 0..5 THEN ToInt(o.v) ELSE -1))
    [] p = "Wr" -> IF o.k = "vrot" THEN go(LET n == VRot(o.e, sz) IN IF n < 0 THEN <<>> ELSE <<[f EXCEPT !.w = n, !.wt = "i5"]>>) ELSE <<>>
    [] p = "Ws" -> IF o.k = "vpfx" THEN go(<<[f EXCEPT !.w = VPfx(o.e, 1, 0), !.wt = "p0"]>>) ELSE <<>>
    [] p = "Wd" -> IF o.k = "vpfxd" THEN go(<<[f EXCEPT !.w = VPfxD(o.e, 1, 0), !.wt = "p0"]>>) ELSE <<>>
    [] p = "Wc" -> IF o.k = "vcst" /\ o.t \in DOMAIN MT.regs.vcst THEN go(<<[f EXCEPT !.w = MT.regs.vcst[o.t], !.wt = "i5"]>>) ELSE <<>>
    [] p \in {"jc", "je", "ji"} -> IF IsImm(o) THEN go(<<[f EXCEPT !.sec = o, !.st = p]>>) ELSE <<>>
    [] p \in {"i3", "i5", "i7", "i10", "i16", "i20", "i25", "i26", "ih"} -> IF IsImm(o) THEN go(<<[f EXCEPT !.imm = o, !.it = p]>>) ELSE <<>>
    [] OTHER -> <<>>

\* omitted registers repeat a written one
Omit(e, f) ==
  LET a == IF Fl(e, 2) THEN [f EXCEPT !.d = f.s] ELSE f
      b == IF Fl(e, 3) THEN [a EXCEPT !.t = a.s] ELSE a
      c == IF Fl(e, 4) THEN [b EXCEPT !.t = b.d] ELSE b
      d == IF Fl(e, 9) THEN [c EXCEPT !.D = c.S] ELSE c
  IN IF Fl(e, 24) THEN [d EXCEPT !.Rd = d.Rs] ELSE d

\* the first pattern of the mnemonic that this processor has and that fits: <<entry, fields>> or <<>>
RECURSIVE Pick(_, _, _, _)
Pick(a, es, i, os) ==
  IF i > Len(es) THEN <<>>
  ELSE LET r == IF Avail(a, es[i]) THEN Match(es[i], es[i].pat, 1, os, 1, NoF) ELSE <<>> IN
       IF r # <<>> THEN <<es[i], Omit(es[i], r[1])>> ELSE Pick(a, es, i + 1, os)
MPick(a, nm, os) == IF nm \in DOMAIN MT.ops THEN Pick(a, MT.ops[nm], 1, os) ELSE <<>>

Bits == [i3 |-> 3, i5 |-> 5, i7 |-> 7, i10 |-> 10, i16 |-> 16, i20 |-> 20, i25 |-> 25, i26 |-> 26, ih |-> 16]

\* a number for an immediate of n bits: <<"ok"|"may"|"no", field>>
FitBits(v, n) ==
  LET w == IF Upper32(v) THEN Wrap32(v) ELSE v
      x == ToInt(w) IN
  IF ~Is32(v) \/ ~Small(w) THEN <<"no", 0>>
  ELSE IF x >= P2[n] \/ x < -P2[n - 1] THEN <<"no", 0>>
  ELSE <<IF x < 0 /\ (n # 16 \/ Upper32(v)) THEN "may" ELSE "ok", Low(x, n)>>

\* val: value of an immediate operand, <<>> when it is no integer
MImm(e, f, addr, val) ==
  IF f.it = "ih" THEN (IF f.imm.k = "hf" THEN <<"ok", Half(f.imm.m, f.imm.e) + (IF f.imm.n THEN 32768 ELSE 0)>>
                       ELSE IF val = <<>> \/ ~Small(val[1]) THEN <<"no", 0>>
                       ELSE LET x == ToInt(val[1]) IN IF x \in -2047..2047 THEN <<"ok", Half(IF x < 0 THEN -x ELSE x, 0) + (IF x < 0 THEN 32768 ELSE 0)>> ELSE <<"may", -1>>)
  ELSE IF val = <<>> \/ ~Is32(val[1]) THEN <<"no", 0>>
  ELSE LET v == val[1] IN
  IF Fl(e, 10) /\ v[1] % 4 # 0 THEN <<"no", 0>>
  ELSE IF Fl(e, 11) THEN
    (LET w == Wrap32(v) x == ToInt(w) IN
     IF ~Small(w) \/ x >= 65536 \/ x <= -65536 THEN <<"no", 0>>
     ELSE <<IF x > -32768 /\ x <= 32768 /\ ~Upper32(v) THEN "ok" ELSE "may", Low(-x, 16)>>)
  ELSE IF Fl(e, 0) THEN
    (IF v[1] % 4 # 0 THEN <<"no", 0>>
     ELSE <<IF v[2] \div 4096 = Add(addr, V(4))[2] \div 4096 THEN "ok" ELSE "may", (v[1] \div 4) + (v[2] % 4096) * 16384>>)
  ELSE IF Fl(e, 1) THEN
    (LET d == Wrap32(Sub(v, Add(addr, V(4)))) x == ToInt(d) IN
     IF ~Small(d) \/ x < -131072 \/ x >= 131072 \/ x % 4 # 0 THEN <<"no", 0>> ELSE <<"ok", Low(x \div 4, 16)>>)
  ELSE LET sh == IF Fl(e, 25) THEN 2 ELSE IF Fl(e, 26) THEN 4 ELSE IF Fl(e, 27) THEN 8 ELSE IF Fl(e, 28) THEN 16 ELSE 1
           w == Wrap32(v) IN
       IF sh = 1 THEN FitBits(v, Bits[f.it])
       ELSE IF ~Small(w) \/ ToInt(w) % sh # 0 THEN <<"no", 0>>
       ELSE FitBits(V(ToInt(w) \div sh), Bits[f.it])

\* second immediate: field extraction and insertion, cache operation
MSec(f, imm, val) ==
  IF val = <<>> \/ ~Small(val[1]) THEN <<"no", 0>>
  ELSE LET x == ToInt(val[1]) IN
  CASE f.st = "jc" -> IF x \in 0..31 THEN <<"ok", x>> ELSE <<"no", 0>>
    [] f.st = "je" -> IF x \in 1..32 THEN <<IF imm + x > 32 THEN "may" ELSE "ok", x - 1>> ELSE <<"no", 0>>
    [] f.st = "ji" -> IF x \in 1..32 /\ imm + x <= 32 THEN <<"ok", imm + x - 1>> ELSE <<"no", 0>>

\* verdict on the picked entry at an address; Val(o) evaluates an operand
\* some encodings have size bits already
SetBit(w, p, b) == IF b = 0 \/ (w[2] \div P2[p]) % 2 = 1 THEN w ELSE Put(w, p, 1)
MWord(e, f, imm, sec) ==
  LET w0 == <<e.hi, e.lo>>
      vf == Fl(e, 16)
      w1 == PutIf(PutIf(PutIf(w0, 21, IF vf THEN -1 ELSE f.s), 16, f.t), 11, IF vf THEN -1 ELSE f.d)
      w2 == PutIf(PutIf(PutIf(w1, 11, f.S), 16, f.T), 6, f.D)
      w3 == PutIf(PutIf(PutIf(PutIf(w2, 16, f.Vt), 11, f.Rs), 16, f.Rt), 6, f.Rd)
      w4 == PutIf(PutIf(PutIf(w3, 21, f.Re), 11, f.Rm), 7, f.Ro)
      w5 == IF Fl(e, 17) THEN Put(Put(w4, 0, f.vt \div 32), 16, f.vt % 32) ELSE PutIf(w4, 16, f.vt)
      w6 == PutIf(PutIf(PutIf(w5, 8, f.vs), 0, f.vd), 0, f.C)
      w7 == IF vf /\ VSize(e) >= 0 /\ (e.fl & (P2[19] + P2[20] + P2[22] + P2[23])) = 0
            THEN SetBit(SetBit(w6, 7, VSize(e) % 2), 15, VSize(e) \div 2) ELSE w6
      it == IF f.wt # "" THEN f.wt ELSE f.it
      w8 == IF it = "" THEN w7 ELSE Put(w7, IF it \in {"i3", "i5"} /\ vf THEN 16 ELSE IF it \in {"i5", "i10", "i20"} THEN 6 ELSE 0, imm)
      w9 == PutIf(PutIf(w8, 18, f.jb), 18, e.cb)
  IN IF f.st = "" THEN w9 ELSE Put(w9, IF f.st = "jc" THEN 16 ELSE 11, sec)
MEnc(a, pk, addr, iv, sv) ==
  LET e == pk[1] f == pk[2]
      im == IF f.wt # "" THEN <<"ok", f.w>> ELSE IF f.it = "" THEN <<"ok", 0>> ELSE MImm(e, f, addr, iv)
      se == IF f.st = "" THEN <<"ok", 0>> ELSE MSec(f, im[2], sv)
  IN IF im[1] = "no" \/ se[1] = "no" THEN Reject
     ELSE IF im[2] < 0 THEN [w |-> {}, may |-> TRUE]
     ELSE [w |-> {WordBytes(MWord(e, f, im[2], se[2]), MBig(a))}, may |-> im[1] = "may" \/ se[1] = "may"]
=============================================================================
