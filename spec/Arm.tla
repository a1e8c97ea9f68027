-------------------------------- MODULE Arm --------------------------------
(***************************************************************************)
(* The ARM and Thumb instruction sets (up to ARMv5TE) as the architecture  *)
(* defines them.  A statement is given by its operation, condition, flags  *)
(* and operands as written; an operator per form yields the words that     *)
(* mean exactly that, or rejects it.  v and sv are the values of the       *)
(* immediate and of the shift amount: <<>>, <<integer>> or                 *)
(* <<bits of a float, "flt">>.                                             *)
(***************************************************************************)
EXTENDS Isa

AllOf(S, b) == [w |-> S, may |-> b \/ S = {}]     \* one of S; b: may be refused although it can be encoded
IsInt(v) == Len(v) = 1 /\ Is32(v[1])
IsBits(v) == Len(v) >= 1                          \* integers and floats; of wider integers the lower 32 bits (an assembler may refuse them)
InRange(v, lo, hi) == IsInt(v) /\ Small(v[1]) /\ ToInt(v[1]) >= lo /\ ToInt(v[1]) <= hi
Dist(a, b) == SignExt32(Sub(a, b))                \* how far a lies behind b, in the 32-bit address space
\* offsets count modulo 2^32: large unsigned values stand for negative ones (an assembler may refuse them)
SV(v) == IF IsInt(v) THEN <<SignExt32(v[1])>> ELSE v
IsLarge(l, v) == IsInt(v) /\ v[1] # SignExt32(v[1]) /\ l.f \in {"mem", "pld", "half", "t2i", "t3i"}
IsWide(v) == Len(v) = 1 /\ ~Is32(v[1])
DistIn(d, lo, hi) == Small(d) /\ ToInt(d) >= lo /\ ToInt(d) <= hi
AlignDown(p) == <<p[1] - (p[1] % 4), p[2], p[3], p[4]>>
Half(x) == x \div 2                               \* of even numbers, negative ones too
RECURSIVE ListBits(_)
ListBits(R) == IF R = {} THEN 0 ELSE LET r == CHOOSE x \in R : TRUE IN P2[r] + ListBits(R \ {r})
Range(q) == {q[i] : i \in DOMAIN q}
Has15(q) == \E i \in DOMAIN q : q[i] = 15

----------------------------------------------------------------------------
\* ARM

\* rotated immediates: all encodings of a 32-bit value; where the carry flag depends on it, no rotation if possible
Rol(v, k) == IF k = 0 THEN Trunc32(v) ELSE Trunc32(Shr(BOr(Trunc32(v), Shl(Trunc32(v), 32)), 32 - k))
Imm12(v, flags) ==
  LET R == {k \in 0..15 : LET x == Rol(v, 2 * k) IN x[2] = 0 /\ x[1] < 256} IN
  IF flags /\ 0 \in R THEN {Trunc32(v)[1]} ELSE {k * 256 + Rol(v, 2 * k)[1] : k \in R}

\* shifted register operand: 12 bits, {} if there is none
ShOp(rm, sh, sv) ==
  CASE sh.k = "none" -> {rm}
    [] sh.k = "reg" -> IF sh.t = 4 THEN {} ELSE {rm + 16 + (sh.t * 32) + (sh.r * 256)}
    [] OTHER ->
       IF ~InRange(sv, 0, 32) THEN {}
       ELSE LET n == ToInt(sv[1]) IN
         CASE sh.t = 4 -> IF n = 1 THEN {rm + 96} ELSE {}
           [] n = 0 -> {rm}
           [] n = 32 -> IF sh.t \in {1, 2} THEN {rm + (sh.t * 32)} ELSE {}
           [] OTHER -> {rm + (sh.t * 32) + (n * 128)}

DpNum == [and |-> 0, eor |-> 1, xor |-> 1, sub |-> 2, rsb |-> 3, add |-> 4, adc |-> 5, sbc |-> 6, rsc |-> 7, tst |-> 8, teq |-> 9, cmp |-> 10, cmn |-> 11,
          orr |-> 12, mov |-> 13, bic |-> 14, mvn |-> 15]
\* operation with the same result on the changed value
Other == [and |-> <<"bic", "not">>, bic |-> <<"and", "not">>, mov |-> <<"mvn", "not">>, mvn |-> <<"mov", "not">>,
          cmp |-> <<"cmn", "neg">>, cmn |-> <<"cmp", "neg">>, add |-> <<"sub", "neg">>, sub |-> <<"add", "neg">>]
Chg(v, how) == IF how = "not" THEN Bnot(v) ELSE Neg(v)
Cond(w, c) == Put(w, 28, c)
NoRd == {"tst", "teq", "cmp", "cmn"}
NoRn == {"mov", "mvn"}
DpWord(l, n, op2, imm) ==
  LET rd == IF n \in NoRd THEN 0 ELSE l.rd
      rn == IF n \in NoRn THEN 0 ELSE IF l.rn < 0 THEN l.rd ELSE l.rn
      s == IF n \in NoRd \/ l.s THEN 1 ELSE 0
  IN Cond(Put(Put(Put(Put(Put(<<0, op2>>, 25, imm), 21, DpNum[n]), 20, s), 16, rn), 12, rd), l.c)
DpVerdict(l, v, sv) ==
  LET fl == l.s \/ l.n \in NoRd IN
  IF l.rm >= 0 THEN {DpWord(l, l.n, x, 0) : x \in ShOp(l.rm, l.sh, sv)}
  ELSE IF ~IsBits(v) THEN {}
  ELSE LET A == Imm12(v[1], fl) IN
       IF A # {} THEN {DpWord(l, l.n, x, 1) : x \in A}
       ELSE IF l.n \in DOMAIN Other THEN {DpWord(l, Other[l.n][1], x, 1) : x \in Imm12(Chg(v[1], Other[l.n][2]), fl)}
       ELSE {}

\* address into a register: addition to or subtraction from the program counter
PcrVerdict(l, pos, v) ==
  IF Len(v) # 1 THEN Reject
  ELSE LET d == Dist(v[1], AlignDown(Add(pos, V(8))))
           rec(n) == [l EXCEPT !.n = n, !.rn = 15]
           up == {DpWord(rec("add"), "add", x, 1) : x \in Imm12(d, FALSE)}
           dn == {DpWord(rec("sub"), "sub", x, 1) : x \in Imm12(Neg(d), FALSE)}
       IN IF IsNeg(d) THEN AllOf(up \cup dn, dn = {} \/ l.rd = 15) ELSE AllOf(up \cup dn, up = {} \/ l.rd = 15)

FieldBits(f) == (IF "f" \in f THEN 8 ELSE 0) + (IF "s" \in f THEN 4 ELSE 0) + (IF "x" \in f THEN 2 ELSE 0) + (IF "c" \in f THEN 1 ELSE 0)

\* operands of multiplications in the order they are written: positions of rd(lo), rd(hi), rm, rs, rn
MulBase == [mul |-> <<0, 144>>, mla |-> <<32, 144>>, umull |-> <<128, 144>>, umlal |-> <<160, 144>>, smull |-> <<192, 144>>, smlal |-> <<224, 144>>,
            smla |-> <<256, 128>>, smlaw |-> <<288, 128>>, smulw |-> <<288, 160>>, smlalh |-> <<320, 128>>, smul |-> <<352, 128>>]
MulWord(l) ==
  LET r == l.r
      \* bits 19-16, 15-12, 11-8, 3-0
      f == CASE l.n \in {"mul", "smulw", "smul"} -> IF Len(r) = 2 THEN <<r[1], 0, r[2], r[1]>> ELSE <<r[1], 0, r[3], r[2]>>
             [] l.n \in {"mla", "smla", "smlaw"} -> IF Len(r) = 3 THEN <<r[1], r[3], r[2], r[1]>> ELSE <<r[1], r[4], r[3], r[2]>>
             [] OTHER -> <<r[2], r[1], r[4], r[3]>>
      w == Put(Put(Put(Put(MulBase[l.n], 16, f[1]), 12, f[2]), 8, f[3]), 0, f[4])
  IN Cond(Put(Put(Put(w, 20, IF l.s THEN 1 ELSE 0), 6, IF l.y THEN 1 ELSE 0), 5, IF l.x THEN 1 ELSE 0), l.c)
Signed16 == {"smla", "smlaw", "smulw", "smlalh", "smul"}

\* word and byte transfers; the offset as 12 bits with the U bit
MemOff(l, pos, v, sv) ==
  CASE l.m = "0" -> {<<0, 1, 0>>}
    [] l.m \in {"pi", "oi"} -> IF ~InRange(SV(v), -4095, 4095) THEN {} ELSE LET n == ToInt(SV(v)[1]) IN IF n < 0 THEN {<<0, 0, -n>>} ELSE {<<0, 1, n>>}
    [] l.m = "abs" -> IF ~IsInt(v) THEN {} ELSE LET d == Dist(v[1], Add(pos, V(8))) IN
                      IF ~DistIn(d, -4095, 4095) THEN {} ELSE LET n == ToInt(d) IN IF n < 0 THEN {<<0, 0, -n>>} ELSE {<<0, 1, n>>}
    [] OTHER -> {<<1, IF l.u THEN 1 ELSE 0, x>> : x \in ShOp(l.rm, l.sh, sv)}
MemBase(l, pre, wb, ld) ==
  \* 01 I P U B W L
  Put(Put(Put(Put(<<1024, 0>>, 24, pre), 22, IF l.b THEN 1 ELSE 0), 21, wb), 20, ld)
MemVerdict(l, pos, v, sv) ==
  LET post == l.m \in {"oi", "or"} \/ l.tr
      rn == IF l.m = "abs" THEN 15 ELSE l.rn
      wb == IF l.tr \/ l.w THEN 1 ELSE 0
      W == {Cond(Put(Put(Put(Put(Put(MemBase(l, IF post THEN 0 ELSE 1, wb, IF l.n = "ldr" THEN 1 ELSE 0), 25, o[1]), 23, o[2]), 16, rn), 12, l.rd), 0, o[3]), l.c)
            : o \in MemOff(l, pos, v, sv)}
  IN AllOf(W, l.m \in {"pr", "or"} /\ l.rm = 15)
PldVerdict(l, v, sv) ==
  AllOf({Put(Put(Put(Put(<<62800, 61440>>, 25, o[1]), 23, o[2]), 16, l.rn), 0, o[3]) : o \in MemOff(l, Zero, v, sv)}, l.m = "pr" /\ l.rm = 15)

\* halfword, signed and double transfers: bits 7-4 and L
HalfOp == [ldrh |-> <<176, 1>>, strh |-> <<176, 0>>, ldrsb |-> <<208, 1>>, ldsb |-> <<208, 1>>, ldrsh |-> <<240, 1>>, ldsh |-> <<240, 1>>, ldrd |-> <<208, 0>>, strd |-> <<240, 0>>]
HalfOff(l, pos, v) ==    \* I bit (22), U, high and low nibble
  LET imm(n) == LET k == IF n < 0 THEN -n ELSE n IN <<1, IF n < 0 THEN 0 ELSE 1, k \div 16, k % 16>> IN
  CASE l.m = "0" -> {<<1, 1, 0, 0>>}
    [] l.m \in {"pi", "oi"} -> IF ~InRange(SV(v), -255, 255) THEN {} ELSE {imm(ToInt(SV(v)[1]))}
    [] l.m = "abs" -> IF ~IsInt(v) THEN {} ELSE LET d == Dist(v[1], Add(pos, V(8))) IN IF ~DistIn(d, -255, 255) THEN {} ELSE {imm(ToInt(d))}
    [] OTHER -> {<<0, IF l.u THEN 1 ELSE 0, 0, l.rm>>}
HalfVerdict(l, pos, v) ==
  LET post == l.m \in {"oi", "or"}
      rn == IF l.m = "abs" THEN 15 ELSE l.rn
      b == HalfOp[l.n]
      W == {Cond(Put(Put(Put(Put(Put(Put(Put(Put(<<0, b[1]>>, 24, IF post THEN 0 ELSE 1), 23, o[2]), 22, o[1]), 21, IF l.w THEN 1 ELSE 0), 20, b[2]), 16, rn), 12, l.rd), 8, o[3]), l.c)
            : o \in HalfOff(l, pos, v)}
      W2 == {<<x[1], x[2] + o[4]>> : x \in W, o \in HalfOff(l, pos, v)}
  IN AllOf(W2, (l.m \in {"pr", "or"} /\ l.rm = 15) \/ (l.n \in {"ldrd", "strd"} /\ l.rd % 2 = 1))

PU(load, m) == CASE m = "ib" \/ m = (IF load THEN "ed" ELSE "fa") -> <<1, 1>>
                 [] m = "ia" \/ m = (IF load THEN "fd" ELSE "ea") -> <<0, 1>>
                 [] m = "db" \/ m = (IF load THEN "ea" ELSE "fd") -> <<1, 0>>
                 [] OTHER -> <<0, 0>>
BlkVerdict(l) ==
  LET load == l.n \in {"ldm", "pop"}
      m == IF l.n = "push" THEN "db" ELSE IF l.n = "pop" THEN "ia" ELSE l.m
      rn == IF l.n \in {"push", "pop"} THEN 13 ELSE l.rn
      wb == IF l.n \in {"push", "pop"} \/ l.w THEN 1 ELSE 0
      pu == PU(load, m)
      w == Cond(Put(Put(Put(Put(Put(Put(<<2048, ListBits(Range(l.li))>>, 24, pu[1]), 23, pu[2]), 22, IF l.p THEN 1 ELSE 0), 21, wb), 20, IF load THEN 1 ELSE 0), 16, rn), l.c)
  IN AllOf({w}, rn = 15)

\* branches
BrVerdict(l, pos, v) ==
  IF ~IsInt(v) THEN {}
  ELSE LET d == Dist(v[1], Add(pos, V(8)))
           al == IF l.f = "blx" THEN 2 ELSE 4
       IN IF v[1][1] % al # 0 \/ ~DistIn(d, -33554432, 33554431) THEN {}
          ELSE LET n == ToInt(d)
                   k == Low(n \div 4, 24)
                   h == Low(n \div 2, 1)
                   o == <<k \div B16, k % B16>>
               IN {CASE l.f = "b" -> Cond(<<2560 + o[1], o[2]>>, l.c)
                     [] l.f = "bl" -> Cond(<<2816 + o[1], o[2]>>, l.c)
                     [] OTHER -> <<64000 + (h * 256) + o[1], o[2]>>}

CopVerdict(l, v, iv) ==    \* v: operation, iv: information
  LET two == l.n \in {"cdp2", "mcr2", "mrc2"}
      max == IF l.n \in {"cdp", "cdp2", "mcrr", "mrrc"} THEN 15 ELSE 7
      inf == IF iv = <<>> THEN 0 ELSE ToInt(iv[1])
      done(w) == IF two THEN Put(w, 28, 15) ELSE Cond(w, l.c)
      op == ToInt(v[1])
  IN IF ~InRange(v, 0, max) \/ (iv # <<>> /\ ~InRange(iv, 0, 7)) THEN {}
     ELSE CASE l.n \in {"mcrr", "mrrc"} ->
               {done(Put(Put(Put(Put(Put(<<IF l.n = "mcrr" THEN 3136 ELSE 3152, 0>>, 16, l.rn), 12, l.rd), 8, l.pn), 4, op), 0, l.cm))}
          [] l.n \in {"cdp", "cdp2"} -> {done(Put(Put(Put(Put(Put(Put(<<3584, 0>>, 20, op), 16, l.cn), 12, l.rd), 8, l.pn), 5, inf), 0, l.cm))}
          [] OTHER -> {done(Put(Put(Put(Put(Put(Put(<<IF l.n \in {"mcr", "mcr2"} THEN 3584 ELSE 3600, 16>>, 21, op), 16, l.cn), 12, l.rd), 8, l.pn), 5, inf), 0, l.cm))}

Sat == [qadd |-> 256, qsub |-> 288, qdadd |-> 320, qdsub |-> 352]
\* software interrupts: the consoles' BIOS takes the number from bits 16-23
SwiWords(a, v) ==
  IF ~InRange(v, 0, 16777215) THEN {}
  ELSE LET n == ToInt(v[1])
           raw == <<3840 + (n \div B16), n % B16>>
           up == <<3840 + n, 0>>
       IN IF ~(a \in {"gba", "nds"}) \/ n > 255 THEN {raw} ELSE IF n = 255 THEN {raw, up} ELSE {up}

Arm9 == Signed16 \cup {"pld", "ldrd", "strd", "cdp2", "mcr2", "mrc2", "clz", "qadd", "qsub", "qdadd", "qdsub", "blx", "blxr"}
Has(a, n) == a # "gba" \/ ~(n \in Arm9)

\* how a pool load is done: by a move, or from the pool
PoolMove(v) == IF Imm12(v, FALSE) # {} THEN "mov" ELSE IF Imm12(Bnot(v), FALSE) # {} THEN "mvn" ELSE "pool"

AWords(a, l, pos, v, sv, slot) ==
  IF ~Has(a, l.n) THEN Reject
  ELSE CASE l.f = "dp" -> AllOf(DpVerdict(l, v, sv), FALSE)
    [] l.f = "nop" -> AllOf({<<57760, 0>>}, FALSE)
    [] l.f = "pcr" -> PcrVerdict(l, pos, v)
    [] l.f = "mrs" -> AllOf({Cond(Put(Put(<<271, 0>>, 22, IF l.sp THEN 1 ELSE 0), 12, l.rd), l.c)}, l.rd = 15)
    [] l.f = "msr" -> IF ~l.ok THEN Reject
                      ELSE LET fb == FieldBits(Range(l.fl))
                               w(b, x) == Cond(Put(Put(Put(<<b, 61440>>, 22, IF l.sp THEN 1 ELSE 0), 16, fb), 0, x), l.c)
                           IN IF l.rm >= 0 THEN AllOf({w(288, l.rm)}, l.rm = 15)
                              ELSE IF ~IsBits(v) THEN Reject ELSE AllOf({w(800, x) : x \in Imm12(v[1], FALSE)}, FALSE)
    [] l.f = "mul" -> AllOf({MulWord(l)}, Has15(l.r))
    [] l.f = "mem" -> MemVerdict(l, pos, v, sv)
    [] l.f = "pld" -> PldVerdict(l, v, sv)
    [] l.f = "half" -> HalfVerdict(l, pos, v)
    [] l.f = "blk" -> BlkVerdict(l)
    [] l.f = "swp" -> LET r == IF Len(l.r) = 2 THEN <<l.r[1], l.r[1], l.r[2]>> ELSE l.r IN
                      AllOf({Cond(Put(Put(Put(Put(<<256, 144>>, 22, IF l.b THEN 1 ELSE 0), 16, r[3]), 12, r[1]), 0, r[2]), l.c)}, Has15(r))
    [] l.f = "swi" -> AllOf({Cond(w, l.c) : w \in SwiWords(a, v)}, FALSE)
    [] l.f = "bkpt" -> IF ~InRange(v, 0, 65535) THEN Reject
                       ELSE LET n == ToInt(v[1]) IN AllOf({<<57632 + (n \div 4096), (((n \div 16) % 256) * 256) + 112 + (n % 16)>>}, FALSE)
    [] l.f = "cop" -> AllOf(CopVerdict(l, v, sv), l.rd = 15 \/ (l.n \in {"mcrr", "mrrc"} /\ (a = "gba" \/ l.rn = 15)))
    [] l.f = "misc" -> IF l.n = "clz" THEN AllOf({Cond(Put(Put(<<367, 3856>>, 12, l.r[1]), 0, l.r[2]), l.c)}, Has15(l.r))
                       ELSE LET r == IF Len(l.r) = 2 THEN <<l.r[1], l.r[1], l.r[2]>> ELSE l.r IN
                            AllOf({Cond(Put(Put(Put(<<Sat[l.n], 80>>, 16, r[3]), 12, r[1]), 0, r[2]), l.c)}, Has15(r))
    [] l.f = "bx" -> AllOf({Cond(Put(<<303, IF l.n = "bx" THEN 65296 ELSE 65328>>, 0, l.r[1]), l.c)}, l.r[1] = 15)
    [] l.f \in {"b", "bl", "blx"} -> AllOf(BrVerdict(l, pos, v), FALSE)
    [] l.f = "pool" ->
       (IF ~IsBits(v) THEN Reject
        ELSE LET m == PoolMove(v[1])
                 q == [n |-> m, rd |-> l.rd, rn |-> -1, s |-> FALSE, c |-> l.c]
             IN IF m = "mov" THEN AllOf({DpWord(q, "mov", x, 1) : x \in Imm12(v[1], FALSE)}, FALSE)
                ELSE IF m = "mvn" THEN AllOf({DpWord(q, "mvn", x, 1) : x \in Imm12(Bnot(v[1]), FALSE)}, FALSE)
                ELSE IF slot = <<>> THEN Reject
                ELSE LET d == Dist(slot[1], Add(pos, V(8))) IN
                     IF ~DistIn(d, -4095, 4095) THEN Reject
                     ELSE LET n == ToInt(d) IN AllOf({Cond(Put(Put(Put(<<1311, 0>>, 23, IF n < 0 THEN 0 ELSE 1), 12, l.rd), 0, IF n < 0 THEN -n ELSE n), l.c)}, FALSE))

AEnc(a, l, pos, v, sv, slot) ==
  LET r == AWords(a, l, pos, v, sv, slot) IN [w |-> {WordBytes(x, a = "arm.big") : x \in r.w}, may |-> r.may \/ IsLarge(l, v) \/ IsWide(v)]

----------------------------------------------------------------------------
\* Thumb: one halfword, calls two

Lo(q) == \A i \in DOMAIN q : q[i] < 8
Alu == [and |-> 0, eor |-> 1, xor |-> 1, lsl |-> 2, lsr |-> 3, asr |-> 4, adc |-> 5, sbc |-> 6, ror |-> 7, tst |-> 8, neg |-> 9, cmp |-> 10, cmn |-> 11,
        orr |-> 12, mul |-> 13, bic |-> 14, mvn |-> 15]
Hi(n, d, s) == (CASE n = "add" -> 17408 [] n = "cmp" -> 17664 [] OTHER -> 17920) + (IF d > 7 THEN 128 ELSE 0) + (IF s > 7 THEN 64 ELSE 0) + ((s % 8) * 8) + (d % 8)
ShiftNum == [lsl |-> 0, asl |-> 0, lsr |-> 2048, asr |-> 4096]
TShift(n, d, s, v) ==
  IF ~Lo(<<d, s>>) \/ ~InRange(v, 0, IF ShiftNum[n] = 0 THEN 31 ELSE 32) THEN {}
  ELSE LET k == ToInt(v[1]) IN {(IF k = 0 THEN 0 ELSE ShiftNum[n]) + ((k % 32) * 64) + (s * 8) + d}
\* value of an addition, subtractions negated, in units of sc
TSum(n, v, sc, max) == IF ~InRange(SV(v), -(max * sc), max * sc) THEN <<>>
                       ELSE LET k == ToInt(SV(v)[1]) IN IF k % sc # 0 THEN <<>> ELSE <<IF n = "sub" THEN -(k \div sc) ELSE k \div sc>>
TAddSub(n, base, sub, v, sc, max, rest, sh) ==     \* the sign may change the operation; zero keeps it
  LET q == TSum(n, v, sc, max) IN
  IF q = <<>> THEN {}
  ELSE LET neg == q[1] < 0 \/ (q[1] = 0 /\ n = "sub") IN {base + (IF neg THEN sub ELSE 0) + ((IF q[1] < 0 THEN -q[1] ELSE q[1]) * P2[sh]) + rest}
TScaled(v, sc, max) == IF InRange(v, 0, max * sc) /\ ToInt(v[1]) % sc = 0 THEN {ToInt(v[1]) \div sc} ELSE {}

TReg == [str |-> 20480, strh |-> 20992, strb |-> 21504, ldsb |-> 22016, ldrsb |-> 22016, ldr |-> 22528, ldrh |-> 23040, ldrb |-> 23552, ldsh |-> 24064, ldrsh |-> 24064]
TImm == [str |-> <<24576, 4>>, ldr |-> <<26624, 4>>, strb |-> <<28672, 1>>, ldrb |-> <<30720, 1>>, strh |-> <<32768, 2>>, ldrh |-> <<34816, 2>>]
TMem(l, v) ==
  LET off == IF l.m = "0" THEN <<Zero>> ELSE v IN
  IF l.m = "r" THEN (IF Lo(<<l.rd, l.rn, l.rm>>) THEN {TReg[l.n] + (l.rm * 64) + (l.rn * 8) + l.rd} ELSE {})
  ELSE IF l.rd > 7 \/ ~(l.n \in DOMAIN TImm) THEN {}
  ELSE IF l.rn < 8 THEN {TImm[l.n][1] + (k * 64) + (l.rn * 8) + l.rd : k \in TScaled(off, TImm[l.n][2], 31)}
  ELSE IF l.rn = 13 /\ l.n \in {"ldr", "str"} THEN {(IF l.n = "ldr" THEN 38912 ELSE 36864) + (l.rd * 256) + k : k \in TScaled(off, 4, 255)}
  ELSE IF l.rn = 15 /\ l.n = "ldr" THEN {18432 + (l.rd * 256) + k : k \in TScaled(off, 4, 255)}
  ELSE {}
\* word reached from the program counter
TPc(base, rd, pos, v) ==
  IF rd > 7 \/ ~IsInt(v) \/ v[1][1] % 4 # 0 THEN {}
  ELSE LET d == Dist(v[1], AlignDown(Add(pos, V(4)))) IN IF DistIn(d, 0, 1020) THEN {base + (rd * 256) + (ToInt(d) \div 4)} ELSE {}
CondNum == [beq |-> 0, bne |-> 1, bcs |-> 2, bhs |-> 2, bcc |-> 3, blo |-> 3, bmi |-> 4, bpl |-> 5, bvs |-> 6, bvc |-> 7, bhi |-> 8, bls |-> 9, bge |-> 10, blt |-> 11, bgt |-> 12, ble |-> 13]
TBr(l, pos, v) ==
  IF ~IsInt(v) \/ v[1][1] % 2 # 0 THEN {}
  ELSE LET d == Dist(v[1], Add(pos, V(4))) IN
       IF l.n = "b" THEN (IF DistIn(d, -2048, 2047) THEN {57344 + Low(ToInt(d) \div 2, 11)} ELSE {})
       ELSE IF DistIn(d, -256, 255) THEN {53248 + (CondNum[l.n] * 256) + Low(ToInt(d) \div 2, 8)} ELSE {}
\* call in two halves; with exchange the target is counted from the word that the program counter lies in
TCall(l, pos, v) ==
  IF ~IsInt(v) \/ v[1][1] % (IF l.n = "blx" THEN 4 ELSE 2) # 0 THEN {}
  ELSE LET d == Dist(v[1], IF l.n = "blx" THEN AlignDown(Add(pos, V(4))) ELSE Add(pos, V(4))) IN
       IF ~DistIn(d, -4194304, 4194303) THEN {}
       ELSE LET k == Low(ToInt(d) \div 2, 22) IN {<<61440 + (k \div 2048), (IF l.n = "blx" THEN 59392 ELSE 63488) + (k % 2048)>>}

T1(S, b) == AllOf({<<x>> : x \in S}, b)
THalves(a, l, pos, v, slot) ==
  IF ~Has(a, IF l.n = "bkpt" THEN "blx" ELSE l.n) THEN Reject
  ELSE CASE l.f = "t3r" ->
       (LET r == l.r sub == IF l.n = "sub" THEN 512 ELSE 0 IN
        IF Lo(r) THEN T1({6144 + sub + (r[3] * 64) + (r[2] * 8) + r[1]}, FALSE)
        ELSE IF l.n = "add" /\ r[1] = r[2] THEN T1({Hi("add", r[1], r[3])}, TRUE) ELSE Reject)
    [] l.f = "t2r" ->
       (LET d == l.r[1] x == l.r[2] IN
        IF l.n \in {"add", "sub"} /\ Lo(l.r) THEN T1({6144 + (IF l.n = "sub" THEN 512 ELSE 0) + (x * 64) + (d * 8) + d}, FALSE)
        ELSE IF l.n = "mov" /\ Lo(l.r) THEN T1({7168 + (x * 8) + d}, FALSE)
        ELSE IF Lo(l.r) /\ l.n \in DOMAIN Alu THEN T1({16384 + (Alu[l.n] * 64) + (x * 8) + d}, FALSE)
        ELSE IF l.n \in {"add", "cmp", "mov"} THEN T1({Hi(l.n, d, x)}, FALSE)
        ELSE Reject)
    [] l.f = "t2i" ->
       (LET d == l.r[1] IN
        IF l.n \in DOMAIN ShiftNum THEN T1(TShift(l.n, d, d, v), FALSE)
        ELSE IF l.n \in {"mov", "cmp"} THEN (IF d < 8 /\ InRange(v, 0, 255) THEN T1({(IF l.n = "mov" THEN 8192 ELSE 10240) + (d * 256) + ToInt(v[1])}, FALSE) ELSE Reject)
        ELSE IF d = 13 THEN T1(TAddSub(l.n, 45056, 128, v, 4, 127, 0, 0), FALSE)
        ELSE IF d < 8 THEN T1(TAddSub(l.n, 12288, 2048, v, 1, 255, d * 256, 0), FALSE)
        ELSE Reject)
    [] l.f = "t3i" ->
       (LET d == l.r[1] x == l.r[2] IN
        IF l.n \in DOMAIN ShiftNum THEN T1(TShift(l.n, d, x, v), FALSE)
        ELSE IF Lo(l.r) /\ InRange(SV(v), -7, 7) THEN T1(TAddSub(l.n, 7168, 512, v, 1, 7, (x * 8) + d, 6), FALSE)
        ELSE IF Lo(l.r) /\ d = x THEN T1(TAddSub(l.n, 12288, 2048, v, 1, 255, d * 256, 0), TRUE)
        ELSE IF d = 13 /\ x = 13 THEN T1(TAddSub(l.n, 45056, 128, v, 4, 127, 0, 0), FALSE)
        ELSE IF l.n = "add" /\ d < 8 /\ x \in {13, 15} THEN T1({(IF x = 15 THEN 40960 ELSE 43008) + (d * 256) + k : k \in TScaled(v, 4, 255)}, FALSE)
        ELSE Reject)
    [] l.f = "tmem" -> T1(TMem(l, v), FALSE)
    [] l.f = "tabs" -> T1(TPc(18432, l.rd, pos, v), FALSE)
    [] l.f = "tadr" -> T1(TPc(40960, l.rd, pos, v), FALSE)
    [] l.f = "tpool" -> IF l.rd > 7 \/ ~IsBits(v) \/ slot = <<>> THEN Reject ELSE T1(TPc(18432, l.rd, pos, slot), FALSE)
    [] l.f = "tpush" -> LET R == Range(l.li) x == IF l.n = "push" THEN 14 ELSE 15 IN
                        IF \E r \in R : r > 7 /\ r # x THEN Reject
                        ELSE T1({(IF l.n = "push" THEN 46080 ELSE 48128) + (IF x \in R THEN 256 ELSE 0) + ListBits(R \ {x})}, FALSE)
    [] l.f = "tldm" -> IF l.rn > 7 \/ ~Lo(l.li) THEN Reject ELSE T1({(IF l.n = "stmia" THEN 49152 ELSE 51200) + (l.rn * 256) + ListBits(Range(l.li))}, FALSE)
    [] l.f = "tb" -> T1(TBr(l, pos, v), FALSE)
    [] l.f = "tcall" -> AllOf(TCall(l, pos, v), FALSE)
    [] l.f = "tbl2" -> T1({63488 + k : k \in TScaled(IF v = <<>> THEN <<Zero>> ELSE v, 2, 2047)}, FALSE)
    [] l.f = "tnum" -> IF InRange(v, 0, 255) THEN T1({(IF l.n = "swi" THEN 57088 ELSE 48640) + ToInt(v[1])}, FALSE) ELSE Reject
    [] l.f = "tbx" -> T1({(IF l.n = "bx" THEN 18176 ELSE 18304) + (l.r[1] * 8)}, FALSE)
    [] l.f = "nop" -> T1({18112}, FALSE)
TEnc(a, l, pos, v, slot) ==
  LET r == THalves(a, l, pos, v, slot)
      big == a = "arm.big"
  IN [w |-> {IF Len(x) = 1 THEN HalfBytes(x[1], big) ELSE HalfBytes(x[1], big) \o HalfBytes(x[2], big) : x \in r.w}, may |-> r.may \/ IsLarge(l, v) \/ IsWide(v)]
InsLen(l) == IF ~l.th THEN 4 ELSE IF l.f = "tcall" THEN 4 ELSE 2
=============================================================================
