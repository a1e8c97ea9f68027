------------------------------ MODULE MipsExec ------------------------------
(***************************************************************************)
(* The MIPS processor as far as the code of pseudo-instructions needs it:  *)
(* registers (64 bits, 32-bit results sign extended), floating point       *)
(* registers as bit patterns, memory as changes over an initial content,   *)
(* and a program counter with delay slots.                                 *)
(***************************************************************************)
EXTENDS Isa

Mem0(a, seed) == (a[1] * 131 + a[2] * 31 + (a[1] \div 256) * 17 + seed * 59) % 256
Rd8(m, a) == IF a \in DOMAIN m.mem THEN m.mem[a] ELSE Mem0(a, m.seed)
Wr8(m, a, b) == [m EXCEPT !.mem = [x \in DOMAIN @ \cup {a} |-> IF x = a THEN b ELSE @[x]]]
SetR(m, n, v) == IF n = 0 THEN m ELSE [m EXCEPT !.r[n] = v]

\* value of n bytes at address a
RECURSIVE Gather(_, _, _, _, _)
Gather(m, a, n, big, k) ==
  IF k = n THEN Zero
  ELSE BOr(Shl(V(Rd8(m, Trunc32(Add(a, V(k))))), 8 * (IF big THEN n - 1 - k ELSE k)), Gather(m, a, n, big, k + 1))
LdV(m, a, n, big) == Gather(m, a, n, big, 0)
RECURSIVE Scatter(_, _, _, _, _)
Scatter(m, a, b, big, k) ==
  IF k = Len(b) THEN m
  ELSE Scatter(Wr8(m, Trunc32(Add(a, V(k))), b[IF big THEN Len(b) - k ELSE k + 1]), a, b, big, k + 1)
StV(m, a, n, v, big) == Scatter(m, a, SubSeq(Bytes8(v), 1, n), big, 0)

\* partial loads and stores: register byte rb(k) (1 is the least significant) against memory byte ma(k)
Cnt(left, a, n, big) == LET o == a[1] % n IN IF left = big THEN n - o ELSE o + 1
RB(left, n, k) == IF left THEN n - k ELSE k + 1
MA(left, a, big, k) == Trunc32(Add(a, V(IF left = big THEN k ELSE -k)))
PartLd(m, old, a, n, left, big) ==
  LET c == Cnt(left, a, n, big)
      b == Bytes8(old)
      nb == [i \in 1..8 |-> LET K == {k \in 0..c - 1 : RB(left, n, k) = i} IN
                            IF K = {} THEN b[i] ELSE Rd8(m, MA(left, a, big, CHOOSE k \in K : TRUE))]
      v == FromBytes8(nb)
  IN IF n = 4 THEN SignExt32(v) ELSE v
RECURSIVE PartSt(_, _, _, _, _, _, _)
PartSt(m, v, a, n, left, big, k) ==
  IF k = Cnt(left, a, n, big) THEN m
  ELSE PartSt(Wr8(m, MA(left, a, big, k), Bytes8(v)[RB(left, n, k)]), v, a, n, left, big, k + 1)

S16(x) == IF x >= 32768 THEN V(x - 65536) ELSE V(x)
W32(v) == SignExt32(v)
Rotr32(v, n) == LET x == Trunc32(v) IN W32(BOr(Shr(x, n), Shl(x, 32 - n)))

\* one instruction w = <<high, low>> at m.pc; npc is where the next but one comes from
Exec(m, w, big) ==
  LET op == w[1] \div 1024
      rs == (w[1] \div 32) % 32
      rt == w[1] % 32
      rd == w[2] \div 2048
      sa == (w[2] \div 64) % 32
      fn == w[2] % 64
      S == m.r[rs]
      T == m.r[rt]
      se == S16(w[2])
      ze == V(w[2])
      adr == Trunc32(Add(S, se))
      nx == [m EXCEPT !.pc = m.npc, !.npc = Trunc32(Add(m.npc, V(4)))]
      D(v) == SetR(nx, rd, v)
      I(v) == SetR(nx, rt, v)
      tgt == Trunc32(Add(Add(m.pc, V(4)), Shl(se, 2)))
      br(c) == IF c THEN [nx EXCEPT !.npc = tgt] ELSE nx
      brl(c) == IF c THEN [nx EXCEPT !.npc = tgt] ELSE [m EXCEPT !.pc = Trunc32(Add(m.npc, V(4))), !.npc = Trunc32(Add(m.npc, V(8)))]
      bad == [nx EXCEPT !.bad = TRUE]
      al(n) == adr[1] % n = 0
  IN CASE op = 0 ->
          (CASE fn = 0 -> D(W32(Shl(Trunc32(T), sa)))
             [] fn = 2 /\ rs = 0 -> D(W32(Shr(Trunc32(T), sa)))
             [] fn = 2 /\ rs = 1 -> D(Rotr32(T, sa))
             [] fn = 3 -> D(Sar(W32(T), sa))
             [] fn = 4 -> D(W32(Shl(Trunc32(T), S[1] % 32)))
             [] fn = 6 /\ sa = 0 -> D(W32(Shr(Trunc32(T), S[1] % 32)))
             [] fn = 6 /\ sa = 1 -> D(Rotr32(T, S[1] % 32))
             [] fn = 7 -> D(Sar(W32(T), S[1] % 32))
             [] fn = 33 -> D(W32(Add(S, T)))
             [] fn = 35 -> D(W32(Sub(S, T)))
             [] fn = 36 -> D(BAnd(S, T))
             [] fn = 37 -> D(BOr(S, T))
             [] fn = 38 -> D(BXor(S, T))
             [] fn = 39 -> D(Bnot(BOr(S, T)))
             [] fn = 42 -> D(FromBool(Lt(S, T)))
             [] fn = 43 -> D(FromBool(ULt(S, T)))
             [] fn = 45 -> D(Add(S, T))
             [] fn = 47 -> D(Sub(S, T))
             [] fn = 63 -> D(Sar(T, sa + 32))
             [] fn = 59 -> D(Sar(T, sa))
             [] OTHER -> bad)
       [] op = 4 -> br(S = T)
       [] op = 5 -> br(S # T)
       [] op = 6 -> br(Le(S, Zero))
       [] op = 7 -> br(Lt(Zero, S))
       [] op = 20 -> brl(S = T)
       [] op = 21 -> brl(S # T)
       [] op = 9 -> I(W32(Add(S, se)))
       [] op = 25 -> I(Add(S, se))
       [] op = 10 -> I(FromBool(Lt(S, se)))
       [] op = 11 -> I(FromBool(ULt(S, se)))
       [] op = 12 -> I(BAnd(S, ze))
       [] op = 13 -> I(BOr(S, ze))
       [] op = 14 -> I(BXor(S, ze))
       [] op = 15 -> I(W32(Shl(ze, 16)))
       [] op = 32 -> I(SExt(LdV(m, adr, 1, big), 8))
       [] op = 36 -> I(LdV(m, adr, 1, big))
       [] op = 33 /\ al(2) -> I(SExt(LdV(m, adr, 2, big), 16))
       [] op = 37 /\ al(2) -> I(LdV(m, adr, 2, big))
       [] op \in {35, 48} /\ al(4) -> I(W32(LdV(m, adr, 4, big)))
       [] op = 39 /\ al(4) -> I(LdV(m, adr, 4, big))
       [] op \in {55, 52} /\ al(8) -> I(LdV(m, adr, 8, big))
       [] op = 34 -> I(PartLd(m, T, adr, 4, TRUE, big))
       [] op = 38 -> I(PartLd(m, T, adr, 4, FALSE, big))
       [] op = 26 -> I(PartLd(m, T, adr, 8, TRUE, big))
       [] op = 27 -> I(PartLd(m, T, adr, 8, FALSE, big))
       [] op = 40 -> StV(nx, adr, 1, T, big)
       [] op = 41 /\ al(2) -> StV(nx, adr, 2, T, big)
       [] op = 43 /\ al(4) -> StV(nx, adr, 4, T, big)
       [] op = 63 /\ al(8) -> StV(nx, adr, 8, T, big)
       [] op = 42 -> PartSt(nx, T, adr, 4, TRUE, big, 0)
       [] op = 46 -> PartSt(nx, T, adr, 4, FALSE, big, 0)
       [] op = 44 -> PartSt(nx, T, adr, 8, TRUE, big, 0)
       [] op = 45 -> PartSt(nx, T, adr, 8, FALSE, big, 0)
       [] op = 49 /\ al(4) -> [nx EXCEPT !.f[rt] = LdV(m, adr, 4, big)]
       [] op = 53 /\ al(8) -> [nx EXCEPT !.f[rt] = LdV(m, adr, 8, big)]
       [] op = 57 /\ al(4) -> StV(nx, adr, 4, m.f[rt], big)
       [] op = 61 /\ al(8) -> StV(nx, adr, 8, m.f[rt], big)
       [] op = 17 /\ rs = 4 /\ fn = 0 /\ sa = 0 -> [nx EXCEPT !.f[rd] = Trunc32(T)]
       [] OTHER -> bad
=============================================================================
