------------------------------ MODULE ElfExec ------------------------------
(***************************************************************************)
(* The function that calls the global constructors of an import, judged by *)
(* executing it: called like any other function, it calls every entry of   *)
(* the constructor sections in order and returns to its caller, with the   *)
(* stack and the registers it has to keep as they were.  The processors    *)
(* are specified as far as such a function can be expected to use them.    *)
(***************************************************************************)
EXTENDS Elf

Ctor == s.ctors[1]
At == ToInt(Adr(Ctor.at))
Len0 == Case.obs.csize
Inside(a) == a >= At /\ a < At + Len0
Stack == 15728640
RetAdr == 7340032
StackOk(a) == a >= Stack - 4096 /\ a < Stack + 64 /\ a % 4 = 0
ByteOf(a) == s.out[a - ToInt(Case.base) + 1]
InOut(a, n) == a >= ToInt(Case.base) /\ a + n <= ToInt(Case.base) + Len(s.out)
Half(a) == IF Big THEN ByteOf(a) * 256 + ByteOf(a + 1) ELSE ByteOf(a) + 256 * ByteOf(a + 1)
Limbs(a) == IF Big THEN <<Half(a + 2), Half(a)>> ELSE <<Half(a), Half(a + 2)>>
IntOf(l) == IF l[2] >= 32768 THEN -1 ELSE l[2] * 65536 + l[1]
Sx(v, n) == IF v >= P2[n - 1] THEN v - P2[n] ELSE v

Ld(m, a) == IF a \in DOMAIN m.mem THEN m.mem[a] ELSE IF a % 4 = 0 /\ InOut(a, 4) THEN IntOf(Limbs(a)) ELSE -1
St(m, a, v) == IF ~StackOk(a) THEN [m EXCEPT !.bad = TRUE] ELSE [m EXCEPT !.mem = (a :> v) @@ @]
Fail(m) == [m EXCEPT !.bad = TRUE]

\* ---- ARM and Thumb ---------------------------------------------------------
Set(m, r, v) == [m EXCEPT !.r[r] = v]
\* to the address v with the mode in its lowest bit
Exchange(m, v) == IF v % 2 = 1 THEN [m EXCEPT !.pc = v - 1, !.t = TRUE] ELSE IF v % 4 = 0 THEN [m EXCEPT !.pc = v, !.t = FALSE] ELSE Fail(m)
\* what loading the program counter does
LoadPc(m, v) == IF V5 THEN Exchange(m, v) ELSE [m EXCEPT !.pc = IF m.t THEN v - (v % 2) ELSE v - (v % 4)]
Cond(m, c) ==
  LET a == m.cmp[1] b == m.cmp[2] IN
  CASE c = 0 -> a = b [] c = 1 -> a # b [] c \in {2, 10} -> a >= b [] c \in {3, 11} -> a < b [] c \in {8, 12} -> a > b [] c \in {9, 13} -> a <= b [] OTHER -> TRUE
RECURSIVE LoadList(_, _, _, _)
LoadList(m, l, k, a) == \* registers in the mask l from address a on
  IF k > 15 THEN [m |-> m, a |-> a]
  ELSE IF (l \div P2[k]) % 2 = 0 THEN LoadList(m, l, k + 1, a)
  ELSE LoadList(IF k = 15 THEN LoadPc(m, Ld(m, a)) ELSE Set(m, k, Ld(m, a)), l, k + 1, a + 4)
RECURSIVE StoreList(_, _, _, _)
StoreList(m, l, k, a) ==
  IF k > 15 THEN m
  ELSE IF (l \div P2[k]) % 2 = 0 THEN StoreList(m, l, k + 1, a)
  ELSE StoreList(St(m, a, m.r[k]), l, k + 1, a + 4)
Ones(l) == Cardinality({k \in 0..15 : (l \div P2[k]) % 2 = 1})
ThumbStep(m) ==
  LET h == Half(m.pc)
      n == [m EXCEPT !.pc = @ + 2]
      r0 == h % 8 r3 == (h \div 8) % 8 r6 == (h \div 64) % 8 r8 == (h \div 256) % 8
      i8 == h % 256
      pcv == m.pc + 4
      hd == r0 + 8 * ((h \div 128) % 2)
      hs == (h \div 8) % 16
      R(k) == IF k = 15 THEN pcv ELSE m.r[k]
  IN CASE h \div 512 = 90 -> LET l == i8 + (IF (h \div 256) % 2 = 1 THEN 16384 ELSE 0)
                                  a == m.r[13] - 4 * Ones(l) IN Set(StoreList(n, l, 0, a), 13, a)
       [] h \div 512 = 94 -> LET l == i8 + (IF (h \div 256) % 2 = 1 THEN 32768 ELSE 0)
                                  x == LoadList(n, l, 0, m.r[13]) IN Set(x.m, 13, x.a)
       [] h \div 2048 = 9 -> Set(n, r8, Ld(m, (pcv - (pcv % 4)) + 4 * i8))
       [] h \div 2048 = 13 -> Set(n, r0, Ld(m, m.r[r3] + 4 * ((h \div 64) % 32)))
       [] h \div 2048 = 12 -> St(n, m.r[r3] + 4 * ((h \div 64) % 32), m.r[r0])
       [] h \div 2048 = 20 -> Set(n, r8, (pcv - (pcv % 4)) + 4 * i8)
       [] h \div 2048 = 4 -> Set(n, r8, i8)
       [] h \div 2048 = 5 -> [n EXCEPT !.cmp = <<m.r[r8], i8>>]
       [] h \div 2048 = 6 -> Set(n, r8, m.r[r8] + i8)
       [] h \div 2048 = 7 -> Set(n, r8, m.r[r8] - i8)
       [] h \div 512 = 12 -> Set(n, r0, m.r[r3] + m.r[r6])
       [] h \div 512 = 13 -> Set(n, r0, m.r[r3] - m.r[r6])
       [] h \div 512 = 14 -> Set(n, r0, m.r[r3] + r6)
       [] h \div 512 = 15 -> Set(n, r0, m.r[r3] - r6)
       [] h \div 64 = 0 -> Set(n, r0, m.r[r3])
       [] h \div 64 = 266 -> [n EXCEPT !.cmp = <<m.r[r0], m.r[r3]>>]
       [] h \div 256 = 69 -> [n EXCEPT !.cmp = <<R(hd), R(hs)>>]
       [] h \div 256 = 70 -> IF hd = 15 THEN [n EXCEPT !.pc = R(hs) - (R(hs) % 2)] ELSE Set(n, hd, R(hs))
       [] h \div 256 = 68 -> IF hd = 15 THEN Fail(n) ELSE Set(n, hd, R(hd) + R(hs))
       [] h \div 128 = 142 -> Exchange(n, R(hs))
       [] h \div 128 = 143 /\ V5 -> Exchange(Set(n, 14, m.pc + 3), R(hs))
       [] h \div 4096 = 13 /\ (h \div 256) % 16 < 14 -> IF Cond(m, (h \div 256) % 16) THEN [n EXCEPT !.pc = pcv + 2 * Sx(i8, 8)] ELSE n
       [] h \div 2048 = 28 -> [n EXCEPT !.pc = pcv + 2 * Sx(h % 2048, 11)]
       [] h \div 2048 = 30 -> Set(n, 14, pcv + 4096 * Sx(h % 2048, 11))
       [] h \div 2048 = 31 -> [Set(n, 14, m.pc + 3) EXCEPT !.pc = m.r[14] + 2 * (h % 2048)]
       [] OTHER -> Fail(n)
ArmStep(m) ==
  LET w == Limbs(m.pc)
      hi == w[2] lo == w[1]
      n == [m EXCEPT !.pc = @ + 4]
      k == (hi \div 512) % 8
      rn == hi % 16 rd == lo \div 4096
      b(i) == (hi \div P2[i]) % 2
      R(x) == IF x = 15 THEN m.pc + 8 ELSE m.r[x]
      rot == (lo \div 256) % 16
      \* small values, or ones that stay below the highest bit
      im == IF rot = 0 THEN lo % 256 ELSE IF rot > 4 \/ (rot = 4 /\ lo % 256 < 128) THEN (lo % 256) * P2[32 - 2 * rot] ELSE -1
      op2 == IF k = 1 THEN im ELSE R(lo % 16)
      op == (hi \div 32) % 16
      D(v) == IF rd = 15 THEN (IF b(4) = 1 THEN Fail(n) ELSE [n EXCEPT !.pc = v - (v % 4)]) ELSE Set(n, rd, v)
      adr == R(rn) + (IF b(7) = 1 THEN lo % 4096 ELSE -(lo % 4096))
      cnt == 4 * Ones(lo)
      start == IF b(7) = 1 THEN m.r[rn] + (IF b(8) = 1 THEN 4 ELSE 0) ELSE (m.r[rn] - cnt) + (IF b(8) = 1 THEN 0 ELSE 4)
      back(x) == IF b(5) = 1 THEN Set(x, rn, IF b(7) = 1 THEN m.r[rn] + cnt ELSE m.r[rn] - cnt) ELSE x
  IN IF hi \div 4096 = 15 \/ m.pc % 4 # 0 THEN Fail(n)
     ELSE IF ~Cond(m, hi \div 4096) THEN n
     ELSE CASE hi % 4096 = 303 /\ lo \div 16 = 4081 -> Exchange(n, R(lo % 16))
            [] hi % 4096 = 303 /\ lo \div 16 = 4083 /\ V5 -> Exchange(Set(n, 14, m.pc + 4), R(lo % 16))
            [] k = 5 -> LET t == m.pc + 8 + 4 * Sx((hi % 256) * 65536 + lo, 24) IN IF b(8) = 1 THEN [Set(n, 14, m.pc + 4) EXCEPT !.pc = t] ELSE [n EXCEPT !.pc = t]
            [] k = 2 /\ b(6) = 0 /\ b(8) = 1 ->
                 LET x == IF b(4) = 1 THEN (IF rd = 15 THEN LoadPc(n, Ld(m, adr)) ELSE Set(n, rd, Ld(m, adr))) ELSE St(n, adr, R(rd))
                 IN IF b(5) = 1 THEN Set(x, rn, adr) ELSE x
            [] k = 2 /\ b(6) = 0 /\ b(8) = 0 /\ b(5) = 0 ->
                 LET x == IF b(4) = 1 THEN (IF rd = 15 THEN LoadPc(n, Ld(m, R(rn))) ELSE Set(n, rd, Ld(m, R(rn)))) ELSE St(n, R(rn), R(rd))
                 IN Set(x, rn, adr)
            [] k = 4 /\ b(6) = 0 -> IF b(4) = 1 THEN LoadList(back(n), lo, 0, start).m ELSE StoreList(back(n), lo, 0, start)
            [] k \in {0, 1} /\ (k = 1 \/ (lo \div 16) % 256 = 0) /\ op2 >= 0 ->
                 CASE op = 4 -> D(R(rn) + op2) [] op = 2 -> D(R(rn) - op2) [] op = 13 -> D(op2)
                   [] op = 10 /\ b(4) = 1 -> [n EXCEPT !.cmp = <<R(rn), op2>>]
                   [] OTHER -> Fail(n)
            [] OTHER -> Fail(n)
ArmStart == [r |-> [k \in 0..15 |-> IF k = 13 THEN Stack ELSE IF k = 14 THEN RetAdr + (IF Ctor.thumb THEN 1 ELSE 0) ELSE 1048576 + 1111 * k],
             pc |-> At, t |-> Ctor.thumb, cmp |-> <<0, 0>>, mem |-> <<>>, calls |-> <<>>, bad |-> FALSE, done |-> FALSE, n |-> 0]
ArmCode(m) ==
  IF m.pc = RetAdr THEN [m EXCEPT !.done = TRUE, !.bad = @ \/ m.t # Ctor.thumb \/ \E k \in {4, 5, 6, 7, 8, 9, 10, 11, 13} : m.r[k] # ArmStart.r[k]]
  ELSE IF ~Inside(m.pc)
  THEN LET c == [m EXCEPT !.calls = Append(@, m.pc + (IF m.t THEN 1 ELSE 0)), !.r = [k \in 0..15 |-> IF k \in {0, 1, 2, 3, 12} THEN 77 * k ELSE @[k]], !.cmp = <<1, 2>>]
       IN IF ~StackOk(m.r[13]) THEN Fail(c) ELSE Exchange(c, m.r[14])
  ELSE IF m.t THEN ThumbStep(m) ELSE ArmStep(m)

\* ---- SuperH ------------------------------------------------------------------
ShNext(m) == [m EXCEPT !.pc = m.npc, !.npc = m.npc + 2]
ShStep(m) ==
  LET h == Half(m.pc)
      x == ShNext(m)
      n == (h \div 256) % 16 k == (h \div 16) % 16 d == h % 16 g == h \div 4096 i8 == h % 256
      N == m.r[n] M == m.r[k]
      to(a) == [x EXCEPT !.npc = a]
      now(a) == [m EXCEPT !.pc = a, !.npc = a + 2]
      disp == m.pc + 4 + 2 * Sx(i8, 8)
  IN CASE h = 9 -> x
       [] h = 11 -> to(m.pr)
       [] g = 2 /\ d = 6 -> Set(St(x, N - 4, M), n, N - 4)
       [] g = 2 /\ d = 2 -> St(x, N, M)
       [] g = 1 -> St(x, N + 4 * d, M)
       [] g = 5 -> Set(x, n, Ld(m, M + 4 * d))
       [] g = 6 /\ d = 2 -> Set(x, n, Ld(m, M))
       [] g = 6 /\ d = 3 -> Set(x, n, M)
       [] g = 6 /\ d = 6 -> Set(IF n = k THEN x ELSE Set(x, k, M + 4), n, Ld(m, M))
       [] g = 7 -> Set(x, n, N + Sx(i8, 8))
       [] g = 14 -> Set(x, n, Sx(i8, 8))
       [] g = 13 -> Set(x, n, Ld(m, ((m.pc + 4) - (m.pc % 4)) + 4 * i8))
       [] h \div 256 = 199 -> Set(x, 0, ((m.pc + 4) - (m.pc % 4)) + 4 * i8)
       [] g = 3 /\ d = 12 -> Set(x, n, N + M)
       [] g = 3 /\ d = 8 -> Set(x, n, N - M)
       [] g = 3 /\ d = 0 -> [x EXCEPT !.tt = N = M]
       [] g = 3 /\ d \in {2, 3} -> [x EXCEPT !.tt = N >= M]
       [] g = 3 /\ d \in {6, 7} -> [x EXCEPT !.tt = N > M]
       [] g = 4 /\ i8 = 11 -> [to(N) EXCEPT !.pr = m.pc + 4]
       [] g = 4 /\ i8 = 43 -> to(N)
       [] g = 4 /\ i8 = 34 -> Set(St(x, N - 4, m.pr), n, N - 4)
       [] g = 4 /\ i8 = 38 -> Set([x EXCEPT !.pr = Ld(m, N)], n, N + 4)
       [] g = 4 /\ i8 = 42 -> [x EXCEPT !.pr = N]
       [] g = 0 /\ i8 = 42 -> Set(x, n, m.pr)
       [] h \div 256 = 139 -> IF m.tt THEN x ELSE now(disp)
       [] h \div 256 = 137 -> IF m.tt THEN now(disp) ELSE x
       [] h \div 256 = 143 -> IF m.tt THEN x ELSE to(disp)
       [] h \div 256 = 141 -> IF m.tt THEN to(disp) ELSE x
       [] g = 10 -> to(m.pc + 4 + 2 * Sx(h % 4096, 12))
       [] OTHER -> Fail(x)
ShStart == [r |-> [k \in 0..15 |-> IF k = 15 THEN Stack ELSE 1048576 + 1111 * k], pr |-> RetAdr, pc |-> At, npc |-> At + 2, tt |-> TRUE,
            mem |-> <<>>, calls |-> <<>>, bad |-> FALSE, done |-> FALSE, n |-> 0]
ShCode(m) ==
  IF m.pc = RetAdr THEN [m EXCEPT !.done = TRUE, !.bad = @ \/ \E k \in 8..15 : m.r[k] # ShStart.r[k]]
  ELSE IF ~Inside(m.pc)
  THEN LET c == [m EXCEPT !.calls = Append(@, m.pc), !.r = [k \in 0..15 |-> IF k < 8 THEN 77 * k ELSE @[k]], !.pc = m.pr, !.npc = m.pr + 2, !.tt = FALSE]
       IN IF ~StackOk(m.r[15]) THEN Fail(c) ELSE c
  ELSE ShStep(m)

\* ---- MIPS --------------------------------------------------------------------
VStack == V(Stack)
VRet == V(RetAdr)
MStart == [r |-> [k \in 0..31 |-> IF k = 0 THEN Zero ELSE IF k = 29 THEN VStack ELSE IF k = 31 THEN VRet ELSE V(1048576 + 1111 * k)], f |-> [k \in 0..31 |-> Zero],
           mem |-> [a \in {Adr(o) : o \in 0..Len(s.out) - 1} |-> s.out[((a[1] - Case.base[1] + B16) % B16) + 1]],
           seed |-> 1, pc |-> Adr(Ctor.at), npc |-> Adr(Ctor.at + 4), bad |-> FALSE, calls |-> <<>>, done |-> FALSE, n |-> 0, late |-> 0]
Span(a) == ToInt(SignExt32(Trunc32(Sub(a, Adr(Ctor.at)))))
MInside(a) == LET d == SignExt32(Trunc32(Sub(a, Adr(Ctor.at)))) IN ~Lt(d, Zero) /\ Lt(d, V(Len0))
MWord(a) == LET o == Ctor.at + Span(a) b == SubSeq(s.out, o + 1, o + 4) IN
            IF Big THEN <<b[1] * 256 + b[2], b[3] * 256 + b[4]>> ELSE <<b[4] * 256 + b[3], b[2] * 256 + b[1]>>
MipsCode(m) ==
  IF m.pc = VRet THEN [m EXCEPT !.done = TRUE, !.bad = @ \/ \E k \in 16..23 \cup {28, 29, 30} : m.r[k] # MStart.r[k]]
  ELSE IF ~MInside(m.pc)
  THEN [m EXCEPT !.calls = Append(@, m.pc), !.r = [k \in 0..31 |-> IF k \in 2..15 \cup {24, 25} THEN V(77 * k) ELSE @[k]], !.pc = m.r[31], !.npc = Trunc32(Add(m.r[31], V(4)))]
  ELSE LET w == MWord(m.pc)
           op == w[1] \div 1024 rs == (w[1] \div 32) % 32 rt == w[1] % 32 rd == w[2] \div 2048 fn == w[2] % 64
           \* the first of these processors does not wait for what is loaded
           early == Case.arch = "psx" /\ m.late # 0 /\ (rs = m.late \/ (op \in {0, 4, 5, 43} /\ rt = m.late))
           nx == [m EXCEPT !.pc = m.npc]
           x == IF op = 0 /\ fn = 8 THEN [nx EXCEPT !.npc = Trunc32(m.r[rs])]
                ELSE IF op = 0 /\ fn = 9 THEN SetR([nx EXCEPT !.npc = Trunc32(m.r[rs])], rd, Trunc32(Add(m.pc, V(8))))
                ELSE Exec(m, w, Big)
       IN [x EXCEPT !.bad = @ \/ early, !.late = IF op = 35 THEN rt ELSE 0]

Start == IF Arm THEN ArmStart ELSE IF Mips THEN MStart ELSE ShStart
Code(m) == IF Arm THEN ArmCode(m) ELSE IF Mips THEN MipsCode(m) ELSE ShCode(m)
\* the entries that have to be called: the words of the constructor sections as they were emitted
Entries ==
  LET st == Prog[Ctor.stmt]
      os == ObjsOf(st.lib)
      ps == s.imps[Ctor.stmt]
      RECURSIVE g(_, _)
      g(k, j) == IF k > Len(os) THEN <<>>
                 ELSE IF j > Len(os[k].sections) THEN g(k + 1, 1)
                 ELSE LET sec == os[k].sections[j] IN
                      (IF Loaded(sec) /\ sec.name \in {".ctors", ".init_array"} THEN [x \in 1..sec.size \div 4 |-> Trunc32(Word(s.out, ps[k].sec[j] + 4 * (x - 1)))] ELSE <<>>) \o g(k, j + 1)
  IN g(1, 1)
Called(m) == IF Mips THEN m.calls ELSE [k \in 1..Len(m.calls) |-> V(m.calls[k])]
CodeOk(m) == m.done /\ ~m.bad /\ Called(m) = Entries
=============================================================================
