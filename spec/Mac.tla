-------------------------------- MODULE Mac --------------------------------
(***************************************************************************)
(* MIPS pseudo-instructions: what each one does to registers, memory and   *)
(* control flow, and the judgement of the code that was emitted for it by  *)
(* executing that code.  A program puts each pseudo-instruction into a     *)
(* slot of its own; one step executes one slot from one initial state.     *)
(***************************************************************************)
EXTENDS MipsExec

VARIABLE s
Cases == CachedCases
Case == Cases[s.c]
Slots == Case.slots
Big == Case.a \in {"n64", "rsp"}
SlotLen == 64
SlotAt(k) == Add(Case.base, V(SlotLen * (k - 1)))

ByteAt(k) == LET P == {x \in 1..Len(Case.obs.bytes) : LET b == Case.obs.bytes[x] IN b.o <= k /\ k < b.o + Len(b.b)} IN
             IF P = {} THEN 0 ELSE LET b == Case.obs.bytes[CHOOSE x \in P : TRUE] IN b.b[k - b.o + 1]
WordAt(k) == LET b(i) == ByteAt(k + i) IN
             IF Big THEN <<b(0) * 256 + b(1), b(2) * 256 + b(3)>> ELSE <<b(3) * 256 + b(2), b(1) * 256 + b(0)>>

\* values as written: absolute or relative to the start of the slot
Val(sl, k) == IF sl.b = "dot" THEN Add(SlotAt(k), sl.v) ELSE sl.v

Hi32 == <<65535, 65535, 0, 0>>
InU32(v) == v[3] = 0 /\ v[4] = 0
In32(v) == Is32(v)
Loads == {"lb", "lbu", "lh", "lhu", "lw", "lwu", "ld", "ll", "lwc1", "l.s", "ldc1", "l.d"}
Stores == {"sb", "sh", "sw", "sd", "swc1", "s.s", "sdc1", "s.d"}
Unal == {"ulh", "ulhu", "ulw", "uld", "ush", "usw", "usd"}
Size(n) == CASE n \in {"lb", "lbu", "sb"} -> 1 [] n \in {"lh", "lhu", "sh", "ulh", "ulhu", "ush"} -> 2
             [] n \in {"ld", "sd", "ldc1", "l.d", "sdc1", "s.d", "uld", "usd"} -> 8 [] OTHER -> 4
Fpu(n) == n \in {"lwc1", "l.s", "ldc1", "l.d", "swc1", "s.s", "sdc1", "s.d"}
Branches == {"blt", "bltu", "bgt", "bgtu", "bge", "bgeu", "ble", "bleu", "bne", "beq",
             "bltl", "bltul", "bgtl", "bgtul", "bgel", "bgeul", "blel", "bleul", "bnel", "beql"}

\* accepted, rejected, or either
Verdict(sl, k) ==
  LET v == Val(sl, k) n == sl.m IN
  CASE n \in {"li", "la"} \/ (sl.i /\ n \in Branches) \/ (sl.i /\ sl.set) ->
         IF In32(v) THEN "acc" ELSE IF Le(AbsV(v), <<65535, 65535, 0, 0>>) THEN "may" ELSE "rej"
    [] n \in Loads \cup Stores -> IF InU32(v) THEN "acc" ELSE IF IsNeg(v) /\ In32(v) THEN "may" ELSE "rej"
    [] n \in Unal ->
         IF ~Fits(v) THEN "rej"
         ELSE LET o == ToInt(v) e == o + Size(n) - 1 IN
              IF o < -32768 \/ o > 65535 \/ (o < 32768 /\ e >= 32768) THEN "rej"
              ELSE IF o >= 32768 \/ (sl.d = sl.s /\ ~(n \in {"ulh", "ulhu", "ush"})) THEN "may" ELSE "acc"
    [] n \in {"rol", "ror"} /\ sl.i -> IF Fits(v) /\ ToInt(v) \in 0..31 THEN "acc" ELSE "may"
    [] OTHER -> "acc"

Cmp(n, a, b) ==
  CASE n = "lt" -> Lt(a, b) [] n = "ltu" -> ULt(a, b) [] n = "gt" -> Lt(b, a) [] n = "gtu" -> ULt(b, a)
    [] n = "ge" -> Le(b, a) [] n = "geu" -> ~ULt(a, b) [] n = "le" -> Le(a, b) [] n = "leu" -> ~ULt(b, a)
    [] n = "eq" -> a = b [] n = "ne" -> a # b

\* the documented effect on m, as the set of states that are allowed (temporary register aside)
Effect(sl, k, m) ==
  LET v == Val(sl, k)
      n == sl.m
      S == m.r[sl.s]
      ua == Trunc32(Add(S, SExt(v, 16)))
      x == IF sl.i THEN SignExt32(v) ELSE m.r[sl.t]
      out == SlotAt(k + 1)
      fin == [m EXCEPT !.pc = out]
      set(r, y) == SetR(fin, r, y)
      lv(a) == LET y == LdV(m, a, Size(n), Big) IN
               CASE n \in {"lb", "lh", "ulh", "lw", "ll", "ulw"} -> SExt(y, 8 * Size(n)) [] OTHER -> y
  IN CASE n \in {"li", "la"} -> {set(sl.d, SignExt32(v))}
       [] n = "li.s" -> {[fin EXCEPT !.f[sl.d] = sl.fb]}
       [] n \in Loads -> {IF Fpu(n) THEN [fin EXCEPT !.f[sl.d] = LdV(m, Trunc32(v), Size(n), Big)] ELSE set(sl.d, lv(Trunc32(v)))}
       [] n \in Stores -> {StV(fin, Trunc32(v), Size(n), IF Fpu(n) THEN m.f[sl.d] ELSE m.r[sl.d], Big)}
       [] n \in {"ulh", "ulhu", "ulw", "uld"} ->
            {set(sl.d, lv(ua))} \cup
            \* known finding: the low byte of ulh is loaded with its sign
            (IF n = "ulh" THEN LET b(i) == SExt(V(Rd8(m, Trunc32(Add(ua, V(i))))), 8) IN {set(sl.d, BOr(SignExt32(Shl(b(1), 8)), b(0)))} ELSE {}) \cup
            \* known finding: big-endian processors get the little-endian order
            (IF Big THEN (IF n = "ulhu" THEN {set(sl.d, LdV(m, ua, 2, FALSE))}
                          ELSE IF n = "ulh" THEN {}
                          ELSE {set(sl.d, PartLd(m, PartLd(m, m.r[sl.d], Trunc32(Add(ua, V(Size(n) - 1))), Size(n), TRUE, TRUE), ua, Size(n), FALSE, TRUE))}) ELSE {})
       [] n \in {"ush", "usw", "usd"} ->
            {StV(fin, ua, Size(n), m.r[sl.d], Big)} \cup
            (IF Big THEN (IF n = "ush" THEN {StV(fin, ua, 2, m.r[sl.d], FALSE)}
                          ELSE {PartSt(PartSt(fin, m.r[sl.d], Trunc32(Add(ua, V(Size(n) - 1))), Size(n), TRUE, TRUE, 0), m.r[sl.d], ua, Size(n), FALSE, TRUE, 0)}) ELSE {})
       [] n \in Branches -> {[fin EXCEPT !.pc = IF Cmp(sl.c, S, x) THEN sl.dest ELSE out]}
       [] sl.set -> {set(sl.d, FromBool(Cmp(sl.c, S, x)))}
       [] n \in {"rol", "ror"} -> LET q == x[1] % 32 IN {set(sl.d, Rotr32(S, IF n = "ror" THEN q ELSE (32 - q) % 32))}
       [] n = "abs" -> {set(sl.d, SignExt32(AbsV(S)))}
       [] n = "dabs" -> {set(sl.d, AbsV(S))}

\* execution of the slot
RECURSIVE RunSlot(_, _, _)
RunSlot(m, k, left) ==
  LET o == Sub(m.pc, SlotAt(k)) IN
  IF m.bad \/ left = 0 THEN [m EXCEPT !.bad = TRUE]
  ELSE IF ~(o[4] = 0 /\ o[3] = 0 /\ o[2] = 0 /\ o[1] < SlotLen) THEN m
  ELSE RunSlot(Exec(m, WordAt(SlotLen * (k - 1) + o[1]), Big), k, left - 1)

Start(sl, k, st) ==
  [r |-> [n \in 0..31 |-> IF n = 0 THEN Zero
                          ELSE LET P == {x \in 1..Len(st.r) : st.r[x].n = n} IN
                               IF P = {} THEN SignExt32(<<(n * 4919 + st.seed * 257) % B16, (n * 7919 + st.seed * 31) % B16, 0, 0>>) ELSE st.r[CHOOSE x \in P : TRUE].v],
   f |-> [n \in 0..31 |-> <<(n * 313 + st.seed) % B16, (n * 77) % B16, (n * 5) % B16, 1>>],
   mem |-> [a \in {} |-> 0], pc |-> SlotAt(k), npc |-> Trunc32(Add(SlotAt(k), V(4))), seed |-> st.seed, bad |-> FALSE]
SameState(e, g, d) ==
  /\ ~g.bad /\ g.pc = e.pc /\ g.f = e.f
  /\ \A n \in 0..31 : (n # 1 \/ d = 1) => g.r[n] = e.r[n]
  /\ \A a \in DOMAIN e.mem \cup DOMAIN g.mem : Rd8(e, a) = Rd8(g, a)
Dest(sl) == IF sl.m \in Stores \cup Branches \cup {"ush", "usw", "usd", "li.s"} \/ Fpu(sl.m) THEN -1 ELSE sl.d
SlotOk(k, j) == LET sl == Slots[k] m == Start(sl, k, sl.st[j]) g == RunSlot(m, k, 24)
                IN \E e \in Effect(sl, k, m) : SameState(e, g, Dest(sl))

InitState(i) == [c |-> i, k |-> 1, j |-> 1, bad |-> {}, ph |-> "run"]
Step ==
  /\ s.ph = "run"
  /\ s' = IF s.k > Len(Slots) \/ Case.obs.rc # 0 THEN [s EXCEPT !.ph = "judge"]
          ELSE LET ok == SlotOk(s.k, s.j) IN
               [s EXCEPT !.bad = IF ok THEN @ ELSE @ \cup {Slots[s.k].ln[1]},
                         !.j = IF s.j = Len(Slots[s.k].st) THEN 1 ELSE @ + 1,
                         !.k = IF s.j = Len(Slots[s.k].st) THEN @ + 1 ELSE @]
LinesOf(v) == UNION {{Slots[k].ln[x] : x \in 1..Len(Slots[k].ln)} : k \in {y \in 1..Len(Slots) : Verdict(Slots[y], y) = v}}
Errs == {Case.obs.d[k][2] : k \in {x \in 1..Len(Case.obs.d) : Case.obs.d[x][3] = "e"}}
Why ==
  LET rej == {k \in 1..Len(Slots) : Verdict(Slots[k], k) = "rej"}
  IN IF rej # {} THEN
       (IF Case.obs.rc # 1 THEN {"accepted"} ELSE {}) \cup
       (IF Case.obs.rc = 1 /\ Errs \cap LinesOf("may") = {} /\ \E k \in rej : \A x \in 1..Len(Slots[k].ln) : ~(Slots[k].ln[x] \in Errs) THEN {"unreported"} ELSE {}) \cup
       (IF ~(Errs \subseteq (LinesOf("rej") \cup LinesOf("may"))) THEN {"errors"} ELSE {})
     ELSE IF Case.obs.rc = 1 THEN (IF Errs # {} /\ Errs \subseteq LinesOf("may") THEN {} ELSE {"rejected"})
     ELSE (IF Case.obs.rc # 0 THEN {"crash"} ELSE {}) \cup (IF s.bad # {} THEN {"effect"} ELSE {})
Sane == s.bad # {} => Case.obs.rc = 0
=============================================================================
