------------------------------ MODULE ArmProg ------------------------------
(***************************************************************************)
(* Programs of ARM and Thumb statements with literal pools.  The program   *)
(* is laid out in passes, one statement per step: a load of a value waits  *)
(* for the next pool, a pool takes what waits in front of it, every value  *)
(* once.  When no label and no pool changes any more, the statements are   *)
(* encoded and compared with the output of the assembler.                  *)
(***************************************************************************)
EXTENDS Arm

VARIABLE s
Cases == CachedCases
Case == Cases[s.c]
Lines == Case.lines
A == Case.a
MaxPasses == 9
NONE == [x \in {} |-> 0]

InitState(i) == [c |-> i, ph |-> "lay", pass |-> 0, i |-> 1, pos |-> Cases[i].base, at |-> <<>>, lab |-> NONE, slot |-> NONE, wait |-> <<>>, pool |-> NONE, chg |-> FALSE, cls |-> NONE, flip |-> FALSE, end |-> Cases[i].base,
                 warn |-> {}, must |-> {}, may |-> {}, bad |-> {}]
Set(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

\* value of an operand of the statement at pos; <<>>: not known yet
Val(o, pos) ==
  CASE o.b = "none" -> <<>>
    [] o.b = "abs" -> <<o.v>>
    [] o.b = "flt" -> <<o.v, "flt">>
    [] o.b = "dot" -> <<Add(pos, o.v)>>
    [] OTHER -> IF o.l \in DOMAIN s.lab THEN <<Add(s.lab[o.l], o.v)>> ELSE <<>>
Unknown(o) == o.b = "lab" /\ ~(o.l \in DOMAIN s.lab)

Pad(p, n) == (n - (p[1] % n)) % n
\* literal pools: the values that wait, each once, in the order they came
RECURSIVE Distinct(_)
Distinct(q) == IF q = <<>> THEN <<>>
               ELSE LET d == Distinct(SubSeq(q, 1, Len(q) - 1)) x == q[Len(q)][2] IN IF \E i \in DOMAIN d : d[i] = x THEN d ELSE Append(d, x)
IndexOf(d, x) == CHOOSE i \in DOMAIN d : d[i] = x

MsgLen(l, pos) ==     \* debug message: two instructions, a mark, the text, padding
  LET e == (IF l.th THEN 4 ELSE 8) + 4 + (IF Len(l.x) = 0 THEN 1 ELSE Len(l.x)) IN e + Pad(Add(pos, V(e)), IF l.th THEN 2 ELSE 4)

Lay ==
  /\ s.ph = "lay" /\ s.i <= Len(Lines)
  /\ LET l == Lines[s.i]
         nx(n) == [s EXCEPT !.i = @ + 1, !.at = Append(@, s.pos), !.pos = Add(@, V(n)), !.end = IF n # 0 /\ l.k # "skip" THEN Add(s.pos, V(n)) ELSE @]
     IN s' =
       CASE l.k = "ins" ->
            (IF Unknown(l.v) THEN nx(0)
             ELSE LET v == Val(l.v, s.pos)
                      waits == l.f \in {"pool", "tpool"} /\ IsBits(v) /\ (l.th \/ PoolMove(v[1]) = "pool")
                  IN [nx(InsLen(l)) EXCEPT !.wait = IF waits THEN Append(@, <<s.i, Trunc32(v[1])>>) ELSE @,
                                              !.cls = IF l.f = "pool" THEN Set(@, s.i, waits) ELSE @,
                                              !.flip = @ \/ (s.i \in DOMAIN s.cls /\ s.cls[s.i] # waits)])
         [] l.k = "lab" -> [nx(0) EXCEPT !.lab = Set(@, l.i, s.pos), !.chg = @ \/ ~(l.i \in DOMAIN s.lab) \/ s.lab[l.i] # s.pos]
         [] l.k = "pool" ->
            (LET p == Add(s.pos, V(Pad(s.pos, 4)))
                 d == Distinct(s.wait)
                 own == {s.wait[i][1] : i \in DOMAIN s.wait}
                 place(i) == LET k == CHOOSE k \in DOMAIN s.wait : s.wait[k][1] = i IN Add(p, V(4 * (IndexOf(d, s.wait[k][2]) - 1)))
             IN [nx(0) EXCEPT !.pos = Add(p, V(4 * Len(d))), !.end = IF Add(p, V(4 * Len(d))) # s.pos THEN Add(p, V(4 * Len(d))) ELSE @, !.wait = <<>>, !.slot = [i \in DOMAIN @ \cup own |-> IF i \in own THEN place(i) ELSE @[i]],
                              !.pool = Set(@, s.i, <<p, d>>), !.chg = @ \/ (IF s.i \in DOMAIN s.pool THEN Len(s.pool[s.i][2]) # Len(d) ELSE Len(d) # 0)])
         [] l.k = "word" -> nx(4)
         [] l.k \in {"skip", "fill"} -> nx(l.v)
         [] l.k = "msg" -> nx(MsgLen(l, s.pos))
         [] l.k = "align" -> nx(Pad(s.pos, l.v))
         [] OTHER -> nx(0)
LayEnd ==
  /\ s.ph = "lay" /\ s.i > Len(Lines)
  /\ s' = IF s.chg /\ s.pass < MaxPasses THEN [s EXCEPT !.pass = @ + 1, !.i = 1, !.pos = Case.base, !.end = Case.base, !.at = <<>>, !.wait = <<>>, !.slot = NONE, !.chg = FALSE]
          ELSE IF s.chg THEN [s EXCEPT !.ph = "judge"]
          ELSE [s EXCEPT !.ph = "enc", !.i = 1]

ByteAt(k) == LET P == {x \in 1..Len(Case.obs.bytes) : LET b == Case.obs.bytes[x] IN b.o <= k /\ k < b.o + Len(b.b)} IN
             IF P = {} THEN 0 ELSE LET b == Case.obs.bytes[CHOOSE x \in P : TRUE] IN b.b[k - b.o + 1]
GotAt(o, n) == IF o + n <= Case.obs.len THEN [x \in 1..n |-> ByteAt(o + x - 1)] ELSE <<>>
Off(p) == ToInt(Sub(p, Case.base))
Big == A = "arm.big"

Verdict(i) ==
  LET l == Lines[i]
      pos == s.at[i]
      v == Val(l.v, pos)
      slot == IF i \in DOMAIN s.slot THEN <<s.slot[i]>> ELSE <<>>
  IN IF l.th THEN TEnc(A, l, pos, v, slot) ELSE AEnc(A, l, pos, v, Val(l.sh.v, pos), slot)

RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))
PoolBytes(p) == Cat([i \in DOMAIN p[2] |-> BytesOf(p[2][i], 4, Big)])
Zeros(n) == [i \in 1..n |-> 0]
\* the debug message: a no-operation, a branch over it, the mark and the text
MsgBytes(l, pos) ==
  LET n == MsgLen(l, pos)
      first == IF l.th THEN <<HalfBytes(18148, Big), HalfBytes(57344 + ((n - 6) \div 2), Big)>>
               ELSE <<WordBytes(<<57760, 49164>>, Big), WordBytes(<<59904, (n - 12) \div 4>>, Big)>>
      txt == IF Len(l.x) = 0 THEN <<0>> ELSE l.x
      b == first[1] \o first[2] \o <<100, 100, 0, 0>> \o txt
  IN b \o Zeros(n - Len(b))

\* an instruction that the processor cannot reach at all: warned about
Misplaced(l, pos) == pos[1] % (IF l.th THEN 2 ELSE 4) # 0
EncLine ==
  /\ s.ph = "enc" /\ s.i <= Len(Lines)
  /\ LET l == Lines[s.i]
         i == s.i
         ok == Case.obs.rc = 0
         chk(b, at) == [s EXCEPT !.i = @ + 1, !.bad = IF ok /\ GotAt(Off(at), Len(b)) # b THEN @ \cup {l.ln} ELSE @]
     IN s' =
       CASE l.k = "ins" ->
            (LET v == Verdict(i) IN
              [s EXCEPT !.i = @ + 1,
                        !.must = IF v.w = {} THEN @ \cup {l.ln} ELSE @,
                        !.may = IF v.may THEN @ \cup {l.ln} ELSE @,
                        !.warn = IF Misplaced(l, s.at[i]) THEN @ \cup {l.ln} ELSE @,
                        !.bad = IF ok /\ ~Misplaced(l, s.at[i]) /\ ~(GotAt(Off(s.at[i]), InsLen(l)) \in v.w) THEN @ \cup {l.ln} ELSE @])
         [] l.k = "pool" -> chk(Zeros(Pad(s.at[i], 4)) \o PoolBytes(s.pool[i]), s.at[i])
         [] l.k = "word" -> chk(BytesOf(Val(l.v, s.at[i])[1], 4, Big), s.at[i])
         [] l.k = "fill" -> chk(IF l.v <= 32 THEN Zeros(l.v) ELSE Zeros(8), s.at[i])
         [] l.k = "align" -> chk(Zeros(Pad(s.at[i], l.v)), s.at[i])
         [] l.k = "msg" -> IF Len(l.x) > 120 THEN [s EXCEPT !.i = @ + 1, !.must = @ \cup {l.ln}] ELSE chk(MsgBytes(l, s.at[i]), s.at[i])
         [] OTHER -> [s EXCEPT !.i = @ + 1]
EncEnd == s.ph = "enc" /\ s.i > Len(Lines) /\ s' = [s EXCEPT !.ph = "judge"]

ObsSev(v) == {Case.obs.d[k][2] : k \in {x \in 1..Len(Case.obs.d) : Case.obs.d[x][3] = v}}
RelLines == {Lines[k].ln : k \in {x \in 1..Len(Lines) : Lines[x].k = "ins" /\ Lines[x].rel}}
Why ==
  IF s.chg THEN {}                        \* the layout does not settle within the passes that share values
  ELSE IF s.flip THEN {}                  \* more than one layout agrees with itself
  ELSE IF ~Is32(s.pos) THEN {}            \* left the address space
  ELSE IF s.must # {} THEN
    (IF Case.obs.rc # 1 THEN {"accepted"} ELSE {}) \cup
    (IF Case.obs.rc = 1 /\ ObsSev("e") \cap (s.must \cup s.may) = {} THEN {"unreported"} ELSE {}) \cup
    (IF ~(ObsSev("e") \subseteq (s.must \cup s.may \cup RelLines)) THEN {"errors"} ELSE {}) \cup
    (IF Case.obs.rc = 1 /\ Case.obs.len # 0 THEN {"output"} ELSE {})
  ELSE IF Case.obs.rc = 1 /\ s.may # {} THEN (IF ObsSev("e") # {} /\ ObsSev("e") \subseteq (s.may \cup RelLines) THEN {} ELSE {"errors"})
  ELSE (IF Case.obs.rc # 0 THEN {"rejected"} ELSE {}) \cup
       (IF s.bad # {} THEN {"bytes"} ELSE {}) \cup
       (IF Case.obs.rc = 0 /\ Case.obs.len # Off(s.end) THEN {"length"} ELSE {}) \cup
       (IF Case.obs.rc = 0 /\ ObsSev("w") # s.warn THEN {"warnings"} ELSE {}) \cup
       (IF Case.obs.rc = 0 /\ ObsSev("e") # {} THEN {"errors"} ELSE {})

\* the specification's own invariants: pools are aligned, hold no value twice, and every load that waits for one finds its value in it
Sane == /\ \A k \in DOMAIN s.pool : LET p == s.pool[k] IN p[1][1] % 4 = 0 /\ \A i, j \in DOMAIN p[2] : p[2][i] = p[2][j] => i = j
        /\ s.ph = "enc" => Len(s.at) = Len(Lines) /\ \A k \in 1..Len(s.at) - 1 : Le(s.at[k], s.at[k + 1])
        /\ s.ph = "enc" => \A i \in DOMAIN s.slot : \E k \in DOMAIN s.pool : \E j \in DOMAIN s.pool[k][2] :
              s.slot[i] = Add(s.pool[k][1], V(4 * (j - 1))) /\ s.pool[k][2][j] = Trunc32(Val(Lines[i].v, s.at[i])[1]) /\ k > i
=============================================================================
