-------------------------------- MODULE Ins --------------------------------
(***************************************************************************)
(* Programs of instructions.  First every line gets its address (with the  *)
(* load-delay no-operations that are inserted), then every line is         *)
(* encoded; each step handles one line.  The observed run has to agree:    *)
(* a program with a line that must be rejected fails and names such a      *)
(* line, any other program assembles to bytes allowed for each line, and   *)
(* hazards are reported exactly where they are.                            *)
(***************************************************************************)
EXTENDS Mips, SuperH

VARIABLE s
Cases == CachedCases
Case == Cases[s.c]
Lines == Case.lines
IsMips(a) == a \in {"psx", "n64", "ps2", "psp", "rsp"}
IsSh(a) == a \in {"saturn", "32x"}

\* what a line is, before addresses are known
PickOf(a, l) == IF IsMips(a) THEN MPick(a, l.n, l.o) ELSE ShPick(l.n, l.o)
Width(a) == IF IsSh(a) THEN 2 ELSE 4

\* load delay: register loaded by the directly preceding instruction, if any
Uses(pk, r) == \/ pk[2].d = r
               \/ pk[2].s = r
               \/ pk[2].t = r /\ ~Fl(pk[1], 8)

InitState(i) == [c |-> i, ph |-> "place", i |-> 1, at |-> <<>>, pos |-> Cases[i].base, a |-> Cases[i].a, pk |-> <<>>, nop |-> {},
                 ld |-> -1, ds |-> FALSE, fix |-> FALSE, warn |-> {}, note |-> {}, must |-> {}, may |-> {}, bad |-> {}, lab |-> [x \in {} |-> 0], off |-> 0]

Fixing == \E k \in 1..Len(Lines) : Lines[k].k = "fix"     \* the directive holds for the whole program

\* one line gets its place
Place ==
  /\ s.ph = "place" /\ s.i <= Len(Lines)
  /\ LET l == Lines[s.i]
         nx == [s EXCEPT !.i = @ + 1, !.at = Append(@, s.pos), !.pk = Append(@, <<>>)]
     IN s' =
       CASE l.k = "ins" ->
            (LET pk == PickOf(s.a, l)
                 e == pk[1]
                 mips == IsMips(s.a) /\ pk # <<>>
                 hz == mips /\ s.a = "psx" /\ s.ld >= 0 /\ Uses(pk, s.ld)
                 add == hz /\ Fixing
                 slot == mips /\ s.ds /\ Fl(e, 6)
             IN [s EXCEPT !.i = @ + 1, !.at = Append(@, IF add THEN Add(s.pos, V(4)) ELSE s.pos),
                          !.pk = Append(@, pk), !.pos = Add(@, V(Width(s.a) + (IF add THEN 4 ELSE 0))),
                          !.nop = IF add THEN @ \cup {s.i} ELSE @,
                          !.warn = IF hz THEN @ \cup {l.ln} ELSE @, !.note = IF add THEN @ \cup {l.ln} ELSE @,
                          !.must = IF pk = <<>> \/ slot THEN @ \cup {l.ln} ELSE @,
                          !.ds = mips /\ Fl(e, 5),
                          !.ld = IF mips /\ s.a = "psx" /\ Fl(e, 7) THEN pk[2].t ELSE -1])
         [] l.k = "lab" -> [nx EXCEPT !.lab = [x \in DOMAIN @ \cup {l.i} |-> IF x = l.i THEN s.pos ELSE @[x]]]
         [] l.k = "word" -> [nx EXCEPT !.pos = Add(@, V(4))]
         [] l.k = "skip" -> [nx EXCEPT !.pos = Add(@, V(l.v)), !.ld = IF l.rst THEN -1 ELSE @, !.ds = IF l.rst THEN FALSE ELSE @]
         [] l.k = "reset" -> [nx EXCEPT !.ld = -1, !.ds = FALSE]
         [] l.k = "arch" -> [nx EXCEPT !.a = l.a]
         [] OTHER -> nx
PlaceEnd == s.ph = "place" /\ s.i > Len(Lines) /\ s' = [s EXCEPT !.ph = "enc", !.i = 1, !.a = Case.a, !.ld = -1]

\* value of an immediate operand of line i
ValOf(o, i) ==
  IF o.k # "imm" THEN <<>>
  ELSE IF o.b = "abs" THEN <<o.v>>
  ELSE IF o.b = "dot" THEN <<Add(IF i \in s.nop THEN Sub(s.at[i], V(4)) ELSE s.at[i], o.v)>>
  ELSE IF o.l \in DOMAIN s.lab THEN <<Add(s.lab[o.l], o.v)>> ELSE <<>>

Verdict(i) ==
  LET pk == s.pk[i] IN
  IF IsMips(s.a) THEN MEnc(s.a, pk, s.at[i], ValOf(pk[2].imm, i), ValOf(pk[2].sec, i))
  ELSE ShEnc(pk, s.at[i], ValOf(pk[2].imm, i))

Off(i) == ToInt(Sub(s.at[i], Case.base))
\* output bytes are kept as pieces, long runs of zeros left out
ByteAt(k) == LET P == {x \in 1..Len(Case.obs.bytes) : LET b == Case.obs.bytes[x] IN b.o <= k /\ k < b.o + Len(b.b)} IN
             IF P = {} THEN 0 ELSE LET b == Case.obs.bytes[CHOOSE x \in P : TRUE] IN b.b[k - b.o + 1]
GotAt(o, n) == IF o + n <= Case.obs.len THEN [x \in 1..n |-> ByteAt(o + x - 1)] ELSE <<>>
Got(i, n) == GotAt(Off(i), n)
EncLine ==
  /\ s.ph = "enc" /\ s.i <= Len(Lines)
  /\ LET l == Lines[s.i] i == s.i IN s' =
       CASE l.k = "ins" ->
            (IF s.pk[i] = <<>> THEN [s EXCEPT !.i = @ + 1]
             ELSE LET v == Verdict(i) n == Width(s.a) IN
               [s EXCEPT !.i = @ + 1,
                         !.must = IF v.w = {} THEN @ \cup {l.ln} ELSE @,
                         !.may = IF v.may THEN @ \cup {l.ln} ELSE @,
                         !.bad = IF Case.obs.rc = 0 /\ (~(Got(i, n) \in v.w) \/ (i \in s.nop /\ GotAt(Off(i) - 4, 4) # <<0, 0, 0, 0>>)) THEN @ \cup {l.ln} ELSE @])
         [] l.k = "word" -> [s EXCEPT !.i = @ + 1,
                         !.bad = IF Case.obs.rc = 0 /\ l.l \in DOMAIN s.lab /\ Got(i, 4) # BytesOf(s.lab[l.l], 4, ~(s.a \in {"psx", "ps2", "psp"})) THEN @ \cup {l.ln} ELSE @]
         [] l.k = "arch" -> [s EXCEPT !.i = @ + 1, !.a = l.a]
         [] OTHER -> [s EXCEPT !.i = @ + 1]
EncEnd == s.ph = "enc" /\ s.i > Len(Lines) /\ s' = [s EXCEPT !.ph = "judge"]

ObsSev(v) == {Case.obs.d[k][2] : k \in {x \in 1..Len(Case.obs.d) : Case.obs.d[x][3] = v}}
RelLines == {Lines[k].ln : k \in {x \in 1..Len(Lines) : Lines[x].k = "ins" /\ Lines[x].rel}}
Why ==
  IF s.must # {} THEN
    (IF Case.obs.rc # 1 THEN {"accepted"} ELSE {}) \cup
    (IF Case.obs.rc = 1 /\ ObsSev("e") \cap s.must = {} THEN {"unreported"} ELSE {}) \cup
    (IF ~(ObsSev("e") \subseteq (s.must \cup s.may \cup RelLines)) THEN {"errors"} ELSE {}) \cup
    (IF Case.obs.rc = 1 /\ Case.obs.len # 0 THEN {"output"} ELSE {})
  ELSE IF Case.obs.rc = 1 /\ s.may # {} THEN (IF ObsSev("e") # {} /\ ObsSev("e") \subseteq s.may THEN {} ELSE {"errors"})
  ELSE (IF Case.obs.rc # 0 THEN {"rejected"} ELSE {}) \cup
       (IF s.bad # {} THEN {"bytes"} ELSE {}) \cup
       (IF Case.obs.rc = 0 /\ Case.obs.len # ToInt(Sub(s.pos, Case.base)) THEN {"length"} ELSE {}) \cup
       (IF Case.obs.rc = 0 /\ ObsSev("w") # s.warn THEN {"hazards"} ELSE {}) \cup
       (IF Case.obs.rc = 0 /\ ObsSev("n") # s.note THEN {"fixes"} ELSE {}) \cup
       (IF Case.obs.rc = 0 /\ ObsSev("e") # {} THEN {"errors"} ELSE {})

\* the specification's own invariants
Sane == /\ s.note \subseteq s.warn
        /\ s.ph = "enc" => Len(s.at) = Len(Lines) /\ \A k \in 1..Len(s.at) - 1 : Le(s.at[k], s.at[k + 1])
=============================================================================
