-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Text with character tables: reading a table file, encoding a string by  *)
(* its longest matching entries; the part of Shift-JIS given by formulas.  *)
(* Strings and files are sequences of bytes.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

LineStarts(data) == {1} \cup {j + 1 : j \in {i \in 1..Len(data) : data[i] = 10}}
LineAt(data, a) == LET stop == {j \in a..Len(data) : data[j] = 10}
                       e == IF stop = {} THEN Len(data) ELSE (CHOOSE x \in stop : \A y \in stop : x <= y) - 1
                   IN SubSeq(data, a, e)
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
Nibble(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE -1
IsHex(s) == \A j \in 1..Len(s) : Nibble(s[j]) >= 0
HexBytes(s) == [j \in 1..(Len(s) \div 2) |-> 16 * Nibble(s[2 * j - 1]) + Nibble(s[2 * j])]

(* a table: entries in file order and the end marker *)
NoTable == [ent |-> <<>>, term |-> <<>>]
TableLine(t, l) ==
  IF l = <<>> \/ l[1] = 42 THEN t
  ELSE IF l[1] = 47 THEN
    LET h == Tail(l) IN IF h = <<>> \/ Len(h) > 64 \/ ~IsHex(h) THEN t ELSE [t EXCEPT !.term = HexBytes(h)]
  ELSE LET eq == {j \in 1..Len(l) : l[j] = 61}
           p == IF eq = {} THEN 0 ELSE CHOOSE x \in eq : \A y \in eq : x <= y
           h == SubSeq(l, 1, p - 1)
           k == SubSeq(l, p + 1, Len(l))
       IN IF p = 0 \/ h = <<>> \/ k = <<>> \/ Len(h) > 64 \/ ~IsHex(h) THEN t
          ELSE [t EXCEPT !.ent = Append(@, [k |-> k, h |-> HexBytes(h)])]
RECURSIVE TableLines(_, _, _, _)
TableLines(t, data, st, j) == IF j > Len(st) THEN t ELSE TableLines(TableLine(t, LineAt(data, st[j])), data, st, j + 1)
ReadTable(data) == TableLines([ent |-> <<>>, term |-> <<0>>], data, Sorted(LineStarts(data)), 1)

Matches(tab, s, p) == {j \in 1..Len(tab.ent) : LET k == tab.ent[j].k IN
                         p + Len(k) - 1 <= Len(s) /\ SubSeq(s, p, p + Len(k) - 1) = k}
\* the longest entry; of two with the same text the later one
Best(tab, S) == CHOOSE j \in S : \A i \in S : \/ Len(tab.ent[i].k) < Len(tab.ent[j].k)
                                              \/ Len(tab.ent[i].k) = Len(tab.ent[j].k) /\ i <= j
RECURSIVE EncText(_, _, _)
EncText(tab, s, p) ==
  IF p > Len(s) THEN [ok |-> TRUE, b |-> <<>>]
  ELSE LET S == Matches(tab, s, p) IN
       IF S = {} THEN [ok |-> FALSE, b |-> <<>>]
       ELSE LET e == tab.ent[Best(tab, S)]
                r == EncText(tab, s, p + Len(e.k))
            IN IF r.ok THEN [ok |-> TRUE, b |-> e.h \o r.b] ELSE r

----------------------------------------------------------------------------
(* Shift-JIS: ASCII, half-width katakana, and the rows of hiragana, full-width katakana, digits and letters *)
Utf8At(s, p) == IF s[p] < 128 THEN [u |-> s[p], n |-> 1]
                ELSE IF s[p] < 224 THEN [u |-> (s[p] - 192) * 64 + s[p + 1] - 128, n |-> 2]
                ELSE [u |-> (s[p] - 224) * 4096 + (s[p + 1] - 128) * 64 + s[p + 2] - 128, n |-> 3]
\* cell c (1..94) of row r (1..94): two bytes
Cell(r, c) == LET h == (r - 1) \div 2
                  hi == h + (IF h < 31 THEN 129 ELSE 193)
                  lo == IF r % 2 = 1 THEN c + 63 + (IF c > 63 THEN 1 ELSE 0) ELSE c + 158
              IN <<hi, lo>>
SjisOf(u) == CASE u \in 1..127 -> <<u>>
               [] u \in 65377..65439 -> <<u - 65377 + 161>>
               [] u \in 12353..12435 -> Cell(4, u - 12352)
               [] u \in 12449..12534 -> Cell(5, u - 12448)
               [] u \in 65296..65305 -> Cell(3, u - 65280)
               [] u \in 65313..65338 -> Cell(3, u - 65280)
               [] u \in 65345..65370 -> Cell(3, u - 65280)
               [] OTHER -> <<>>
RECURSIVE EncSjis(_, _)
EncSjis(s, p) ==
  IF p > Len(s) THEN [ok |-> TRUE, b |-> <<>>]
  ELSE LET c == Utf8At(s, p)
           b == SjisOf(c.u)
           r == EncSjis(s, p + c.n)
       IN IF b = <<>> \/ ~r.ok THEN [ok |-> FALSE, b |-> <<>>] ELSE [ok |-> TRUE, b |-> b \o r.b]

----------------------------------------------------------------------------
(* data directives: width in bytes (0: half, -1: word, -2: double word of the architecture) and kind: *)
(* n numbers, a text, z text with terminator, f floats, c table text, C with terminator, j/J Shift-JIS *)
DirTable ==
  LET All(S, w, k) == [d \in S |-> <<w, k>>]
      M(f, g) == [d \in DOMAIN f \cup DOMAIN g |-> IF d \in DOMAIN f THEN f[d] ELSE g[d]]
  IN M(All({".byte", ".db", "db", ".d8", ".dcb", "dcb"}, 1, "n"),
     M(All({".halfword", ".hword", ".dh", "dh", ".dcw", "dcw"}, 0, "n"),
     M(All({".word", ".dw", "dw", ".dcd", "dcd"}, -1, "n"),
     M(All({".doubleword", ".dword", ".dd", "dd", ".dcq", "dcq"}, -2, "n"),
     M(All({".d16"}, 2, "n"), M(All({".d32"}, 4, "n"), M(All({".d64"}, 8, "n"),
     M(All({".float"}, 4, "f"), M(All({".double"}, 8, "f"),
     M(All({".ascii"}, 1, "a"), M(All({".asciiz"}, 1, "z"),
     M(All({".string", ".str"}, 1, "C"), M(All({".stringn", ".strn"}, 1, "c"),
     M(All({".sjis"}, 1, "J"), All({".sjisn"}, 1, "j")))))))))))))))
\* in the mode compatible with no$gba, two names mean fixed widths
DirInfo(d, nocash, ws) ==
  LET e == IF nocash /\ d \in {".dw", "dw"} THEN <<2, "n">>
           ELSE IF nocash /\ d \in {".dd", "dd"} THEN <<4, "n">> ELSE DirTable[d]
  IN <<CASE e[1] = 0 -> ws \div 2 [] e[1] = -1 -> ws [] e[1] = -2 -> 2 * ws [] OTHER -> e[1], e[2]>>
=============================================================================
