------------------------------- MODULE Decode -------------------------------
(***************************************************************************)
(* Text files: from the bytes of a file and the encoding that was asked    *)
(* for (or the byte order mark that overrides it) to lines of UTF-8.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences

Utf8(u) == IF u < 128 THEN <<u>>
           ELSE IF u < 2048 THEN <<192 + (u \div 64), 128 + (u % 64)>>
           ELSE <<224 + (u \div 4096), 128 + ((u \div 64) % 64), 128 + (u % 64)>>

\* the byte order mark: the encoding that counts and where the text starts
Mark(x, enc) ==
  IF Len(x) >= 3 /\ SubSeq(x, 1, 3) = <<239, 187, 191>> THEN [enc |-> "utf8", p |-> 4]
  ELSE IF Len(x) >= 2 /\ SubSeq(x, 1, 2) = <<255, 254>> THEN [enc |-> "utf16", p |-> 3]
  ELSE IF Len(x) >= 2 /\ SubSeq(x, 1, 2) = <<254, 255>> THEN [enc |-> "utf16-be", p |-> 3]
  ELSE [enc |-> enc, p |-> 1]

\* Shift-JIS of two bytes, by row and cell: full-width digits and letters, hiragana, katakana
Sjis2(hi, lo) ==
  LET h == hi - (IF hi < 160 THEN 129 ELSE 193)
      r == IF lo >= 159 THEN 2 * h + 2 ELSE 2 * h + 1
      c == IF lo >= 159 THEN lo - 158 ELSE lo - 63 - (IF lo > 127 THEN 1 ELSE 0)
  IN CASE r = 3 -> 65280 + c [] r = 4 -> 12352 + c [] r = 5 -> 12448 + c [] OTHER -> 65533

\* the character at p: its code and its length
CharAt(x, enc, p) ==
  CASE enc \in {"utf8", "ascii"} -> [u |-> x[p], n |-> 1]
    [] enc = "utf16" -> [u |-> x[p] + 256 * (IF p < Len(x) THEN x[p + 1] ELSE 0), n |-> 2]
    [] enc = "utf16-be" -> [u |-> 256 * x[p] + (IF p < Len(x) THEN x[p + 1] ELSE 0), n |-> 2]
    [] enc = "sjis" -> IF x[p] < 128 THEN [u |-> x[p], n |-> 1]
                       ELSE IF x[p] \in 161..223 THEN [u |-> 65377 + x[p] - 161, n |-> 1]
                       ELSE [u |-> IF p < Len(x) THEN Sjis2(x[p], x[p + 1]) ELSE 65533, n |-> 2]

\* the line from p on: its text and where the next one starts.  UTF-8 is kept as it is.
RECURSIVE LineFrom(_, _, _, _)
LineFrom(x, enc, p, acc) ==
  IF p > Len(x) THEN [v |-> acc, p |-> p]
  ELSE LET c == CharAt(x, enc, p) IN
       IF c.u = 10 THEN [v |-> acc, p |-> p + c.n]
       ELSE LineFrom(x, enc, p + c.n, IF enc = "utf8" THEN Append(acc, c.u) ELSE acc \o Utf8(c.u))
\* a line may end in CR LF
NoCR(v) == IF v # <<>> /\ v[Len(v)] = 13 THEN SubSeq(v, 1, Len(v) - 1) ELSE v
DecodeLine(x, enc, p) ==
  LET l == LineFrom(x, enc, p, <<>>)
      \* at the end of the file nothing follows the CR
      w == IF enc \in {"utf16", "utf16-be"} THEN 2 ELSE 1
      lf == l.p > w /\ l.p - w >= p /\ CharAt(x, enc, l.p - w).u = 10
  IN [v |-> IF lf THEN NoCR(l.v) ELSE l.v, p |-> l.p]
\* the whole text as UTF-8
RECURSIVE TextFrom(_, _, _)
TextFrom(x, enc, p) == IF p > Len(x) THEN <<>> ELSE LET l == DecodeLine(x, enc, p) IN l.v \o <<10>> \o TextFrom(x, enc, l.p)
TextOf(x, enc) == LET m == Mark(x, enc) IN TextFrom(x, m.enc, m.p)
\* names of encodings (in lower case); without one, and under any other name, a file is UTF-8
EncodingOf(n) ==
  CASE n \in {<<115, 106, 105, 115>>, <<115, 104, 105, 102, 116, 45, 106, 105, 115>>} -> "sjis"   \* sjis, shift-jis
    [] n \in {<<117, 116, 102, 49, 54>>, <<117, 116, 102, 45, 49, 54>>} -> "utf16"   \* utf16, utf-16
    [] n \in {<<117, 116, 102, 49, 54, 45, 98, 101>>, <<117, 116, 102, 45, 49, 54, 45, 98, 101>>} -> "utf16-be"   \* utf16-be, utf-16-be
    [] n \in {<<97, 115, 99, 105, 105>>} -> "ascii"   \* ascii
    [] OTHER -> "utf8"
=============================================================================
