-------------------------------- MODULE Lex --------------------------------
(***************************************************************************)
(* Source text to tokens.  Text is a sequence of character codes (UTF-8    *)
(* bytes) without the line break; a token is a record with t, its kind,    *)
(* and l, its line:                                                        *)
(*   id (n name in lower case, cs the same as codes, r whether it stands   *)
(*   for an argument), int (v), flt (m, e), str (v codes), op (o),         *)
(*   equ, equv (v: the text of an equ's value), bad (not a token), sep.    *)
(***************************************************************************)
EXTENDS I64, TLC

Ch(c) == c
IsUpper(c) == c \in 65..90
IsLower(c) == c \in 97..122
IsDigit(c) == c \in 48..57
IsAlnum(c) == IsUpper(c) \/ IsLower(c) \/ IsDigit(c)
Down(c) == IF IsUpper(c) THEN c + 32 ELSE c
\* @ _ . and letters start names, digits continue them
IdStart(c) == IsUpper(c) \/ IsLower(c) \/ c \in {64, 95, 46}
IdChar(c) == IdStart(c) \/ IsDigit(c)
At(x, p) == IF p <= Len(x) THEN x[p] ELSE 0
Two(x, p, a, b) == At(x, p) = a /\ At(x, p + 1) = b

Letters == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
Digits == <<"0","1","2","3","4","5","6","7","8","9">>
CharStr(c) == CASE IsLower(c) -> Letters[c - 96] [] IsDigit(c) -> Digits[c - 47]
                [] c = 64 -> "@" [] c = 95 -> "_" [] c = 46 -> "." [] OTHER -> "?"
RECURSIVE StrOf(_, _)
StrOf(cs, j) == IF j > Len(cs) THEN "" ELSE CharStr(cs[j]) \o StrOf(cs, j + 1)

\* the ends (exclusive) of the blanks or of the name from p on
Blank(c) == c \in {32, 9}
RECURSIVE BlankEnd(_, _), IdEnd(_, _)
BlankEnd(x, p) == IF p <= Len(x) /\ Blank(x[p]) THEN BlankEnd(x, p + 1) ELSE p
IdEnd(x, p) == IF p <= Len(x) /\ IdChar(x[p]) THEN IdEnd(x, p + 1) ELSE p

----------------------------------------------------------------------------
(* numbers *)
DigitVal(c) == IF IsDigit(c) THEN c - 48 ELSE Down(c) - 87
RECURSIVE Num(_, _, _, _, _)
Num(x, p, e, base, acc) ==
  IF p >= e THEN [ok |-> TRUE, v |-> acc]
  ELSE IF DigitVal(x[p]) \notin 0..(base - 1) THEN [ok |-> FALSE, v |-> acc]
  ELSE Num(x, p + 1, e, base, Add(Mul(acc, V(base)), V(DigitVal(x[p]))))
\* a prefix 0x, 0o, 0b or a suffix h, o, b gives the base; a final h makes a leading 0b digits
IntTok(x, p, e) ==
  LET z == x[p] = 48
      pre == IF e - p < 2 \/ ~z THEN 0 ELSE Down(x[p + 1])
      suf == Down(x[e - 1])
  IN CASE pre = 120 -> Num(x, p + 2, e, 16, Zero)
       [] pre = 111 -> Num(x, p + 2, e, 8, Zero)
       [] pre = 98 /\ suf # 104 -> Num(x, p + 2, e, 2, Zero)
       [] OTHER -> CASE suf = 104 -> Num(x, p, e - 1, 16, Zero)
                     [] suf = 98 -> Num(x, p, e - 1, 2, Zero)
                     [] suf = 111 -> Num(x, p, e - 1, 8, Zero)
                     [] OTHER -> Num(x, p, e, 10, Zero)
\* the end of a number: letters, digits, points, and the sign of an exponent
RECURSIVE NumEnd(_, _, _, _)
NumEnd(x, p, hex, sign) ==
  IF p > Len(x) \/ ~(IsAlnum(x[p]) \/ x[p] = 46) THEN p
  ELSE IF Down(x[p]) = 104 /\ ~sign THEN NumEnd(x, p + 1, TRUE, sign)
  ELSE IF Down(x[p]) = 101 /\ ~hex /\ At(x, p + 1) \in {43, 45} THEN NumEnd(x, p + 2, hex, TRUE)
  ELSE NumEnd(x, p + 1, hex, sign)
\* position of a character in x[p..e-1], or e
RECURSIVE Pos1(_, _, _, _)
Pos1(x, p, e, S) == IF p >= e THEN e ELSE IF x[p] \in S THEN p ELSE Pos1(x, p + 1, e, S)
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN One ELSE Mul(V(b), Pow(b, n - 1))
\* decimal fractions whose value is a binary fraction; others are outside this specification
FltTok(x, p, e) ==
  LET hex == e - p >= 2 /\ x[p] = 48 /\ Down(x[p + 1]) = 120
      b == IF hex THEN p + 2 ELSE p
      ex == IF hex THEN e ELSE Pos1(x, p, e, {69, 101})
      pt == Pos1(x, b, ex, {46})
      base == IF hex THEN 16 ELSE 10
      whole == Num(x, b, pt, base, Zero)
      all == IF pt < ex THEN Num(x, pt + 1, ex, base, whole.v) ELSE whole
      nf == IF pt < ex THEN ex - pt - 1 ELSE 0
      es == IF ex < e THEN ex + 1 ELSE e
      neg == es < e /\ x[es] = 45
      xp == Num(x, IF es < e /\ x[es] \in {43, 45} THEN es + 1 ELSE es, e, 10, Zero)
      k == (IF ex < e THEN (IF neg THEN 0 - ToInt(xp.v) ELSE ToInt(xp.v)) ELSE 0) - nf
  IN IF hex THEN [t |-> "flt", m |-> all.v, e |-> -4 * nf]
     ELSE IF k >= 0 THEN [t |-> "flt", m |-> Mul(all.v, Pow(10, k)), e |-> 0]
     ELSE [t |-> "flt", m |-> DivV(all.v, Pow(5, -k)), e |-> k]
NumTok(x, p) ==
  LET e == NumEnd(x, p, Two(x, p, 48, 120) \/ Two(x, p, 48, 88), FALSE)
      hex == Pos1(x, p, e, {72, 104, 88, 120}) < e
      flt == Pos1(x, p, e, {46}) < e \/ (~hex /\ Pos1(x, p, e, {69, 101}) < e)
      i == IntTok(x, p, e)
  IN [e |-> e, tok |-> IF flt THEN FltTok(x, p, e) ELSE IF i.ok THEN [t |-> "int", v |-> i.v] ELSE [t |-> "bad"]]

----------------------------------------------------------------------------
(* strings and characters *)
\* the end (exclusive) of the string that starts at p, or 0
RECURSIVE StrEnd(_, _)
StrEnd(x, p) == IF p > Len(x) THEN 0
                ELSE IF x[p] = 92 /\ At(x, p + 1) \in {34, 92} THEN StrEnd(x, p + 2)
                ELSE IF x[p] = 34 THEN p + 1 ELSE StrEnd(x, p + 1)
RECURSIVE StrText(_, _)
StrText(x, p) == IF x[p] = 92 /\ At(x, p + 1) \in {34, 92} THEN <<x[p + 1]>> \o StrText(x, p + 2)
                 ELSE IF x[p] = 34 THEN <<>> ELSE <<x[p]>> \o StrText(x, p + 1)
\* a UTF-8 character: value and length
Utf(x, p) == LET c == x[p] d(i) == At(x, p + i) % 64 IN
             IF c < 128 THEN [v |-> c, n |-> 1]
             ELSE IF c < 224 THEN [v |-> (c % 32) * 64 + d(1), n |-> 2]
             ELSE [v |-> (c % 16) * 4096 + d(1) * 64 + d(2), n |-> 3]
\* the end of the character constant at p, or 0
CharEnd(x, p) == IF p + 1 > Len(x) THEN 0
                 ELSE LET u == Utf(x, p + 1) IN IF At(x, p + 1 + u.n) = 39 THEN p + 2 + u.n ELSE 0

----------------------------------------------------------------------------
Ops2 == << <<60, 60, "<<">>, <<60, 61, "<=">>, <<62, 62, ">>">>, <<62, 61, ">=">>, <<61, 61, "==">>, <<33, 61, "!=">>,
           <<38, 38, "&&">>, <<124, 124, "||">>, <<194, 176, "deg">> >>
Ops1 == << <<40, "(">>, <<41, ")">>, <<43, "+">>, <<45, "-">>, <<42, "*">>, <<47, "/">>, <<37, "%">>, <<94, "^">>, <<126, "~">>,
           <<60, "<">>, <<62, ">">>, <<61, "=">>, <<33, "!">>, <<38, "&">>, <<124, "|">>, <<63, "?">>, <<58, ":">>, <<44, ",">>,
           <<91, "[">>, <<93, "]">>, <<35, "#">>, <<123, "{">>, <<125, "}">>, <<36, "$">> >>
Op2At(x, p) == {j \in 1..Len(Ops2) : Two(x, p, Ops2[j][1], Ops2[j][2])}
Op1At(x, p) == {j \in 1..Len(Ops1) : x[p] = Ops1[j][1]}

\* the token at p (no blank, no comment, no separator there) and where it ends
TokenAt(x, p) ==
  LET c == x[p] IN
  IF Op2At(x, p) # {} THEN [e |-> p + 2, tok |-> [t |-> "op", o |-> Ops2[CHOOSE j \in Op2At(x, p) : TRUE][3]]]
  ELSE IF Op1At(x, p) # {} THEN [e |-> p + 1, tok |-> [t |-> "op", o |-> Ops1[CHOOSE j \in Op1At(x, p) : TRUE][2]]]
  ELSE IF c = 39 THEN (IF CharEnd(x, p) = 0 THEN [e |-> p + 1, tok |-> [t |-> "bad"]]
                       ELSE [e |-> CharEnd(x, p), tok |-> [t |-> "int", v |-> V(Utf(x, p + 1).v)]])
  ELSE IF c = 34 THEN (IF StrEnd(x, p + 1) = 0 THEN [e |-> Len(x) + 1, tok |-> [t |-> "bad"]]
                       ELSE [e |-> StrEnd(x, p + 1), tok |-> [t |-> "str", v |-> StrText(x, p + 1)]])
  ELSE IF IsDigit(c) THEN NumTok(x, p)
  ELSE IF IdStart(c) THEN
    LET e == IdEnd(x, p)
        cs == [j \in 1..(e - p) |-> Down(x[p + j - 1])]
        n == StrOf(cs, 1)
    IN [e |-> e, tok |-> IF n = "equ" THEN [t |-> "equ"] ELSE [t |-> "id", n |-> n, cs |-> cs, r |-> FALSE]]
  ELSE [e |-> p + (IF c < 128 THEN 1 ELSE Utf(x, p).n), tok |-> [t |-> "bad"]]

LineComment(x, p) == At(x, p) = 59 \/ Two(x, p, 47, 47)
\* position behind the end of a block comment, or 0
RECURSIVE CommentEnd(_, _)
CommentEnd(x, p) == IF p > Len(x) THEN 0 ELSE IF Two(x, p, 42, 47) THEN p + 2 ELSE CommentEnd(x, p + 1)
\* is there nothing but blanks and comments from p on? (block comments that end on the line)
RECURSIVE Nothing(_, _)
Nothing(x, p) == IF p > Len(x) \/ LineComment(x, p) THEN TRUE
                 ELSE IF Blank(x[p]) THEN Nothing(x, p + 1)
                 ELSE Two(x, p, 47, 42) /\ CommentEnd(x, p + 2) # 0 /\ Nothing(x, CommentEnd(x, p + 2))

(* One line.  z carries what lines share: st the finished statements (each a sequence of tokens), cur the unfinished one,  *)
(* m the mode: n between tokens, q in the value of an equ, and cm whether inside a block comment; ev, el text and line of  *)
(* the value.                                                                                                              *)
LexInit == [st |-> <<>>, cur |-> <<>>, m |-> "n", cm |-> FALSE, ev |-> <<>>, el |-> 0]
Tok(z, tok, l) == [z EXCEPT !.cur = Append(@, tok @@ [l |-> l])]
EndValue(z) == IF z.m = "q" THEN [z EXCEPT !.m = "n", !.cur = Append(@, [t |-> "equv", v |-> z.ev, l |-> z.el]), !.ev = <<>>] ELSE z
EndStm(z, l) == LET y == EndValue(z) IN [y EXCEPT !.m = "n", !.st = IF y.cur = <<>> THEN @ ELSE Append(@, y.cur), !.cur = <<>>]
RECURSIVE LexLine(_, _, _, _), LexEqu(_, _, _, _)
LexLine(x, p, l, z) ==
  IF z.cm THEN LET e == CommentEnd(x, p) IN
       IF e = 0 THEN z ELSE LexLine(x, e, l, [z EXCEPT !.cm = FALSE, !.ev = IF z.m = "q" THEN Append(@, 32) ELSE @])
  ELSE IF p > Len(x) \/ LineComment(x, p) THEN EndStm(z, l)
  ELSE IF Two(x, p, 47, 42) THEN LexLine(x, p + 2, l, [z EXCEPT !.cm = TRUE])
  ELSE IF Two(x, p, 58, 58) THEN LexLine(x, p + 2, l, EndStm(z, l))
  ELSE IF x[p] = 92 /\ Nothing(x, p + 1) THEN [z EXCEPT !.ev = IF z.m = "q" THEN Append(@, 32) ELSE @]
  ELSE IF z.m = "q" THEN
    LET e == IF x[p] = 34 THEN (IF StrEnd(x, p + 1) = 0 THEN Len(x) + 1 ELSE StrEnd(x, p + 1))
             ELSE IF x[p] = 39 /\ CharEnd(x, p) # 0 THEN CharEnd(x, p) ELSE p + 1
    IN LexLine(x, e, l, [z EXCEPT !.ev = @ \o SubSeq(x, p, e - 1)])
  ELSE IF Blank(x[p]) THEN LexLine(x, p + 1, l, z)
  ELSE IF x[p] = 92 THEN LexLine(x, p + 1, l, Tok(z, [t |-> "bad"], l))
  ELSE LET k == TokenAt(x, p)
           y == Tok(z, k.tok, l)
       \* blanks and comments before the value do not belong to it
       IN IF k.tok.t = "equ" THEN LexEqu(x, k.e, l, y) ELSE LexLine(x, k.e, l, y)
LexEqu(x, p, l, z) ==
  LET q == BlankEnd(x, p) IN
  IF q > Len(x) \/ LineComment(x, q) THEN EndStm(z, l)
  ELSE LexLine(x, q, l, [z EXCEPT !.m = "q", !.el = l])
----------------------------------------------------------------------------
\* the tokens of an equ's value
LexValue(v) == LET z == LexLine(v, 1, 0, LexInit) IN IF z.st = <<>> THEN z.cur ELSE z.st[1]
=============================================================================
