-------------------------------- MODULE I64 --------------------------------
(***************************************************************************)
(* 64-bit two's complement integers.  TLC integers have 32 bits, so a      *)
(* value is a 4-tuple of 16-bit limbs, least significant first.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bitwise

B16 == 65536
Zero == <<0, 0, 0, 0>>
One == <<1, 0, 0, 0>>
MinusOne == <<65535, 65535, 65535, 65535>>
MinV == <<0, 0, 0, 32768>>
MaxV == <<65535, 65535, 65535, 32767>>

Bnot(x) == <<65535 - x[1], 65535 - x[2], 65535 - x[3], 65535 - x[4]>>
Add(x, y) ==
  LET s1 == x[1] + y[1]
      s2 == x[2] + y[2] + (s1 \div B16)
      s3 == x[3] + y[3] + (s2 \div B16)
      s4 == x[4] + y[4] + (s3 \div B16)
  IN <<s1 % B16, s2 % B16, s3 % B16, s4 % B16>>
Neg(x) == Add(Bnot(x), One)
Sub(x, y) == Add(x, Neg(y))

\* small (TLC) integers, |n| < 2^31
V(n) == IF n >= 0 THEN <<n % B16, n \div B16, 0, 0>>
        ELSE Neg(<<(-n) % B16, (-n) \div B16, 0, 0>>)
IsNeg(x) == x[4] >= 32768
\* fits into -2^30 .. 2^30-1
Fits(x) == \/ x[4] = 0 /\ x[3] = 0 /\ x[2] < 16384
           \/ x[4] = 65535 /\ x[3] = 65535 /\ x[2] >= 49152
ToInt(x) == IF IsNeg(x) THEN LET y == Neg(x) IN -(y[1] + y[2] * B16)
            ELSE x[1] + x[2] * B16

\* unsigned comparison
ULt(x, y) == \/ x[4] < y[4]
             \/ x[4] = y[4] /\ \/ x[3] < y[3]
                               \/ x[3] = y[3] /\ \/ x[2] < y[2]
                                                 \/ x[2] = y[2] /\ x[1] < y[1]
Flip(x) == <<x[1], x[2], x[3], (x[4] + 32768) % B16>>
Lt(x, y) == ULt(Flip(x), Flip(y))
Le(x, y) == ~Lt(y, x)

BAnd(x, y) == <<x[1] & y[1], x[2] & y[2], x[3] & y[3], x[4] & y[4]>>
BOr(x, y) == <<x[1] | y[1], x[2] | y[2], x[3] | y[3], x[4] | y[4]>>
BXor(x, y) == <<x[1] ^^ y[1], x[2] ^^ y[2], x[3] ^^ y[3], x[4] ^^ y[4]>>

\* little-endian bytes
Bytes8(x) == <<x[1] % 256, x[1] \div 256, x[2] % 256, x[2] \div 256,
               x[3] % 256, x[3] \div 256, x[4] % 256, x[4] \div 256>>
FromBytes8(b) == <<b[1] + 256 * b[2], b[3] + 256 * b[4], b[5] + 256 * b[6], b[7] + 256 * b[8]>>

RECURSIVE MulCol(_, _, _, _)
MulCol(a, b, k, i) == IF i > k THEN 0 ELSE a[i] * b[k - i + 1] + MulCol(a, b, k, i + 1)
Mul(x, y) ==
  LET a == Bytes8(x)
      b == Bytes8(y)
      c1 == MulCol(a, b, 1, 1)
      c2 == MulCol(a, b, 2, 1) + (c1 \div 256)
      c3 == MulCol(a, b, 3, 1) + (c2 \div 256)
      c4 == MulCol(a, b, 4, 1) + (c3 \div 256)
      c5 == MulCol(a, b, 5, 1) + (c4 \div 256)
      c6 == MulCol(a, b, 6, 1) + (c5 \div 256)
      c7 == MulCol(a, b, 7, 1) + (c6 \div 256)
      c8 == MulCol(a, b, 8, 1) + (c7 \div 256)
  IN FromBytes8(<<c1 % 256, c2 % 256, c3 % 256, c4 % 256, c5 % 256, c6 % 256, c7 % 256, c8 % 256>>)

\* logical shifts, 0 <= n < 64
Limb(x, i) == IF i < 1 \/ i > 4 THEN 0 ELSE x[i]
Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768>>
Shl(x, n) ==
  LET q == n \div 16
      r == n % 16
      L(i) == IF r = 0 THEN Limb(x, i - q)
              ELSE ((Limb(x, i - q) % Pow2[17 - r]) * Pow2[r + 1]) + (Limb(x, i - q - 1) \div Pow2[17 - r])
  IN <<L(1), L(2), L(3), L(4)>>
Shr(x, n) ==
  LET q == n \div 16
      r == n % 16
      L(i) == IF r = 0 THEN Limb(x, i + q)
              ELSE (Limb(x, i + q) \div Pow2[r + 1]) + ((Limb(x, i + q + 1) % Pow2[r + 1]) * Pow2[17 - r])
  IN <<L(1), L(2), L(3), L(4)>>
Sar(x, n) == IF IsNeg(x) THEN Bnot(Shr(Bnot(x), n)) ELSE Shr(x, n)
Bit(x, i) == (x[(i \div 16) + 1] \div Pow2[(i % 16) + 1]) % 2

\* unsigned division, schoolbook, one bit at a time
RECURSIVE UDivStep(_, _, _, _, _)
UDivStep(x, y, i, q, r) ==
  IF i < 0 THEN <<q, r>>
  ELSE LET r2 == Add(Shl(r, 1), V(Bit(x, i)))
           \* r < y <= 2^64-1, so 2r+1 may need 65 bits: the lost bit means r2 >= y
           big == Bit(r, 63) = 1 \/ ~ULt(r2, y)
       IN IF big THEN UDivStep(x, y, i - 1, BOr(q, Shl(One, i)), Sub(r2, y))
          ELSE UDivStep(x, y, i - 1, q, r2)
UDivMod(x, y) ==
  IF x[2] = 0 /\ x[3] = 0 /\ x[4] = 0 /\ y[2] = 0 /\ y[3] = 0 /\ y[4] = 0
  THEN <<V(x[1] \div y[1]), V(x[1] % y[1])>>
  ELSE UDivStep(x, y, 63, Zero, Zero)
AbsV(x) == IF IsNeg(x) THEN Neg(x) ELSE x
\* C division: truncation towards zero, remainder has the sign of the dividend
DivV(x, y) == LET q == UDivMod(AbsV(x), AbsV(y))[1] IN IF IsNeg(x) # IsNeg(y) THEN Neg(q) ELSE q
ModV(x, y) == LET r == UDivMod(AbsV(x), AbsV(y))[2] IN IF IsNeg(x) THEN Neg(r) ELSE r

\* decimal digits of an unsigned value as ASCII codes
RECURSIVE UDec(_)
UDec(x) == LET qr == UDivMod(x, V(10)) IN
  IF qr[1] = Zero THEN <<48 + qr[2][1]>> ELSE Append(UDec(qr[1]), 48 + qr[2][1])
Dec(x) == IF IsNeg(x) THEN <<45>> \o UDec(Neg(x)) ELSE UDec(x)
HexDig(n) == IF n < 10 THEN 48 + n ELSE 55 + n
RECURSIVE UHex(_)
UHex(x) == LET q == Shr(x, 4) d == HexDig(x[1] % 16) IN
  IF q = Zero THEN <<d>> ELSE Append(UHex(q), d)
RECURSIVE PadLeft(_, _, _)
PadLeft(s, n, c) == IF Len(s) >= n THEN s ELSE PadLeft(<<c>> \o s, n, c)

\* low n bytes in little or big endian order
RevSeq(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
BytesOf(x, n, big) == LET b == SubSeq(Bytes8(x), 1, n) IN IF big THEN RevSeq(b) ELSE b
SignExt32(x) == IF x[2] >= 32768 THEN <<x[1], x[2], 65535, 65535>> ELSE <<x[1], x[2], 0, 0>>
Trunc32(x) == <<x[1], x[2], 0, 0>>
\* sign extension of the low n bits, 0 < n < 64
ZExt(x, n) == BAnd(x, Sub(Shl(One, n), One))
SExt(x, n) == IF Bit(x, n - 1) = 1 THEN BOr(x, Shl(MinusOne, n)) ELSE ZExt(x, n)
FromBool(b) == IF b THEN One ELSE Zero
=============================================================================
