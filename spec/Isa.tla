-------------------------------- MODULE Isa --------------------------------
(***************************************************************************)
(* What the instruction set specifications share: operands as written in   *)
(* the source, 32-bit words as <<high, low>> halves, and the verdict on    *)
(* one instruction: the set of words it may be assembled to, and whether   *)
(* it may or must be rejected.                                             *)
(***************************************************************************)
EXTENDS I64, CaseIO, FiniteSets, TLC

P2 == [i \in 0..30 |-> 2^i]
\* field of n bits at bit p added to a word; v < 2^n, bits of the base are clear there
Put(w, p, v) ==
  IF p >= 16 THEN <<w[1] + ((v * P2[p - 16]) % B16), w[2]>>
  ELSE LET lo == (v % P2[16 - p]) * P2[p] IN <<w[1] + (v \div P2[16 - p]), w[2] + lo>>
PutIf(w, p, v) == IF v < 0 THEN w ELSE Put(w, p, v)
\* low n bits of a small integer
Low(v, n) == ((v % P2[n]) + P2[n]) % P2[n]
WordBytes(w, big) ==
  LET b == <<w[1] \div 256, w[1] % 256, w[2] \div 256, w[2] % 256>> IN IF big THEN b ELSE <<b[4], b[3], b[2], b[1]>>
HalfBytes(h, big) == IF big THEN <<h \div 256, h % 256>> ELSE <<h % 256, h \div 256>>

\* verdicts: w: allowed encodings (byte sequences), may: may be rejected instead; {} and ~may never occur together with acceptance
Must(b) == [w |-> {b}, may |-> FALSE]
May(b) == [w |-> {b}, may |-> TRUE]
Reject == [w |-> {}, may |-> TRUE]

\* 64-bit values that a 32-bit machine can mean
Min32 == Neg(<<0, 32768, 0, 0>>)
Is32(v) == (v[3] = 0 /\ v[4] = 0) \/ (v[3] = 65535 /\ v[4] = 65535 /\ v[2] >= 32768)
Wrap32(v) == SignExt32(v)                    \* as a signed 32-bit value
Small(v) == Fits(v)
\* both readings of a value in 2^31 .. 2^32-1
Upper32(v) == v[3] = 0 /\ v[4] = 0 /\ v[2] >= 32768
=============================================================================
