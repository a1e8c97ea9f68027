------------------------------- MODULE SuperH -------------------------------
(***************************************************************************)
(* SuperH (SH-1, SH-2) instructions: operand patterns and fixed bits from  *)
(* sh_table.json, meaning of the operands here.                            *)
(***************************************************************************)
EXTENDS Isa

ShT == CachedTable("sh_table.json")
ShRegs == {"r0", "r1", "r2", "r3", "r4", "r5", "r6", "r7", "r8", "r9", "r10", "r11", "r12", "r13", "r14", "r15"}
ShNum == [n \in ShRegs |-> CASE n = "r0" -> 0 [] n = "r1" -> 1 [] n = "r2" -> 2 [] n = "r3" -> 3 [] n = "r4" -> 4 [] n = "r5" -> 5 [] n = "r6" -> 6 [] n = "r7" -> 7
            [] n = "r8" -> 8 [] n = "r9" -> 9 [] n = "r10" -> 10 [] n = "r11" -> 11 [] n = "r12" -> 12 [] n = "r13" -> 13 [] n = "r14" -> 14 [] n = "r15" -> 15]
ShForced == {"r0", "sr", "gbr", "vbr", "mach", "macl", "pr", "pc"}
ShNone == [s |-> -1, t |-> -1, imm |-> [k |-> "none"], n |-> 0]

RECURSIVE ShMatch(_, _, _, _, _)
ShMatch(pat, i, os, j, f) ==
  IF i > Len(pat) THEN (IF j > Len(os) THEN <<f>> ELSE <<>>)
  ELSE
  LET p == pat[i]
      o == IF j > Len(os) THEN [k |-> "end"] ELSE os[j]
      go(r) == ShMatch(pat, i + 1, os, j + 1, r)
  IN
  CASE p \in {",", "(", ")", "#", "+", "-"} -> IF o.k = "sym" /\ o.c = p THEN go(f) ELSE <<>>
    [] p = "@" -> IF o.k = "at" THEN go(f) ELSE <<>>
    [] p \in {"s", "t"} -> IF o.k = "reg" /\ o.nm \in ShRegs THEN go([f EXCEPT ![p] = ShNum[o.nm]]) ELSE <<>>
    [] p \in {"@s", "@t"} -> IF o.k = "atreg" /\ o.nm \in ShRegs THEN go([f EXCEPT ![IF p = "@s" THEN "s" ELSE "t"] = ShNum[o.nm]]) ELSE <<>>
    [] p \in ShForced -> IF o.k = "reg" /\ o.nm = p THEN go(f) ELSE <<>>
    [] p \in {"i4", "i8", "i12"} -> IF o.k = "imm" \/ (o.k = "reg" /\ ~(o.nm \in ShRegs)) THEN go([f EXCEPT !.imm = o, !.n = IF p = "i4" THEN 4 ELSE IF p = "i8" THEN 8 ELSE 12]) ELSE <<>>
    [] OTHER -> <<>>

RECURSIVE ShPick0(_, _, _)
ShPick0(es, i, os) ==
  IF i > Len(es) THEN <<>>
  ELSE LET r == ShMatch(es[i].pat, 1, os, 1, ShNone) IN IF r # <<>> THEN <<es[i], r[1]>> ELSE ShPick0(es, i + 1, os)
ShPick(nm, os) == IF nm \in DOMAIN ShT THEN ShPick0(ShT[nm], 1, os) ELSE <<>>

\* <<"ok"|"may"|"no", field>>
ShImm(e, f, addr, val) ==
  IF val = <<>> \/ ~Is32(val[1]) THEN <<"no", 0>>
  ELSE
  LET v == val[1]
      lim == P2[f.n]
  IN IF e.rel \/ e.man THEN
       (LET t == IF e.man THEN Add(addr, v) ELSE v
            b == IF e.sc = 4 THEN BAnd(Add(addr, V(4)), Bnot(V(3))) ELSE Add(addr, V(4))
            d == Wrap32(Sub(t, b))
            x == ToInt(d)
            lo == IF e.sg THEN -(lim \div 2) ELSE 0
            hi == IF e.sg THEN lim \div 2 - 1 ELSE lim - 1
        IN IF t[1] % e.sc # 0 \/ ~Small(d) \/ x % e.sc # 0 \/ x < lo * e.sc \/ x > hi * e.sc THEN <<"no", 0>> ELSE <<"ok", Low(x \div e.sc, f.n)>>)
     ELSE LET w == Wrap32(v) x == ToInt(w) IN
       IF ~Small(w) \/ x % e.sc # 0 THEN <<"no", 0>>
       ELSE IF e.f \in {"I", "NI"} THEN
         (IF x < -(lim \div 2) \/ x >= lim THEN <<"no", 0>> ELSE <<IF Upper32(v) \/ (x < 0 /\ e.f = "I") THEN "may" ELSE "ok", Low(x, f.n)>>)
       ELSE IF x < 0 \/ x >= lim * e.sc THEN <<"no", 0>> ELSE <<"ok", x \div e.sc>>

ShHalf(e, f, d) ==
  LET n == IF f.t < 0 THEN 0 ELSE f.t
      m == IF f.s < 0 THEN 0 ELSE f.s
  IN e.b + d + (CASE e.f \in {"N", "ND8", "NI"} -> n * 256
                  [] e.f = "M" -> m * 256
                  [] e.f \in {"NM", "NMD"} -> n * 256 + m * 16
                  [] e.f = "MD" -> m * 16
                  [] e.f = "ND4" -> n * 16
                  [] OTHER -> 0)
ShEnc(pk, addr, iv) ==
  LET e == pk[1] f == pk[2]
      im == IF f.n = 0 THEN <<"ok", 0>> ELSE ShImm(e, f, addr, iv)
  IN IF im[1] = "no" THEN Reject ELSE [w |-> {HalfBytes(ShHalf(e, f, im[2]), TRUE)}, may |-> im[1] = "may"]
=============================================================================
