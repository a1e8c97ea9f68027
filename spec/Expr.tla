-------------------------------- MODULE Expr --------------------------------
(***************************************************************************)
(* Expressions: syntax trees, typed values, evaluation.                    *)
(*                                                                         *)
(* A tree is a record with field k:                                        *)
(*   int (v: 64-bit value), str (v: character codes),                      *)
(*   flt (m * 2^e, m a signed 64-bit value: the dyadic floats),            *)
(*   id (n: name, sc: scope g/s/l), dot (current address),                 *)
(*   un (o, a), bin (o, a, b), tern (a, b, c), call (f, a: arguments),     *)
(*   lab (f: org/orga/headersize/defined, optional n, sc),                 *)
(*   ucall (f, a: user-defined function).                                  *)
(* A value has field t: "i" (v), "s" (v), "f" (m, e) or "x" (invalid).     *)
(* Eval returns [r: value, d: set of severities reported on the way].      *)
(***************************************************************************)
EXTENDS I64, FiniteSets, TLC

IntVal(v) == [t |-> "i", v |-> v]
StrVal(s) == [t |-> "s", v |-> s]
Invalid == [t |-> "x"]
BoolVal(b) == IntVal(FromBool(b))

----------------------------------------------------------------------------
(* dyadic floating point: normalised to an odd mantissa, or 0 * 2^0 *)
RECURSIVE FNorm(_, _)
FNorm(m, e) == IF m = Zero THEN [t |-> "f", m |-> Zero, e |-> 0]
               ELSE IF m[1] % 2 = 1 THEN [t |-> "f", m |-> m, e |-> e]
               ELSE FNorm(Sar(m, 1), e + 1)
AsF(x) == IF x.t = "f" THEN x ELSE FNorm(x.v, 0)
FMinE(x, y) == IF x.e < y.e THEN x.e ELSE y.e
FAl(x, e) == IF x.m = Zero THEN Zero ELSE Shl(x.m, x.e - e)
FAdd(x, y) == LET e == FMinE(x, y) IN FNorm(Add(FAl(x, e), FAl(y, e)), e)
FSub(x, y) == LET e == FMinE(x, y) IN FNorm(Sub(FAl(x, e), FAl(y, e)), e)
FMul(x, y) == FNorm(Mul(x.m, y.m), x.e + y.e)
\* exact division only (the generators produce no other)
FDiv(x, y) == FNorm(DivV(Shl(x.m, 8), y.m), x.e - 8 - y.e)
FLt(x, y) == LET e == FMinE(x, y) IN Lt(FAl(x, e), FAl(y, e))
FTruncAbs(x) == LET a == AbsV(x.m) IN IF x.e >= 0 THEN Shl(a, x.e) ELSE IF x.e <= -63 THEN Zero ELSE Shr(a, -x.e)
FTrunc(x) == IF IsNeg(x.m) THEN Neg(FTruncAbs(x)) ELSE FTruncAbs(x)
FFrac(x) == FSub(x, FNorm(FTrunc(x), 0))
FHalf == [t |-> "f", m |-> One, e |-> -1]
\* half away from zero
FRound(x) == IF IsNeg(x.m) THEN Neg(FTrunc(FAdd([x EXCEPT !.m = Neg(@)], FHalf))) ELSE FTrunc(FAdd(x, FHalf))

\* number of significant bits of a positive value
RECURSIVE BitLen(_)
BitLen(x) == IF x = Zero THEN 0 ELSE 1 + BitLen(Shr(x, 1))
\* IEEE bit pattern with mb mantissa bits and exponent bias b, rounded to nearest, ties to even
RoundShr(a, sh) ==
  IF sh <= 0 THEN Shl(a, -sh)
  ELSE IF sh > 63 THEN Zero
  ELSE LET f == Shr(a, sh)
           rem == Sub(a, Shl(f, sh))
           half == Shl(One, sh - 1)
       IN IF ULt(half, rem) \/ (rem = half /\ f[1] % 2 = 1) THEN Add(f, One) ELSE f
IEEE(x, mb, b, top) ==
  IF x.m = Zero THEN Zero
  ELSE LET a == AbsV(x.m)
           E == BitLen(a) - 1 + x.e
           small == E < 1 - b
           r == RoundShr(a, (IF small THEN 1 - b ELSE E) - mb - x.e)
           v == IF small THEN r ELSE Add(Shl(V(E + b - 1), mb), r)
           inf == Shl(V(2 * b + 1), mb)
           bits == IF E > b \/ ULt(inf, v) THEN inf ELSE v
       IN IF IsNeg(x.m) THEN BOr(bits, Shl(One, top)) ELSE bits
F32(x) == IEEE(x, 23, 127, 31)
F64(x) == IEEE(x, 52, 1023, 63)

----------------------------------------------------------------------------
(* strings: sequences of character codes, compared bytewise *)
RECURSIVE SLtAt(_, _, _)
SLtAt(x, y, i) == IF i > Len(y) THEN FALSE
                  ELSE IF i > Len(x) THEN TRUE
                  ELSE IF x[i] # y[i] THEN x[i] < y[i]
                  ELSE SLtAt(x, y, i + 1)
SLt(x, y) == SLtAt(x, y, 1)
\* first/last occurrence of y in x at a 0-based position >= (<=) p, or -1
Occ(x, y) == {i \in 0..(Len(x) - Len(y)) : \A j \in 1..Len(y) : x[i + j] = y[j]}
SetMin(S) == CHOOSE a \in S : \A b \in S : a <= b
SetMax(S) == CHOOSE a \in S : \A b \in S : a >= b
SFind(x, y, p) == LET S == {i \in Occ(x, y) : i >= p} IN IF S = {} THEN -1 ELSE SetMin(S)
SRFind(x, y, p) == LET S == {i \in Occ(x, y) : i <= p} IN IF S = {} THEN -1 ELSE SetMax(S)

----------------------------------------------------------------------------
OK(r) == [r |-> r, d |-> {}]
WithD(r, d) == [r |-> r, d |-> d]
IsNum(x) == x.t \in {"i", "f"}
AnyF(x, y) == x.t = "f" \/ y.t = "f"

Cmp(x, y, FI(_, _), FF(_, _), FS(_, _)) ==
  IF IsNum(x) /\ IsNum(y) THEN IF AnyF(x, y) THEN FF(AsF(x), AsF(y)) ELSE FI(x.v, y.v)
  ELSE IF x.t = "s" /\ y.t = "s" THEN FS(x.v, y.v)
  ELSE FALSE
LtVal(x, y) == Cmp(x, y, Lt, FLt, SLt)
FLe(x, y) == ~FLt(y, x)
SLe(x, y) == ~SLt(y, x)
LeVal(x, y) == Cmp(x, y, Le, FLe, SLe)
\* equality also compares an integer with its decimal spelling
EqVal(x, y) ==
  IF IsNum(x) /\ IsNum(y) THEN IF AnyF(x, y) THEN AsF(x) = AsF(y) ELSE x.v = y.v
  ELSE IF x.t = "s" /\ y.t = "s" THEN x.v = y.v
  ELSE IF x.t = "s" /\ y.t = "i" THEN x.v = Dec(y.v)
  ELSE IF x.t = "i" /\ y.t = "s" THEN Dec(x.v) = y.v
  ELSE FALSE
Truth(x) == IF x.t = "f" THEN x.m # Zero ELSE IF x.t = "i" THEN x.v # Zero ELSE FALSE

ArithOf(o, x, y) ==
  IF x.t = "i" /\ y.t = "i" THEN
    CASE o = "+" -> OK(IntVal(Add(x.v, y.v)))
      [] o = "-" -> OK(IntVal(Sub(x.v, y.v)))
      [] o = "*" -> OK(IntVal(Mul(x.v, y.v)))
      [] o = "/" -> IF y.v = Zero THEN WithD(IntVal(MinusOne), {"w"})
                    ELSE IF x.v = MinV /\ y.v = MinusOne THEN WithD(IntVal(MinV), {"w"})
                    ELSE OK(IntVal(DivV(x.v, y.v)))
      [] o = "%" -> IF y.v = Zero THEN WithD(IntVal(x.v), {"w"})
                    ELSE IF x.v = MinV /\ y.v = MinusOne THEN WithD(IntVal(Zero), {"w"})
                    ELSE OK(IntVal(ModV(x.v, y.v)))
      [] o = "<<" -> OK(IntVal(Shl(x.v, ToInt(y.v))))
      [] o = ">>" -> OK(IntVal(Shr(x.v, ToInt(y.v))))
      [] o = "&" -> OK(IntVal(BAnd(x.v, y.v)))
      [] o = "|" -> OK(IntVal(BOr(x.v, y.v)))
      [] o = "^" -> OK(IntVal(BXor(x.v, y.v)))
  ELSE IF IsNum(x) /\ IsNum(y) THEN
    CASE o = "+" -> OK(FAdd(AsF(x), AsF(y)))
      [] o = "-" -> OK(FSub(AsF(x), AsF(y)))
      [] o = "*" -> OK(FMul(AsF(x), AsF(y)))
      [] o = "/" -> OK(FDiv(AsF(x), AsF(y)))
      [] OTHER -> OK(Invalid)
  ELSE IF o = "+" /\ {x.t, y.t} \subseteq {"s", "i"} THEN
    OK(StrVal((IF x.t = "i" THEN Dec(x.v) ELSE x.v) \o (IF y.t = "i" THEN Dec(y.v) ELSE y.v)))
  ELSE OK(Invalid)

BinOf(o, x, y) ==
  CASE o = "<" -> OK(BoolVal(LtVal(x, y)))
    [] o = "<=" -> OK(BoolVal(LeVal(x, y)))
    [] o = ">" -> OK(BoolVal(LtVal(y, x)))
    [] o = ">=" -> OK(BoolVal(LeVal(y, x)))
    [] o = "==" -> OK(BoolVal(EqVal(x, y)))
    [] o = "!=" -> OK(BoolVal(~EqVal(x, y)))
    [] o = "&&" -> OK(BoolVal(Truth(x) /\ Truth(y)))
    [] o = "||" -> OK(BoolVal(IsNum(x) /\ IsNum(y) /\ (Truth(x) \/ Truth(y))))
    [] OTHER -> ArithOf(o, x, y)
UnOf(o, x) ==
  CASE o = "-" -> ArithOf("-", IntVal(Zero), x)
    [] o = "!" -> OK(BoolVal(~Truth(x)))
    [] o = "~" -> IF x.t = "i" THEN OK(IntVal(Bnot(x.v))) ELSE OK(Invalid)
    [] o = "+" -> OK(x)

----------------------------------------------------------------------------
(* built-in functions; arguments are valid values *)
Err(r) == WithD(r, {"e"})
ReadLE(bytes, pos, n, signed) ==
  LET b(i) == bytes[pos + i]
      all == [i \in 1..8 |-> IF i <= n THEN b(i) ELSE 0]
      v == FromBytes8(all)
  IN IF signed /\ n < 8 /\ b(n) >= 128 THEN BOr(v, Shl(MinusOne, 8 * n)) ELSE v
ReadFn == [readu8 |-> <<1, FALSE>>, readbyte |-> <<1, FALSE>>, readu16 |-> <<2, FALSE>>, readu32 |-> <<4, FALSE>>, readu64 |-> <<8, FALSE>>,
           reads8 |-> <<1, TRUE>>, reads16 |-> <<2, TRUE>>, reads32 |-> <<4, TRUE>>, reads64 |-> <<8, TRUE>>]
IsT(a, i, t) == i <= Len(a) /\ a[i].t = t
OptInt(a, i) == i > Len(a) \/ a[i].t = "i"
FileOf(env, name) == {i \in 1..Len(env.infiles) : env.infiles[i].codes = name}
Clip(n, lo, hi) == IF n < lo THEN lo ELSE IF n > hi THEN hi ELSE n
\* a 64-bit position clipped to a small range (positions beyond any string or file behave alike)
Pos(v, hi) == IF IsNeg(v) THEN hi ELSE IF Fits(v) THEN Clip(ToInt(v), 0, hi) ELSE hi

CallOf(f, a, env) ==
  CASE f = "min" -> IF \E i \in 1..Len(a) : ~IsNum(a[i]) THEN OK(Invalid)
         ELSE LET m == CHOOSE i \in 1..Len(a) : \A j \in 1..Len(a) : LeVal(a[i], a[j])
              IN OK(IF \E i \in 1..Len(a) : a[i].t = "f" THEN AsF(a[m]) ELSE a[m])
    [] f = "max" -> IF \E i \in 1..Len(a) : ~IsNum(a[i]) THEN OK(Invalid)
         ELSE LET m == CHOOSE i \in 1..Len(a) : \A j \in 1..Len(a) : LeVal(a[j], a[i])
              IN OK(IF \E i \in 1..Len(a) : a[i].t = "f" THEN AsF(a[m]) ELSE a[m])
    [] f = "abs" -> IF a[1].t = "i" THEN OK(IntVal(AbsV(a[1].v)))
         ELSE IF a[1].t = "f" THEN OK([a[1] EXCEPT !.m = AbsV(@)]) ELSE OK(Invalid)
    [] f = "int" -> IF a[1].t = "i" THEN OK(a[1]) ELSE IF a[1].t = "f" THEN OK(IntVal(FTrunc(a[1]))) ELSE OK(Invalid)
    [] f = "round" -> IF a[1].t = "i" THEN OK(a[1]) ELSE IF a[1].t = "f" THEN OK(IntVal(FRound(a[1]))) ELSE OK(Invalid)
    [] f = "float" -> IF IsNum(a[1]) THEN OK(AsF(a[1])) ELSE OK(Invalid)
    [] f = "frac" -> IF a[1].t = "f" THEN OK(FFrac(a[1])) ELSE OK(Invalid)
    [] f = "tostring" -> IF a[1].t = "s" THEN OK(a[1]) ELSE OK(StrVal(Dec(a[1].v)))
    [] f = "tohex" -> IF ~IsT(a, 1, "i") \/ ~OptInt(a, 2) THEN Err(Invalid)
         ELSE OK(StrVal(PadLeft(UHex(a[1].v), IF Len(a) = 2 THEN ToInt(a[2].v) ELSE 8, 48)))
    [] f = "strlen" -> IF a[1].t # "s" THEN Err(Invalid) ELSE OK(IntVal(V(Len(a[1].v))))
    [] f = "substr" -> IF ~(a[1].t = "s" /\ a[2].t = "i" /\ a[3].t = "i") THEN Err(Invalid)
         ELSE LET n == Len(a[1].v)
                  p == Pos(a[2].v, n + 1)
                  c == Pos(a[3].v, n)
              IN IF p > n THEN Err(Invalid)
                 ELSE OK(StrVal(SubSeq(a[1].v, p + 1, IF p + c > n THEN n ELSE p + c)))
    [] f = "find" -> IF ~(a[1].t = "s" /\ a[2].t = "s" /\ OptInt(a, 3)) THEN Err(Invalid)
         ELSE LET n == Len(a[1].v) p == IF Len(a) = 3 THEN Pos(a[3].v, n + 1) ELSE 0
              IN OK(IntVal(V(SFind(a[1].v, a[2].v, p))))
    [] f = "rfind" -> IF ~(a[1].t = "s" /\ a[2].t = "s" /\ OptInt(a, 3)) THEN Err(Invalid)
         ELSE LET n == Len(a[1].v) p == IF Len(a) = 3 THEN Pos(a[3].v, n + 1) ELSE n + 1
              IN OK(IntVal(V(SRFind(a[1].v, a[2].v, p))))
    [] f = "endianness" -> OK(StrVal(IF env.big THEN <<98, 105, 103>> ELSE <<108, 105, 116, 116, 108, 101>>))
    [] f = "fileexists" -> IF a[1].t # "s" THEN Err(Invalid) ELSE OK(BoolVal(FileOf(env, a[1].v) # {}))
    [] f = "filesize" -> IF a[1].t # "s" THEN Err(Invalid)
         ELSE LET S == FileOf(env, a[1].v) IN IF S = {} THEN OK(IntVal(MinusOne))
              ELSE OK(IntVal(V(Len(env.infiles[CHOOSE i \in S : TRUE].data))))
    [] f = "hi" -> IF a[1].t # "i" THEN Err(Invalid)
         ELSE OK(IntVal(BAnd(Add(Sar(a[1].v, 16), IF BAnd(a[1].v, V(32768)) # Zero THEN One ELSE Zero), V(65535))))
    [] f = "lo" -> IF a[1].t # "i" THEN Err(Invalid) ELSE OK(IntVal(SExt(a[1].v, 16)))
    \* regular expressions without special characters
    [] f = "regex_match" -> IF ~(a[1].t = "s" /\ a[2].t = "s") THEN Err(Invalid) ELSE OK(BoolVal(a[1].v = a[2].v))
    [] f = "regex_search" -> IF ~(a[1].t = "s" /\ a[2].t = "s") THEN Err(Invalid) ELSE OK(BoolVal(Occ(a[1].v, a[2].v) # {}))
    [] f = "regex_extract" -> IF ~(a[1].t = "s" /\ a[2].t = "s" /\ OptInt(a, 3)) THEN Err(Invalid)
         ELSE IF Occ(a[1].v, a[2].v) = {} \/ (Len(a) = 3 /\ a[3].v # Zero) THEN Err(Invalid) ELSE OK(a[2])
    [] f = "readascii" -> IF ~(a[1].t = "s" /\ OptInt(a, 2) /\ OptInt(a, 3)) THEN Err(Invalid)
         ELSE LET S == FileOf(env, a[1].v) IN
              IF S = {} THEN Err(Invalid)
              ELSE IF Len(a) >= 2 /\ IsNeg(a[2].v) THEN Err(Invalid)
              ELSE LET data == env.infiles[CHOOSE i \in S : TRUE].data
                       n == Len(data)
                       p == IF Len(a) >= 2 THEN Pos(a[2].v, n) ELSE 0
                       l == IF Len(a) = 3 THEN Pos(a[3].v, n) ELSE 0
                       e == IF l = 0 \/ p + l > n THEN n ELSE p + l
                       stop == {j \in (p + 1)..e : data[j] = 0}
                       last == IF stop = {} THEN e ELSE SetMin(stop) - 1
                       txt == SubSeq(data, p + 1, last)
                   IN IF \E j \in 1..Len(txt) : txt[j] < 32 \/ txt[j] > 127 THEN WithD(Invalid, {"w"}) ELSE OK(StrVal(txt))
    [] f \in DOMAIN ReadFn -> IF a[1].t # "s" \/ ~OptInt(a, 2) THEN Err(Invalid)
         ELSE LET S == FileOf(env, a[1].v)
                  n == ReadFn[f][1]
              IN IF S = {} THEN Err(Invalid)
                 ELSE LET data == env.infiles[CHOOSE i \in S : TRUE].data
                          p == IF Len(a) = 2 THEN Pos(a[2].v, Len(data) + 1) ELSE 0
                      IN IF p + n > Len(data) THEN Err(Invalid)
                         ELSE OK(IntVal(ReadLE(data, p, n, ReadFn[f][2])))

----------------------------------------------------------------------------
(* symbols *)
Key(n, sc, file, sec) == <<n, IF sc = "s" THEN file ELSE -1, IF sc = "l" THEN sec ELSE -1>>
Lookup(env, n, sc) ==
  LET k == Key(n, sc, env.file, env.sec) IN
  IF k \in DOMAIN env.labels THEN env.labels[k]
  ELSE [def |-> FALSE, val |-> Zero, hp |-> FALSE, pv |-> Zero]

LabOf(f, e, env) ==
  IF "n" \in DOMAIN e THEN
    LET l == Lookup(env, e.n, e.sc) IN
    CASE f = "defined" -> OK(BoolVal(l.def))
      [] f = "org" -> IF l.def THEN OK(IntVal(l.val)) ELSE Err(Invalid)
      [] f = "orga" -> IF l.hp THEN OK(IntVal(l.pv)) ELSE Err(Invalid)
      [] f = "headersize" -> IF l.hp THEN OK(IntVal(Sub(l.val, l.pv))) ELSE Err(Invalid)
  ELSE IF ~env.open THEN Err(Invalid)
  ELSE CASE f = "org" -> OK(IntVal(env.va))
         [] f = "orga" -> OK(IntVal(Sub(env.va, env.hdr)))
         [] f = "headersize" -> OK(IntVal(env.hdr))

\* value of "." : -1 when no file is open
DotVal(env) == IF env.open THEN env.va ELSE MinusOne

\* does the value depend on nothing but the text (and, in the body of a function, on its parameters P)?
RECURSIVE IsConstIn(_, _)
IsConstIn(e, P) ==
  CASE e.k \in {"int", "str", "flt"} -> TRUE
    [] e.k = "id" -> e.n \in P
    [] e.k \in {"dot", "lab", "ucall", "deg"} -> FALSE
    [] e.k = "un" -> IsConstIn(e.a, P)
    [] e.k = "bin" -> IsConstIn(e.a, P) /\ IsConstIn(e.b, P)
    [] e.k = "tern" -> IsConstIn(e.a, P) /\ IsConstIn(e.b, P) /\ IsConstIn(e.c, P)
    [] e.k = "call" -> e.f # "endianness" /\ \A i \in 1..Len(e.a) : IsConstIn(e.a[i], P)
IsConst(e) == IsConstIn(e, {})
Kids(e) == CASE e.k = "un" -> <<e.a>> [] e.k = "bin" -> <<e.a, e.b>> [] e.k = "tern" -> <<e.a, e.b, e.c>>
             [] e.k = "call" -> e.a [] OTHER -> <<>>

\* the spelling of an expression, fully parenthesised; the operator that yields it takes no floats here
Esc(v) == LET RECURSIVE X(_) X(j) == IF j > Len(v) THEN <<>> ELSE (IF v[j] \in {34, 92} THEN <<92, v[j]>> ELSE <<v[j]>>) \o X(j + 1) IN X(1)
OpText ==
  ("+" :> <<43>>) @@ ("-" :> <<45>>) @@ ("*" :> <<42>>) @@ ("/" :> <<47>>) @@ ("%" :> <<37>>) @@ ("&" :> <<38>>) @@ ("|" :> <<124>>) @@ ("^" :> <<94>>) @@ ("<" :> <<60>>) @@ (">" :> <<62>>) @@ ("~" :> <<126>>) @@ ("!" :> <<33>>) @@
  ("<<" :> <<60, 60>>) @@ (">>" :> <<62, 62>>) @@ ("<=" :> <<60, 61>>) @@ (">=" :> <<62, 61>>) @@ ("==" :> <<61, 61>>) @@ ("!=" :> <<33, 61>>) @@ ("&&" :> <<38, 38>>) @@ ("||" :> <<124, 124>>)
RECURSIVE Spell(_)
Spell(e) ==
  CASE e.k = "int" -> Dec(e.v)
    [] e.k = "str" -> <<34>> \o Esc(e.v) \o <<34>>
    [] e.k = "id" -> e.cs
    [] e.k = "dot" -> <<46>>
    [] e.k = "bin" -> <<40>> \o Spell(e.a) \o <<32>> \o OpText[e.o] \o <<32>> \o Spell(e.b) \o <<41>>
    [] e.k = "un" -> IF e.o = "+" THEN Spell(e.a) ELSE <<40>> \o OpText[e.o] \o Spell(e.a) \o <<41>>
    [] e.k = "tern" -> <<40>> \o Spell(e.a) \o <<32, 63, 32>> \o Spell(e.b) \o <<32, 58, 32>> \o Spell(e.c) \o <<41>>
    [] e.k = "call" -> LET RECURSIVE X(_) X(j) == IF j > Len(e.a) THEN <<>> ELSE (IF j = 1 THEN <<>> ELSE <<44>>) \o Spell(e.a[j]) \o X(j + 1)
                       IN e.cs \o <<40>> \o X(1) \o <<41>>

RECURSIVE Eval(_, _)
\* what folding the constant parts of an expression reports, whether they are used or not
RECURSIVE ConstDiagIn(_, _, _)
ConstDiagIn(e, P, env) == (IF IsConstIn(e, P) THEN Eval(e, env).d ELSE {})
                          \cup UNION {ConstDiagIn(Kids(e)[i], P, env) : i \in 1..Len(Kids(e))}
ConstDiag(e, env) == ConstDiagIn(e, {}, env)
EvalSeq(es, env) == [i \in 1..Len(es) |-> Eval(es[i], env)]
Diags(rs) == UNION {rs[i].d : i \in 1..Len(rs)}
Eval(e, env) ==
  CASE e.k = "int" -> OK(IntVal(e.v))
    [] e.k = "str" -> OK(StrVal(e.v))
    [] e.k = "flt" -> OK(FNorm(e.m, e.e))
    [] e.k = "val" -> OK(e.x)
    [] e.k = "dot" -> OK(IntVal(DotVal(env)))
    [] e.k = "id" ->
         IF e.n \in DOMAIN env.params THEN OK(env.params[e.n])
         ELSE LET l == Lookup(env, e.n, e.sc) IN IF l.def THEN OK(IntVal(l.val)) ELSE Err(Invalid)
    [] e.k = "un" -> LET x == Eval(e.a, env) r == UnOf(e.o, x.r) IN WithD(r.r, r.d \cup x.d)
    [] e.k = "bin" -> LET x == Eval(e.a, env) y == Eval(e.b, env) r == BinOf(e.o, x.r, y.r)
                      IN WithD(r.r, r.d \cup x.d \cup y.d)
    [] e.k = "tern" -> LET c == Eval(e.a, env)
                           y == IF EqVal(c.r, IntVal(Zero)) THEN Eval(e.c, env) ELSE Eval(e.b, env)
                       IN WithD(y.r, y.d \cup c.d)
    [] e.k = "lab" -> LabOf(e.f, e, env)
    [] e.k = "call" -> LET as == EvalSeq(e.a, env) IN
         IF \E i \in 1..Len(as) : as[i].r.t = "x" THEN WithD(Invalid, Diags(as) \cup {"e"})
         ELSE LET r == CallOf(e.f, [i \in 1..Len(as) |-> as[i].r], env) IN WithD(r.r, r.d \cup Diags(as))
    [] e.k = "ucall" -> LET as == EvalSeq(e.a, env)
                            fn == env.funcs[e.f]
                        IN IF \E i \in 1..Len(as) : as[i].r.t = "x" THEN WithD(Invalid, Diags(as) \cup {"e"})
                           ELSE LET par == [p \in {fn.p[i] : i \in 1..Len(fn.p)} |->
                                              as[CHOOSE i \in 1..Len(fn.p) : fn.p[i] = p].r]
                                    env2 == [env EXCEPT !.params = par]
                                    r == Eval(fn.b, env2)
                                IN WithD(r.r, r.d \cup Diags(as) \cup ConstDiagIn(fn.b, DOMAIN par, env2))
    [] e.k = "deg" -> OK(StrVal(Spell(e.a)))

EmptyEnv == [labels |-> <<>>, file |-> 0, sec |-> 0, open |-> FALSE, va |-> Zero, hdr |-> Zero,
             big |-> FALSE, params |-> <<>>, funcs |-> <<>>, infiles |-> <<>>]
=============================================================================
