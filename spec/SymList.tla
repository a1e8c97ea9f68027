------------------------------ MODULE SymList ------------------------------
(***************************************************************************)
(* Symbol file and listing, derived from the log of the writing phase.     *)
(* A symbol file entry is <<address, text>>, a listing row                 *)
(* [a: address, w: word, x: arguments, f: file, l: line].                  *)
(***************************************************************************)
EXTENDS Asm
\* hexadecimal digits, at least n
Nib(d) == IF d < 10 THEN 48 + d ELSE 55 + d
RECURSIVE HexDigits(_, _)
HexDigits(v, n) == IF v = Zero /\ n <= 0 THEN <<>> ELSE HexDigits(Shr(v, 4), n - 1) \o <<Nib(v[1] % 16)>>
Hex(v, n) == HexDigits(v, n)

L(j) == s.log[j]
Op(j) == C(L(j).i)
M(j) == s.m[L(j).i]
N == Len(s.log)
On(j) == LET S == {k \in 1..(j - 1) : Op(k).op = "symsw"} IN S = {} \/ Op(CHOOSE k \in S : \A k2 \in S : k2 <= k).on

\* functions: where they start, how long they are
Ends == {j \in 1..N : Op(j).op = "endfunc"}
FunAddr(j) == s.m[Op(j).b].va
FunSize(j) == Sub(L(j).va, FunAddr(j))
FunName(j) == C(Op(j).b).oc
FunsAt(n, a) == {j \in Ends : FunName(j) = n /\ FunAddr(j) = a}
\* functions are told apart by name and address
Clear == \A j \in Ends : Cardinality(FunsAt(FunName(j), FunAddr(j))) = 1
\* names in the first format are in lower case and without sizes
LabText(name, a) ==
  IF Case.log = 1 THEN [k \in 1..Len(name) |-> IF name[k] \in 65..90 THEN name[k] + 32 ELSE name[k]]
  ELSE LET F == FunsAt(name, a) IN
       IF F = {} THEN name
       ELSE LET z == FunSize(CHOOSE j \in F : TRUE) IN IF z = Zero THEN name ELSE name \o <<44>> \o Hex(z, 8)
Thumb == <<46, 116, 104, 117, 109, 98>>
Arm == <<46, 97, 114, 109>>
TyText == ("asc" :> <<46, 97, 115, 99, 58>>) @@ ("byt" :> <<46, 98, 121, 116, 58>>) @@ ("wrd" :> <<46, 119, 114, 100, 58>>) @@ ("dbl" :> <<46, 100, 98, 108, 58>>) @@ ("dbq" :> <<46, 100, 98, 108, 58>>)
DataTy(j) == IF M(j).t \in {"a", "z"} THEN "asc" ELSE CASE M(j).w = 1 -> "byt" [] M(j).w = 2 -> "wrd" [] M(j).w = 4 -> "dbl" [] OTHER -> "dbq"
\* what statement j contributes: "l" label, "d" data range, "" nothing
AreaTail(j) == LET b == Op(j).b mb == s.m[b] u == SubUse(s, AKey(mb.fid, mb.pos, C(b).sh)) free == Sub(mb.as, mb.cs)
               IN [fill |-> Has(C(b), "fv"), sh |-> C(b).sh, at |-> Add(mb.pos, mb.cs), sub |-> IF Lt(free, u) THEN free ELSE u, free |-> free, fv |-> mb.fv, pos |-> mb.pos, as |-> mb.as]
Contrib(j) ==
  LET c == Op(j) m == M(j) lab(a, n) == [k |-> "l", a |-> a, n |-> n, z |-> Zero, ty |-> ""] dat(a, z, ty) == [k |-> "d", a |-> a, n |-> <<>>, z |-> z, ty |-> ty] IN
  IF ~On(j) THEN {}
  ELSE CASE c.op \in {"label", "def", "func"} -> LET v == s.lab[m.key].val IN IF v = MinusOne THEN {} ELSE {lab(v, c.oc)}
    [] c.op = "arch" -> IF L(j).va # MinusOne /\ IsArm(c.a) THEN {lab(L(j).va, IF c.a = "gba" THEN Thumb ELSE Arm)} ELSE {}
    [] c.op = "data" -> {dat(L(j).va, V(Len(m.data) * m.w), DataTy(j))}
    [] c.op = "incbin" -> {dat(L(j).va, m.sz, "byt")}
    [] c.op = "fill" -> {dat(L(j).va, m.v, "byt")}
    [] c.op = "endarea" -> LET t == AreaTail(j) IN IF t.fill THEN {dat(Add(t.at, t.sub), Sub(t.free, t.sub), "byt")} ELSE {}
    [] OTHER -> {}
\* the same symbol or range twice counts once
ContribNew(j) == {x \in Contrib(j) : \A k \in 1..(j - 1) : x \notin Contrib(k)}
SymText(j, x) == IF x.k = "l" THEN LabText(x.n, x.a) ELSE TyText[x.ty] \o Hex(x.z, 4)
RECURSIVE SymFrom(_)
SymFrom(j) == IF j > N THEN <<>> ELSE SetToSeq({<<x.a, SymText(j, x)>> : x \in ContribNew(j)}) \o SymFrom(j + 1)
CmdSyms == [k \in 1..Len(Case.labels) |-> <<Case.labels[k].v, LabText(Case.labels[k].oc, Case.labels[k].v)>>]
ExpSym == CmdSyms \o SymFrom(1)
Count(q, x) == Cardinality({k \in 1..Len(q) : q[k] = x})
SameBag(p, q) == Len(p) = Len(q) /\ \A k \in 1..Len(p) : Count(p, p[k]) = Count(q, p[k])
SymOK == LET o == Case.obs.sym IN
         /\ SameBag(ExpSym, o)
         /\ \A k \in 1..(Len(o) - 1) : Le(o[k][1], o[k + 1][1])

----------------------------------------------------------------------------
(* listing *)
Low32(v) == BAnd(v, <<65535, 65535, 0, 0>>)
RowAt(j, a, w, x) == <<[a |-> Low32(a), w |-> w, x |-> x, f |-> Op(j).f, l |-> Op(j).l]>>
\* rows that end a block are located at the block
RowEnd(j, a, w, x) == <<[a |-> Low32(a), w |-> w, x |-> x, f |-> -1, l |-> -1]>>
DataWord(w) == CASE w = 1 -> ".byte" [] w = 2 -> ".halfword" [] w = 4 -> ".word" [] OTHER -> ".doubleword"
B8(v) == <<v[1] % 256, 0, 0, 0>>
Rows(j) ==
  LET c == Op(j) m == M(j) i == L(j).i va == L(j).va IN
  CASE c.op \in {"label", "def", "func"} -> RowAt(j, s.lab[m.key].val, "label", <<c.lc>>)
    [] c.op \in {"open", "create"} -> RowAt(j, va, "." \o c.op, <<c.codes, c.hv>>)
    [] c.op = "copy" -> RowAt(j, va, ".open", <<c.src, c.codes, c.hv>>)
    [] c.op = "close" -> RowAt(j, va, ".close", <<>>)
    [] c.op \in {"org", "orga", "skip"} -> RowAt(j, va, "." \o c.op, <<m.v>>)
    [] c.op = "hdr" -> RowAt(j, va, ".headersize", <<m.v>>)
    [] c.op \in {"align", "aligna"} -> RowAt(j, va, "." \o c.op, <<m.v>>)
    [] c.op = "fill" -> RowAt(j, va, ".fill", <<m.v, B8(m.fv)>>)
    [] c.op = "incbin" -> RowAt(j, va, ".incbin", <<c.codes>>)
    [] c.op = "data" -> RowAt(j, va, DataWord(m.w), [k \in 1..Len(m.data) |-> IF m.w = 8 THEN m.data[k] ELSE ZExt(m.data[k], 8 * m.w)])
    [] c.op = "raw" -> RowAt(j, va, c.word, c.args)
    [] c.op = "arch" -> RowAt(j, va, "." \o c.a, <<>>) \o
                        (IF IsArm(c.a) THEN RowAt(j, va, IF c.a = "gba" THEN ".thumb" ELSE ".arm", <<>>) ELSE <<>>)
    [] c.op = "area" -> (IF Has(c, "p") THEN RowAt(j, m.pos, ".org", <<m.pos>>) ELSE <<>>)
                        \o RowAt(j, m.pos, IF c.sh THEN ".region" ELSE ".area", <<m.as>> \o (IF c.sh /\ Has(c, "fv") THEN <<B8(m.fv)>> ELSE <<>>))
    [] c.op = "endarea" ->
         LET t == AreaTail(j) w == IF t.sh THEN ".endregion" ELSE ".endarea" IN
         IF t.fill /\ ~t.sh
         THEN (IF t.sub = Zero THEN <<>> ELSE RowEnd(j, t.at, ".skip", <<t.sub>>))
              \o RowEnd(j, Add(t.at, t.sub), ".fill", <<Sub(t.free, t.sub), B8(t.fv)>>) \o RowEnd(j, Add(t.pos, t.as), w, <<>>)
         ELSE RowEnd(j, t.at, w, <<>>)
    [] c.op = "auto" -> RowAt(j, m.pos, ".autoregion", <<m.pos>>)
    [] c.op = "endauto" -> RowEnd(j, Add(s.m[c.b].pos, s.m[c.b].cs), ".endautoregion", <<>>)
    [] OTHER -> <<>>
RECURSIVE ListFrom(_)
ListFrom(j) == IF j > N THEN <<>> ELSE Rows(j) \o ListFrom(j + 1)
ExpList == ListFrom(1)
\* of a fill value only the byte matters
ArgOK(w, k, e, o) == e = o \/ (w \in {".fill", ".region"} /\ k = 2 /\ B8(e) = B8(o))
RowOK(e, o) == e.a = o.a /\ e.w = o.w /\ Len(e.x) = Len(o.x) /\ (\A k \in 1..Len(e.x) : ArgOK(e.w, k, e.x[k], o.x[k])) /\ (e.f = -1 \/ (e.f = o.f /\ e.l = o.l))
ListOK == LET e == ExpList o == Case.obs.lst IN Len(e) = Len(o) /\ \A k \in 1..Len(e) : RowOK(e[k], o[k])

SymWhy == IF s.huge THEN {}
          ELSE IF ~s.ok THEN (IF Case.obs.hassym \/ Case.obs.haslst THEN {"symfile"} ELSE {})
          ELSE (IF ~Case.obs.hassym \/ ~Case.obs.haslst THEN {"nosym"} ELSE
                (IF SymOK \/ ~Clear THEN {} ELSE {"sym"}) \cup (IF ListOK THEN {} ELSE {"list"}))
=============================================================================
