-------------------------------- MODULE Front --------------------------------
(***************************************************************************)
(* From source text to the command list that Asm executes: lexing, equs,   *)
(* macros, conditions that are known while reading, includes, expressions. *)
(* One transition per source line (lexing) and per statement (reading);    *)
(* the state is the record s.                                              *)
(***************************************************************************)
EXTENDS Lex, Decode, Expr, SequencesExt

CONSTANT Cases
VARIABLE s
Case == Cases[s.c]
Has(r, f) == f \in DOMAIN r

----------------------------------------------------------------------------
(* lexing: all source files, line by line *)
LexStep ==
  /\ s.ph = "lex"
  /\ LET src == Case.srcs[s.file]
         mark == Mark(src.bytes, src.enc)
         p == IF s.line = 1 THEN mark.p ELSE s.bp
         l == DecodeLine(src.bytes, mark.enc, p)
     IN
     s' = IF p > Len(src.bytes)
          THEN LET z == IF s.z.cm THEN Tok([s.z EXCEPT !.cm = FALSE], [t |-> "bad"], s.line - 1) ELSE s.z
                   y == EndStm(z, s.line - 1)
                   t == [s EXCEPT !.lexed = Append(@, y.st), !.z = LexInit, !.file = @ + 1, !.line = 1]
               IN IF s.file < Len(Case.srcs) THEN t ELSE [t EXCEPT !.ph = "equs"]
          ELSE [s EXCEPT !.z = LexLine(l.v, 1, s.line, @), !.line = @ + 1, !.bp = l.p]

----------------------------------------------------------------------------
(* names *)
Scope(cs) == IF Len(cs) >= 2 /\ cs[1] = 64 /\ cs[2] = 64 THEN "l" ELSE IF cs[1] = 64 THEN "s" ELSE "g"
KeyOf(t, tok) == Key(tok.n, Scope(tok.cs), t.fn, t.sec)
ValidName(cs) == LET b == IF Scope(cs) = "l" THEN 3 ELSE IF Scope(cs) = "s" THEN 2 ELSE 1
                 IN b <= Len(cs) /\ ~IsDigit(cs[b]) /\ \A j \in b..Len(cs) : cs[j] # 64
Frame(t) == t.frames[Len(t.frames)]

(* substitution.  A name that stands for an argument of the macro being read is replaced by the argument's tokens, the labels   *)
(* of the macro by the instance's own names, and a name defined by equ by its value, as often as it takes.  Tokens of arguments *)
(* keep the meaning they had for the caller.                                                                                    *)
IsEqu(t, tok) == KeyOf(t, tok) \in DOMAIN t.equs
RECURSIVE Subst(_, _, _, _)
Subst(t, par, ts, i) ==
  IF i > Len(ts) \/ ts[i].t # "id" THEN ts
  ELSE LET k == ts[i]
           put(v) == SubSeq(ts, 1, i - 1) \o v \o SubSeq(ts, i + 1, Len(ts))
       IN IF ~k.r /\ k.n \in DOMAIN par THEN Subst(t, par, put([j \in 1..Len(par[k.n]) |-> IF par[k.n][j].t = "id" THEN [par[k.n][j] EXCEPT !.r = TRUE] ELSE par[k.n][j]]), i)
          ELSE IF IsEqu(t, k) /\ ~(i < Len(ts) /\ ts[i + 1].t = "equ") /\ t.equs[KeyOf(t, k)] # <<>>
          THEN LET v == t.equs[KeyOf(t, k)]
               IN Subst(t, par, put([j \in 1..Len(v) |-> IF v[j].t = "id" THEN [v[j] EXCEPT !.l = k.l, !.r = k.r] ELSE [v[j] EXCEPT !.l = k.l]]), i)
          ELSE ts
RECURSIVE SubstAll(_, _, _, _)
SubstAll(t, par, ts, i) == IF i > Len(ts) THEN ts ELSE SubstAll(t, par, Subst(t, par, ts, i), i + 1)

----------------------------------------------------------------------------
(* expressions: C precedence, one unary operator, ternary to the right.  [ok, e, p] *)
Prec == ("||" :> 1) @@ ("&&" :> 2) @@ ("|" :> 3) @@ ("^" :> 4) @@ ("&" :> 5) @@ ("==" :> 6) @@ ("!=" :> 6) @@ ("<" :> 7) @@ ("<=" :> 7) @@ (">" :> 7) @@ (">=" :> 7)
        @@ ("<<" :> 8) @@ (">>" :> 8) @@ ("+" :> 9) @@ ("-" :> 9) @@ ("*" :> 10) @@ ("/" :> 10) @@ ("%" :> 10)
LabFns == {"org", "orga", "headersize", "defined"}
CallFns == {"min", "max", "abs", "int", "round", "float", "frac", "tostring", "tohex", "strlen", "substr", "find", "rfind", "endianness", "fileexists", "filesize", "hi", "lo",
            "regex_match", "regex_search", "regex_extract", "readascii"} \cup DOMAIN ReadFn
IsOp(ts, p, o) == p <= Len(ts) /\ ts[p].t = "op" /\ ts[p].o = o
No(p) == [ok |-> FALSE, p |-> p]
Yes(e, p) == [ok |-> TRUE, e |-> e, p |-> p]
RECURSIVE PTern(_, _, _), PUnary(_, _, _), PClimb(_, _, _, _), PArgs(_, _, _, _)
PPrimary(F, ts, p) ==
  IF p > Len(ts) THEN No(p)
  ELSE LET k == ts[p] IN
  CASE k.t = "int" -> Yes([k |-> "int", v |-> k.v], p + 1)
    [] k.t = "flt" -> Yes([k |-> "flt", m |-> k.m, e |-> k.e], p + 1)
    [] k.t = "str" -> Yes([k |-> "str", v |-> k.v], p + 1)
    [] k.t = "id" /\ IsOp(ts, p + 1, "(") /\ k.n \in LabFns \cup CallFns \cup F ->
         LET a == PArgs(F, ts, p + 2, <<>>) IN
         IF ~a.ok THEN No(a.p)
         ELSE IF k.n \in LabFns THEN
           (IF a.e = <<>> THEN Yes([k |-> "lab", f |-> k.n], a.p)
            ELSE IF Len(a.e) = 1 /\ a.e[1].k = "id" THEN Yes([k |-> "lab", f |-> k.n, n |-> a.e[1].n, sc |-> a.e[1].sc], a.p)
            ELSE Yes([k |-> "odd"], a.p))
         ELSE Yes([k |-> IF k.n \in F THEN "ucall" ELSE "call", f |-> k.n, a |-> a.e, cs |-> k.cs], a.p)
    [] k.t = "id" -> Yes(IF k.n = "." THEN [k |-> "dot"] ELSE [k |-> "id", n |-> k.n, sc |-> Scope(k.cs), cs |-> k.cs], p + 1)
    [] k.t = "op" /\ k.o = "(" -> LET x == PTern(F, ts, p + 1) IN IF x.ok /\ IsOp(ts, x.p, ")") THEN Yes(x.e, x.p + 1) ELSE No(p)
    [] OTHER -> No(p)
PArgs(F, ts, p, acc) ==
  IF IsOp(ts, p, ")") THEN Yes(acc, p + 1)
  ELSE IF acc # <<>> /\ ~IsOp(ts, p, ",") THEN No(p)
  ELSE LET x == PTern(F, ts, IF acc # <<>> THEN p + 1 ELSE p) IN IF x.ok THEN PArgs(F, ts, x.p, Append(acc, x.e)) ELSE No(p)
PUnary(F, ts, p) ==
  IF p <= Len(ts) /\ ts[p].t = "op" /\ ts[p].o \in {"+", "-", "~", "!", "deg"}
  THEN LET x == PPrimary(F, ts, p + 1) IN
       IF ~x.ok THEN No(p)
       ELSE Yes(CASE ts[p].o = "deg" -> [k |-> "deg", a |-> x.e] [] ts[p].o = "+" -> x.e [] OTHER -> [k |-> "un", o |-> ts[p].o, a |-> x.e], x.p)
  ELSE PPrimary(F, ts, p)
\* binary operators of at least precedence m behind the operand l
PClimb(F, ts, l, m) ==
  IF l.p > Len(ts) \/ ts[l.p].t # "op" \/ ts[l.p].o \notin DOMAIN Prec THEN l
  ELSE LET o == ts[l.p].o q == Prec[o] IN
       IF q < m THEN l
       ELSE LET u == PUnary(F, ts, l.p + 1) IN
            IF ~u.ok THEN No(l.p)
            ELSE LET r == PClimb(F, ts, u, q + 1) IN
                 IF ~r.ok THEN r ELSE PClimb(F, ts, Yes([k |-> "bin", o |-> o, a |-> l.e, b |-> r.e], r.p), m)
PTern(F, ts, p) ==
  LET u == PUnary(F, ts, p)
      c == IF u.ok THEN PClimb(F, ts, u, 1) ELSE u
  IN IF ~c.ok \/ ~IsOp(ts, c.p, "?") THEN c
     ELSE LET x == PTern(F, ts, c.p + 1) IN
          IF ~x.ok \/ ~IsOp(ts, x.p, ":") THEN No(p)
          ELSE LET y == PTern(F, ts, x.p + 1) IN
               IF ~y.ok THEN No(p) ELSE Yes([k |-> "tern", a |-> c.e, b |-> x.e, c |-> y.e], y.p)
\* expressions outside of this specification
RECURSIVE OddE(_)
OddE(e) == \/ e.k = "odd"
           \/ e.k \in {"un", "deg"} /\ OddE(e.a)
           \/ e.k = "bin" /\ (OddE(e.a) \/ OddE(e.b))
           \/ e.k = "tern" /\ (OddE(e.a) \/ OddE(e.b) \/ OddE(e.c))
           \/ e.k \in {"call", "ucall"} /\ \E j \in 1..Len(e.a) : OddE(e.a[j])
\* a list from p to the end of the statement: [ok, es]
RECURSIVE PList(_, _, _, _)
PList(F, ts, p, acc) ==
  LET x == PTern(F, ts, p) IN
  IF ~x.ok THEN [ok |-> FALSE, es |-> acc]
  ELSE IF x.p > Len(ts) THEN [ok |-> TRUE, es |-> Append(acc, x.e)]
  ELSE IF IsOp(ts, x.p, ",") THEN PList(F, ts, x.p + 1, Append(acc, x.e))
  ELSE [ok |-> FALSE, es |-> acc]

----------------------------------------------------------------------------
(* state *)
Dead(t) == LET c == t.conds[Len(t.conds)] IN c.dead
Unk(t) == LET c == t.conds[Len(t.conds)] IN c.unk
Env0(t) == [EmptyEnv EXCEPT !.funcs = t.funcs, !.infiles = Case.files, !.file = t.fn, !.sec = t.sec]
Cmd(t, r) == [t EXCEPT !.out = Append(@, r @@ [f |-> t.fi, l |-> t.loc])]
\* an error found while reading, at line l
ErrAt(t, l) == [t EXCEPT !.out = Append(@, [op |-> "perr", f |-> t.fi, l |-> l])]
Bump(t) == [t EXCEPT !.sec = @ + 1]
Done(t) == [t EXCEPT !.frames[Len(t.frames)].cur = <<>>]
\* names that labels have taken
Taken(t, tok) == LET u == Bump(t) k == Key(tok.n, Scope(tok.cs), t.fn, IF Scope(tok.cs) = "l" THEN t.sec ELSE u.sec) IN
                 [t EXCEPT !.names = @ \cup (IF Dead(t) THEN {} ELSE {k})]
NameRec(tok) == [n |-> tok.n, sc |-> Scope(tok.cs)]
Label(t, tok, r) == LET u == Cmd(Taken(t, tok), r @@ NameRec(tok)) IN IF Scope(tok.cs) = "l" THEN u ELSE Bump(u)

----------------------------------------------------------------------------
(* equ *)
EquDef(t, tok, val) ==
  LET par == Frame(t).par
      k == KeyOf(t, tok)
      v == SubstAll(t, par, LexValue(val.v), 1)
      clear == [j \in 1..Len(v) |-> IF v[j].t = "id" THEN [v[j] EXCEPT !.r = FALSE] ELSE v[j]]
  IN IF Dead(t) THEN t
     ELSE IF Unk(t) \/ ~ValidName(tok.cs) \/ k \in DOMAIN t.equs \/ k \in t.names THEN ErrAt(t, tok.l)
     ELSE IF \E j \in 1..Len(v) : v[j].t = "equ" \/ (v[j].t = "id" /\ v[j].n = tok.n) THEN ErrAt(t, tok.l)
     ELSE [t EXCEPT !.equs = (k :> clear) @@ @]

----------------------------------------------------------------------------
(* macros *)
\* statements up to .endmacro, with everything that is an equ by now replaced: [ok, body, pc]
RECURSIVE Body(_, _, _, _, _)
Body(t, par, st, pc, acc) ==
  IF pc > Len(st) THEN [ok |-> FALSE, body |-> acc, pc |-> pc, clean |-> TRUE]
  ELSE LET ts == SubstAll(t, par, st[pc], 1)
           j == {i \in 1..Len(ts) : ts[i].t = "id" /\ ts[i].n = ".endmacro"}
       IN IF j # {} THEN LET e == CHOOSE i \in j : \A i2 \in j : i <= i2 IN
               [ok |-> TRUE, body |-> IF e = 1 THEN acc ELSE Append(acc, SubSeq(ts, 1, e - 1)), pc |-> pc + 1, clean |-> e = Len(ts)]
          ELSE Body(t, par, st, pc + 1, Append(acc, ts))
Plain(ts) == [j \in 1..Len(ts) |-> IF ts[j].t = "id" THEN [ts[j] EXCEPT !.r = FALSE] ELSE ts[j]]
\* the labels and equs of a body: names that are not arguments, at the start of a statement or behind another label
RECURSIVE LabelsOf(_, _)
LabelsOf(ts, P) == IF Len(ts) < 2 \/ ts[1].t # "id" THEN {}
                   ELSE IF ts[2].t = "equ" THEN (IF ts[1].n \in P THEN {} ELSE {<<ts[1].n, ts[1].cs>>})
                   ELSE IF ts[2].t = "op" /\ ts[2].o = ":" THEN (IF ts[1].n \in P THEN {} ELSE {<<ts[1].n, ts[1].cs>>}) \cup LabelsOf(SubSeq(ts, 3, Len(ts)), P)
                   ELSE {}
MacroDef(t, ts) ==
  LET fr == Frame(t)
      l == PList(DOMAIN t.funcs, ts, 2, <<>>)
      b == Body(t, fr.par, fr.st, fr.pc, <<>>)
      t1 == [t EXCEPT !.frames[Len(t.frames)].pc = b.pc]
      pars == [j \in 1..(Len(l.es) - 1) |-> l.es[j + 1].n]
      P == {pars[j] : j \in 1..Len(pars)}
      body == [j \in 1..Len(b.body) |-> Plain(b.body[j])]
      mac == [name |-> l.es[1].n, pars |-> pars, body |-> body, labels |-> UNION {LabelsOf(body[j], P) : j \in 1..Len(body)}, n |-> 0]
  IN IF ~l.ok \/ \E j \in 1..Len(l.es) : l.es[j].k # "id" THEN [t EXCEPT !.odd = TRUE]
     ELSE IF Unk(t) THEN ErrAt(t1, ts[1].l)
     ELSE IF Dead(t) THEN t1
     ELSE IF mac.name \in DOMAIN t.macros \/ ~b.ok \/ ~b.clean THEN ErrAt(t1, ts[1].l)
     ELSE [t1 EXCEPT !.macros = (mac.name :> mac) @@ @]

\* arguments: separated by commas outside of brackets of any kind
Depth(k) == IF k.t # "op" THEN 0 ELSE IF k.o \in {"(", "{", "["} THEN 1 ELSE IF k.o \in {")", "}", "]"} THEN -1 ELSE 0
DepthOf(k, a, b) == IF k.t = "op" /\ k.o = a THEN 1 ELSE IF k.t = "op" /\ k.o = b THEN -1 ELSE 0
RECURSIVE Args(_, _, _, _, _)
Args(ts, p, cur, d, acc) ==
  IF p > Len(ts) THEN Append(acc, [ts |-> cur, d |-> d])
  ELSE IF ts[p].t = "op" /\ ts[p].o = "," /\ d = <<0, 0, 0>> THEN Args(ts, p + 1, <<>>, d, Append(acc, [ts |-> cur, d |-> d]))
  ELSE Args(ts, p + 1, Append(cur, ts[p]), <<d[1] + DepthOf(ts[p], "(", ")"), d[2] + DepthOf(ts[p], "{", "}"), d[3] + DepthOf(ts[p], "[", "]")>>, acc)
\* the name of a label in the n-th instance; no source text spells it
OwnName(m, lab, n) == LET nm == lab[1] \o "!" \o m.name \o "!" \o ToString(n) IN [t |-> "id", n |-> nm, cs |-> lab[2], r |-> FALSE, l |-> 0]
MacroCall(t, ts) ==
  LET m == t.macros[ts[1].n]
      a == IF Len(ts) = 1 THEN <<>> ELSE Args(ts, 2, <<>>, <<0, 0, 0>>, <<>>)
      np == Len(m.pars)
      bad == Len(a) # np \/ \E j \in 1..Len(a) : a[j].ts = <<>> \/ a[j].d[1] # 0
      par == [x \in {m.pars[j] : j \in 1..np} |-> Plain(a[CHOOSE j \in 1..np : m.pars[j] = x /\ \A i \in 1..(j - 1) : m.pars[i] # x].ts)]
      own == [x \in {lab[1] : lab \in m.labels} |-> <<OwnName(m, CHOOSE lab \in m.labels : lab[1] = x, m.n)>>]
  IN IF bad THEN ErrAt(Done(t), ts[1].l)
     ELSE IF Dead(t) THEN Done(t)
     ELSE IF Len(t.frames) >= 150 THEN [Done(t) EXCEPT !.deep = TRUE]
     ELSE [Done(t) EXCEPT !.macros[m.name].n = @ + 1,
             !.frames = Append(@, [k |-> "m", st |-> m.body, pc |-> 1, cur |-> <<>>, par |-> par @@ own, fn |-> t.fn, fi |-> t.fi, pl |-> 0])]

----------------------------------------------------------------------------
(* blocks *)
TopB(t) == t.blocks[Len(t.blocks)]
PushB(t, kind) == [t EXCEPT !.blocks = Append(@, [k |-> kind, i |-> Len(t.out), el |-> 0, elif |-> FALSE, fr |-> Len(t.frames)])]
PopB(t) == [t EXCEPT !.blocks = SubSeq(@, 1, Len(@) - 1)]
PushC(t, kn) == [t EXCEPT !.conds = Append(@, [dead |-> Dead(t) \/ kn = "f", unk |-> Unk(t) \/ kn = "u", kn |-> kn])]
PopC(t) == [t EXCEPT !.conds = SubSeq(@, 1, Len(@) - 1)]
Begin(t, kind, r) == PushB(Cmd(t, r), kind)
End(t, r) == LET b == TopB(t) n == Len(t.out) + 1 IN [PopB(Cmd(t, r @@ [b |-> b.i])) EXCEPT !.out = [@ EXCEPT ![b.i] = [en |-> n] @@ @]]
If(t, r, elif) ==
  LET cv == IF r.c = "if" /\ IsConst(r.e) THEN Eval(r.e, Env0(t)).r ELSE Invalid
      kn == IF Dead(t) THEN "f" ELSE IF cv.t = "i" THEN (IF cv.v # Zero THEN "t" ELSE "f") ELSE "u"
      u == PushB(Cmd(t, r), "if")
  IN [PushC(u, kn) EXCEPT !.blocks[Len(u.blocks)].elif = elif]
Else(t) ==
  LET b == TopB(t)
      u == Cmd(t, [op |-> "else"])
      kn == t.conds[Len(t.conds)].kn
      w == PopC(u)
  IN [w EXCEPT !.blocks[Len(w.blocks)].el = Len(u.out),
               !.conds = Append(@, [dead |-> Dead(w) \/ kn = "t", unk |-> Unk(w) \/ kn = "u", kn |-> kn])]
RECURSIVE EndIf(_)
EndIf(t) ==
  LET b == TopB(t)
      n == Len(t.out) + 1
      u == PopC(PopB(Cmd(t, [op |-> "endif"])))
      v == [u EXCEPT !.out = [@ EXCEPT ![b.i] = [en |-> n, el |-> IF b.el = 0 THEN n ELSE b.el] @@ @]]
      w == IF b.el = 0 THEN v ELSE [v EXCEPT !.out = [@ EXCEPT ![b.el] = [en |-> n] @@ @]]
  IN IF b.elif THEN EndIf(w) ELSE w

----------------------------------------------------------------------------
(* statements *)
Archs == (".psx" :> "psx") @@ (".ps2" :> "ps2") @@ (".psp" :> "psp") @@ (".n64" :> "n64") @@ (".rsp" :> "rsp") @@ (".gba" :> "gba") @@ (".nds" :> "nds") @@ (".3ds" :> "3ds")
         @@ (".arm.big" :> "arm.big") @@ (".arm.little" :> "arm.little") @@ (".saturn" :> "saturn") @@ (".32x" :> "32x")
DataDirs == {".byte", ".db", "db", ".d8", ".dcb", "dcb", ".halfword", ".hword", ".dh", "dh", ".dcw", "dcw", ".word", ".dw", "dw", ".dcd", "dcd", ".doubleword", ".dword", ".dd", "dd", ".dcq", "dcq",
             ".d16", ".d32", ".d64", ".float", ".double", ".ascii", ".asciiz", ".string", ".str", ".stringn", ".strn", ".sjis", ".sjisn"}
Msgs == (".warning" :> "w") @@ (".error" :> "e") @@ (".notice" :> "n")
\* one or two (three) expressions: op name, minimum, maximum, fields in order
Simple == (".org" :> <<"org", 1, <<"e">>>>) @@ ("org" :> <<"org", 1, <<"e">>>>) @@ (".orga" :> <<"orga", 1, <<"e">>>>) @@ ("orga" :> <<"orga", 1, <<"e">>>>)
          @@ (".headersize" :> <<"hdr", 1, <<"e">>>>) @@ (".skip" :> <<"skip", 1, <<"e">>>>) @@ (".align" :> <<"align", 0, <<"e", "fv">>>>) @@ (".aligna" :> <<"aligna", 0, <<"e", "fv">>>>)
          @@ (".fill" :> <<"fill", 1, <<"e", "fv">>>>) @@ ("defs" :> <<"fill", 1, <<"e", "fv">>>>)
Areas == (".area" :> FALSE) @@ (".region" :> TRUE)
Fields(names, es) == [x \in {names[j] : j \in 1..Len(es)} |-> es[CHOOSE j \in 1..Len(es) : names[j] = x]]
Switch(ts) == IF Len(ts) # 2 \/ ts[2].t \notin {"id", "str"} THEN "?"
              ELSE LET cs == IF ts[2].t = "id" THEN ts[2].cs ELSE [j \in 1..Len(ts[2].v) |-> Down(ts[2].v[j])]
                   IN IF cs = <<111, 110>> THEN "on" ELSE IF cs = <<111, 102, 102>> THEN "off" ELSE "?"
Switches == (".nocash" :> "nocash") @@ (".erroronwarning" :> "eow") @@ (".sym" :> "symsw")
SrcOf(codes) == {j \in 1..Len(Case.srcs) : Case.srcs[j].codes = codes}
StrC(t, e) == IF IsConst(e) THEN Eval(e, Env0(t)).r ELSE Invalid

\* the encoding a file is to be read in
Encoding(t, es) == IF Len(es) < 2 THEN "utf8" ELSE LET c == StrC(t, es[2]).v IN EncodingOf([j \in 1..Len(c) |-> Down(c[j])])

\* .expfunc name(parameters), body
RECURSIVE FunPars(_, _, _)
FunPars(ts, p, acc) == IF IsOp(ts, p, ")") THEN [ok |-> TRUE, p |-> p + 1, ps |-> acc]
                       ELSE LET q == IF acc # <<>> /\ IsOp(ts, p, ",") THEN p + 1 ELSE p IN
                            IF q > Len(ts) \/ ts[q].t # "id" THEN [ok |-> FALSE] ELSE FunPars(ts, q + 1, Append(acc, ts[q].n))
FunDef(t, ts) ==
  LET ps == FunPars(ts, 4, <<>>)
      F == DOMAIN t.funcs
      x == PTern(F, ts, ps.p + 1)
      name == ts[2].n
  IN IF Len(ts) < 4 \/ ts[2].t # "id" \/ ~IsOp(ts, 3, "(") THEN [t EXCEPT !.odd = TRUE]
     ELSE IF ~ps.ok \/ ~IsOp(ts, ps.p, ",") THEN [t EXCEPT !.odd = TRUE]
     ELSE IF Unk(t) THEN ErrAt(t, ts[1].l)
     ELSE IF Dead(t) THEN t
     ELSE IF name \in F \cup CallFns \cup LabFns THEN ErrAt(t, ts[1].l)
     ELSE [t EXCEPT !.funcs = (name :> [p |-> ps.ps, b |-> IF x.ok THEN x.e ELSE [k |-> "odd"]]) @@ @]

FileCmd(t, n, es) ==
  LET name == StrC(t, es[1])
      hv == LET e == es[Len(es)] IN StrC(t, e)
      two == Len(es) = 3
      dst == IF two THEN StrC(t, es[2]) ELSE name
      op == IF n \in {".create", ".createfile"} THEN "create" ELSE IF two THEN "copy" ELSE "open"
  IN IF name.t # "s" \/ dst.t # "s" \/ hv.t # "i" THEN ErrAt(t, t.tl)
     ELSE Bump(Cmd(t, [op |-> op, codes |-> dst.v, src |-> name.v, hv |-> hv.v]))

\* what ends or divides a block, and the block
Ends == (".endfunc" :> "func") @@ (".endfunction" :> "func") @@ (".endarea" :> "area") @@ (".endregion" :> "area") @@ (".endautoregion" :> "auto")
        @@ (".endif" :> "if") @@ (".else" :> "if") @@ (".elseif" :> "if") @@ (".elseifdef" :> "if") @@ (".elseifndef" :> "if")
Matches(t, n) == t.blocks # <<>> /\ TopB(t).fr = Len(t.frames) /\ TopB(t).k = Ends[n]
                 /\ (n \in {".else", ".elseif", ".elseifdef", ".elseifndef"} => TopB(t).el = 0)

Directive(t, ts) ==
  LET n == ts[1].n
      F == DOMAIN t.funcs
      l == IF Len(ts) = 1 THEN [ok |-> TRUE, es |-> <<>>] ELSE PList(F, ts, 2, <<>>)
      ne == Len(l.es)
      \* a statement over several lines: the error may name any of them
      bad == LET e == ErrAt(t, ts[1].l) IN [e EXCEPT !.out[Len(e.out)] = @ @@ [al |-> [j \in 1..Len(ts) |-> ts[j].l]]]
      mid == Len(ts) >= 2 /\ ts[2].t = "id"
  IN
  \* blocks without a proper beginning are outside of this specification
  CASE (\E j \in 1..Len(l.es) : OddE(l.es[j])) \/ (n \in {".definelabel", ".definedatalabel"} /\ PTern(F, ts, 4).ok /\ OddE(PTern(F, ts, 4).e)) -> [t EXCEPT !.odd = TRUE]
    [] n \in {".area", ".region", ".autoregion", ".func", ".function"} /\ (IF n \in {".func", ".function"} THEN ~mid \/ Len(ts) # 2 ELSE ~l.ok \/ ne > 2 \/ (ne = 0 /\ n # ".autoregion")) -> [t EXCEPT !.odd = TRUE]
    [] n \in DOMAIN Ends /\ ~Matches(t, n) -> bad
    [] n \in DOMAIN Archs -> IF Len(ts) = 1 THEN Cmd(t, [op |-> "arch", a |-> Archs[n]]) ELSE bad
    [] n \in DataDirs -> IF l.ok /\ ne >= 1 THEN Cmd(t, [op |-> "data", dir |-> n, es |-> l.es]) ELSE bad
    [] n \in DOMAIN Msgs -> IF l.ok /\ ne = 1 THEN Cmd(t, [op |-> "msg", sev |-> Msgs[n], e |-> l.es[1]]) ELSE bad
    [] n \in DOMAIN Simple ->
         LET d == Simple[n] IN
         IF ~l.ok \/ ne < d[2] \/ ne > Len(d[3]) THEN bad
         ELSE LET u == Cmd(t, [op |-> d[1]] @@ Fields(d[3], l.es)) IN IF d[1] \in {"org", "orga"} THEN Bump(u) ELSE u
    [] n \in DOMAIN Switches -> IF Len(ts) = 1 THEN [t EXCEPT !.odd = TRUE] ELSE IF Switch(ts) = "?" THEN bad ELSE Cmd(t, [op |-> Switches[n], on |-> Switch(ts) = "on"])
    [] n \in {".create", ".createfile", ".open", ".openfile"} -> IF l.ok /\ (ne = 2 \/ (ne = 3 /\ n \in {".open", ".openfile"})) THEN FileCmd(t, n, l.es) ELSE bad
    [] n \in {".close", ".closefile"} -> IF Len(ts) = 1 THEN Bump(Cmd(t, [op |-> "close"])) ELSE bad
    [] n \in {".incbin", ".import"} ->
         IF ~l.ok \/ ne \notin 1..3 THEN bad
         ELSE LET name == StrC(t, l.es[1]) IN
              IF Dead(t) THEN Cmd(t, [op |-> "nop"])
              ELSE IF name.t # "s" THEN bad
              ELSE Cmd(t, [op |-> "incbin", codes |-> name.v] @@ Fields(<<"e", "fv">>, SubSeq(l.es, 2, ne)))
    [] n \in {".loadtable", ".table"} ->
         IF ~l.ok \/ ne \notin 1..2 THEN bad
         ELSE IF Dead(t) THEN Cmd(t, [op |-> "nop"])
         ELSE Cmd(t, [op |-> "table", codes |-> StrC(t, l.es[1]).v, te |-> Encoding(t, l.es)])
    [] n \in {".definelabel", ".definedatalabel"} ->
         \* a missing operand takes the next statement along: what is reported there is left open
         IF Len(ts) < 3 THEN [t EXCEPT !.odd = TRUE]
         ELSE IF ~mid \/ ~IsOp(ts, 3, ",") THEN bad
         ELSE LET x == PTern(F, ts, 4) IN IF ~x.ok \/ ~ValidName(ts[2].cs) THEN bad
              ELSE IF x.p <= Len(ts) THEN (IF Scope(ts[2].cs) = "l" THEN bad ELSE Bump(bad))
              ELSE Label(t, ts[2], [op |-> "def", e |-> x.e])
    [] n \in {".func", ".function"} -> IF ~mid \/ Len(ts) # 2 THEN bad
         ELSE LET u == IF t.blocks # <<>> /\ TopB(t).k = "func" /\ TopB(t).fr = Len(t.frames) THEN End(t, [op |-> "endfunc"]) ELSE t
              IN PushB(Label(u, ts[2], [op |-> "func"]), "func")
    [] n \in {".endfunc", ".endfunction"} -> End(t, [op |-> "endfunc"])
    [] n \in DOMAIN Areas -> IF ~l.ok \/ ne \notin 1..2 THEN bad ELSE Begin(t, "area", [op |-> "area", sh |-> Areas[n]] @@ Fields(<<"e", "fv">>, l.es))
    [] n \in {".endarea", ".endregion"} -> End(t, [op |-> "endarea"])
    [] n \in {".defineregion", ".definearea"} -> IF ~l.ok \/ ne \notin 2..3 THEN bad
         ELSE End(Begin(t, "area", [op |-> "area", sh |-> n = ".defineregion"] @@ Fields(<<"p", "e", "fv">>, l.es)), [op |-> "endarea"])
    [] n = ".autoregion" -> IF ~l.ok \/ ne > 2 THEN bad ELSE Begin(t, "auto", [op |-> "auto"] @@ Fields(<<"mn", "mx">>, l.es))
    [] n = ".endautoregion" -> End(t, [op |-> "endauto"])
    [] n = ".if" -> IF l.ok /\ ne = 1 THEN If(t, [op |-> "if", c |-> "if", e |-> l.es[1]], FALSE) ELSE [t EXCEPT !.odd = TRUE]
    [] n \in {".ifdef", ".ifndef"} -> IF mid /\ Len(ts) = 2 THEN If(t, [op |-> "if", c |-> IF n = ".ifdef" THEN "ifdef" ELSE "ifndef"] @@ NameRec(ts[2]), FALSE) ELSE [t EXCEPT !.odd = TRUE]
    [] n = ".else" -> Else(t)
    [] n = ".elseif" -> IF l.ok /\ ne = 1 THEN If(Else(t), [op |-> "if", c |-> "if", e |-> l.es[1]], TRUE) ELSE [t EXCEPT !.odd = TRUE]
    [] n \in {".elseifdef", ".elseifndef"} -> IF ~mid \/ Len(ts) # 2 THEN [t EXCEPT !.odd = TRUE] ELSE If(Else(t), [op |-> "if", c |-> IF n = ".elseifdef" THEN "ifdef" ELSE "ifndef"] @@ NameRec(ts[2]), TRUE)
    [] n = ".endif" -> EndIf(t)
    \* the one instruction: of MIPS processors
    [] n = "nop" -> IF Len(ts) = 1 THEN Cmd(t, [op |-> "raw", b |-> <<0, 0, 0, 0>>, al |-> 4]) ELSE bad
    [] n = ".include" ->
         IF ~l.ok \/ ne \notin 1..2 THEN bad
         ELSE LET name == StrC(t, l.es[1]) IN
              IF name.t # "s" THEN bad
              ELSE IF Dead(t) THEN Cmd(t, [op |-> "nop"])
              ELSE IF SrcOf(name.v) = {} THEN bad
              \* the texts of a case were read in one encoding each
              ELSE IF LET f == Case.srcs[CHOOSE j2 \in SrcOf(name.v) : TRUE] IN Mark(f.bytes, "").enc = "" /\ f.enc # Encoding(t, l.es) THEN [t EXCEPT !.odd = TRUE]
              ELSE IF Len(t.frames) >= 150 THEN [t EXCEPT !.deep = TRUE]
              ELSE LET j == CHOOSE j2 \in SrcOf(name.v) : TRUE
                       u == Begin(t, "inc", [op |-> "inc"])
                   IN [u EXCEPT !.frames = Append(@, [k |-> "f", st |-> t.lexed[j], pc |-> 1, cur |-> <<>>, par |-> <<>>, fn |-> t.nfile, fi |-> j - 1, pl |-> 0]),
                                !.nfile = @ + 1, !.fn = t.nfile, !.fi = j - 1]
    [] OTHER -> bad

\* the place diagnostics of a statement name: its own line in a file, the line of the call in a macro
Locate(t, l) ==
  LET fr == Frame(t)
      top == CHOOSE j \in 1..Len(t.frames) : t.frames[j].k = "f" /\ \A i \in (j + 1)..Len(t.frames) : t.frames[i].k # "f"
  IN IF fr.k = "f" THEN [t EXCEPT !.loc = l, !.frames[top].pl = l] ELSE [t EXCEPT !.loc = t.frames[top].pl]

\* one statement, or the label in front of it
Statement(t0, ts0) ==
  LET par == Frame(t0).par
      h == Subst(t0, par, ts0, 1)
      h2 == Subst(t0, par, h, 2)
      colon == IsOp(h2, 2, ":")
      h3 == IF colon THEN Subst(t0, par, h2, 3) ELSE h2
      t == Locate(t0, h2[1].l)
      id == h3[1].t = "id"
  IN IF id /\ Len(h3) >= 3 /\ h3[2].t = "equ" /\ h3[3].t = "equv" THEN EquDef(Done(t), h3[1], h3[3])
     ELSE IF id /\ h3[1].n = ".macro" THEN MacroDef(Done(t), SubstAll(t, par, h3, 1))
     ELSE IF id /\ h3[1].n = ".expfunc" THEN FunDef(Done(t), SubstAll(t, par, h3, 1))
     ELSE IF id /\ colon THEN
       LET rest == SubSeq(h3, 3, Len(h3))
           u == [t EXCEPT !.frames[Len(t.frames)].cur = rest]
       IN IF ~ValidName(h3[1].cs) THEN ErrAt(Done(t), h3[1].l)
          ELSE Label(u, h3[1], [op |-> "label"])
     ELSE LET ts == SubstAll(t, par, h3, 1) IN
          IF id /\ ts[1].n \in DOMAIN t.macros THEN MacroCall(t, ts)
          ELSE IF ~id THEN ErrAt(Done(t), ts[1].l)
          ELSE Directive([Done(t) EXCEPT !.tl = ts[1].l], ts)
Read ==
  /\ s.ph = "read"
  /\ LET fr == Frame(s) IN
     s' = IF s.deep \/ s.odd THEN [s EXCEPT !.ph = "judge"]
          ELSE IF fr.cur # <<>> THEN Statement(s, fr.cur)
          ELSE IF fr.pc <= Len(fr.st) THEN Statement([s EXCEPT !.frames[Len(s.frames)].pc = @ + 1], fr.st[fr.pc])
          ELSE IF Len(s.frames) = 1 THEN [s EXCEPT !.ph = "judge"]
          ELSE LET below == s.frames[Len(s.frames) - 1]
                   t == [s EXCEPT !.frames = SubSeq(@, 1, Len(@) - 1), !.fn = below.fn, !.fi = below.fi]
               IN IF fr.k = "m" THEN t ELSE End([t EXCEPT !.loc = 1], [op |-> "endinc"])
\* equs of the command line
Equs ==
  /\ s.ph = "equs"
  /\ s' = LET L == Case.labels
              k0 == [s EXCEPT !.ph = "read", !.frames = <<[k |-> "f", st |-> s.lexed[1], pc |-> 1, cur |-> <<>>, par |-> <<>>, fn |-> 0, fi |-> 0, pl |-> 0]>>,
                     !.names = {Key(L[j].n, L[j].sc, 0, 0) : j \in 1..Len(L)}, !.sec = Cardinality({j \in 1..Len(L) : L[j].sc # "l"})]
              RECURSIVE X(_, _)
              X(t, j) == IF j > Len(Case.equs) THEN t
                         ELSE LET q == Case.equs[j] v == SubstAll([t EXCEPT !.sec = 0], <<>>, LexValue(q.v), 1)
                              IN X([t EXCEPT !.equs = (Key(q.n, "g", 0, 0) :> v) @@ @], j + 1)
          IN X(k0, 1)
InitState(i) == [c |-> i, ph |-> "lex", file |-> 1, line |-> 1, bp |-> 1, z |-> LexInit, lexed |-> <<>>, frames |-> <<>>, out |-> <<>>, equs |-> <<>>, names |-> {}, macros |-> <<>>,
                 funcs |-> <<>>, conds |-> <<[dead |-> FALSE, unk |-> FALSE, kn |-> "t"]>>, blocks |-> <<>>, sec |-> 0, fn |-> 0, fi |-> 0, nfile |-> 1, loc |-> 0, tl |-> 0,
                 deep |-> FALSE, odd |-> FALSE]
=============================================================================
