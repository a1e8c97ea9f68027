-------------------------------- MODULE Asm --------------------------------
(***************************************************************************)
(* The assembler core: a program (a list of commands, blocks flattened) is *)
(* read once, laid out in passes until nothing changes any more, checked,  *)
(* and then written to its output files.  One transition per command and   *)
(* pass; the state is the record s.                                        *)
(*                                                                         *)
(* A behaviour is started from a case: program, input files, options and,  *)
(* for conformance checking, what the real assembler did with it (obs).    *)
(* The behaviour of the specification is deterministic per case; its end   *)
(* state says which outputs and diagnostics are allowed.                   *)
(***************************************************************************)
EXTENDS Expr, Text, Decode, SequencesExt

CONSTANT Cases
VARIABLE s

Case == Cases[s.c]
Prog == Case.prog
C(i) == Cases[s.c].prog[i]
Has(r, f) == f \in DOMAIN r

----------------------------------------------------------------------------
(* architectures: byte order and word size *)
Big == {"n64", "rsp", "arm.big", "saturn", "32x"}
WordSize(a) == IF a \in {"saturn", "32x"} THEN 2 ELSE 4
IsArm(a) == a \in {"gba", "nds", "3ds", "arm.big", "arm.little"}

Width(c, ws) == CASE c.w = "b" -> 1 [] c.w = "16" -> 2 [] c.w = "32" -> 4 [] c.w = "64" -> 8
                  [] c.w = "half" -> ws \div 2 [] c.w = "word" -> ws [] c.w = "dword" -> 2 * ws

----------------------------------------------------------------------------
(* reporting: (source file, line, severity); e error, w warning, n notice  *)
Loc(i, sev) == <<C(i).f, C(i).l, sev>>
Q(t, i, sevs) == IF sevs = {} THEN t ELSE [t EXCEPT !.q = @ \cup {Loc(i, x) : x \in sevs}]
Qe(t, i) == Q(t, i, {"e"})
Perm(t, i, sevs) == IF sevs = {} THEN t ELSE [t EXCEPT !.perm = @ \cup {Loc(i, x) : x \in sevs}]
Failing(d, u, eow) == \/ \E x \in d : x[3] = "e" \/ (eow /\ x[3] = "w")
                      \/ "e" \in u \/ (eow /\ "w" \in u)

Open(t) == t.act # 0
VA(t) == IF Open(t) THEN t.va ELSE MinusOne
PA(t) == IF Open(t) THEN Sub(t.va, t.hdr) ELSE MinusOne

Env(t, i) == [labels |-> t.lab, file |-> t.m[i].fn, sec |-> t.m[i].sec, open |-> Open(t), va |-> t.va, hdr |-> t.hdr,
              big |-> t.big, params |-> <<>>, funcs |-> Case.funcs, infiles |-> Case.files]
Ev(t, i, e) == Eval(e, Env(t, i))
\* evaluate as integer: [ok, v, d]
EvI(t, i, e) == LET r == Ev(t, i, e) IN [ok |-> r.r.t = "i", v |-> IF r.r.t = "i" THEN r.r.v ELSE Zero, d |-> r.d]

----------------------------------------------------------------------------
(* position *)
SeekV(t, i, a) ==
  IF ~Open(t) THEN Qe(t, i)
  ELSE IF IsNeg(Sub(a, t.hdr)) THEN Qe(t, i)
  ELSE [Q(t, i, IF IsNeg(a) THEN {"w"} ELSE {}) EXCEPT !.va = a]
SeekP(t, i, a) ==
  IF ~Open(t) THEN Qe(t, i)
  ELSE IF IsNeg(a) THEN Qe(t, i)
  ELSE LET v == Add(a, t.hdr) IN [Q(t, i, IF IsNeg(v) THEN {"w"} ELSE {}) EXCEPT !.va = v]
Adv(t, i, n) == SeekV(t, i, Add(VA(t), n))
Next1(t) == [t EXCEPT !.pc = @ + 1]
Goto(t, n) == [t EXCEPT !.pc = n]
Changed(t, b) == IF b THEN [t EXCEPT !.chg = TRUE] ELSE t

----------------------------------------------------------------------------
(* reading the program: sections, files, known conditions *)
Fresh == [sec |-> 0, fn |-> 0, nfc |-> FALSE, kn |-> "u", ws |-> 4, th |-> FALSE, key |-> <<"", 0, 0>>, def |-> FALSE, pr |-> FALSE,
          fs |-> Zero, v |-> Zero, pos |-> Zero, as |-> Zero, cs |-> Zero, fid |-> 0, data |-> <<>>, rst |-> Zero,
          fv |-> Zero, st |-> Zero, va |-> MinusOne, sz |-> Zero, w |-> 0, t |-> "n", tab |-> NoTable]
Exprs(c) == (IF Has(c, "e") THEN {c.e} ELSE {}) \cup (IF Has(c, "fv") THEN {c.fv} ELSE {}) \cup (IF Has(c, "p") THEN {c.p} ELSE {})
            \cup (IF Has(c, "mn") THEN {c.mn} ELSE {}) \cup (IF Has(c, "mx") THEN {c.mx} ELSE {})
            \cup (IF Has(c, "es") THEN {c.es[j] : j \in 1..Len(c.es)} ELSE {})
Bumps(c) == \/ c.op \in {"open", "create", "copy", "close", "org", "orga"}
            \/ c.op \in {"label", "def", "func"} /\ c.sc # "l"
Top(t) == t.stk[Len(t.stk)]
Dead(t) == Top(t).dead
Unk(t) == Top(t).unk

\* what directives switch while reading; blocks that don't take effect switch nothing
Settings(t) == [arch |-> t.arch, eow |-> t.eow, nocash |-> t.nocash]
Restore(t, r) == [t EXCEPT !.arch = r.arch, !.eow = r.eow, !.nocash = r.nocash]
ParseEnv(t) == [EmptyEnv EXCEPT !.funcs = Case.funcs, !.infiles = Case.files, !.file = t.fstk[Len(t.fstk)], !.sec = t.sec]
Parse ==
  /\ s.ph = "parse" /\ s.pc <= Len(Prog)
  /\ LET i == s.pc
         c == C(i)
         sec2 == IF Bumps(c) THEN s.sec + 1 ELSE s.sec
         fn == s.fstk[Len(s.fstk)]
         env == ParseEnv(s)
         \* what reading the statement reports
         d == IF c.op = "perr" THEN {"e"} ELSE IF Dead(s) THEN {} ELSE
              (IF Unk(s) THEN {} ELSE UNION {ConstDiag(e, env) : e \in Exprs(c)})
              \cup (IF c.op \in {"incbin", "table"} /\ FileOf(env, c.codes) = {} THEN {"e"} ELSE {})
         dir == IF c.op # "data" THEN <<0, "n">> ELSE IF Has(c, "dir") THEN DirInfo(c.dir, s.nocash, WordSize(s.arch)) ELSE <<Width(c, WordSize(s.arch)), c.t>>
         cv == IF c.op = "if" /\ c.c = "if" /\ IsConst(c.e) THEN Eval(c.e, env).r ELSE Invalid
         kn == IF c.op # "if" THEN "u" ELSE IF Dead(s) THEN "f"
               ELSE IF cv.t = "i" THEN (IF cv.v # Zero THEN "t" ELSE "f") ELSE "u"
         rec == [s.m[i] EXCEPT !.sec = s.sec, !.fn = fn, !.nfc = s.nest > 0, !.kn = kn, !.ws = WordSize(s.arch),
                   !.th = s.th, !.w = dir[1], !.t = dir[2],
                   !.tab = IF c.op = "table" /\ FileOf(env, c.codes) # {} THEN ReadTable(TextOf(Case.files[CHOOSE j \in FileOf(env, c.codes) : TRUE].data, IF Has(c, "te") THEN c.te ELSE "utf8")) ELSE @,
                   !.key = IF Has(c, "n") THEN Key(c.n, c.sc, fn, sec2) ELSE @]
         t == [Perm(s, i, d) EXCEPT !.m[i] = rec, !.sec = sec2, !.pc = @ + 1]
     IN s' =
       CASE c.op = "if" -> [t EXCEPT !.stk = Append(@, [dead |-> Dead(s) \/ kn = "f", unk |-> Unk(s) \/ kn = "u", kn |-> kn, set |-> Settings(s)])]
         [] c.op = "else" ->
              LET o == Top(s)
                  b == s.stk[Len(s.stk) - 1]
                  fl == [dead |-> b.dead \/ o.kn = "t", unk |-> b.unk \/ o.kn = "u", kn |-> o.kn, set |-> Settings(s)]
                  r == IF o.kn = "f" THEN Restore(t, o.set) ELSE t
              IN [r EXCEPT !.stk = Append(SubSeq(@, 1, Len(@) - 1), [fl EXCEPT !.set = Settings(r)])]
         [] c.op = "endif" ->
              LET o == Top(s)
                  b == s.stk[Len(s.stk) - 1]
                  r == IF o.dead /\ ~b.dead THEN Restore(t, o.set) ELSE t
              IN [r EXCEPT !.stk = SubSeq(@, 1, Len(@) - 1)]
         [] c.op = "inc" -> IF Dead(s) THEN [t EXCEPT !.pc = c.en + 1]
                            ELSE [t EXCEPT !.fstk = Append(@, s.nfile), !.nfile = @ + 1]
         [] c.op = "endinc" -> [t EXCEPT !.fstk = SubSeq(@, 1, Len(@) - 1)]
         [] c.op \in {"area", "auto", "func"} -> [t EXCEPT !.nest = @ + 1]
         [] c.op \in {"endarea", "endauto", "endfunc"} -> [t EXCEPT !.nest = @ - 1]
         [] c.op = "arch" -> [t EXCEPT !.arch = c.a, !.th = c.a = "gba"]
         [] c.op = "eow" -> [t EXCEPT !.eow = c.on]
         [] c.op = "nocash" -> [t EXCEPT !.nocash = c.on]
         [] OTHER -> t
ParseEnd ==
  /\ s.ph = "parse" /\ s.pc > Len(Prog)
  /\ s' = [s EXCEPT !.ph = IF Failing(s.perm, {}, s.eow) THEN "judge" ELSE "start", !.ok = ~Failing(s.perm, {}, s.eow), !.pass = 0]

----------------------------------------------------------------------------
(* areas and regions *)
\* an area and a region may start at the same address
AKey(fid, pos, sh) == <<fid, pos, sh>>
SubUse(t, k) ==
  LET ext == {x.end : x \in {t.subs[j] : j \in {j2 \in 1..Len(t.subs) : t.subs[j2].k = k}}}
      us == IF k \in DOMAIN t.areas THEN t.areas[k].use ELSE Zero
      mx == IF ext = {} THEN Zero ELSE CHOOSE a \in ext : \A b \in ext : Le(b, a)
  IN IF Le(mx, us) THEN Zero ELSE Sub(mx, us)
Forget(t, fid, pos, sp, sh) ==
  LET k == AKey(fid, pos, sh) IN
  [t EXCEPT !.areas = IF k \in DOMAIN @ /\ @[k].sp = sp THEN [x \in DOMAIN @ \ {k} |-> @[x]] ELSE @,
            !.subs = SelectSeq(@, LAMBDA x : x.k # k)]
SetArea(t, fid, pos, sp, use, fill, sh) ==
  LET k == AKey(fid, pos, sh) IN
  [t EXCEPT !.areas = (k :> [sp |-> sp, use |-> use, fill |-> fill, sh |-> sh, used |-> TRUE]) @@ @,
            \* areas are told apart by where they start
            !.coll = @ \/ (k \in DOMAIN t.areas /\ t.areas[k].used)]
SortedKeys(t, fid) == SetToSortSeq({k \in DOMAIN t.areas : k[1] = fid}, LAMBDA a, b : Lt(a[2], b[2]) \/ (a[2] = b[2] /\ ~a[3] /\ b[3]))

\* try the regions of the file from the lowest address up; returns the new state and position
RECURSIVE TryRegions(_, _, _, _, _, _, _)
TryRegions(t, keys, j, old, mn, mx, size) ==
  IF j > Len(keys) THEN [ok |-> FALSE, t |-> [t EXCEPT !.nkeep = FALSE], pos |-> old]
  ELSE
  LET k == keys[j]
      a == t.areas[k]
      p == k[2]
      use == Add(a.use, SubUse(t, k))
      cand == Add(p, use)
      \* -1 stands for no limit
      skip == \/ ~a.sh
              \/ mn # MinusOne /\ (Lt(Add(p, a.sp), mn) \/ Lt(cand, mn))
              \/ mx # MinusOne /\ (Lt(mx, p) \/ Lt(mx, cand))
      off == Sub(old, p)
      keepit == t.keep /\ old # MinusOne /\ Lt(cand, old) /\ Le(Add(off, size), a.sp) /\ off # use
      size2 == IF keepit THEN Add(size, Sub(off, use)) ELSE size
      pos2 == IF keepit THEN old ELSE cand
      t2 == IF keepit THEN [t EXCEPT !.kept = TRUE] ELSE t
  IN IF skip THEN TryRegions(t, keys, j + 1, old, mn, mx, size)
     ELSE IF Le(Add(use, size2), a.sp)
     THEN [ok |-> TRUE, pos |-> pos2, t |-> [t2 EXCEPT !.subs = Append(@, [k |-> k, off |-> use, end |-> Add(use, size2)])]]
     \* the enlarged size is what the remaining regions are tried with
     ELSE TryRegions(t2, keys, j + 1, old, mn, mx, size2)

\* overlapping areas, per file in address order
RECURSIVE OverlapFrom(_, _, _, _)
OverlapFrom(t, keys, j, last) ==
  IF j > Len(keys) THEN FALSE
  ELSE LET k == keys[j]
           a == t.areas[k]
           p == k[2]
           inside == last.any /\ Lt(last.p, p) /\ Lt(p, last.end)
           hit == inside /\ (Lt(p, Add(last.p, last.use)) \/ (a.fill /\ last.fill))
           nested == inside /\ Lt(Add(p, a.sp), last.end)
           together == last.any /\ last.p = p /\ Le(Add(p, a.sp), last.end)
           nl == IF together THEN last ELSE IF nested THEN [last EXCEPT !.use = Sub(Add(Add(p, a.use), SubUse(t, k)), last.p)]
                 ELSE [any |-> TRUE, p |-> p, use |-> Add(a.use, SubUse(t, k)), fill |-> a.fill, end |-> Add(p, a.sp)]
       IN hit \/ OverlapFrom(t, keys, j + 1, nl)
Overlaps(t) == \E fid \in {k[1] : k \in DOMAIN t.areas} :
                 OverlapFrom(t, SortedKeys(t, fid), 1, [any |-> FALSE, p |-> Zero, use |-> Zero, fill |-> FALSE, end |-> Zero])

----------------------------------------------------------------------------
(* data *)
Bytes2Units(b) == [j \in 1..Len(b) |-> <<b[j], 0, 0, 0>>]
Unit(v, w, t, tab) == \* the units an operand contributes, or FALSE in .ok
  CASE t \in {"c", "C", "j", "J"} ->
         IF v.t = "i" THEN [ok |-> TRUE, u |-> <<v.v>>]
         ELSE IF v.t = "s" THEN LET r == IF t \in {"c", "C"} THEN EncText(tab, v.v, 1) ELSE EncSjis(v.v, 1) IN [ok |-> r.ok, u |-> Bytes2Units(r.b)]
         ELSE [ok |-> FALSE, u |-> <<>>]
    [] v.t = "s" /\ t # "f" -> [ok |-> \A j \in 1..Len(v.v) : v.v[j] < 128, u |-> [j \in 1..Len(v.v) |-> <<v.v[j], 0, 0, 0>>]]
    [] v.t = "i" /\ t # "f" -> [ok |-> TRUE, u |-> <<v.v>>]
    [] v.t \in {"i", "f"} /\ t = "f" -> [ok |-> TRUE, u |-> <<IF w = 4 THEN F32(AsF(v)) ELSE F64(AsF(v))>>]
    [] v.t = "f" /\ t = "n" /\ w \in {4, 8} -> [ok |-> TRUE, u |-> <<IF w = 4 THEN F32(v) ELSE F64(v)>>]
    [] OTHER -> [ok |-> FALSE, u |-> <<>>]
RECURSIVE Concat(_, _)
Concat(ss, j) == IF j > Len(ss) THEN <<>> ELSE ss[j] \o Concat(ss, j + 1)
DataUnits(t, i) ==
  LET c == C(i)
      w == t.m[i].w
      k == t.m[i].t
      rs == EvalSeq(c.es, Env(t, i))
      us == [j \in 1..Len(rs) |-> Unit(rs[j].r, w, k, t.tab)]
      all == Concat([j \in 1..Len(us) |-> us[j].u], 1)
  IN [u |-> CASE k \in {"z", "J"} -> all \o <<Zero>> [] k = "C" -> all \o Bytes2Units(t.tab.term) [] OTHER -> all,
      d |-> Diags(rs) \cup (IF \E j \in 1..Len(us) : ~us[j].ok THEN {"e"} ELSE {})]
UnitBytes(u, w, big) == LET b == SubSeq(Bytes8(u), 1, w) IN IF big THEN Reverse(b) ELSE b
DataBytes(us, w, big) == Concat([j \in 1..Len(us) |-> UnitBytes(us[j], w, big)], 1)

IsPow2(v) == v # Zero /\ BAnd(v, Sub(v, One)) = Zero
Pad(a, v) == LET m == BAnd(a, Sub(v, One)) IN IF m = Zero THEN Zero ELSE Sub(v, m)

----------------------------------------------------------------------------
(* layout: one command *)
LabelV(t, i) ==
  LET c == C(i)
      k == t.m[i].key
      l == IF k \in DOMAIN t.lab THEN t.lab[k] ELSE [def |-> FALSE, val |-> Zero, hp |-> FALSE, pv |-> Zero]
      dup == ~t.m[i].def /\ l.def
      \* a value expression may name the symbol itself
      r == IF c.op = "def" THEN EvI([t EXCEPT !.lab = (k :> [l EXCEPT !.def = TRUE]) @@ @], i, c.e) ELSE [ok |-> TRUE, v |-> VA(t), d |-> {}]
      val == IF r.ok THEN r.v ELSE l.val
      pv == IF c.op = "def" THEN l.pv ELSE PA(t)
      nl == [def |-> TRUE, val |-> val, hp |-> l.hp \/ c.op # "def", pv |-> pv]
      t2 == Changed([t EXCEPT !.m[i].def = TRUE, !.lab = (k :> nl) @@ @], nl # l)
  IN IF dup THEN Qe(t, i)
     \* a value that cannot be computed is reported at once and for good
     ELSE IF ~r.ok THEN Perm(Q(t2, i, r.d), i, {"e"})
     ELSE Q(t2, i, r.d)

FileV(t, i) ==
  LET c == C(i)
      exists(cs) == FileOf([infiles |-> Case.files], cs) # {}
      bad == CASE c.op = "open" -> ~exists(c.codes)
               [] c.op = "copy" -> ~exists(c.src) \/ c.src = c.codes
               [] OTHER -> FALSE
      t1 == [t EXCEPT !.m[i].va = VA(t)]
      t2 == Q(t1, i, (IF Open(t) \/ IsNeg(c.hv) THEN {"w"} ELSE {}) \cup (IF bad THEN {"e"} ELSE {}))
  IN IF t.m[i].nfc THEN Qe(t, i)
     ELSE IF c.op = "close" THEN (IF Open(t) THEN [t1 EXCEPT !.act = 0] ELSE Q(t1, i, {"w"}))
     ELSE [t2 EXCEPT !.act = i, !.hdr = c.hv, !.va = c.hv]

AlignV(t, i) ==
  LET c == C(i)
      t0 == [t EXCEPT !.m[i].va = VA(t)]
      r == IF Has(c, "e") THEN EvI(t, i, c.e) ELSE [ok |-> TRUE, v |-> V(4), d |-> {}]
      f == IF Has(c, "fv") THEN EvI(t, i, c.fv) ELSE [ok |-> TRUE, v |-> Zero, d |-> {}]
      size == CASE c.op = "align" -> Pad(VA(t), r.v) [] c.op = "aligna" -> Pad(PA(t), r.v) [] OTHER -> r.v
      t1 == [Q(t0, i, r.d) EXCEPT !.m[i].v = IF r.ok THEN r.v ELSE @]
      t2 == [Q(t1, i, f.d) EXCEPT !.m[i].fs = size, !.m[i].fv = f.v]
  IN IF ~r.ok THEN Qe(t1, i)
     ELSE IF (c.op = "fill" /\ IsNeg(r.v)) \/ (c.op # "fill" /\ ~IsPow2(r.v)) THEN Qe(t1, i)
     ELSE IF ~f.ok THEN Perm(t2, i, {"e"})
     ELSE Changed(Adv(t2, i, size), size # t.m[i].fs)

IncbinV(t, i) ==
  LET c == C(i)
      n == V(Len(Case.files[CHOOSE j \in FileOf([infiles |-> Case.files], c.codes) : TRUE].data))
      a == IF Has(c, "e") THEN EvI(t, i, c.e) ELSE [ok |-> TRUE, v |-> Zero, d |-> {}]
      b == IF Has(c, "fv") THEN EvI(t, i, c.fv) ELSE [ok |-> TRUE, v |-> Sub(n, a.v), d |-> {}]
      t1 == Q([t EXCEPT !.m[i].va = VA(t)], i, a.d)
      rest == Sub(n, a.v)
      cut == Lt(rest, b.v)
      t2 == [Q(Q(t1, i, b.d), i, IF cut THEN {"w"} ELSE {}) EXCEPT !.m[i].st = a.v, !.m[i].sz = IF cut THEN rest ELSE b.v]
  IN IF ~a.ok \/ IsNeg(a.v) \/ Lt(n, a.v) THEN Qe(t1, i)
     ELSE IF ~b.ok \/ IsNeg(b.v) THEN Qe(Q(t1, i, b.d), i)
     ELSE Adv(t2, i, t2.m[i].sz)

AreaBegin(t, i) ==
  LET c == C(i)
      m == t.m[i]
      \* the values of the previous pass, needed when the area ends
      t0 == [t EXCEPT !.m[i].prv = [as |-> m.as, cs |-> m.cs, pos |-> m.pos, fid |-> m.fid]]
      p == IF Has(c, "p") THEN EvI(t, i, c.p) ELSE [ok |-> TRUE, v |-> VA(t), d |-> {}]
      t1 == IF Has(c, "p") THEN SeekV([Q(t0, i, p.d) EXCEPT !.m[i].pos = p.v], i, p.v) ELSE [t0 EXCEPT !.m[i].pos = p.v]
      z == EvI(t1, i, c.e)
      t2 == [Q(t1, i, z.d) EXCEPT !.m[i].as = IF z.ok THEN z.v ELSE @]
      f == IF Has(c, "fv") THEN EvI(t2, i, c.fv) ELSE [ok |-> TRUE, v |-> Zero, d |-> {}]
      t3 == [Q(t2, i, f.d) EXCEPT !.m[i].fv = IF f.ok THEN f.v ELSE @]
  IN IF ~p.ok THEN Goto(Qe(Q(t0, i, p.d), i), c.en + 1)
     ELSE IF ~z.ok \/ IsNeg(z.v) THEN Goto(Qe(t2, i), c.en + 1)
     ELSE IF ~f.ok THEN Goto(Qe(t3, i), c.en + 1)
     ELSE Next1(t3)
AreaEnd(t, b) == \* b: the command that began the area
  LET c == C(b)
      m == t.m[b]
      cs == Sub(VA(t), m.pos)
      t1 == [Q(t, b, IF Lt(m.as, cs) THEN {"e"} ELSE {}) EXCEPT !.m[b].cs = cs]
      t2 == IF Has(c, "fv") \/ c.sh THEN Adv(t1, b, Sub(m.as, cs)) ELSE t1
      t3 == Changed(t2, m.as # m.prv.as \/ cs # m.prv.cs \/ m.pos # m.prv.pos)
      fid == t.act
      t4 == [(IF Open(t) THEN t3 ELSE Qe(t3, b)) EXCEPT !.m[b].fid = fid]
      t5 == IF (m.prv.fid # fid \/ m.prv.pos # m.pos \/ m.as = Zero) /\ m.prv.as # Zero
            THEN Forget(t4, m.prv.fid, m.prv.pos, m.prv.as, c.sh) ELSE t4
  IN IF m.as = Zero THEN t5 ELSE SetArea(t5, fid, m.pos, m.as, cs, Has(c, "fv"), c.sh)

AutoBegin(t, i) ==
  LET c == C(i)
      t0 == [t EXCEPT !.m[i].rst = VA(t)]
      mn == IF Has(c, "mn") THEN EvI(t, i, c.mn) ELSE [ok |-> TRUE, v |-> MinusOne, d |-> {}]
      mx == IF Has(c, "mx") THEN EvI(t, i, c.mx) ELSE [ok |-> TRUE, v |-> MinusOne, d |-> {}]
      t1 == Q(t0, i, mn.d)
      t2 == Q(t1, i, mx.d)
      t3 == [(IF Open(t) THEN t2 ELSE Qe(t2, i)) EXCEPT !.m[i].fid = t.act, !.m[i].prv = [pos |-> t.m[i].pos, cs |-> t.m[i].cs]]
      al == TryRegions(t3, SortedKeys(t3, t.act), 1, t.m[i].pos, mn.v, mx.v, t.m[i].cs)
  IN IF t.pass = 0 THEN Next1([t0 EXCEPT !.m[i].pos = VA(t)])
     ELSE IF ~mn.ok THEN Goto(Qe(t1, i), c.en + 1)
     ELSE IF ~mx.ok THEN Goto(Qe(t2, i), c.en + 1)
     ELSE IF ~al.ok THEN Goto(Changed(Qe(al.t, i), al.t.kept), c.en + 1)
     ELSE Next1(SeekV([al.t EXCEPT !.m[i].pos = al.pos], i, al.pos))
AutoEnd(t, b) ==
  LET m == t.m[b]
      cs == Sub(VA(t), m.pos)
      t1 == SeekV([t EXCEPT !.m[b].cs = cs], b, m.rst)
  IN IF t.pass = 0 THEN Changed(t1, TRUE) ELSE Changed(t1, m.pos # m.prv.pos \/ cs # m.prv.cs)

IfV(t, i) ==
  LET c == C(i)
      m == t.m[i]
      r == IF c.c = "if" THEN EvI(t, i, c.e) ELSE [ok |-> TRUE, v |-> Zero, d |-> {}]
      def == Lookup(Env(t, i), c.n, c.sc).def
      res == IF c.c = "if" THEN r.ok /\ r.v # Zero ELSE IF c.c = "ifdef" THEN def ELSE ~def
      t1 == Changed([Q(t, i, r.d \cup (IF r.ok THEN {} ELSE {"e"})) EXCEPT !.m[i].pr = res], res # m.pr)
      to(b) == IF b THEN i + 1 ELSE IF c.el < c.en THEN c.el + 1 ELSE c.en
  IN IF m.kn # "u" THEN Goto(t, to(m.kn = "t")) ELSE Goto(t1, to(res))

MsgV(t, i) == LET r == Ev(t, i, C(i).e) IN Q(t, i, r.d \cup {IF r.r.t \in {"s", "i", "f"} THEN C(i).sev ELSE "e"})

Lay(t, i) ==
  LET c == C(i) IN
  CASE c.op \in {"label", "def"} -> Next1(LabelV(t, i))
    [] c.op \in {"open", "create", "copy", "close"} -> Next1(FileV(t, i))
    [] c.op = "org" -> LET r == EvI(t, i, c.e) t1 == Q([t EXCEPT !.m[i].va = VA(t), !.m[i].v = IF r.ok THEN r.v ELSE @], i, r.d)
                       IN Next1(IF r.ok THEN SeekV(t1, i, r.v) ELSE Qe(t1, i))
    [] c.op = "orga" -> LET r == EvI(t, i, c.e) t1 == Q([t EXCEPT !.m[i].va = VA(t), !.m[i].v = IF r.ok THEN r.v ELSE @], i, r.d)
                        IN Next1(IF r.ok THEN SeekP(t1, i, r.v) ELSE Qe(t1, i))
    [] c.op = "hdr" -> LET r == EvI(t, i, c.e) t1 == Q([t EXCEPT !.m[i].va = VA(t), !.m[i].v = IF r.ok THEN r.v ELSE @], i, r.d)
                       IN Next1(IF ~r.ok \/ ~Open(t) THEN Qe(t1, i)
                                ELSE SeekP([t1 EXCEPT !.hdr = r.v], i, PA(t)))
    [] c.op = "skip" -> LET r == EvI(t, i, c.e) t1 == Q([t EXCEPT !.m[i].va = VA(t), !.m[i].v = IF r.ok THEN r.v ELSE @], i, r.d)
                        IN Next1(IF r.ok THEN Adv(t1, i, r.v) ELSE Qe(t1, i))
    [] c.op \in {"align", "aligna", "fill"} -> Next1(AlignV(t, i))
    [] c.op = "incbin" -> Next1(IncbinV(t, i))
    [] c.op = "data" ->
         LET r == DataUnits(t, i)
             t1 == Q([t EXCEPT !.m[i].data = r.u, !.m[i].va = VA(t)], i, r.d)
         IN Next1(Changed(Adv(t1, i, V(Len(r.u) * t.m[i].w)), Len(r.u) # Len(t.m[i].data)))
    [] c.op = "raw" -> \* an instruction: c.al is the alignment it needs
         LET t1 == [t EXCEPT !.m[i].va = VA(t)]
         IN Next1(IF BAnd(VA(t), V(c.al - 1)) = Zero THEN Adv(t1, i, V(Len(c.b))) ELSE Qe(t1, i))
    [] c.op = "area" -> AreaBegin(t, i)
    [] c.op = "endarea" -> Next1(AreaEnd(t, c.b))
    [] c.op = "auto" -> AutoBegin(t, i)
    [] c.op = "endauto" -> Next1(AutoEnd(t, c.b))
    [] c.op = "func" -> Next1(LabelV([t EXCEPT !.m[i].va = VA(t)], i))
    [] c.op = "endfunc" -> Next1([t EXCEPT !.m[i].va = VA(t)])
    [] c.op = "if" -> IfV(t, i)
    [] c.op = "else" -> Goto(t, c.en)
    [] c.op = "msg" -> Next1(MsgV(t, i))
    [] c.op = "arch" -> Next1([t EXCEPT !.big = c.a \in Big, !.m[i].va = VA(t)])
    [] c.op = "table" -> Next1([t EXCEPT !.tab = t.m[i].tab])
    [] OTHER -> Next1(t)

----------------------------------------------------------------------------
(* passes *)
MaxPasses == 100
StartPass ==
  /\ s.ph = "start"
  /\ s' = IF s.pass >= MaxPasses THEN [s EXCEPT !.ph = "check", !.stuck = TRUE, !.q = {}]
          ELSE [s EXCEPT !.ph = "val", !.pc = 1, !.q = {}, !.chg = FALSE, !.act = 0, !.big = FALSE, !.tab = NoTable,
                         !.areas = LET live == {k \in DOMAIN @ : @[k].used} IN [k \in live |-> [@[k] EXCEPT !.used = FALSE]],
                         !.subs = <<>>, !.coll = FALSE, !.keep = s.nkeep, !.nkeep = TRUE, !.kept = FALSE]
Layout ==
  /\ s.ph = "val" /\ s.pc <= Len(Prog)
  /\ s' = Lay(s, s.pc)
EndPass ==
  /\ s.ph = "val" /\ s.pc > Len(Prog)
  /\ s' = [s EXCEPT !.pass = @ + 1, !.ph = IF s.chg THEN "start" ELSE "check"]
Check ==
  /\ s.ph = "check"
  /\ LET u == (IF s.stuck THEN {"e"} ELSE {}) \cup (IF Overlaps(s) \/ Open(s) THEN {"w"} ELSE {})
         bad == Failing(s.perm \cup s.q, u, s.eow)
     IN s' = [s EXCEPT !.u = u, !.ok = ~bad, !.ph = IF bad THEN "judge" ELSE "enc", !.pc = 1, !.act = 0, !.big = FALSE, !.tab = NoTable]

----------------------------------------------------------------------------
(* writing *)
Zeros(n) == [j \in 1..n |-> 0]
WriteAt(f, off, b) ==
  IF b = <<>> THEN f ELSE
  LET g == IF Len(f) < off THEN f \o Zeros(off - Len(f)) ELSE f
  IN SubSeq(g, 1, off) \o b \o SubSeq(g, off + Len(b) + 1, Len(g))
\* positions so far out that the file would not fit in memory are not followed
Huge == V(65536)
Emit(t, b) == IF ~Open(t) \/ b = <<>> THEN t
              ELSE IF Lt(Huge, PA(t)) THEN [t EXCEPT !.huge = TRUE, !.va = Add(@, V(Len(b)))]
              ELSE [t EXCEPT !.out = [@ EXCEPT ![t.cur] = WriteAt(@, ToInt(PA(t)), b)], !.va = Add(@, V(Len(b)))]
To(t, a) == IF Open(t) THEN [t EXCEPT !.va = a] ELSE t
Rep(b, n) == [j \in 1..n |-> b]
\* the specification's own consistency: writing agrees with the layout
Agree(t, b) == IF b THEN t ELSE [t EXCEPT !.sound = FALSE]
InitFile(cs) == LET S == FileOf([infiles |-> Case.files], cs) IN IF S = {} THEN <<>> ELSE Case.files[CHOOSE j \in S : TRUE].data
Cur(t, cs) == IF cs \in DOMAIN t.out THEN t.out[cs] ELSE InitFile(cs)

Enc(t, i) ==
  LET c == C(i) m == t.m[i] IN
  CASE c.op \in {"open", "create", "copy"} ->
         LET data == CASE c.op = "open" -> Cur(t, c.codes) [] c.op = "create" -> <<>> [] OTHER -> Cur(t, c.src)
         IN Next1([Agree(t, m.va = VA(t)) EXCEPT !.act = i, !.cur = c.codes, !.out = (c.codes :> data) @@ @, !.hdr = c.hv, !.va = c.hv])
    [] c.op = "close" -> Next1([Agree(t, m.va = VA(t)) EXCEPT !.act = 0])
    [] c.op = "org" -> Next1(To(Agree(t, m.va = VA(t)), m.v))
    [] c.op = "orga" -> Next1(To(Agree(t, m.va = VA(t)), Add(m.v, t.hdr)))
    [] c.op = "hdr" -> Next1([Agree(t, m.va = VA(t)) EXCEPT !.hdr = m.v, !.va = Add(PA(t), m.v)])
    [] c.op = "skip" -> Next1(To(Agree(t, m.va = VA(t)), Add(t.va, m.v)))
    [] c.op \in {"align", "aligna", "fill"} -> Next1(Emit(Agree(t, m.va = VA(t)), Rep(m.fv[1] % 256, ToInt(m.fs))))
    [] c.op = "incbin" -> Next1(Emit(Agree(t, m.va = VA(t)), SubSeq(InitFile(c.codes), ToInt(m.st) + 1, ToInt(m.st) + ToInt(m.sz))))
    [] c.op = "data" -> \* C02: what is written is the operands evaluated in the final state
         LET r == DataUnits(t, i) IN
         Next1(Emit(Agree(t, m.va = VA(t) /\ r.u = m.data), DataBytes(m.data, m.w, t.big)))
    [] c.op = "raw" -> Next1(Emit(Agree(t, m.va = VA(t)), c.b))
    [] c.op = "area" -> LET t1 == IF Has(c, "p") THEN To(t, m.pos) ELSE Agree(t, m.pos = VA(t)) IN Next1(t1)
    [] c.op = "endarea" ->
         LET b == C(c.b)
             mb == t.m[c.b]
             \* blocks beyond the end belong to a larger region with the same start
             sub == LET u == SubUse(t, AKey(mb.fid, mb.pos, b.sh)) IN IF Lt(Sub(mb.as, mb.cs), u) THEN Sub(mb.as, mb.cs) ELSE u
             t1 == Agree(t, Sub(VA(t), mb.pos) = mb.cs)
             t2 == To(t1, Add(t.va, sub))
             t3 == IF Has(b, "fv") THEN Emit(t2, Rep(mb.fv[1] % 256, ToInt(Sub(Sub(mb.as, mb.cs), sub))))
                   ELSE IF b.sh THEN To(t1, Add(t.va, Sub(mb.as, mb.cs))) ELSE t1
         IN Next1(Agree(t3, (Has(b, "fv") \/ b.sh) => VA(t3) = Add(mb.pos, mb.as)))
    [] c.op = "auto" -> Next1(To(Agree(t, m.rst = VA(t)), m.pos))
    [] c.op = "endauto" -> Next1(To(Agree(t, Sub(VA(t), t.m[c.b].pos) = t.m[c.b].cs), t.m[c.b].rst))
    [] c.op = "label" -> Next1(Agree(t, t.lab[m.key].val = VA(t) /\ t.lab[m.key].pv = PA(t)))
    [] c.op = "def" -> Next1(Agree(t, Ev(t, i, c.e).r = IntVal(t.lab[m.key].val)))
    [] c.op = "func" -> Next1(Agree(t, t.lab[m.key].val = VA(t)))
    [] c.op = "if" -> LET k == IF m.kn = "u" THEN m.pr ELSE m.kn = "t" IN
                      Goto(t, IF k THEN i + 1 ELSE IF c.el < c.en THEN c.el + 1 ELSE c.en)
    [] c.op = "else" -> Goto(t, c.en)
    [] c.op = "arch" -> Next1([t EXCEPT !.big = c.a \in Big])
    [] c.op = "table" -> Next1([t EXCEPT !.tab = m.tab])
    [] OTHER -> Next1(t)
\* statements that show in the symbol file or listing; overridden by modules that need more
Encode ==
  /\ s.ph = "enc" /\ s.pc <= Len(Prog)
  /\ s' = LET i == s.pc e == Enc(s, i) IN
          [e EXCEPT !.log = IF Case.log # 0 THEN Append(@, [i |-> i, va |-> VA(s), mod |-> s.act, after |-> VA(e)]) ELSE @]
EndEncode ==
  /\ s.ph = "enc" /\ s.pc > Len(Prog)
  /\ s' = [s EXCEPT !.ph = "judge", !.act = 0]

----------------------------------------------------------------------------
(* the verdict on an observed run *)
FinalFiles == LET names == {Case.files[j].codes : j \in 1..Len(Case.files)} \cup (IF s.ok THEN DOMAIN s.out ELSE {})
              IN {<<n, IF s.ok THEN Cur(s, n) ELSE InitFile(n)>> : n \in names}
AllDiag == s.perm \cup s.q
ObsFiles == {<<Case.obs.files[j].codes, Case.obs.files[j].data>> : j \in 1..Len(Case.obs.files)}
ObsDiag == {Case.obs.d[j] : j \in 1..Len(Case.obs.d)}
\* an error in a statement over several lines may name any of them
Wide == {j \in 1..Len(Case.prog) : Case.prog[j].op = "perr" /\ Has(Case.prog[j], "al")}
FirstLine(x) == LET S == {j \in Wide : x[3] = "e" /\ Case.prog[j].f = x[1] /\ \E k \in 1..Len(Case.prog[j].al) : Case.prog[j].al[k] = x[2]}
                IN IF x \in AllDiag \/ S = {} THEN x ELSE LET c == Case.prog[CHOOSE j \in S : TRUE] IN <<c.f, c.l, "e">>
SeenDiag == IF Wide = {} THEN ObsDiag ELSE {FirstLine(x) : x \in ObsDiag}
DiagOK == /\ AllDiag \subseteq SeenDiag
          /\ \A x \in SeenDiag \ AllDiag : x[3] \in s.u
          /\ \A x \in s.u : \E y \in ObsDiag : y[3] = x
CoreWhy == IF s.huge THEN {} ELSE (IF Case.obs.rc \notin {0, 1} THEN {"crash"} ELSE {}) \cup (IF (Case.obs.rc = 0) # s.ok THEN {"exit"} ELSE {})
           \cup (IF ObsFiles # FinalFiles THEN {"files"} ELSE {})
           \cup (IF ~DiagOK THEN {"diag"} ELSE {})

InitState(i) == [c |-> i, ph |-> "parse", pc |-> 1, pass |-> 0, m |-> [j \in 1..Len(Cases[i].prog) |-> [Fresh EXCEPT !.pos = IF Cases[i].prog[j].op = "auto" THEN MinusOne ELSE Zero] @@ [prv |-> [as |-> Zero, cs |-> Zero, pos |-> Zero, fid |-> 0]]],
   lab |-> LET L == Cases[i].labels IN [k \in {Key(L[j].n, L[j].sc, 0, 0) : j \in 1..Len(L)} |->
             [def |-> TRUE, val |-> L[CHOOSE j \in 1..Len(L) : Key(L[j].n, L[j].sc, 0, 0) = k].v, hp |-> FALSE, pv |-> Zero]],
   act |-> 0, cur |-> <<>>, va |-> Zero, hdr |-> Zero, big |-> FALSE, chg |-> FALSE, stuck |-> FALSE,
   areas |-> <<>>, subs |-> <<>>, keep |-> FALSE, nkeep |-> TRUE, kept |-> FALSE,
   q |-> {}, perm |-> {}, u |-> {}, eow |-> Cases[i].eow, ok |-> FALSE, huge |-> FALSE, coll |-> FALSE, sound |-> TRUE,
   sec |-> 0, fstk |-> <<0>>, nfile |-> 1, nest |-> 0, stk |-> <<[dead |-> FALSE, unk |-> FALSE, kn |-> "u", set |-> [arch |-> "none", eow |-> FALSE, nocash |-> FALSE]]>>,
   arch |-> "none", nocash |-> FALSE, tab |-> NoTable, th |-> FALSE, out |-> <<>>, log |-> <<>>]

----------------------------------------------------------------------------
(* invariants of the specification itself *)
\* C01, C02: writing finds every statement, label and value where the layout said
Sound == s.sound
\* C04: a failing program changes no file
FailSafe == (s.ph \in {"judge", "done"} /\ ~s.ok) => DOMAIN s.out = {}
\* C06: blocks are placed inside regions and apart from each other and from the region's own content
Apart == s.ph = "enc" /\ ~s.coll =>
  \A j \in 1..Len(s.subs) : LET x == s.subs[j] IN
    /\ x.k \in DOMAIN s.areas /\ s.areas[x.k].sh
    /\ Le(s.areas[x.k].use, x.off) /\ Le(x.end, s.areas[x.k].sp)
    /\ \A l \in 1..Len(s.subs) : l # j /\ s.subs[l].k = x.k => Le(x.end, s.subs[l].off) \/ Le(s.subs[l].end, x.off)
\* C05: content that does not fit is never written
Inside == s.ph = "enc" /\ ~s.coll => \A i \in 1..Len(Prog) : LET m == s.m[i] IN
            C(i).op = "area" => LET k == AKey(m.fid, m.pos, C(i).sh) IN k \in DOMAIN s.areas => Le(s.areas[k].use, s.areas[k].sp)
=============================================================================
