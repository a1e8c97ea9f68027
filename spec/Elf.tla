-------------------------------- MODULE Elf --------------------------------
(***************************************************************************)
(* Object code imported into a program.  A program is a sequence of        *)
(* labels, data, references and imports.  The machine reads it (names that *)
(* objects export must be new), places every statement (sections of an     *)
(* object behind each other, each aligned; common symbols behind them),    *)
(* and emits it: sections appear unchanged except for relocated fields,    *)
(* which hold the final address of their symbol plus the addend, in the    *)
(* encoding of the relocation.                                             *)
(***************************************************************************)
EXTENDS MipsExec

VARIABLE s
Cases == CachedCases
Case == Cases[s.c]
Prog == Case.prog
Big == Case.big
Arm == Case.arch \in {"gba", "nds", "3ds", "arm.big", "arm.little"}
Mips == Case.arch \in {"psx", "ps2", "psp", "n64", "rsp"}
V5 == Case.arch # "gba"
Machine == IF Arm THEN 40 ELSE IF Mips THEN 8 ELSE 42
ObjsOf(n) == Case.libs[n]
Adr(o) == Trunc32(Add(Case.base, V(o)))
Pad(o, a) == IF a <= 1 THEN 0 ELSE (a - ((Case.base[1] + o) % a)) % a
Zeros(n) == [k \in 1..n |-> 0]
Rng(q) == {q[k] : k \in 1..Len(q)}

\* ---- names ----------------------------------------------------------------
Exported(o) == SelectSeq([k \in 1..Len(o.syms) |-> [y |-> o.syms[k], n |-> k]], LAMBDA x : x.y.bind \in {1, 2} /\ x.y.sec # 0)
RECURSIVE ReadObjs(_, _, _)
\* known names and whether one came twice
ReadObjs(os, names, dup) ==
  IF os = <<>> THEN [names |-> names, dup |-> dup]
  ELSE LET ex == Exported(Head(os))
           RECURSIVE g(_, _, _)
           g(k, ns, d) == IF k > Len(ex) THEN [names |-> ns, dup |-> d]
                          ELSE g(k + 1, ns \cup {ex[k].y.key}, d \/ ex[k].y.key \in ns \/ ~ex[k].y.valid)
           r == g(1, names, dup)
           bad == Head(os).psx /\ \E k \in 1..Len(Head(os).syms) : ~Head(os).syms[k].valid
       IN ReadObjs(Tail(os), r.names, r.dup \/ bad)
Unfit(o) == o.machine # Machine \/ o.big # Big \/ o.etype # 1
Read ==
  /\ s.ph = "read"
  /\ IF s.i > Len(Prog) THEN s' = [s EXCEPT !.ph = IF s.err = {} THEN "place" ELSE "judge", !.i = 1]
     ELSE LET st == Prog[s.i] IN
          IF st.k # "import" THEN s' = [s EXCEPT !.i = @ + 1]
          ELSE IF Case.arch = "rsp" \/ st.lib = "" \/ \E k \in 1..Len(ObjsOf(st.lib)) : Unfit(ObjsOf(st.lib)[k])
          THEN s' = [s EXCEPT !.i = @ + 1, !.err = @ \cup {<<st.ln, "e">>}]
          ELSE LET r == ReadObjs(ObjsOf(st.lib), s.names, FALSE) IN
               s' = [s EXCEPT !.i = @ + 1, !.names = r.names, !.err = IF r.dup THEN @ \cup {<<st.ln, "e">>} ELSE @]

\* ---- places ---------------------------------------------------------------
Loaded(sec) == sec.alloc /\ sec.type \in {1, 8, 14}
\* where the sections and common symbols of the object o go that starts at offset at: [sec |-> offsets, com |-> offsets by symbol, end]
\* an object of the PlayStation's own kind: whatever is placed is followed by the next multiple of four
PlacePsx(o, at) ==
  LET Up(p) == p + Pad(p, 4)
      RECURSIVE gs(_, _, _)
      gs(k, p, acc) == IF k > Len(o.sections) THEN [p |-> p, acc |-> acc] ELSE gs(k + 1, Up(p + o.sections[k].size), Append(acc, p))
      r == gs(1, at, <<>>)
      RECURSIVE gc(_, _, _)
      gc(k, p, acc) == IF k > Len(o.syms) THEN [p |-> p, acc |-> acc]
                       ELSE IF o.syms[k].sec # 65522 THEN gc(k + 1, p, Append(acc, -1))
                       ELSE gc(k + 1, Up(p + o.syms[k].size), Append(acc, p))
      c == gc(1, r.p, <<>>)
  IN [sec |-> r.acc, com |-> c.acc, end |-> c.p]
PlaceObj(o, at) ==
  IF o.psx THEN PlacePsx(o, at) ELSE
  LET RECURSIVE gs(_, _, _)
      gs(k, p, acc) ==
        IF k > Len(o.sections) THEN [p |-> p, acc |-> acc]
        ELSE IF ~Loaded(o.sections[k]) THEN gs(k + 1, p, Append(acc, -1))
        ELSE LET b == p + Pad(p, o.sections[k].align) IN gs(k + 1, b + o.sections[k].size, Append(acc, b))
      r == gs(1, at, <<>>)
      RECURSIVE gc(_, _, _)
      gc(k, p, acc) ==
        IF k > Len(o.syms) THEN [p |-> p, acc |-> acc]
        ELSE LET y == o.syms[k] IN
             IF ~(y.sec = 65522 /\ y.bind \in {1, 2}) THEN gc(k + 1, p, Append(acc, -1))
             ELSE LET b == p + Pad(p, y.value) IN gc(k + 1, b + y.size, Append(acc, b))
      c == gc(1, r.p, <<>>)
  IN [sec |-> r.acc, com |-> c.acc, end |-> c.p]
RECURSIVE PlaceObjs(_, _, _)
PlaceObjs(os, at, acc) ==
  IF os = <<>> THEN [at |-> at, acc |-> acc]
  ELSE LET p == PlaceObj(Head(os), at) IN PlaceObjs(Tail(os), p.end, Append(acc, p))

IsFunc(y) == y.type = 2
\* the lowest bit of the address of an ARM function tells its mode
ThumbSym(y) == Arm /\ IsFunc(y) /\ y.vv[1] % 2 = 1
SymVal(y) == IF ThumbSym(y) THEN Sub(y.vv, One) ELSE y.vv
SymAdr(o, p, k) ==
  LET y == o.syms[k] IN
  IF y.sec = 65521 THEN SymVal(y)
  ELSE IF y.sec = 65522 THEN Adr(p.com[k])
  ELSE Trunc32(Add(Adr(p.sec[y.sec]), SymVal(y)))
Entry(v, t, d) == [v |-> v, thumb |-> t, data |-> d]
RECURSIVE Define(_, _, _, _)
Define(os, ps, k, env) ==
  IF k > Len(os) THEN env
  ELSE LET ex == Exported(os[k])
           F == [n \in {ex[j].y.key : j \in 1..Len(ex)} |->
                   LET j == CHOOSE x \in 1..Len(ex) : ex[x].y.key = n IN
                   Entry(SymAdr(os[k], ps[k], ex[j].n), ThumbSym(ex[j].y), ex[j].y.type = 1)]
       IN Define(os, ps, k + 1, F @@ env)
Label(t, name, e, ln) ==
  IF name \in DOMAIN t.env \/ name \in s.names THEN [t EXCEPT !.err = @ \cup {<<ln, "e">>}]
  ELSE [t EXCEPT !.env = (name :> e) @@ @]
Place ==
  /\ s.ph = "place"
  /\ IF s.i > Len(Prog) THEN s' = [s EXCEPT !.ph = "emit", !.i = 1, !.thumb = Case.thumb]
     ELSE LET st == Prog[s.i]
              t == [s EXCEPT !.i = @ + 1, !.at = Append(@, s.off)]
          IN s' = CASE st.k = "mode" -> [t EXCEPT !.thumb = st.thumb]
                    [] st.k = "label" -> Label(t, st.key, Entry(Adr(s.off), Arm /\ s.thumb, FALSE), st.ln)
                    [] st.k = "def" -> Label(t, st.key, Entry(st.v, Arm /\ (CASE st.how = "cur" -> s.thumb [] st.how = "thumb" -> TRUE [] OTHER -> FALSE), FALSE), st.ln)
                    [] st.k = "bytes" -> [t EXCEPT !.off = @ + Len(st.b)]
                    [] st.k = "ref" -> [t EXCEPT !.off = @ + 4]
                    [] st.k = "align" -> [t EXCEPT !.off = @ + Pad(s.off, st.n)]
                    [] st.k = "import" ->
                         LET c == IF st.ctor = "" THEN t ELSE [Label(t, st.ctor, Entry(Adr(s.off), Arm /\ s.thumb, FALSE), st.ln) EXCEPT !.off = @ + Case.obs.csize]
                             r == PlaceObjs(ObjsOf(st.lib), c.off, <<>>)
                         IN [c EXCEPT !.off = r.at, !.env = Define(ObjsOf(st.lib), r.acc, 1, @), !.imps = (s.i :> r.acc) @@ @]
                    [] OTHER -> t

\* ---- relocation -----------------------------------------------------------
Word(b, o) == LET x == SubSeq(b, o + 1, o + 4) y == IF Big THEN RevSeq(x) ELSE x IN FromBytes8(y \o Zeros(4))
SetWord(b, o, w) == LET x == BytesOf(w, 4, Big) IN [k \in 1..Len(b) |-> IF k > o /\ k <= o + 4 THEN x[k - o] ELSE b[k]]
Bad == [ok |-> FALSE]
Good(w) == [ok |-> TRUE, w |-> w]
Sx16(x) == IF x >= 32768 THEN V(x - 65536) ELSE V(x)
Between(v, lo, hi) == ~Lt(v, V(lo)) /\ Lt(v, V(hi))
\* 32-bit distance from the place to the symbol plus addend
Dist(S, A, P) == SignExt32(Trunc32(Sub(Add(S, A), P)))
ThumbCall(w, S, t, P) ==
  LET first == IF Big THEN w[2] ELSE w[1]
      second == IF Big THEN w[1] ELSE w[2]
      f == (first % 2048) * 2048 + (second % 2048)
      a == IF f >= 2097152 THEN (f - 4194304) * 2 ELSE f * 2
      d == Dist(S, V(a), P)
      \* blx: relative to the word aligned place
      e == IF t THEN d ELSE BAnd(Add(d, V(2)), Bnot(V(3)))
      x == ToInt(e) \div 2
      n1 == (first \div 2048) * 2048 + ((x \div 2048) % 2048)
      n2 == (IF t THEN 63488 ELSE 59392) + (x % 2048)
  IN IF t /\ S[1] % 2 # 0 THEN Bad
     ELSE IF ~t /\ (~V5 \/ S[1] % 4 # 0) THEN Bad
     ELSE IF ~Between(e, -4194304, 4194304) THEN Bad
     ELSE Good(IF Big THEN <<n2, n1, 0, 0>> ELSE <<n1, n2, 0, 0>>)
ArmCall(w, S, t, P, jump) ==
  LET cond == w[2] \div 4096
      blx == cond = 15
      f == (w[2] % 256) * 65536 + w[1]
      a == (IF f >= 8388608 THEN f - 16777216 ELSE f) * 4 + (IF blx /\ (w[2] \div 256) % 2 = 1 THEN 2 ELSE 0)
      d == Dist(S, V(a), P)
      x == ToInt(d) \div 4
      top == IF t THEN (IF (ToInt(d) \div 2) % 2 = 1 THEN 251 ELSE 250) ELSE IF blx THEN 235 ELSE w[2] \div 256
      lo == x % 16777216
  IN IF t /\ (S[1] % 2 # 0 \/ jump \/ ~V5 \/ ~(cond \in {14, 15})) THEN Bad
     ELSE IF ~t /\ S[1] % 4 # 0 THEN Bad
     ELSE IF ~Between(d, -33554432, 33554432) THEN Bad
     ELSE Good(<<lo % 65536, top * 256 + (lo \div 65536), 0, 0>>)
\* the field w of a relocation that needs no other: S symbol, t thumb function, A explicit addend, P place
Field(ty, w, S, t, A, P) ==
  IF Arm THEN CASE ty \in {2, 38} -> LET x == Trunc32(Add(w, S)) IN Good(IF t /\ x[1] % 2 = 0 THEN Add(x, One) ELSE x)
                [] ty = 10 -> ThumbCall(w, S, t, P)
                [] ty = 28 -> ArmCall(w, S, t, P, FALSE)
                [] ty = 29 -> ArmCall(w, S, t, P, TRUE)
                [] OTHER -> Bad
  ELSE IF Mips THEN CASE ty = 2 -> Good(Trunc32(Add(w, S)))
                      [] ty = 4 -> LET m == <<65535, 1023, 0, 0>> x == BAnd(Add(BAnd(w, m), Shr(Trunc32(S), 2)), m) IN Good(BOr(BAnd(w, <<0, 64512, 0, 0>>), x))
                      [] ty = 6 -> Good(<<(w[1] + S[1]) % B16, w[2], 0, 0>>)
                      [] OTHER -> Bad
  ELSE CASE ty = 1 -> Good(Trunc32(Add(Add(w, S), A)))
         [] ty = 2 -> Good(Trunc32(Sub(Add(Add(w, S), A), P)))
         [] OTHER -> Bad
\* the symbol k of object o placed at p: [ok, v, t]
Resolve(o, p, k) ==
  LET y == o.syms[k] IN
  IF y.sec \in {0, 65522}
  THEN IF y.key = "" \/ ~y.valid \/ y.key \notin DOMAIN s.env THEN Bad
       ELSE LET e == s.env[y.key] IN [ok |-> TRUE, v |-> e.v, t |-> e.thumb /\ ~e.data]
  ELSE [ok |-> TRUE, v |-> SymAdr(o, p, k), t |-> ThumbSym(y)]
\* r: data so far, upper halves that wait for a lower one, diagnostics; one relocation of a section at offset at
Upper(r, S, lo) ==
  LET RECURSIVE g(_, _)
      g(k, x) == IF k > Len(r.wait) THEN [x EXCEPT !.wait = <<>>]
                 ELSE LET h == r.wait[k] IN
                      IF h.S # S THEN g(k + 1, [x EXCEPT !.bad = TRUE])
                      ELSE LET w == Word(r.raw, h.off)
                               v == Trunc32(Add(Add(<<0, w[1], 0, 0>>, Sx16(lo)), S))
                           IN g(k + 1, [x EXCEPT !.b = SetWord(@, h.off, <<(v[2] + (v[1] \div 32768)) % B16, w[2], 0, 0>>)])
  IN g(1, r)
Relocate(r, o, p, at, rel) ==
  IF Arm /\ rel.type = 40 THEN r
  ELSE IF rel.sym = 0 THEN [r EXCEPT !.warn = TRUE]
  ELSE LET y == Resolve(o, p, rel.sym) IN
       IF ~y.ok THEN [r EXCEPT !.bad = TRUE]
       ELSE IF Mips /\ rel.type = 5 THEN [r EXCEPT !.wait = Append(@, [off |-> rel.off, S |-> y.v])]
       ELSE LET w == Word(r.raw, rel.off)
                u == IF Mips /\ rel.type = 6 THEN Upper(r, y.v, w[1]) ELSE r
                f == Field(rel.type, w, y.v, y.t, rel.addv, Adr(at + rel.off))
            IN IF ~f.ok THEN [u EXCEPT !.bad = TRUE] ELSE [u EXCEPT !.b = SetWord(@, rel.off, f.w)]
\* references of such an object: to a symbol or into a section; an upper half takes the first lower half of the same place
PsxTarget(o, p, rel) ==
  IF rel.seg > 0 THEN [ok |-> TRUE, v |-> Trunc32(Add(Adr(p.sec[rel.seg]), rel.posv))]
  ELSE LET y == o.syms[rel.sym] IN
       IF y.sec = 0 THEN (IF y.key \in DOMAIN s.env THEN [ok |-> TRUE, v |-> Trunc32(Add(s.env[y.key].v, rel.posv))] ELSE Bad)
       ELSE [ok |-> TRUE, v |-> Trunc32(Add(SymAdr(o, p, rel.sym), rel.posv))]
PsxSection(o, p, k) ==
  LET sec == o.sections[k]
      Same(x, y) == x.seg = y.seg /\ x.sym = y.sym /\ x.posv = y.posv
      LowOf(h) == LET L == {j \in 1..Len(sec.rels) : sec.rels[j].type = 6 /\ Same(sec.rels[j], h)}
                IN IF L = {} THEN 0 ELSE Word(sec.data, sec.rels[CHOOSE x \in L : \A y \in L : x <= y].off)[1]
      RECURSIVE g(_, _)
      g(j, r) ==
        IF j > Len(sec.rels) THEN r
        ELSE LET rel == sec.rels[j]
                 y == PsxTarget(o, p, rel)
                 w == Word(sec.data, rel.off)
                 v == Trunc32(Add(Add(<<0, w[1], 0, 0>>, Sx16(LowOf(rel))), y.v))
                 f == IF rel.type = 5 THEN <<(v[2] + (v[1] \div 32768)) % B16, w[2], 0, 0>> ELSE Field(rel.type, w, y.v, FALSE, Zero, Zero).w
             IN g(j + 1, IF ~y.ok THEN [r EXCEPT !.bad = TRUE] ELSE [r EXCEPT !.b = SetWord(@, rel.off, f)])
      undef == \E j \in 1..Len(o.syms) : o.syms[j].sec = 0 /\ o.syms[j].key \notin DOMAIN s.env
  IN IF undef THEN [b |-> sec.data, bad |-> TRUE, warn |-> FALSE] ELSE g(1, [b |-> sec.data, bad |-> FALSE, warn |-> FALSE])
Section(o, p, k) ==
  IF o.psx THEN PsxSection(o, p, k) ELSE
  LET sec == o.sections[k]
      RECURSIVE g(_, _)
      g(j, r) == IF j > Len(sec.rels) THEN r ELSE g(j + 1, Relocate(r, o, p, p.sec[k], sec.rels[j]))
      z == g(1, [b |-> sec.data, raw |-> sec.data, wait |-> <<>>, bad |-> FALSE, warn |-> FALSE])
  IN IF sec.type = 8 THEN [b |-> Zeros(sec.size), bad |-> FALSE, warn |-> FALSE]
     ELSE IF z.wait = <<>> THEN z ELSE Upper(z, z.wait[1].S, 0)
\* put the bytes b at offset o of x, which ends there or before
PutAt(x, o, b) == x \o Zeros(o - Len(x)) \o b
EmitObj(o, p, x0) ==
  LET RECURSIVE g(_, _)
      g(k, r) ==
        IF k > Len(o.sections) THEN [r EXCEPT !.b = PutAt(@, p.end, <<>>)]
        ELSE IF ~Loaded(o.sections[k]) THEN g(k + 1, r)
        ELSE LET z == Section(o, p, k) IN
             g(k + 1, [b |-> PutAt(r.b, p.sec[k], z.b), bad |-> r.bad \/ z.bad, warn |-> r.warn \/ z.warn])
  IN g(1, x0)
RECURSIVE EmitObjs(_, _, _, _)
EmitObjs(os, ps, k, x) == IF k > Len(os) THEN x ELSE EmitObjs(os, ps, k + 1, EmitObj(os[k], ps[k], x))
Emit ==
  /\ s.ph = "emit"
  /\ IF s.i > Len(Prog) THEN s' = [s EXCEPT !.ph = IF s.err = {} /\ Case.obs.rc = 0 /\ s.ctors # <<>> THEN "exec" ELSE "judge", !.i = 1]
     ELSE LET st == Prog[s.i]
              t == [s EXCEPT !.i = @ + 1]
          IN s' = CASE st.k = "mode" -> [t EXCEPT !.thumb = st.thumb]
                    [] st.k = "bytes" -> [t EXCEPT !.out = @ \o st.b]
                    [] st.k = "align" -> [t EXCEPT !.out = @ \o Zeros(Pad(Len(s.out), st.n))]
                    [] st.k = "ref" ->
                         IF st.key \in DOMAIN s.env THEN [t EXCEPT !.out = @ \o BytesOf(Add(s.env[st.key].v, V(st.add)), 4, Big)]
                         ELSE [t EXCEPT !.out = @ \o Zeros(4), !.err = @ \cup {<<st.ln, "e">>}]
                    [] st.k = "import" ->
                         LET from == IF st.ctor = "" THEN Len(s.out) ELSE Len(s.out) + Case.obs.csize
                             \* the constructor function is whatever was emitted; it is judged by executing it
                             own == SubSeq(Case.obs.out, Len(s.out) + 1, from)
                             pre == own \o Zeros(from - Len(s.out) - Len(own))
                             x == EmitObjs(ObjsOf(st.lib), s.imps[s.i], 1, [b |-> s.out \o pre, bad |-> FALSE, warn |-> FALSE])
                         IN [t EXCEPT !.out = x.b, !.err = @ \cup (IF x.bad THEN {<<st.ln, "e">>} ELSE {}) \cup (IF x.warn THEN {<<st.ln, "w">>} ELSE {}),
                                      !.ctors = IF st.ctor = "" THEN @ ELSE <<[at |-> Len(s.out), stmt |-> s.i, thumb |-> s.thumb]>>]
                    [] OTHER -> t
Init0(i) == [c |-> i, ph |-> "read", i |-> 1, off |-> 0, at |-> <<>>, thumb |-> Cases[i].thumb, names |-> {}, env |-> <<>>, imps |-> <<>>,
             out |-> <<>>, err |-> {}, ctors |-> <<>>, why |-> {}]
=============================================================================
