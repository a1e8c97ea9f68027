------------------------------- MODULE ElfRun -------------------------------
(* Conformance of imports: the output, the diagnostics and the addresses    *)
(* in the symbol file are those of the specification.                       *)
EXTENDS ElfExec
VARIABLE m
SetToSeq(S) == LET RECURSIVE g(_)
                   g(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE y \in X : TRUE IN <<x>> \o g(X \ {x}) IN g(S)
Diags == {<<Case.obs.d[k][2], Case.obs.d[k][3]>> : k \in 1..Len(Case.obs.d)}
Fatal == \E x \in s.err : x[2] = "e"
\* addresses and names of the symbols of all objects
SymsOf(k) ==
  LET os == ObjsOf(Prog[k].lib) ps == s.imps[k] IN
  UNION {LET ex == Exported(os[j]) IN {<<SymAdr(os[j], ps[j], ex[x].n)[2], SymAdr(os[j], ps[j], ex[x].n)[1], ex[x].y.name>> : x \in 1..Len(ex)} : j \in 1..Len(os)}
Imports == {k \in 1..Len(Prog) : Prog[k].k = "import"}
Why ==
  IF Fatal
  THEN (IF Case.obs.rc # 1 THEN {"accepted"} ELSE {}) \cup
       (IF {x \in s.err : x[2] = "e"} # {x \in Diags : x[2] = "e"} THEN {"errors"} ELSE {})
  ELSE IF Case.obs.rc = 1 THEN {"rejected"}
  ELSE (IF Case.obs.rc # 0 THEN {"crash"} ELSE {}) \cup
       (IF Diags # s.err THEN {"diagnostics"} ELSE {}) \cup
       (IF Case.obs.out # s.out THEN {"output"} ELSE {}) \cup
       (IF \E k \in Imports : ~(SymsOf(k) \subseteq Rng(Case.obs.syms)) THEN {"symbols"} ELSE {}) \cup s.why
Init == \E i \in 1..Len(Cases) : s = Init0(i) /\ m = [n |-> -1]
\* the constructor function, one instruction at a time; only when everything else is right
Enter ==
  /\ s.ph = "exec" /\ m.n < 0
  /\ IF Why = {} THEN m' = Start /\ UNCHANGED s ELSE s' = [s EXCEPT !.ph = "judge"] /\ UNCHANGED m
Run ==
  /\ s.ph = "exec" /\ m.n >= 0
  /\ IF m.done \/ m.bad \/ m.n > 600 THEN s' = [s EXCEPT !.ph = "judge", !.why = IF CodeOk(m) THEN {} ELSE {"constructors"}] /\ UNCHANGED m
     ELSE m' = [Code(m) EXCEPT !.n = m.n + 1] /\ UNCHANGED s
Judge ==
  /\ s.ph = "judge"
  /\ PrintT("VERDICT " \o ToString(s.c) \o " " \o ToString(Cardinality(Why)) \o " " \o (IF Fatal THEN "err" ELSE IF s.ctors # <<>> THEN "ctor" ELSE "ok"))
  /\ IF Why = {} THEN TRUE
     ELSE JsonSerialize(IOEnv.OUTDIR \o "/rej" \o ToString(s.c) \o ".json", [why |-> SetToSeq(Why), err |-> {ToString(x) : x \in s.err}, out |-> s.out])
  /\ s' = [s EXCEPT !.ph = "done"] /\ UNCHANGED m
Next == ((Read \/ Place \/ Emit) /\ UNCHANGED m) \/ Enter \/ Run \/ Judge
\* what the specification promises itself: the sections of an import follow each other without overlap, aligned, and
\* what was emitted is as long as what was placed
Layout ==
  \A k \in DOMAIN s.imps : \A j \in 1..Len(s.imps[k]) :
    LET o == ObjsOf(Prog[k].lib)[j] p == s.imps[k][j]
        L == {x \in 1..Len(o.sections) : Loaded(o.sections[x])}
    IN /\ \A x \in L : o.sections[x].align > 1 => (Case.base[1] + p.sec[x]) % o.sections[x].align = 0
       /\ \A x, y \in L : x < y => p.sec[x] + o.sections[x].size <= p.sec[y]
       /\ \A x \in L : p.sec[x] + o.sections[x].size <= p.end
Emitted == s.ph = "emit" /\ s.i <= Len(Prog) => Len(s.out) = s.at[s.i]
=============================================================================
