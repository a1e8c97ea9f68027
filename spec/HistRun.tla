------------------------------ MODULE HistRun ------------------------------
(***************************************************************************)
(* Conformance of histories.  A case is what one process was seen to do:   *)
(* its runs, each with the program (p), the kind it was generated as and   *)
(* its outcome, and for each program the outcome in a process of its own.  *)
(* By Independent no run sees anything of the ones before, so its outcome  *)
(* is the one it has alone: exit code, console, files, and what was asked  *)
(* for of symbol file and listing.                                         *)
(***************************************************************************)
EXTENDS History, Json, IOUtils, CaseIO
CONSTANT Cases
VARIABLE c
Case == Cases[c.n]
RunOf(i) == Case.runs[i]
Alone(i) == Case.alone[RunOf(i).p]
Differs(i) ==
  LET r == RunOf(i) a == Alone(i) IN
     (IF r.rc # a.rc THEN {"exit"} ELSE {})
  \cup (IF r.out # a.out THEN {"console"} ELSE {})
  \cup (IF r.files # a.files THEN {"files"} ELSE {})
  \cup (IF r.sym \notin {"", a.sym} THEN {"symbols"} ELSE {})
  \cup (IF r.temp \notin {"", a.temp} THEN {"listing"} ELSE {})
Init == \E n \in 1..Len(Cases) : c = [n |-> n, i |-> 1, why |-> {}, ph |-> "run"] /\ HInit("none")
Observe ==
  /\ c.ph = "run" /\ c.i <= Len(Case.runs)
  /\ LET r == RunOf(c.i) IN
     /\ Run([area |-> r.area, does |-> r.does], r.fate)
     /\ c' = [c EXCEPT !.i = @ + 1, !.why = @ \cup (IF h'.bad THEN {} ELSE {<<c.i, x>> : x \in Differs(c.i)})]
Judge ==
  /\ c.ph = "run" /\ c.i > Len(Case.runs)
  /\ PrintT("VERDICT " \o ToString(c.n) \o " " \o ToString(Cardinality(c.why)) \o " 0")
  /\ IF c.why = {} THEN TRUE
     ELSE JsonSerialize(IOEnv.OUTDIR \o "/rej" \o ToString(c.n) \o ".json", [why |-> {ToString(x[1]) \o " " \o x[2] : x \in c.why}])
  /\ c' = [c EXCEPT !.ph = "done"] /\ UNCHANGED h
Next == Observe \/ Judge
View == <<c.n, c.i, c.ph>>
=============================================================================
