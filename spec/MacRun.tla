------------------------------- MODULE MacRun -------------------------------
(* Conformance of pseudo-instructions. *)
EXTENDS Mac
SetToS(S) == LET RECURSIVE g(_)
                 g(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE y \in X : TRUE IN <<x>> \o g(X \ {x}) IN g(S)
Judge ==
  /\ s.ph = "judge"
  /\ PrintT("VERDICT " \o ToString(s.c) \o " " \o ToString(Cardinality(Why)) \o " 0")
  /\ IF Why = {} THEN TRUE
     ELSE JsonSerialize(IOEnv.OUTDIR \o "/rej" \o ToString(s.c) \o ".json", [why |-> SetToS(Why), bad |-> SetToS(s.bad)])
  /\ s' = [s EXCEPT !.ph = "done"]
Init == \E i \in 1..Len(Cases) : s = InitState(i)
Next == Step \/ Judge
=============================================================================
