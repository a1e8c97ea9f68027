------------------------------- MODULE ArmRun -------------------------------
(* Conformance of ARM and Thumb programs. *)
EXTENDS ArmProg
SetToS(S) == LET RECURSIVE g(_)
                 g(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE y \in X : TRUE IN <<x>> \o g(X \ {x}) IN g(S)
Expect == [k \in 1..Len(Lines) |-> IF Lines[k].k = "ins" /\ ~s.chg THEN SetToS(Verdict(k).w) ELSE <<>>]
Judge ==
  /\ s.ph = "judge"
  /\ PrintT("VERDICT " \o ToString(s.c) \o " " \o ToString(Cardinality(Why)) \o " " \o ToString(Cardinality(s.must)))
  /\ IF Why = {} THEN TRUE
     ELSE JsonSerialize(IOEnv.OUTDIR \o "/rej" \o ToString(s.c) \o ".json",
            [why |-> SetToS(Why), must |-> SetToS(s.must), may |-> SetToS(s.may), bad |-> SetToS(s.bad), warn |-> SetToS(s.warn), exp |-> Expect])
  /\ s' = [s EXCEPT !.ph = "done"]
Init == \E i \in 1..Len(Cases) : s = InitState(i)
Next == Lay \/ LayEnd \/ EncLine \/ EncEnd \/ Judge
=============================================================================
