------------------------------- MODULE AsmRun -------------------------------
(* Conformance: every case of the file named by CASES is run through Asm   *)
(* and the observed run is judged against the end state.                   *)
EXTENDS Asm, SymList, CaseIO
Why == CoreWhy \cup (IF Case.log # 0 THEN SymWhy ELSE {})
Judge ==
  /\ s.ph = "judge"
  /\ PrintT("VERDICT " \o ToString(s.c) \o " " \o ToString(Cardinality(Why)) \o " " \o ToString(s.pass) \o " " \o ToString(s.ok))
  /\ IF Why = {} THEN TRUE
     ELSE JsonSerialize(IOEnv.OUTDIR \o "/rej" \o ToString(s.c) \o ".json",
            [why |-> SetToSeq(Why), ok |-> s.ok, diag |-> SetToSeq(AllDiag), u |-> SetToSeq(s.u),
             files |-> SetToSeq(FinalFiles), pass |-> s.pass, sym |-> IF Case.log # 0 /\ s.ok THEN ExpSym ELSE <<>>,
             lst |-> IF Case.log # 0 /\ s.ok THEN ExpList ELSE <<>>])
  /\ s' = [s EXCEPT !.ph = "done"]
\* a case has one behaviour; this tells its states apart
View == <<s.c, s.ph, s.pass, s.pc>>
Init == \E i \in 1..Len(Cases) : s = InitState(i)
Next == Parse \/ ParseEnd \/ StartPass \/ Layout \/ EndPass \/ Check \/ Encode \/ EndEncode \/ Judge
=============================================================================
