------------------------------ MODULE FrontRun ------------------------------
(* Reads every case of the file named by CASES and writes the command      *)
(* lists to OUTDIR.                                                        *)
EXTENDS Front, CaseIO
Judge ==
  /\ s.ph = "judge"
  /\ JsonSerialize(IOEnv.OUTDIR \o "/cmd" \o ToString(s.c) \o ".json",
                   [prog |-> s.out, funcs |-> IF s.funcs = <<>> THEN [none |-> 0] ELSE s.funcs, deep |-> s.deep, odd |-> s.odd, open |-> Len(s.blocks)])
  /\ s' = [c |-> s.c, ph |-> "done"]
Init == \E i \in 1..Len(Cases) : s = InitState(i)
Next == LexStep \/ Equs \/ Read \/ Judge
\* a case has one behaviour; this tells its states apart
View == IF s.ph = "done" THEN <<s.c>>
        ELSE <<s.c, s.ph, s.file, s.line, [j \in 1..Len(s.frames) |-> <<s.frames[j].pc, Len(s.frames[j].cur)>>]>>
\* every block that was opened is linked to its end
Linked == s.ph = "judge" /\ ~s.deep /\ ~s.odd /\ s.blocks = <<>> =>
  \A i \in 1..Len(s.out) : LET c == s.out[i] IN c.op \in {"if", "else", "area", "auto", "func", "inc"} => Has(c, "en") /\ c.en > i
=============================================================================
