------------------------------ MODULE Writers ------------------------------
(***************************************************************************)
(* The end of a run that found no error: E writes the output files, T the  *)
(* listing and S the symbol file, at the same time.  Each reads what the   *)
(* layout left and writes nothing but its own output, so the outputs are   *)
(* the same under every interleaving.                                      *)
(* E starts T, then S, does its work and waits for T, then S.              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
VARIABLE w
Threads == {"E", "T", "S"}
Work == 3           \* steps of each thread
Layout == <<1, 2, 3>> \* what they read
Init == w = [layout |-> Layout, pc |-> [t \in Threads |-> 0], live |-> {"E"}, out |-> [t \in Threads |-> <<>>], e |-> "startT", trace |-> <<>>]
Step(t) ==
  /\ t \in w.live /\ w.pc[t] < Work
  /\ t = "E" => w.e = "work"
  /\ w' = [w EXCEPT !.pc[t] = @ + 1, !.out[t] = Append(@, w.layout[w.pc[t] + 1]), !.trace = Append(@, t),
                    !.live = IF t # "E" /\ w.pc[t] + 1 = Work THEN @ \ {t} ELSE @]
Start ==
  \/ w.e = "startT" /\ w' = [w EXCEPT !.live = @ \cup {"T"}, !.e = "startS", !.trace = Append(@, "E")]
  \/ w.e = "startS" /\ w' = [w EXCEPT !.live = @ \cup {"S"}, !.e = "work", !.trace = Append(@, "E")]
Join ==
  \/ w.e = "work" /\ w.pc["E"] = Work /\ "T" \notin w.live /\ w' = [w EXCEPT !.e = "joinS"]
  \/ w.e = "joinS" /\ "S" \notin w.live /\ w' = [w EXCEPT !.e = "done"]
Next == (\E t \in Threads : Step(t)) \/ Start \/ Join
\* every behaviour ends with the same outputs
Determined == w.e = "done" => \A t \in Threads : w.out[t] = Layout
OnlyReads == w.layout = Layout
Shown == w.e = "done" => PrintT("SCHED " \o ToString(w.trace))
=============================================================================
