------------------------------ MODULE HistGen ------------------------------
(* Prints the histories that tell an implementation which forgets to reset *)
(* an area from the right one.                                             *)
EXTENDS History
Show == IF h'.bad THEN PrintT("HIST " \o ToString(h'.runs)) ELSE TRUE
Init == \E a \in Areas \cup {"none"} : HInit(a)
Next ==
  /\ Len(h.runs) < 3
  /\ ~h.bad
  /\ \E k \in IF h.forget = "none" THEN (IF Len(h.runs) < 2 THEN Kinds ELSE {}) ELSE {x \in Kinds : x.area \in {h.forget, "none"}}, f \in Fates : Run(k, f)
  /\ Show
=============================================================================
