------------------------------ MODULE History ------------------------------
(***************************************************************************)
(* One process that assembles several programs one after the other.        *)
(* What a run leaves behind is kept in areas: the replacements, the        *)
(* symbols, the open file, the state of an architecture and so on.  A run  *)
(* starts by resetting all of them, so what it reads there is its own.     *)
(*                                                                         *)
(* h.forget is an area the reset leaves out ("none": the system as it is   *)
(* meant to be).  With it, the specification also describes the            *)
(* implementations that are wrong in one area; the shortest histories that *)
(* tell them from the right one are those replayed into the real code.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
VARIABLE h
Areas == {"section", "equs", "log", "strict", "silent", "allocs", "tables", "symbols", "functions", "macros", "files", "order",
          "arm", "armver", "mips", "sh", "nocash", "relative", "memory", "place", "suppress", "switches", "arch", "sym", "writing"}
\* how far a run comes: to its end, or to an error while reading or while laying out
Fates == {"ok", "parse", "layout"}
\* areas that are only written once the program was read
Late == {"files", "writing", "allocs", "tables"}
Kinds == [area: Areas, does: {"w", "r"}] \cup {[area |-> "none", does |-> "n"]}
Left(k, f) == IF k.does = "w" /\ (f # "parse" \/ k.area \notin Late) THEN {k.area} ELSE {}
Reset(g) == g \cap {h.forget}
\* whether the outcome of a run depends on what was before it
Sees(k, g) == k.does = "r" /\ k.area \in g
Run(k, f) ==
  LET g == Reset(h.glob) IN
  h' = [h EXCEPT !.glob = g \cup Left(k, f), !.runs = Append(@, <<k.area, k.does, f>>), !.bad = Sees(k, g)]
HInit(a) == h = [forget |-> a, glob |-> {}, runs |-> <<>>, bad |-> FALSE]
\* the property
Independent == h.forget = "none" => ~h.bad
=============================================================================
