------------------------------ MODULE ListTrace ------------------------------
(* Texts produced by the implementation, each with the list it was made of: *)
(* the text must denote that list.                                          *)
EXTENDS ListText, TLC, Json, CSV

CONSTANTS In, Out
Recs == ndJsonDeserialize(In)
VARIABLE i
Holds(r) == LET p == ParseOf(r.s, r.k, r.t) IN p.mode = "done" /\ p.list = r.l
Init == i = 0
Next == i < Len(Recs) /\ i' = i + 1
Spec == Init /\ [][Next]_i
\* writes the number of every record that does not hold
Judge == i > 0 => Holds(Recs[i]) \/ CSVWrite("%1$s", <<ToString(i)>>, Out)
=============================================================================
