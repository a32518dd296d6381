------------------------------- MODULE Refuse -------------------------------
(* C10: which configurations are refused.  A configuration names a driver    *)
(* and a list of sources that are worked off one after the other.            *)
EXTENDS Naturals, Sequences, TLC, Json, CSV

CONSTANTS Drivers, Kinds, MaxSrc, Out
VARIABLES driver, srcs, done, answer
vars == <<driver, srcs, done, answer>>

Known == {"mysql", "postgres", "sqlite", "none"}       \* none: not set, the default applies
Blank == {"empty", "space", "tabs"}
Bad == Blank \cup {"badpkg"}                            \* badpkg: a package with an invalid declaration

Init == driver \in Drivers /\ srcs = <<>> /\ done = 0 /\ answer = "none"
Add == /\ answer = "none" /\ done = 0 /\ Len(srcs) < MaxSrc
       /\ \E k \in Kinds : srcs' = Append(srcs, k)
       /\ UNCHANGED <<driver, done, answer>>
Start == /\ answer = "none" /\ done = 0 /\ srcs # <<>>
         /\ IF driver \notin Known THEN answer' = "refused" /\ done' = done
            ELSE answer' = "running" /\ done' = 1
         /\ UNCHANGED <<driver, srcs>>
Step == /\ answer = "running"
        /\ IF done > Len(srcs) THEN answer' = "accepted" /\ done' = done
           ELSE IF srcs[done] \in Bad THEN answer' = "refused" /\ done' = done
           ELSE answer' = "running" /\ done' = done + 1
        /\ UNCHANGED <<driver, srcs>>
Next == Add \/ Start \/ Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Start \/ Step)

\* the same, said at once
Refused == answer = "refused" => driver \notin Known \/ \E i \in 1..Len(srcs) : srcs[i] \in Bad
Accepted == answer = "accepted" => driver \in Known /\ \A i \in 1..Len(srcs) : srcs[i] \notin Bad
\* nothing after the fault has been worked on
Stops == answer = "refused" /\ done > 0 => \A i \in 1..done - 1 : srcs[i] \notin Bad
Ends == (srcs # <<>>) ~> (answer \in {"refused", "accepted"})

Emit == answer \in {"refused", "accepted"} =>
  CSVWrite("%1$s", <<ToJson([driver |-> driver, srcs |-> srcs, answer |-> answer, done |-> done])>>, Out)
=============================================================================
