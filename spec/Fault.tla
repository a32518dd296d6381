------------------------------- MODULE Fault -------------------------------
(* C20: one call of a helper seen from the database driver.  A call sends   *)
(* statements, reads rows, closes them and returns; any interaction may     *)
(* fail.  A call that saw a failure returns an error, and no call returns   *)
(* with an open result set or a connection in use.                          *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS MaxSteps

VARIABLES phase,   \* "in" the call or "out" of it
          open,    \* result sets open
          failed,  \* an interaction has failed
          bad,     \* the rows of the open result cannot be scanned
          last,    \* the last interaction
          base,    \* what the call gives when nothing fails
          outcome, steps
vars == <<phase, open, failed, bad, last, base, outcome, steps>>

Init == phase = "in" /\ open = 0 /\ failed = FALSE /\ bad = FALSE /\ last = "" /\ base \in {"ok", "err"} /\ outcome = "" /\ steps = 0

Tick == steps' = steps + 1 /\ UNCHANGED <<base>>

\* no statement is sent while rows are still being read: it would need another connection
Send(op, ok) ==
  /\ phase = "in" /\ open = 0 /\ op \in {"query", "exec"}
  /\ open' = IF op = "query" /\ ok THEN 1 ELSE 0
  /\ failed' = (failed \/ ~ok) /\ bad' = FALSE
  /\ last' = op /\ Tick /\ UNCHANGED <<phase, outcome>>

LastId(ok) == /\ phase = "in" /\ last = "exec"
              /\ failed' = (failed \/ ~ok) /\ last' = "lastid"
              /\ Tick /\ UNCHANGED <<phase, open, bad, outcome>>

\* the columns of the result cannot be scanned
Columns(ok) == /\ phase = "in" /\ open = 1 /\ bad' = (bad \/ ~ok) /\ last' = "cols"
               /\ Tick /\ UNCHANGED <<phase, open, failed, outcome>>

Fetch(ok) == /\ phase = "in" /\ open = 1
             /\ failed' = (failed \/ ~ok) /\ last' = "next"
             /\ Tick /\ UNCHANGED <<phase, open, bad, outcome>>

\* a fetch gives a row, which is scanned
Row == /\ phase = "in" /\ open = 1 /\ last = "next"
       /\ failed' = (failed \/ bad) /\ last' = "row"
       /\ Tick /\ UNCHANGED <<phase, open, bad, outcome>>

Close == /\ phase = "in" /\ open = 1 /\ open' = 0 /\ last' = "close"
         /\ Tick /\ UNCHANGED <<phase, failed, bad, outcome>>

Return(o) == /\ phase = "in" /\ open = 0
             /\ o = (IF failed THEN "err" ELSE base)
             /\ phase' = "out" /\ outcome' = o /\ UNCHANGED <<open, failed, bad, last, base, steps>>

Next == \/ /\ steps < MaxSteps
           /\ \E ok \in BOOLEAN : \/ \E op \in {"query", "exec"} : Send(op, ok)
                                  \/ LastId(ok) \/ Columns(ok) \/ Fetch(ok) \/ Row \/ Close
        \/ Return("ok") \/ Return("err")

Spec == Init /\ [][Next]_vars

Reported == outcome = "ok" => ~failed
Clean    == phase = "out" => open = 0
Honest   == [][failed => failed']_vars
=============================================================================
