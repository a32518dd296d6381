----------------------------- MODULE FaultTrace -----------------------------
(* Interactions recorded at the driver during calls of the real helpers,    *)
(* with a failure injected at every one of them in turn.  Every trace must  *)
(* be a behaviour of Fault.  A trace is                                     *)
(*   [ev |-> << <<op, ok>>, ... >>, base, outcome, open, inuse, where]      *)
EXTENDS Fault, TLC, Json, CSV, IOUtils, SequencesExt

CONSTANTS File, Rejects
TR == ndJsonDeserialize(File)

VARIABLES h, i, stuck
tvars == <<phase, open, failed, bad, last, base, outcome, steps, h, i, stuck>>

Ev == TR[h].ev

Act(e) ==
  LET ok == e[2] = 1 IN
  CASE e[1] \in {"query", "exec"} -> Send(e[1], ok)
    [] e[1] = "lastid" -> LastId(ok)
    [] e[1] = "cols"   -> Columns(ok)
    [] e[1] = "next"   -> Fetch(ok)
    [] e[1] = "row"    -> Row
    [] e[1] = "close"  -> Close
    [] OTHER -> FALSE

\* the call has returned: nothing is left open and no connection in use
Ret == Return(TR[h].outcome) /\ TR[h].open = 0 /\ TR[h].inuse = 0

Follow == IF i < Len(Ev) THEN Act(Ev[i + 1]) ELSE Ret

TInit == Init /\ h \in 1..Len(TR) /\ base = TR[h].base /\ i = 0 /\ stuck = FALSE
TNext ==
  /\ ~stuck /\ i <= Len(Ev) /\ UNCHANGED h
  /\ \/ Follow /\ i' = i + 1 /\ UNCHANGED stuck
     \/ /\ ~ENABLED Follow
        /\ UNCHANGED <<phase, open, failed, bad, last, base, outcome, steps, i>>
        /\ stuck' = TRUE
        /\ CSVWrite("%1$s", <<ToJson([at |-> i, rec |-> TR[h], failed |-> failed, openNow |-> open])>>, Rejects)
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
