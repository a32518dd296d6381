----------------------------- MODULE StoreTrace -----------------------------
(* Histories recorded from the real code, checked against Store.           *)
(* Every history is followed step by step: a step must be an action of      *)
(* Store with the recorded table afterwards and the recorded result.  A     *)
(* history that cannot be followed is written to Rejects.                   *)
EXTENDS Store

CONSTANTS File, Rejects

Hist == ndJsonDeserialize(File)

VARIABLES h, i, stuck
tvars == <<tab, nid, op, res, h, i, stuck>>

Steps == Hist[h].steps

Same(s) ==
  /\ tab' = ToSet(s.post)
  /\ Auto => nid' = s.nid
  /\ res'.ok = s.res.ok
  /\ "panic" \notin DOMAIN s.res

Act(s) ==
  LET o == s.op IN
  CASE o.name = "insert" -> Insert(o.row)
    [] o.name = "find"   -> Find(o.row) /\ res'.row = s.res.row
    [] o.name = "update" -> Update(o.row)
    [] o.name = "delete" -> Delete(o.row)
    [] o.name = "batch"  -> Batch(o.rows) /\ (res'.ok => res'.n = s.res.n)
    [] OTHER -> Upsert(o.name, o.rows, o.override, ToSet(o.omit))

Follow(s) == Act(s) /\ Same(s)

TInit == Init /\ h \in 1..Len(Hist) /\ i = 0 /\ stuck = FALSE

TNext ==
  /\ ~stuck /\ i < Len(Steps) /\ UNCHANGED h
  /\ \/ Follow(Steps[i+1]) /\ i' = i + 1 /\ UNCHANGED stuck
     \/ /\ ~ENABLED Follow(Steps[i+1])
        /\ UNCHANGED <<tab, nid, op, res, i>>
        /\ stuck' = TRUE
        /\ CSVWrite("%1$s", <<ToJson([where |-> Hist[h].where, at |-> i + 1, tab |-> SetToSeq(tab), nid |-> nid,
                                      step |-> Steps[i+1]])>>, Rejects)

TSpec == TInit /\ [][TNext]_tvars
=============================================================================
