-------------------------------- MODULE Lock --------------------------------
(* C23: locking reads by key.  Transactions lock records in a mode, read    *)
(* them, write them, and end.  A request that conflicts with a lock of      *)
(* another transaction waits until that one ends.                           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, CSV, Randomization

CONSTANTS Txs, Keys, Vals, Modes, MaxSteps, Pick, Starts, Out

ABSENT == -9
VARIABLES rows,   \* key -> value or ABSENT, with what open transactions wrote
          undo,   \* transaction -> rows before its first write, or <<>>
          locks,  \* transaction -> key -> mode or ""
          phase,  \* transaction -> idle, active or waiting
          req,    \* what a waiting transaction waits for
          hist
vars == <<rows, undo, locks, phase, req, hist>>

Strength == [m \in {"", "keyshare", "share", "nokeyupdate", "update"} |->
               CASE m = "" -> 0 [] m = "keyshare" -> 1 [] m = "share" -> 2 [] m = "nokeyupdate" -> 3 [] m = "update" -> 4]
Compatible(a, b) ==
  LET x == Strength[a] y == Strength[b]
      lo == IF x < y THEN x ELSE y
      hi == IF x < y THEN y ELSE x
  IN CASE lo = 0 -> TRUE [] lo = 1 -> hi <= 3 [] lo = 2 -> hi = 2 [] OTHER -> FALSE
Stronger(a, b) == IF Strength[a] > Strength[b] THEN a ELSE b

None == [a |-> "none", k |-> 0, m |-> "", v |-> 0]

Init == /\ rows \in (IF Starts = 0 THEN [Keys -> Vals \cup {ABSENT}] ELSE RandomSubset(Starts, [Keys -> Vals \cup {ABSENT}]))
        /\ undo = [t \in Txs |-> <<>>]
        /\ locks = [t \in Txs |-> [k \in Keys |-> ""]]
        /\ phase = [t \in Txs |-> "idle"]
        /\ req = [t \in Txs |-> None]
        /\ hist = <<[t |-> 0, a |-> "init", k |-> 0, m |-> "", v |-> 0, res |-> [kind |-> "ok", v |-> 0], woke |-> <<>>, rows |-> rows, locks |-> locks]>>

\* a lock is taken on records that exist
Grantable(t, k, m, r, ls) == r[k] = ABSENT \/ \A u \in Txs \ {t} : Compatible(ls[u][k], m)
WithLock(ls, t, k, m, r) == IF r[k] = ABSENT THEN ls ELSE [ls EXCEPT ![t][k] = Stronger(@, m)]

\* the step with the state after it
Log(e) == hist' = Append(hist, [t |-> e.t, a |-> e.a, k |-> e.k, m |-> e.m, v |-> e.v, res |-> e.res, woke |-> e.woke,
                                rows |-> rows', locks |-> locks'])
Ev(t, a, k, m, v, res, woke) == [t |-> t, a |-> a, k |-> k, m |-> m, v |-> v, res |-> res, woke |-> woke]
NoRes == [kind |-> "ok", v |-> 0]

Begin(t) == /\ phase[t] = "idle" /\ phase' = [phase EXCEPT ![t] = "active"]
            /\ UNCHANGED <<rows, undo, locks, req>> /\ Log(Ev(t, "begin", 0, "", 0, NoRes, <<>>))

ReadRes(r, k) == IF r[k] = ABSENT THEN [kind |-> "norows", v |-> 0] ELSE [kind |-> "row", v |-> r[k]]

SomeoneWaits == \E u \in Txs : phase[u] = "waiting"

LockReq(t, k, m) ==
  /\ phase[t] = "active"
  /\ IF Grantable(t, k, m, rows, locks)
     THEN /\ locks' = WithLock(locks, t, k, m, rows)
          /\ UNCHANGED <<rows, undo, phase, req>>
          /\ Log(Ev(t, "lock", k, m, 0, ReadRes(rows, k), <<>>))
     ELSE /\ ~SomeoneWaits
          /\ phase' = [phase EXCEPT ![t] = "waiting"]
          /\ req' = [req EXCEPT ![t] = [a |-> "lock", k |-> k, m |-> m, v |-> 0]]
          /\ UNCHANGED <<rows, undo, locks>>
          /\ Log(Ev(t, "lock", k, m, 0, [kind |-> "blocked", v |-> 0], <<>>))

\* a write of a record that exists and that nobody else locks
Write(t, k, v) ==
  /\ phase[t] = "active" /\ rows[k] # ABSENT
  /\ Grantable(t, k, "update", rows, locks)
  /\ \A u \in Txs \ {t} : undo[u] = <<>>
  /\ rows' = [rows EXCEPT ![k] = v]
  /\ undo' = [undo EXCEPT ![t] = IF @ = <<>> THEN <<rows>> ELSE @]
  /\ locks' = [locks EXCEPT ![t][k] = "update"]
  /\ Log(Ev(t, "write", k, "", v, NoRes, <<>>)) /\ UNCHANGED <<phase, req>>

End(t, commit) ==
  LET r  == IF ~commit /\ undo[t] # <<>> THEN undo[t][1] ELSE rows
      l0 == [locks EXCEPT ![t] = [k \in Keys |-> ""]]
      w  == {u \in Txs : phase[u] = "waiting" /\ Grantable(u, req[u].k, req[u].m, r, l0)}
  IN /\ phase[t] = "active"
     /\ rows' = r
     /\ undo' = [undo EXCEPT ![t] = <<>>]
     /\ locks' = [u \in Txs |-> IF u \in w THEN WithLock(l0, u, req[u].k, req[u].m, r)[u] ELSE l0[u]]
     /\ phase' = [u \in Txs |-> IF u = t THEN "idle" ELSE IF u \in w THEN "active" ELSE phase[u]]
     /\ req' = [u \in Txs |-> IF u \in w THEN None ELSE req[u]]
     /\ Log(Ev(t, IF commit THEN "commit" ELSE "rollback", 0, "", 0, NoRes,
               SetToSeq({[t |-> u, k |-> req[u].k, m |-> req[u].m, res |-> ReadRes(r, req[u].k)] : u \in w})))

Pk(S) == IF Pick = 0 THEN S ELSE RandomSubset(IF Cardinality(S) < Pick THEN Cardinality(S) ELSE Pick, S)
Next ==
  /\ Len(hist) <= MaxSteps
  /\ \E t \in Txs : \/ Begin(t)
                    \/ \E k \in Pk(Keys), m \in Pk(Modes) : LockReq(t, k, m)
                    \/ \E k \in Pk(Keys), v \in Pk(Vals) : Write(t, k, v)
                    \/ End(t, TRUE) \/ End(t, FALSE)
Spec == Init /\ [][Next]_vars

(* two transactions never both hold an exclusive lock on a record, nor any conflicting locks *)
Exclusive == \A t, u \in Txs : t # u => \A k \in Keys : Compatible(locks[t][k], locks[u][k])
(* a transaction that has ended holds nothing *)
Released == \A t \in Txs : phase[t] = "idle" => \A k \in Keys : locks[t][k] = ""
(* what a transaction wrote is read by its own locking reads, and locking changes no record *)
ReadsOwn == [][\A t \in Txs, k \in Keys, m \in Modes :
                 LET e == Last(hist') IN
                 (hist' # hist /\ e.a = "lock") => rows' = rows /\ (e.res.kind = "row" => e.res.v = rows[e.k])]_vars
(* a locking read locks no other record *)
OnlyThat == [][\A t \in Txs : LET e == Last(hist') IN
                 (hist' # hist /\ e.a = "lock") => \A u \in Txs, k \in Keys : (u # e.t \/ k # e.k) => locks'[u][k] = locks[u][k]]_vars

Emit == Out = "" \/ Len(hist') <= MaxSteps \/
        CSVWrite("%1$s", <<ToJson([hist |-> hist', modes |-> Modes])>>, Out)
\* without the history, to explore every state
vw == <<rows, undo, locks, phase, req>>
Short == Len(hist) <= MaxSteps
=============================================================================
