-------------------------------- MODULE Pool --------------------------------
(* C19: pooled statement buffers.  Processes make calls one after another;  *)
(* a call takes a buffer (a pooled one or a new one), writes its statement  *)
(* into it, sends it, may go on (pages) or fail, and gives the buffer back. *)
(* Send is the point where the database sees the statement: schedules are   *)
(* the orders in which processes pass their send points.                    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, CSV, Randomization

CONSTANTS Procs, Buffers, MaxSends, Calls,   \* calls per process
          Twice,    \* TRUE: a failing call gives its buffer back twice (must break the invariants)
          Pick, Out

NoBuf == 0
VARIABLES content,  \* buffer -> who has written in it, in order
          pool,     \* buffers given back (a sequence: it could hold one twice)
          fresh,    \* buffers never used
          has,      \* process -> buffer
          pc,       \* process -> idle, built, sent, done
          left,     \* process -> calls to make
          sends,    \* process -> statements sent by the current call
          sent,     \* process -> what the database saw last
          sched
vars == <<content, pool, fresh, has, pc, left, sends, sent, sched>>

Init == /\ content = [b \in Buffers |-> <<>>] /\ pool = <<>> /\ fresh = Buffers
        /\ has = [p \in Procs |-> NoBuf] /\ pc = [p \in Procs |-> "idle"] /\ left = [p \in Procs |-> Calls]
        /\ sends = [p \in Procs |-> 0] /\ sent = [p \in Procs |-> <<>>] /\ sched = <<>>

\* takes a buffer and writes the statement
Build(p) ==
  /\ pc[p] = "idle" /\ left[p] > 0
  /\ IF pool # <<>>
     THEN has' = [has EXCEPT ![p] = Last(pool)] /\ pool' = Front(pool) /\ UNCHANGED fresh
     ELSE \E b \in {Min(fresh)} : has' = [has EXCEPT ![p] = b] /\ fresh' = fresh \ {b} /\ UNCHANGED pool
  /\ content' = [content EXCEPT ![has'[p]] = Append(@, p)]
  /\ pc' = [pc EXCEPT ![p] = "built"] /\ left' = [left EXCEPT ![p] = @ - 1] /\ sends' = [sends EXCEPT ![p] = 0]
  /\ sched' = Append(sched, p) /\ UNCHANGED sent

\* the database gets what is in the buffer
Send(p) ==
  /\ pc[p] = "built"
  /\ sent' = [sent EXCEPT ![p] = content[has[p]]] /\ sends' = [sends EXCEPT ![p] = @ + 1]
  /\ pc' = [pc EXCEPT ![p] = "sent"] /\ UNCHANGED <<content, pool, fresh, has, left>>
  /\ sched' = Append(sched, p)

\* another statement of the same call, in a buffer of its own
Again(p) ==
  /\ pc[p] = "sent" /\ sends[p] < MaxSends
  /\ content' = [content EXCEPT ![has[p]] = <<p>>]
  /\ pc' = [pc EXCEPT ![p] = "built"] /\ UNCHANGED <<pool, fresh, has, left, sends, sent, sched>>

\* ends, well or not
Finish(p, ok) ==
  /\ pc[p] = "sent"
  /\ content' = [content EXCEPT ![has[p]] = <<>>]
  /\ pool' = pool \o (IF Twice /\ ~ok THEN <<has[p], has[p]>> ELSE <<has[p]>>)
  /\ has' = [has EXCEPT ![p] = NoBuf]
  /\ pc' = [pc EXCEPT ![p] = "idle"] /\ UNCHANGED <<fresh, left, sends, sent, sched>>

Next == \E p \in Procs : Build(p) \/ Send(p) \/ Again(p) \/ Finish(p, TRUE) \/ Finish(p, FALSE)
Spec == Init /\ [][Next]_vars

\* a buffer in use belongs to one process and is not in the pool; the pool holds no buffer twice
OneOwner == /\ \A p, q \in Procs : p # q /\ has[p] # NoBuf => has[p] # has[q]
            /\ \A p \in Procs : has[p] # NoBuf => has[p] \notin ToSet(pool)
            /\ Cardinality(ToSet(pool)) = Len(pool)
\* what the database gets is what the call wrote, alone
OwnText == \A p \in Procs : pc[p] = "sent" => sent[p] = <<p>>

AllIdle == \A p \in Procs : pc[p] = "idle" /\ left[p] = 0
\* complete schedules
Emit == Out = "" \/ ~(AllIdle') \/ CSVWrite("%1$s", <<ToJson([s |-> sched'])>>, Out)
vw == <<content, pool, fresh, has, pc, left, sends, sent>>
=============================================================================
