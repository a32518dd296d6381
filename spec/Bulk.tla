-------------------------------- MODULE Bulk --------------------------------
(* C06: bulk updates and deletes over an evolving table.                    *)
EXTENDS Cond, TLC, Json, CSV, Randomization

CONSTANTS Start,    \* the starting tables
          Filters, Sets, Orders, Lims, NullsFirst, MaxSteps, Out

VARIABLES tab, steps, op, n
vars == <<tab, steps, op, n>>
view == <<tab, steps>>

Init == tab \in Start /\ steps = 0 /\ op = [name |-> "init"] /\ n = 0

\* an order decides between records only when it ends with the key
First(m, o, lim) ==
  IF lim = 0 \/ lim >= Cardinality(m) THEN m
  ELSE {r \in m : Rank(o, r, m, NullsFirst) < lim}

Put(r, s) == <<r[1], IF \E i \in 1..Len(s) : s[i].col = "w1" THEN s[CHOOSE i \in 1..Len(s) : s[i].col = "w1"].v ELSE r[2],
                     IF \E i \in 1..Len(s) : s[i].col = "w2" THEN s[CHOOSE i \in 1..Len(s) : s[i].col = "w2"].v ELSE r[3]>>

Update(f, s, o, lim) ==
  LET hit == First(Sel(f, tab), o, lim) IN
  /\ tab' = (tab \ hit) \cup {Put(r, s) : r \in hit}
  /\ n' = Cardinality(hit)
  /\ op' = [name |-> "update", f |-> f, set |-> s, o |-> o, lim |-> lim]

Delete(f, o, lim) ==
  LET hit == First(Sel(f, tab), o, lim) IN
  /\ tab' = tab \ hit
  /\ n' = Cardinality(hit)
  /\ op' = [name |-> "delete", f |-> f, set |-> <<>>, o |-> o, lim |-> lim]

Next ==
  /\ steps < MaxSteps /\ steps' = steps + 1
  /\ \E f \in Filters, ol \in (Orders \X Lims) \cup {<<<<>>, 0>>} :
       \/ \E s \in Sets : Update(f, s, ol[1], ol[2])
       \/ Delete(f, ol[1], ol[2])

Spec == Init /\ [][Next]_vars

KeysUnique == \A r, s \in tab : r[1] = s[1] => r = s
\* records that do not match are untouched; nothing appears from nowhere
OnlyMatching ==
  [][ /\ \A r \in tab : Eval(op'.f, r) # T => r \in tab'
      /\ \A s \in tab' : \E r \in tab : r[1] = s[1]
      /\ op'.name = "update" => Cardinality(tab') = Cardinality(tab)
      /\ op'.name = "delete" => tab' \subseteq tab /\ Cardinality(tab') = Cardinality(tab) - n'
      /\ n' <= Cardinality(Sel(op'.f, tab)) /\ (op'.lim > 0 => n' <= op'.lim)
      /\ op'.lim = 0 => n' = Cardinality(Sel(op'.f, tab)) ]_vars
\* an affected record differs only in the columns that are set
OnlySet ==
  [][ op'.name = "update" => \A r \in tab, s \in tab' : r[1] = s[1] =>
        /\ (r[2] # s[2] => \E i \in 1..Len(op'.set) : op'.set[i] = [col |-> "w1", v |-> s[2]])
        /\ (r[3] # s[3] => \E i \in 1..Len(op'.set) : op'.set[i] = [col |-> "w2", v |-> s[3]]) ]_vars

Emit ==
  \/ Out = ""
  \/ CSVWrite("%1$s", <<ToJson([nf |-> NullsFirst, pre |-> tab, op |-> op', post |-> tab', n |-> n'])>>, Out)
=============================================================================
