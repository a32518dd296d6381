------------------------------- MODULE Query -------------------------------
(* C04: condition trees grown step by step; every tree is emitted with the  *)
(* records of a table of all value combinations that satisfy it.            *)
EXTENDS Cond, TLC, Json, CSV, Randomization

CONSTANTS Rows,     \* the table: a set of <<k1, w1, w2>>
          KT, W1T, W2T,  \* argument tokens for each column
          Pats,     \* patterns
          MaxDepth,
          Pick,     \* how many atoms are combined with each tree
          Out

VARIABLES e, depth
vars == <<e, depth>>

Atoms == AtomsOf("k1", KT, {}) \cup AtomsOf("w1", W1T, Pats) \cup AtomsOf("w2", W2T, Pats)

Init == e = None /\ depth = 0

Grow(x) == e' = x /\ depth' = depth + 1

Next ==
  \/ depth = 0 /\ \E a \in Atoms : Grow(a)
  \/ /\ depth > 0 /\ depth < MaxDepth
     /\ \/ Grow(And(<<e>>)) \/ Grow(Or(<<e>>))
        \/ \E a \in RandomSubset(Pick, Atoms) :
             \/ Grow(And(<<e, a>>)) \/ Grow(And(<<a, e>>))
             \/ Grow(Or(<<e, a>>))  \/ Grow(Or(<<a, e>>))
             \/ \E b \in RandomSubset(1, Atoms) :
                  \/ Grow(And(<<a, e, b>>)) \/ Grow(Or(<<a, b, e>>))
                  \/ Grow(And(<<e, Or(<<a, b>>)>>)) \/ Grow(Or(<<And(<<a, b>>), e>>))

Spec == Init /\ [][Next]_vars

(* Laws of the logic, independent of how Eval is written. *)
Laws ==
  \A r \in Rows :
    LET v == Eval(e, r) IN
    /\ v \in {T, F, U}
    /\ Eval(And(<<e>>), r) = v /\ Eval(Or(<<e, e>>), r) = v
    /\ e.op = "eq" => Eval([e EXCEPT !.op = "ne"], r) = Neg(v)
    /\ e.op = "lt" => Eval([e EXCEPT !.op = "ge"], r) = Neg(v)
    /\ e.op = "in" /\ e.args # <<>> =>
         v = Eval(Or([i \in 1..Len(e.args) |-> Atom("eq", e.col, <<e.args[i]>>)]), r)
    /\ e.op = "nin" /\ e.args # <<>> =>
         v = Eval(And([i \in 1..Len(e.args) |-> Atom("ne", e.col, <<e.args[i]>>)]), r)
    /\ e.op = "nbetween" =>
         v = Eval(Or(<<Atom("lt", e.col, <<e.args[1]>>), Atom("gt", e.col, <<e.args[2]>>)>>), r)
    /\ e.op \in {"isnull", "notnull"} => v # U
    /\ e.op = "and" => (v = T <=> \A i \in 1..Len(e.sub) : Eval(e.sub[i], r) = T)
    /\ e.op = "or"  => (v = F <=> \A i \in 1..Len(e.sub) : Eval(e.sub[i], r) = F)

Emit ==
  \/ Out = ""
  \/ CSVWrite("%1$s", <<ToJson([e |-> e', d |-> depth', want |-> {r[1] : r \in Sel(e', Rows)}])>>, Out)
=============================================================================
