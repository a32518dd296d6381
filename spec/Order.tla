-------------------------------- MODULE Order --------------------------------
(* C05: order lists grown column by column, offsets and limits.  For each   *)
(* request the case gives every record's rank and the ranks that the        *)
(* returned sequence must have.                                             *)
EXTENDS Cond, TLC, Json, CSV

CONSTANTS Rows, Other, Dups, Filters, NullsFirst, Offs, Lims, MaxCols, Out

VARIABLES o, q
vars == <<o, q>>

Init == o = <<>> /\ q = [kind |-> "none"]

Cols == {"k1", "w1", "w2"}
Used == {o[i].col : i \in 1..Len(o)}

AddCol == \E c \in Cols \ Used, asc \in BOOLEAN :
            /\ Len(o) < MaxCols /\ q.kind = "none"
            /\ o' = Append(o, [col |-> c, asc |-> asc]) /\ UNCHANGED q

\* the matching records in some sequence that respects the order
Ranks(f) == LET m == Sel(f, Rows) IN {<<r[1], Rank(o, r, m, NullsFirst)>> : r \in m}
Want(rk, off, lim) ==
  LET s == SetToSeq(rk)
      ranks == SortSeq([i \in 1..Len(s) |-> s[i][2]], LAMBDA a, b : a < b)
      rest == IF off >= Len(ranks) THEN <<>> ELSE SubSeq(ranks, off + 1, Len(ranks))
  IN IF lim = 0 \/ lim >= Len(rest) THEN rest ELSE SubSeq(rest, 1, lim)

Ask == /\ q.kind = "none" /\ UNCHANGED o
       /\ \E f \in Filters : LET rk == Ranks(f) IN
            \E off \in Offs, lim \in Lims :
              q' = [kind |-> "list", f |-> f, off |-> off, lim |-> lim, want |-> Want(rk, off, lim), ranks |-> rk]
AskOne == \E f \in Filters :
         /\ q.kind = "none" /\ UNCHANGED o
         /\ q' = [kind |-> "one", f |-> f, off |-> 0, lim |-> 1, want |-> Want(Ranks(f), 0, 1), ranks |-> Ranks(f)]

(* Requested columns: the i-th destination (k1, w1, w2) gets the i-th       *)
(* requested column; the rows come from the model's own table, from the     *)
(* table named in the request, or there is no table at all.                 *)
AskCols == \E f \in Filters, sel \in [1..3 -> Cols], from \in {"own", "other", "missing"} :
         /\ q.kind = "none" /\ o = <<>> /\ UNCHANGED o
         /\ LET m == Sel(f, IF from = "own" THEN Rows ELSE IF from = "other" THEN Other ELSE {}) IN
            q' = [kind |-> "cols", f |-> f, sel |-> sel, from |-> from,
                  got |-> [i \in 1..Cardinality(m) |-> [j \in 1..3 |-> Field(SetToSeq(m)[i], sel[j])]]]
\* grouping by every column leaves each combination once
AskGroup == \E f \in Filters, g \in SetToAllKPermutations(Cols) :
         /\ q.kind = "none" /\ o = <<>> /\ UNCHANGED o /\ Len(g) = 3
         /\ q' = [kind |-> "group", f |-> f, group |-> g, rows |-> Dups, set |-> Sel(f, ToSet(Dups))]

\* one record per group: the grouped columns and the greatest of each other
\* column; ordered by grouped columns, from a place on, so many, or the first
Maxed(r, m, g) == LET S == {s \in m : \A j \in 1..Len(g) : Field(s, g[j]) = Field(r, g[j])}
                      v(c) == Max({Field(s, c) : s \in S})
                  IN <<v("k1"), v("w1"), v("w2")>>
Groups(f, g) == LET m == Sel(f, Rows) IN {Maxed(r, m, g) : r \in m}
AskAgg == \E f \in Filters, g \in SetToAllKPermutations(Cols) :
         /\ q.kind = "none" /\ UNCHANGED o /\ g # <<>> /\ Used \subseteq ToSet(g)
         /\ LET gs == Groups(f, g)
                rk == {<<r, Rank(o, r, gs, NullsFirst)>> : r \in gs}
            IN \E w \in {[off |-> 0, lim |-> 0, one |-> FALSE], [off |-> 1, lim |-> 2, one |-> FALSE], [off |-> 0, lim |-> 1, one |-> TRUE]} :
               q' = [kind |-> "agg", f |-> f, group |-> g, off |-> w.off, lim |-> w.lim, one |-> w.one,
                     want |-> Want(rk, w.off, w.lim), of |-> {<<x[1][1], x[1][2], x[1][3], x[2]>> : x \in rk}]

Next == AddCol \/ Ask \/ AskOne \/ AskCols \/ AskGroup \/ AskAgg
Spec == Init /\ [][Next]_vars

(* The order is a strict weak order, the window has the right size and      *)
(* leaves out only records that come before or after it.                    *)
StrictOrder ==
  q.kind = "none" =>
  \A r, s, t \in Rows :
    /\ ~Before(o, r, r, NullsFirst)
    /\ Before(o, r, s, NullsFirst) => ~Before(o, s, r, NullsFirst)
    /\ Before(o, r, s, NullsFirst) /\ Before(o, s, t, NullsFirst) => Before(o, r, t, NullsFirst)
Window ==
  q.kind \in {"list", "one"} =>
    LET n == Cardinality(Sel(q.f, Rows)) left == Max({0, n - q.off}) IN
    /\ Len(q.want) = IF q.lim = 0 THEN left ELSE Min({left, q.lim})
    /\ \A i \in 1..Len(q.want) - 1 : q.want[i] <= q.want[i+1]
    /\ \A x \in q.ranks : x[2] < n
    /\ (q.off = 0 /\ n > 0 /\ q.want # <<>>) => q.want[1] = 0

\* groups are told apart by what they are grouped by, and every record is in one
Grouped ==
  q.kind = "agg" =>
    LET key(r) == [j \in 1..Len(q.group) |-> Field(r, q.group[j])] IN
    /\ \A x, y \in q.of : key(x) = key(y) => x = y
    /\ {key(x) : x \in q.of} = {key(r) : r \in Sel(q.f, Rows)}

Emit ==
  \/ Out = "" \/ q'.kind = "none"
  \/ CSVWrite("%1$s", <<ToJson([nf |-> NullsFirst, o |-> o', q |-> q'])>>, Out)
=============================================================================
