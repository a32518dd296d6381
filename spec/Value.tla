------------------------------- MODULE Value -------------------------------
(* C12: a value of a field read back from the database equals the value     *)
(* written.  Records hold a key and a value; a value is one of Toks, "nil"  *)
(* (only pointers), or "huge": one the database may not be able to hold,    *)
(* which is stored and read back, or refused.  The record variable dst is   *)
(* kept over calls, so that what it held before must not shine through.     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, CSV

CONSTANTS Kind,    \* [ptr |-> BOOLEAN, huge |-> BOOLEAN]
          Toks, Keys, MaxOps, Ops, Out

VARIABLES tab,     \* key -> value or "none"
          dst,     \* [k, v] of the variable, v = "fresh" for a new one
          null,    \* keys whose cell is NULL
          n, last
vars == <<tab, dst, null, n, last>>
view == <<tab, dst, null>>

Vals == Toks \cup (IF Kind.ptr THEN {"nil"} ELSE {}) \cup (IF Kind.huge THEN {"huge"} ELSE {})
Has(k) == tab[k] # "none"
Rows(t) == {<<k, t[k]>> : k \in {j \in Keys : t[j] # "none"}}
Nulls(t) == {k \in Keys : t[k] = "nil"}

Recs == {<<[k |-> k, v |-> v]>> : k \in Keys, v \in Vals}
Pairs == {<<[k |-> a, v |-> v], [k |-> b, v |-> w]>> : <<a, b>> \in {<<x, y>> \in Keys \X Keys : x # y}, v \in Vals, w \in Vals}
Put(t, rs) == [k \in Keys |-> IF \E i \in 1..Len(rs) : rs[i].k = k
                              THEN rs[CHOOSE i \in 1..Len(rs) : rs[i].k = k].v ELSE t[k]]

Calls ==
  [op : {"insertone"}, recs : {r \in Recs : ~Has(r[1].k)}]
  \cup [op : {"insert"}, recs : {r \in Recs \cup Pairs : \A i \in 1..Len(r) : ~Has(r[i].k)}]
  \cup [op : {"upsertone"}, recs : Recs]
  \cup [op : {"upsert"}, recs : Recs \cup Pairs]
  \cup [op : {"update", "set"}, recs : {r \in Recs : Has(r[1].k)}]
  \cup [op : {"find", "lock"}, recs : {<<[k |-> k, v |-> v]>> : k \in Keys, v \in {dst.v}}]
  \cup [op : {"query"}, recs : {<<>>}]

\* a value that the database cannot hold is refused, and nothing is stored
Writes(c) == c.op \notin {"find", "lock", "query"}
MayRefuse(c) == Writes(c) /\ \E i \in 1..Len(c.recs) : c.recs[i].v = "huge"

After(c) == CASE ~Writes(c) -> tab
              [] c.op = "set" -> [k \in Keys |-> IF k = c.recs[1].k THEN c.recs[1].v ELSE tab[k]]
              [] OTHER -> Put(tab, c.recs)

Init == tab = [k \in Keys |-> "none"] /\ dst = [k |-> "", v |-> "fresh"] /\ null = {} /\ n = 0 /\ last = <<>>

Next ==
  /\ n < MaxOps /\ n' = n + 1
  /\ \E c \in {x \in Calls : x.op \in Ops} : \E refused \in (IF MayRefuse(c) THEN BOOLEAN ELSE {FALSE}) :
       /\ tab' = IF refused THEN tab ELSE After(c)
       /\ null' = Nulls(tab')
       /\ dst' = IF c.op \in {"find", "lock"}
                 THEN IF Has(c.recs[1].k) THEN [k |-> c.recs[1].k, v |-> tab[c.recs[1].k]] ELSE dst
                 ELSE IF c.op = "query" THEN [k |-> "", v |-> "fresh"] ELSE dst
       /\ last' = [before |-> Rows(tab), dst |-> dst, call |-> c, refused |-> refused, may |-> MayRefuse(c),
                   err |-> IF refused THEN "refused" ELSE IF c.op \in {"find", "lock"} /\ ~Has(c.recs[1].k) THEN "norows" ELSE "none",
                   after |-> Rows(tab'), dst2 |-> dst', null |-> null']

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* what is read is what was written last
ReadBack == n > 0 /\ last.call.op \in {"find", "lock"} /\ last.err = "none" => dst.v = tab[dst.k]
\* exactly the nil pointers are stored as null
NullKept == null = {k \in Keys : tab[k] = "nil"}
\* a call changes no other record
Frame == [][\A k \in Keys : (\A i \in 1..Len(last'.call.recs) : last'.call.recs[i].k # k) => tab'[k] = tab[k]]_vars
Whole == [][last'.refused => tab' = tab]_vars

Emit == last' # last => CSVWrite("%1$s", <<ToJson(last')>>, Out)
=============================================================================
