------------------------------- MODULE Store -------------------------------
(* A table of records keyed by a primary key, and the single-record, batch  *)
(* and upsert operations of the generated code over it (C01, C02, C03).     *)
(*                                                                          *)
(* A record is <<k1, k2, w1, w2, r1>>: two key parts, two writable columns  *)
(* (w2 may be NULL) and a read-only column that only the database sets.     *)
(* Values are tokens; the replayer makes them concrete for each field type. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils, SequencesExt

CONSTANTS Kind,      \* "single", "comp", "auto", "autoplus" or "autouniq"
          HasRO,     \* the model has a read-only column
          K1, K2,    \* key tokens
          W1, W2,    \* value tokens of the writable columns
          MaxBatch,  \* longest batch
          MaxId,     \* bound of generated keys
          Acts,      \* set of operation names explored
          Out        \* file receiving every transition, "" for none

NULL  == -1
RDef  == 0   \* what the database puts in the read-only column
REnv  == 1   \* what somebody else put there

VARIABLES tab,   \* the stored records
          nid,   \* last generated key
          op,    \* the last operation
          res    \* its result
vars == <<tab, nid, op, res>>
view == <<tab, nid>>

Auto == Kind \in {"auto", "autoplus", "autouniq"}

Key(r) == IF Kind = "comp" THEN <<r[1], r[2]>> ELSE <<r[1]>>
\* columns that identify the record in a conflict
CKey(r) == IF Kind = "autouniq" THEN <<r[3]>> ELSE Key(r)

\* The records a caller may hold: the read-only value is what the caller has
\* in the field (never the database's own value).
K2s == IF Kind \in {"comp", "autoplus"} THEN K2 ELSE {0}
K1s == IF Auto THEN 1..MaxId ELSE K1
Rec == K1s \X K2s \X W1 \X W2

RV == IF HasRO THEN {RDef, REnv} ELSE {RDef}

With(r, v) == <<r[1], r[2], r[3], r[4], v>>

HasKey(t, k) == \E r \in t : Key(r) = k
Get(t, k)    == CHOOSE r \in t : Key(r) = k
HasC(t, r)   == \E s \in t : CKey(s) = CKey(r)
GetC(t, r)   == CHOOSE s \in t : CKey(s) = CKey(r)

----------------------------------------------------------------------------
(* Pure effect of each operation: a record [ok, tab, nid, out].             *)

\* one record inserted: an auto-increment key is assigned by the database
InsEff(t, n, r) ==
  LET s == IF Auto THEN <<n+1, r[2], r[3], r[4], RDef>> ELSE With(r, RDef)
      clash == HasKey(t, Key(s)) \/ (Kind = "autouniq" /\ HasC(t, s))
  IN IF clash THEN [ok |-> FALSE, tab |-> t, nid |-> n, out |-> <<>>]
     ELSE [ok |-> TRUE, tab |-> t \cup {s}, nid |-> IF Auto THEN n+1 ELSE n, out |-> s]

RECURSIVE BatchEff(_, _, _, _)
BatchEff(t, n, rs, acc) ==
  IF rs = <<>> THEN [ok |-> TRUE, tab |-> t, nid |-> n, out |-> acc]
  ELSE LET e == InsEff(t, n, Head(rs))
       IN IF ~e.ok THEN [ok |-> FALSE, tab |-> t, nid |-> n, out |-> <<>>]
          ELSE BatchEff(e.tab, e.nid, Tail(rs), Append(acc, e.out))

UpdEff(t, r) ==
  IF HasKey(t, Key(r))
  THEN LET o == Get(t, Key(r)) IN (t \ {o}) \cup {<<o[1], o[2], r[3], r[4], o[5]>>}
  ELSE t

DelEff(t, k) == {r \in t : Key(r) # k}

\* upsert of one record; omit is a set of writable column names
UpsOne(t, n, r, override, omit) ==
  IF ~HasC(t, r) \/ (Auto /\ Kind # "autouniq")
  THEN LET e == InsEff(t, n, r) IN [tab |-> e.tab, nid |-> e.nid]
  ELSE LET o == GetC(t, r)
           m == <<o[1], o[2],
                  IF "w1" \in omit \/ Kind = "autouniq" THEN o[3] ELSE r[3],
                  IF "w2" \in omit THEN o[4] ELSE r[4], o[5]>>
       IN [tab |-> IF override THEN (t \ {o}) \cup {m} ELSE t, nid |-> n]

RECURSIVE UpsEff(_, _, _, _, _)
UpsEff(t, n, rs, override, omit) ==
  IF rs = <<>> THEN [tab |-> t, nid |-> n]
  ELSE LET e == UpsOne(t, n, Head(rs), override, omit)
       IN UpsEff(e.tab, e.nid, Tail(rs), override, omit)

----------------------------------------------------------------------------
Insert(r) ==
  /\ Auto => nid < MaxId
  /\ LET e == InsEff(tab, nid, r) IN
       /\ tab' = e.tab /\ nid' = e.nid
       /\ res' = [ok |-> e.ok, row |-> e.out]
       /\ op' = [name |-> "insert", row |-> r]

Find(r) ==
  /\ UNCHANGED <<tab, nid>>
  /\ res' = IF HasKey(tab, Key(r)) THEN [ok |-> TRUE, row |-> Get(tab, Key(r))]
            ELSE [ok |-> FALSE, row |-> <<>>]
  /\ op' = [name |-> "find", row |-> r]

Update(r) ==
  /\ tab' = UpdEff(tab, r) /\ UNCHANGED nid
  /\ res' = [ok |-> TRUE, hit |-> HasKey(tab, Key(r))]
  /\ op' = [name |-> "update", row |-> r]

Delete(r) ==
  /\ tab' = DelEff(tab, Key(r)) /\ UNCHANGED nid
  /\ res' = [ok |-> TRUE, hit |-> HasKey(tab, Key(r))]
  /\ op' = [name |-> "delete", row |-> r]

Batch(rs) ==
  /\ Auto => nid + Len(rs) <= MaxId
  /\ LET e == BatchEff(tab, nid, rs, <<>>) IN
       IF e.ok
       THEN /\ tab' = e.tab /\ nid' = e.nid
            /\ res' = [ok |-> TRUE, n |-> Len(rs), rows |-> e.out]
       ELSE /\ UNCHANGED <<tab, nid>>
            /\ res' = [ok |-> FALSE, n |-> 0, rows |-> <<>>]
  /\ op' = [name |-> "batch", rows |-> rs]

\* name "upsertone" uses the single-record helper (Len(rs) = 1)
Upsert(name, rs, override, omit) ==
  /\ Auto => nid + Len(rs) <= MaxId
  /\ LET e == UpsEff(tab, nid, rs, override, omit) IN
       tab' = e.tab /\ nid' = e.nid
  /\ res' = [ok |-> TRUE]
  /\ op' = [name |-> name, rows |-> rs, override |-> override, omit |-> SetToSeq(omit),
            \* two records of one batch with the same key: drivers that cannot
            \* touch a row twice in a statement may refuse
            twice |-> \E i, j \in 1..Len(rs) : i # j /\ CKey(rs[i]) = CKey(rs[j])]

\* somebody else changes the read-only column
Env(r) ==
  /\ HasRO
  /\ r \in tab /\ r[5] = RDef
  /\ tab' = (tab \ {r}) \cup {With(r, REnv)}
  /\ UNCHANGED nid
  /\ op' = [name |-> "env", row |-> r]
  /\ res' = [ok |-> TRUE]

\* a find or a delete needs only the key
MinW1 == CHOOSE x \in W1 : \A y \in W1 : x <= y
MinW2 == CHOOSE x \in W2 : \A y \in W2 : x <= y
KeyRecs == {r \in Rec : r[3] = MinW1 /\ r[4] = MinW2}
\* the key of an auto-increment record to insert is irrelevant
InsRecs == IF Auto THEN {r \in Rec : r[1] = 1} ELSE Rec

Seqs(S, n) == UNION {[1..m -> S] : m \in 0..n}

Init ==
  /\ tab = {} /\ nid = 0
  /\ op = [name |-> "init"] /\ res = [ok |-> TRUE]

Next ==
  \/ "insert" \in Acts /\ \E r \in InsRecs : Insert(r)
  \/ "find"   \in Acts /\ \E r \in KeyRecs : Find(r)
  \/ "update" \in Acts /\ \E r \in Rec : Update(r)
  \/ "delete" \in Acts /\ \E r \in KeyRecs : Delete(r)
  \/ "batch"  \in Acts /\ \E rs \in Seqs(InsRecs, MaxBatch) : Batch(rs)
  \/ "upsert" \in Acts /\ \E rs \in Seqs(InsRecs, MaxBatch), ov \in BOOLEAN :
        \E omit \in IF ov THEN SUBSET {"w1", "w2"} ELSE {{}} : Upsert("upsert", rs, ov, omit)
  \/ "upsertone" \in Acts /\ \E r \in InsRecs, ov \in BOOLEAN :
        \E omit \in IF ov THEN SUBSET {"w1", "w2"} ELSE {{}} : Upsert("upsertone", <<r>>, ov, omit)
  \/ \E r \in tab : Env(r)

Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* The properties, stated independently of the effects above.               *)

TypeOK ==
  /\ \A r \in tab : r[5] \in RV
  /\ nid \in 0..MaxId

\* the key identifies the record
KeysUnique == \A r, s \in tab : Key(r) = Key(s) => r = s
UniqueHolds == Kind = "autouniq" => \A r, s \in tab : r[3] = s[3] => r = s

Touched ==   \* keys the last operation may touch
  IF op'.name \in {"insert", "update", "delete", "find", "env"} THEN {Key(op'.row)}
  ELSE {Key(op'.rows[i]) : i \in 1..Len(op'.rows)}

\* C01: no other record and no key column ever changes
OnlyThatRecord ==
  [][ \A r \in tab : r \notin tab' => (Auto /\ Kind = "autouniq") \/ Key(r) \in Touched ]_vars
KeysKept ==
  [][ op'.name # "delete" => \A r \in tab : \E s \in tab' : Key(s) = Key(r) /\ s[2] = r[2] ]_vars
\* read-only columns are written by nobody but the database
ReadOnlyKept ==
  [][ op'.name # "env" => \A r \in tab, s \in tab' : Key(r) = Key(s) => r[5] = s[5] ]_vars
\* an insert adds exactly one record, a batch exactly as many as it has
InsertAdds ==
  [][ /\ op'.name = "insert" => Cardinality(tab') = Cardinality(tab) + (IF res'.ok THEN 1 ELSE 0)
      /\ op'.name = "batch"  => Cardinality(tab') = Cardinality(tab) + res'.n ]_vars
\* an update changes the writable columns of that record only
UpdateExact ==
  [][ op'.name = "update" /\ res'.hit =>
        \E s \in tab' : Key(s) = Key(op'.row) /\ s[3] = op'.row[3] /\ s[4] = op'.row[4] ]_vars
\* C03
UpsertExact ==
  [][ op'.name \in {"upsert", "upsertone"} =>
        /\ tab \subseteq tab' \/ op'.override
        /\ \A i \in 1..Len(op'.rows) : \E s \in tab' : CKey(s) = CKey(op'.rows[i]) \/ (Auto /\ Kind # "autouniq")
        /\ \A r \in tab, s \in tab' : Key(r) = Key(s) =>
              /\ ("w1" \in ToSet(op'.omit) => r[3] = s[3])
              /\ ("w2" \in ToSet(op'.omit) => r[4] = s[4]) ]_vars

----------------------------------------------------------------------------
Emit ==
  \/ Out = ""
  \/ CSVWrite("%1$s", <<ToJson([kind |-> Kind, ro |-> HasRO, pre |-> SetToSeq(tab), nid |-> nid,
                                op |-> op', post |-> SetToSeq(tab'), pnid |-> nid', res |-> res'])>>, Out)

\* bound: batches and upserts start from any reachable table, at most this big
CONSTANT MaxRows
Small == Cardinality(tab) <= MaxRows
=============================================================================
