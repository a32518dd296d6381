-------------------------------- MODULE Map --------------------------------
(* C22: columns of mapped types.  A mapping may give an SQL expression to    *)
(* write the column (w), one to read it (r), and Go conversions (g).  The    *)
(* expressions are formal letters: writing through n prepends n+ (or takes   *)
(* n- off), reading through n takes n+ off (or prepends n-), so that a       *)
(* stored or read word tells what it went through.                           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, CSV

CONSTANTS Layouts,   \* sequence of models: [cols |-> sequence of [kind, role]]
          Keys, MaxOps, Ops, Out

VARIABLES L, tab, next, n, last
vars == <<L, tab, next, n, last>>

K(nm, w, r, g, p) == [name |-> nm, w |-> w, r |-> r, g |-> g, ptr |-> p]
Kind(k) == CASE k = "plain"  -> K("plain", FALSE, FALSE, FALSE, FALSE)
             [] k = "pplain" -> K("plain", FALSE, FALSE, FALSE, TRUE)
             [] k = "both"   -> K("both", TRUE, TRUE, FALSE, FALSE)
             [] k = "read"   -> K("read", FALSE, TRUE, FALSE, FALSE)
             [] k = "write"  -> K("write", TRUE, FALSE, FALSE, FALSE)
             [] k = "go"     -> K("go", FALSE, FALSE, TRUE, FALSE)
             [] k = "all"    -> K("all", TRUE, TRUE, TRUE, FALSE)
             [] k = "basic"  -> K("basic", TRUE, TRUE, TRUE, FALSE)
             [] k = "box"    -> K("box", TRUE, TRUE, TRUE, FALSE)
             [] k = "lit"    -> K("lit", TRUE, TRUE, FALSE, FALSE)
             [] k = "pboth"  -> K("both", TRUE, TRUE, FALSE, TRUE)
             [] k = "pread"  -> K("read", FALSE, TRUE, FALSE, TRUE)
             [] k = "pall"   -> K("all", TRUE, TRUE, TRUE, TRUE)
             [] k = "pbasic" -> K("basic", TRUE, TRUE, TRUE, TRUE)

\* words; the empty word is NULL
Null == <<>>
Enc(nm, w) == IF w = Null THEN Null ELSE IF Head(w) = nm \o "-" THEN Tail(w) ELSE <<nm \o "+">> \o w
Dec(nm, w) == IF w = Null THEN Null ELSE IF Head(w) = nm \o "+" THEN Tail(w) ELSE <<nm \o "-">> \o w

\* Deviations that are known: "w" - the placeholder is left plain,
\* "s" - pointers are read without the Go conversion
Wr(k, x, dev) == LET d == Kind(k)
                     y == IF d.g THEN Enc("g" \o d.name, x) ELSE x
                 IN IF d.w /\ "w" \notin dev THEN Enc(d.name, y) ELSE y
Rd(k, x, dev) == LET d == Kind(k)
                     y == IF d.r THEN Dec(d.name, x) ELSE x
                 IN IF d.g /\ ~(d.ptr /\ "s" \in dev) THEN Dec("g" \o d.name, y) ELSE y

Cols == Layouts[L].cols
C == 1..Len(Cols)
Role(i) == Cols[i].role
HasAuto == \E i \in C : Role(i) = "auto"
KeyCols == {i \in C : Role(i) \in {"key", "auto"}}
Written == {i \in C : Role(i) \in {"key", "none"}}
Updated == {i \in C : Role(i) = "none"}
HasKey == KeyCols # {}
Vals == {"0", "1"} \cup (IF \E i \in Updated : Kind(Cols[i].kind).ptr THEN {"n"} ELSE {})

\* the fields of the model given to a helper: key k, value v
Field(i, k, v) == CASE Role(i) \in {"key", "auto"} -> <<k>>
                    [] Role(i) = "ro" -> <<"7">>
                    [] v = "n" -> IF Kind(Cols[i].kind).ptr THEN Null ELSE <<"0">>
                    [] OTHER -> <<v>>
Cell(i, k, v, id, dev) == CASE Role(i) = "auto" -> <<ToString(id)>>
                            [] Role(i) = "ro" -> <<"d">>   \* the default of the database
                            [] OTHER -> Wr(Cols[i].kind, Field(i, k, v), dev)
Row(k, v, id, dev) == [i \in C |-> Cell(i, k, v, id, dev)]
Read(r, dev) == [i \in C |-> Rd(Cols[i].kind, r[i], dev)]
SameKey(a, b) == \A i \in KeyCols : a[i] = b[i]
\* the placeholders of the key
KeyOf(k, dev) == [i \in KeyCols |-> IF Role(i) = "auto" THEN <<k>> ELSE Wr(Cols[i].kind, <<k>>, dev)]
At(k, dev) == {r \in tab : \A i \in KeyCols : r[i] = KeyOf(k, dev)[i]}

Ret(err, t, rows) == [err |-> err, tab |-> t, rows |-> rows]
\* records are inserted one by one; a key that is present is an error, is
\* overwritten or kept
RECURSIVE Ins(_, _, _, _, _, _)
Ins(recs, t, id, mode, dev, rows) ==
  IF recs = <<>> THEN Ret("none", t, rows)
  ELSE LET r == Row(Head(recs)[1], Head(recs)[2], id, dev)
           old == IF HasKey THEN {x \in t : SameKey(x, r)} ELSE {}
           u == [i \in C |-> IF i \in Updated THEN r[i] ELSE (CHOOSE x \in old : TRUE)[i]]
       IN IF old = {} THEN Ins(Tail(recs), t \cup {r}, id + 1, mode, dev, Append(rows, Read(r, dev)))
          ELSE CASE mode = "insert" -> Ret("dup", tab, <<>>)
                 [] mode = "over" /\ Updated # {} -> Ins(Tail(recs), (t \ old) \cup {u}, id, mode, dev, Append(rows, Read(u, dev)))
                 [] OTHER -> Ins(Tail(recs), t, id, mode, dev, rows)

Do(o, dev) ==
  CASE o.op \in {"insertone", "insert"} -> Ins(o.recs, tab, next, "insert", dev, <<>>)
    [] o.op \in {"upsertone", "upsert"} -> Ins(o.recs, tab, next, IF o.over THEN "over" ELSE "keep", dev, <<>>)
    [] o.op \in {"find", "lock"} -> LET f == At(o.k, dev) IN
         IF f = {} THEN Ret("norows", tab, <<>>) ELSE Ret("none", tab, <<Read(CHOOSE r \in f : TRUE, dev)>>)
    [] o.op = "update" -> LET f == At(o.k, dev) IN
         Ret("none", {IF r \in f THEN [i \in C |-> IF i \in Updated THEN Wr(Cols[i].kind, Field(i, o.k, o.v), dev) ELSE r[i]] ELSE r : r \in tab}, <<>>)
    [] o.op = "delete" -> Ret("none", tab \ At(o.k, dev), <<>>)
    [] o.op = "cond" -> Ret("none", tab, <<{Read(r, dev) : r \in {x \in tab : x[o.i] = Wr(Cols[o.i].kind, <<o.v>>, dev)}}>>)
    [] o.op = "query" -> Ret("none", tab, <<{Read(r, dev) : r \in tab}>>)
    [] o.op = "pages" -> Ret("none", tab, <<{Read(r, dev) : r \in tab}>>)
    [] o.op = "set" -> Ret("none", {[r EXCEPT ![o.i] = Wr(Cols[o.i].kind, <<o.v>>, dev)] : r \in tab}, <<>>)

Calls ==
  LET recs == Keys \X Vals
      two == {<<a, b>> : a \in recs, b \in recs}
      ins == {[op |-> "insertone", recs |-> <<a>>] : a \in recs} \cup {[op |-> "insert", recs |-> s] : s \in two}
             \cup {[op |-> "insert", recs |-> <<a>>] : a \in recs}
      ups == {[op |-> "upsertone", recs |-> <<a>>, over |-> b] : a \in recs, b \in BOOLEAN}
             \cup {[op |-> "upsert", recs |-> <<s[1], s[2]>>, over |-> b] : s \in {x \in two : x[1][1] # x[2][1]}, b \in BOOLEAN}
      key == {[op |-> x, k |-> k] : x \in {"find", "lock", "delete"}, k \in Keys}
             \cup (IF Updated = {} THEN {} ELSE {[op |-> "update", k |-> k, v |-> v] : k \in Keys, v \in Vals})
      all == {[op |-> "query"]} \cup {[op |-> "cond", i |-> i, v |-> v] : i \in {j \in C : Role(j) \in {"none", "key"}}, v \in {"0", "1"}}
             \cup {[op |-> "set", i |-> i, v |-> v] : i \in Updated, v \in {"0", "1"}}
      page == IF HasKey /\ \A i \in KeyCols : ~Kind(Cols[i].kind).w /\ ~Kind(Cols[i].kind).r THEN {[op |-> "pages"]} ELSE {}
  IN {o \in (IF Written = {} THEN {} ELSE ins) \cup (IF HasKey /\ Written # {} THEN ups ELSE {}) \cup (IF HasKey THEN key ELSE {}) \cup all \cup page : o.op \in Ops}

Start(l) == LET cs == Layouts[l].cols
                cell(i, k, v) == CASE cs[i].role = "auto" -> <<k>> [] cs[i].role = "ro" -> <<"d">>
                                   [] OTHER -> Wr(cs[i].kind, IF cs[i].role = "key" THEN <<k>> ELSE <<v>>, {})
                row(k, v) == [i \in DOMAIN cs |-> cell(i, k, v)]
            IN {{}, {row("1", "0")}, {row("1", "1"), row("2", "0")}}

Init == /\ L \in DOMAIN Layouts /\ tab \in Start(L) /\ next = Cardinality(tab) + 1 /\ n = 0 /\ last = [op |-> "init"]
Next == /\ n < MaxOps /\ n' = n + 1 /\ L' = L
        /\ \E o \in Calls :
             LET r == Do(o, {}) IN
             /\ tab' = r.tab
             /\ next' = next + Cardinality({x \in r.tab : HasAuto}) - Cardinality({x \in tab : HasAuto})
             /\ last' = [op |-> "call", l |-> L, before |-> tab, next |-> next, call |-> o, want |-> r, keyed |-> HasKey,
                         plain |-> Do(o, {"w"}), ptr |-> Do(o, {"s"}), both |-> Do(o, {"w", "s"})]
Spec == Init /\ [][Next]_vars

view == <<L, tab, next, n>>
Emit == CSVWrite("%1$s", <<ToJson(last')>>, Out)
Small == Cardinality(tab) <= 3

\* ------------------------------------------------------------ what must hold
\* each written cell went through exactly its own expressions, once
CellsWrapped == \A r \in tab : \A i \in C :
   Role(i) \in {"key", "none"} /\ r[i] # Null =>
      LET d == Kind(Cols[i].kind)
          want == (IF d.w THEN <<d.name \o "+">> ELSE <<>>) \o (IF d.g THEN <<"g" \o d.name \o "+">> ELSE <<>>)
      IN SubSeq(r[i], 1, Len(r[i]) - 1) = want /\ r[i][Len(r[i])] \in {"0", "1"} \cup Keys
\* mappings of both directions undo each other
ReadBack == \A r \in tab : \A i \in C :
   LET d == Kind(Cols[i].kind) IN
   Role(i) \in {"key", "none"} /\ d.w = d.r => Len(Rd(Cols[i].kind, r[i], {})) <= 1
\* columns without any mapping are stored and read as they are
PlainKept == \A r \in tab : \A i \in C :
   Cols[i].kind \in {"plain", "pplain"} => Rd(Cols[i].kind, r[i], {}) = r[i] /\ Len(r[i]) <= 1
KeysUnique == HasKey => \A a, b \in tab : SameKey(a, b) => a = b
\* every key that is stored is found
Found == last.op # "init" /\ last.call.op = "find" /\ last.want.err = "norows" => last.before = {} \/ At(last.call.k, {}) = {}
=============================================================================
