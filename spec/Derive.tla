------------------------------- MODULE Derive -------------------------------
(* C09, C10, C11: what a struct declaration means.  A declaration grows one  *)
(* item at a time: fields with their tags, embedded structs that are opened  *)
(* and closed, a table-name field.  The state holds what has been derived so *)
(* far; a declaration is complete when no embedded struct is open.           *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, CSV

CONSTANTS Kinds, Embs, Notes, MaxTok, MaxDepth, MinEmit, Out
VARIABLES toks, path, cols, tab, skip, note
vars == <<toks, path, cols, tab, skip, note>>

\* ------------------------------------------------------------ vocabulary
Silent == {"unexp", "blank", "skip", "skipopt"}
TableKinds == {"table", "tableemb", "tablepriv"}
Widths == [pair |-> 2, triple |-> 3, pairpk |-> 2]
Width(k) == IF k \in DOMAIN Widths THEN Widths[k] ELSE 1
KeyKinds == {"pk", "primary", "namedpk", "spacedpk", "upperpk", "pairpk", "pksize", "pkro"}
AutoKinds == {"auto", "pkauto", "namedauto", "autoro", "upperauto"}
RoKinds == {"ro", "namedro", "pkro", "autoro", "upperro"}
TagName == [named1 |-> "t1", named2 |-> "t2", namedpk |-> "t1", spacedpk |-> "t2", namedauto |-> "t2", namedro |-> "t1",
            emptyname |-> ""]
BadNames == {"bad1", "bad2", "bad3", "bad4"}
Repeats == {"dupfirst", "again", "againtag"}
SkipEmbs == {"skipval", "skipptr"}
PtrEmbs == {"ptr", "fileptr", "pkgptr", "lowptr", "defptr", "genptr", "aliasptr"}
PkgEmbs == {"pkg", "pkgptr"}
LowEmbs == {"low", "lowptr"}

Opens == Embs
IsOpen(t) == t \in Opens
Columns(k) == k \notin Silent \cup TableKinds \cup Opens \cup {"close"}

InPkg == \E i \in 1..Len(path) : toks[path[i]] \in PkgEmbs
Here(c) == Front(c.p) = path

NameOf(k, id) ==
  CASE k \in DOMAIN TagName /\ TagName[k] # "" -> <<"tag", TagName[k]>>
    [] k = "againtag" -> <<"tag", "t2">>
    [] k = "dupfirst" -> cols[1].n
    [] k = "again" -> cols[1].n
    [] OTHER -> <<"conv", id>>

Col(k, id) == [n |-> NameOf(k, id), p |-> Append(path, id), k |-> k, key |-> k \in KeyKinds, auto |-> k \in AutoKinds,
               ro |-> k \in RoKinds]

\* ------------------------------------------------------------ growth
Init == toks = <<>> /\ path = <<>> /\ cols = <<>> /\ tab = <<"conv">> /\ skip = 0 /\ note \in Notes

Enabled(k) ==
  /\ k \in TableKinds => tab = <<"conv">> /\ skip = 0
  /\ k \in Repeats => cols # <<>> /\ skip = 0
  /\ k \in {"again", "againtag"} => /\ cols[1].k = "plain"
                                    /\ ~\E i \in 1..Len(cols) : Here(cols[i]) /\ (cols[i].p = cols[1].p \/ cols[i].k \in {"again", "againtag"})
                                    /\ ~InPkg
  /\ (k \in BadNames \cup {"ptrptr", "ptralias", "pkro", "autoro"}) => skip = 0

Field(k) ==
  /\ Enabled(k)
  /\ toks' = Append(toks, k)
  /\ cols' = IF Columns(k) /\ skip = 0
             THEN cols \o [i \in 1..Width(k) |-> Col(k, 10 * (Len(toks) + 1) + i - 1)]
             ELSE cols
  /\ tab' = IF k \in TableKinds THEN <<"tag", "tbl">> ELSE tab
  /\ UNCHANGED <<path, skip, note>>

Open(e) ==
  /\ Len(path) < MaxDepth
  /\ e \in LowEmbs => ~InPkg
  /\ e \in {"file", "fileptr", "def", "defptr", "alias", "aliasptr"} => ~InPkg
  /\ toks' = Append(toks, e)
  /\ path' = Append(path, Len(toks) + 1)
  /\ skip' = IF skip = 0 /\ e \in SkipEmbs THEN Len(toks) + 1 ELSE skip
  /\ UNCHANGED <<cols, tab, note>>

Close ==
  /\ path # <<>>
  /\ Last(path) < Len(toks)   \* an embedded struct has at least one item
  /\ toks' = Append(toks, "close")
  /\ skip' = IF skip = Last(path) THEN 0 ELSE skip
  /\ path' = Front(path)
  /\ UNCHANGED <<cols, tab, note>>

Next == /\ Len(toks) < MaxTok
        /\ \/ \E k \in Kinds : Field(k)
           \/ \E e \in Embs : Open(e)
           \/ Close
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------ meaning
Pos(P(_)) == SelectSeq([i \in 1..Len(cols) |-> i], LAMBDA i : P(cols[i]))
Auto == Pos(LAMBDA c : c.auto)
Keys == Pos(LAMBDA c : c.key /\ ~c.auto)
Insert == Pos(LAMBDA c : ~c.ro /\ ~c.auto)
Names == {cols[i].n : i \in 1..Len(cols)}
Errs == {e \in {"dup", "autos", "rokey", "ptrptr", "badname"} :
          CASE e = "dup" -> Cardinality(Names) < Len(cols)
            [] e = "autos" -> Len(Auto) > 1
            [] e = "rokey" -> \E i \in 1..Len(cols) : cols[i].ro /\ (cols[i].key \/ cols[i].auto)
            [] e = "ptrptr" -> \E i \in 1..Len(cols) : cols[i].k \in {"ptrptr", "ptralias"}
            [] OTHER -> \E i \in 1..Len(cols) : cols[i].k \in BadNames}
\* positions whose path goes through an embedded pointer
Through == Pos(LAMBDA c : \E i \in 1..Len(c.p) - 1 : toks[c.p[i]] \in PtrEmbs)

\* ------------------------------------------------------------ the same, said of the whole declaration
Bal(j, i) == Cardinality({m \in j..i : IsOpen(toks[m])}) - Cardinality({m \in j..i : toks[m] = "close"})
Encloses(j, i) == j < i /\ IsOpen(toks[j]) /\ \A m \in j..i-1 : Bal(j, m) > 0
Around(i) == SelectSeq([j \in 1..i-1 |-> j], LAMBDA j : Encloses(j, i))
Wanted(i) == Columns(toks[i]) /\ \A j \in 1..i-1 : Encloses(j, i) => toks[j] \notin SkipEmbs
IdAt == UNION {{10 * i + s : s \in 0..Width(toks[i]) - 1} : i \in {j \in 1..Len(toks) : Wanted(j)}}
\* exactly the wanted fields, once each, in the order of the declaration, under the structs around them
Exactly == /\ {Last(cols[i].p) : i \in 1..Len(cols)} = IdAt
           /\ \A i, j \in 1..Len(cols) : i < j => Last(cols[i].p) < Last(cols[j].p)
           /\ \A i \in 1..Len(cols) : Front(cols[i].p) = Around(Last(cols[i].p) \div 10)
TableOnce == (tab = <<"conv">>) = (~\E i \in 1..Len(toks) : toks[i] \in TableKinds)
Parts == /\ \A i \in 1..Len(cols) : (\E j \in 1..Len(Insert) : Insert[j] = i) # (cols[i].ro \/ cols[i].auto)
         /\ Errs = {} => Len(Auto) <= 1
         /\ Errs = {} => \A i, j \in 1..Len(cols) : i # j => cols[i].n # cols[j].n
\* nothing added later takes a column away or moves it
Stable == [][\E n \in 0..Len(cols') : SubSeq(cols', 1, n) = cols]_vars

Emit == (path = <<>> /\ Len(toks) >= MinEmit) =>
  CSVWrite("%1$s", <<ToJson([t |-> toks, note |-> note, tab |-> tab, cols |-> [i \in 1..Len(cols) |-> [n |-> cols[i].n, p |-> cols[i].p]],
                             keys |-> Keys, auto |-> Auto, ins |-> Insert, thru |-> Through, errs |-> SetToSeq(Errs)])>>, Out)
=============================================================================
