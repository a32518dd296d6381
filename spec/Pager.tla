-------------------------------- MODULE Pager --------------------------------
(* C07: cursor pagination over an unchanging table.  A page is fetched by   *)
(* taking the first lim + 1 matching records at or after the cursor; the    *)
(* last of them is the next cursor.  The invariants say that this visits    *)
(* every matching record exactly once, in order.                            *)
EXTENDS Cond, TLC, Json, CSV

CONSTANTS Rows,      \* <<k1, w1, w2, k2>>
          Keys,      \* the key columns: <<"k1">> or <<"k1", "k2">>
          Filters, NullsFirst, Lims, MaxCols, Out

VARIABLES cfg, cur, pages, end
vars == <<cfg, cur, pages, end>>

Cols == {"k1", "w1", "w2"}
OrderLists == {<<>>} \cup {o \in UNION {[1..n -> [col : Cols, asc : BOOLEAN]] : n \in 1..MaxCols} :
                              \A i, j \in DOMAIN o : o[i].col = o[j].col => i = j}

\* the key breaks ties in the direction of the last column
Total(o) == LET asc == o = <<>> \/ o[Len(o)].asc
            IN o \o [i \in 1..Len(Keys) |-> [col |-> Keys[i], asc |-> asc]]
Flip(o) == [i \in 1..Len(o) |-> [o[i] EXCEPT !.asc = ~@]]
Dir(c) == IF c.fwd THEN Total(c.o) ELSE Flip(Total(c.o))
\* flipping an order flips the place of nulls too, which Before does already
Lt(c, r, s) == Before(Dir(c), r, s, NullsFirst)
Ordered(c, S) == SetToSortSeq(S, LAMBDA r, s : Lt(c, r, s))

Nothing == <<>>
Init ==
  /\ cfg \in [f : Filters, o : OrderLists, lim : Lims, fwd : BOOLEAN, start : Rows \cup {Nothing}]
  /\ cur = cfg.start /\ pages = <<>> /\ end = "no"

From(c, r) == {s \in Sel(c.f, Rows) : r = Nothing \/ ~Lt(c, s, r)}

Page ==
  /\ end = "no"
  /\ LET got == Ordered(cfg, From(cfg, cur)) IN
     IF Len(got) <= cfg.lim
     THEN /\ pages' = Append(pages, got) /\ end' = "done" /\ UNCHANGED cur
     ELSE /\ pages' = Append(pages, SubSeq(got, 1, cfg.lim)) /\ cur' = got[cfg.lim + 1] /\ UNCHANGED end
  /\ UNCHANGED cfg
\* the consumer leaves the loop
Stop == end = "no" /\ pages # <<>> /\ end' = "stopped" /\ UNCHANGED <<cfg, cur, pages>>
\* the database fails while fetching the next page
Fail == end = "no" /\ end' = "failed" /\ UNCHANGED <<cfg, cur, pages>>

Next == Page \/ Stop \/ Fail
Spec == Init /\ [][Next]_vars

Flat == FlattenSeq(pages)
Expected == Ordered(cfg, From(cfg, cfg.start))

PageSize == \A i \in 1..Len(pages) : Len(pages[i]) <= cfg.lim
            /\ ((i < Len(pages)) => Len(pages[i]) = cfg.lim)
Prefix == /\ Len(Flat) <= Len(Expected) /\ Flat = SubSeq(Expected, 1, Len(Flat))
          /\ Cardinality(ToSet(Flat)) = Len(Flat)
ExactlyOnce == end = "done" => Flat = Expected /\ (cfg.start = Nothing => ToSet(Flat) = Sel(cfg.f, Rows))
\* backward is forward reversed
Mirror == pages = <<>> /\ cfg.start = Nothing =>
            Ordered([cfg EXCEPT !.fwd = ~@], Sel(cfg.f, Rows)) = Reverse(Expected)
\* the cursor record comes first when it matches
CursorFirst == cfg.start # Nothing /\ Eval(cfg.f, cfg.start) = T /\ pages # <<>> => pages[1][1] = cfg.start

Emit ==
  \/ Out = "" \/ end' = "no"
  \/ CSVWrite("%1$s", <<ToJson([cfg |-> cfg', pages |-> pages', end |-> end', nf |-> NullsFirst])>>, Out)
=============================================================================
