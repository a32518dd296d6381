------------------------------- MODULE Calls -------------------------------
(* Calls of the generated helpers: a shape (what is called, with which      *)
(* condition, orders, columns, number of records) and data.  The same shape *)
(* is called with different data; what is sent may differ in the arguments  *)
(* only (C08), whoever else is calling at the same time (C19), and however  *)
(* the database fails (C20).                                                *)
EXTENDS Cond, TLC, Json, CSV

CONSTANTS Data,     \* data variants 0..n
          Batches,  \* numbers of records of a batch
          Conds, Orders, Sets, Omits, Lims, Offs,
          Out

VARIABLES shape, data
vars == <<shape, data>>

Base == [op |-> "", n |-> 0, cond |-> None, orders |-> <<>>, sets |-> <<>>, lim |-> 0, off |-> 0, ov |-> FALSE,
         omit |-> <<>>, mode |-> "", back |-> FALSE, cursor |-> FALSE, stop |-> 0, table |-> FALSE]

Shapes ==
       {[Base EXCEPT !.op = o, !.n = 1] : o \in {"insertone", "find", "update", "delete"}}
  \cup {[Base EXCEPT !.op = "lock", !.n = 1, !.mode = m] : m \in {"update", "share"}}
  \cup {[Base EXCEPT !.op = "insert", !.n = n] : n \in Batches}
  \cup {[Base EXCEPT !.op = "upsertone", !.n = 1, !.ov = TRUE, !.omit = o] : o \in Omits}
  \cup {[Base EXCEPT !.op = "upsertone", !.n = 1]}
  \cup {[Base EXCEPT !.op = "upsert", !.n = n, !.ov = TRUE, !.omit = o] : n \in Batches, o \in Omits}
  \cup {[Base EXCEPT !.op = "upsert", !.n = n] : n \in Batches}
  \cup {[Base EXCEPT !.op = "query", !.cond = e, !.orders = o] : e \in Conds, o \in Orders}
  \cup {[Base EXCEPT !.op = "query", !.lim = l, !.off = f, !.table = t] : l \in Lims, f \in Offs, t \in BOOLEAN}
  \cup {[Base EXCEPT !.op = "queryone", !.cond = e] : e \in Conds}
  \cup {[Base EXCEPT !.op = "upd", !.cond = e, !.sets = s] : e \in Conds, s \in Sets}
  \cup {[Base EXCEPT !.op = "del", !.cond = e, !.orders = o, !.lim = 2] : e \in Conds, o \in Orders}
  \cup {[Base EXCEPT !.op = "pages", !.n = 1, !.cond = e, !.orders = o, !.lim = 2, !.back = b, !.cursor = c, !.stop = s] :
           e \in Conds, o \in Orders, b \in BOOLEAN, c \in BOOLEAN, s \in {0, 1}}

Tok(t, d) == IF t = AnyP \/ t < 0 THEN t ELSE (t + d) % 3
RECURSIVE With(_, _)
\* the condition with other arguments
With(e, d) ==
  CASE e.op = "none" -> e
    [] e.op \in {"and", "or"} -> [e EXCEPT !.sub = [i \in 1..Len(e.sub) |-> With(e.sub[i], d)]]
    [] OTHER -> [e EXCEPT !.args = [i \in 1..Len(e.args) |-> Tok(e.args[i], d)]]

\* the records given: distinct keys not 0..2 for what is inserted
Row(s, i, d) ==
  LET fresh == s.op \in {"insertone", "insert"} IN
  << IF fresh THEN 3 + ((i + d) % 3) ELSE (i + d) % 3, i % 2, (i + d) % 3, IF (i + d) % 3 = 0 THEN -1 ELSE (i + d) % 2 >>

Rows(s, d) == [i \in 1..s.n |-> Row(s, i, d)]

RECURSIVE Arity(_)
Arity(e) ==
  CASE e.op = "none" -> 0
    [] e.op \in {"and", "or"} -> FoldLeft(LAMBDA acc, x : acc + Arity(x), 0, e.sub)
    [] OTHER -> Len(e.args)

(* how many arguments the statement of a call has, for a model with nk keys, *)
(* ni inserted columns and nu updated columns; -1 when it depends on more   *)
Count(s, nk, ni, nu) ==
  CASE s.op = "insertone" -> ni
    [] s.op \in {"find", "delete", "lock"} -> nk
    [] s.op = "update" -> (IF nu = 0 THEN nk ELSE nu) + nk
    [] s.op \in {"insert", "upsert", "upsertone"} -> s.n * ni
    [] s.op \in {"query", "queryone", "del"} -> Arity(s.cond)
    [] s.op = "upd" -> Arity(s.cond) + Len(s.sets)
    [] OTHER -> -1

Concrete(s, d) ==
  [op |-> s.op, rows |-> Rows(s, d), cond |-> With(s.cond, d), orders |-> s.orders,
   sets |-> [i \in 1..Len(s.sets) |-> [s.sets[i] EXCEPT !.v = Tok(@, d)]],
   lim |-> s.lim, off |-> s.off, ov |-> s.ov, omit |-> s.omit, mode |-> s.mode, back |-> s.back,
   cursor |-> s.cursor, stop |-> s.stop, table |-> s.table]

Init == shape \in Shapes /\ data = 0
Next == data + 1 \in Data /\ data' = data + 1 /\ UNCHANGED shape
Spec == Init /\ [][Next]_vars

(* data changes neither the form nor the number of arguments *)
SameForm ==
  LET c == Concrete(shape, data)
  IN /\ Arity(c.cond) = Arity(shape.cond)
     /\ Len(c.rows) = shape.n /\ Len(c.sets) = Len(shape.sets)
     /\ \A d \in Data : Count([shape EXCEPT !.cond = With(@, d)], 1, 3, 2) = Count(shape, 1, 3, 2)

\* written once per shape, with all of its data
Emit == Out = "" \/
  CSVWrite("%1$s", <<ToJson([shape |-> shape, calls |-> [d \in 1..Cardinality(Data) |-> Concrete(shape, d - 1)]])>>, Out)
Emitted == data # 0 \/ Emit
=============================================================================
