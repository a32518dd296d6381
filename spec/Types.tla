-------------------------------- MODULE Types --------------------------------
(* C12: the types a field can have, grown from a base type by putting type    *)
(* constructors around it.  A type is stored in a column of one class and its *)
(* values have to be representable: a constructor that is written as JSON     *)
(* hides what has no JSON form.                                               *)
EXTENDS Naturals, Sequences, TLC, Json, CSV

CONSTANTS Depth,     \* how many constructors
          Bases,     \* base types: records [go, cls, kind]
          Wraps,     \* constructors
          Out
VARIABLES con,       \* constructors, the outermost first
          base,      \* the base type, once it is chosen
          cls,       \* the class of the column of the type
          addr       \* whether the base can be addressed where the value is written
vars == <<con, base, cls, addr>>

None == [go |-> "", cls |-> "", kind |-> "none"]

Init == con = <<>> /\ base = None /\ cls = "" /\ addr = TRUE

\* the innermost constructor so far
Inner == IF con = <<>> THEN "" ELSE con[Len(con)]
Wrap(c) == /\ base = None /\ Len(con) < Depth
           /\ ~(c = "ptr" /\ Inner = "ptr")
           /\ con' = Append(con, c)
           /\ addr' = CASE c = "map" -> FALSE [] c \in {"slice", "opt", "ptr"} -> TRUE [] OTHER -> addr
           /\ UNCHANGED <<base, cls>>

\* without pointers in front
Bare == IF con # <<>> /\ con[1] = "ptr" THEN Tail(con) ELSE con
ListOf(b) == IF b.kind \in {"bool", "text", "int", "uint", "float"} THEN "list"
             ELSE IF b.kind = "byte" THEN "bytes" ELSE IF b.kind = "rune" THEN "text" ELSE "json"
ClassOf(b) == IF Bare = <<>> THEN b.cls
              ELSE IF Len(Bare) = 1 /\ Bare[1] \in {"slice", "array", "opt"} THEN ListOf(b)
              ELSE "json"

\* what JSON can not hold
Composed == Bare # <<>>
Fits(b) == /\ b.kind = "own" => ~Composed
           /\ b.kind = "ptrown" => (~Composed \/ addr)
           /\ Inner = "ptr" => b.kind \notin {"any", "ptr"}
Choose(b) == /\ base = None /\ Fits(b)
             /\ base' = b /\ cls' = ClassOf(b)
             /\ UNCHANGED <<con, addr>>

Next == (\E c \in Wraps : Wrap(c)) \/ (\E b \in Bases : Choose(b))
Spec == Init /\ [][Next]_vars

RECURSIVE Text(_, _)
Text(cs, b) == IF cs = <<>> THEN b ELSE
  LET t == Text(Tail(cs), b)
  IN CASE Head(cs) = "ptr" -> "*" \o t
       [] Head(cs) = "slice" -> "[]" \o t
       [] Head(cs) = "array" -> "[2]" \o t
       [] Head(cs) = "map" -> "map[string]" \o t
       [] Head(cs) = "box" -> "vt.Box[" \o t \o "]"
       [] Head(cs) = "opt" -> "vt.Opt[" \o t \o "]"
       [] Head(cs) = "anon" -> "struct { A " \o t \o " `json:\"a\"`; B int }"

\* ------------------------------------------------------------ what holds
\* a pointer is in the column of what it points to
Same == (base # None /\ con # <<>> /\ con[1] = "ptr" /\ Len(con) = 1) => cls = base.cls
\* nothing is hidden
Whole == base # None /\ cls = "json" /\ Composed => base.kind # "own"
\* the class is one of those that the databases have
Known == base # None => cls \in {"bool", "text", "int", "rune", "float", "time", "bytes", "list", "json", "any", "nulltime"}
\* choosing is the end
Settled == [][base # None => UNCHANGED vars]_vars

Emit == base # None => CSVWrite("%1$s", <<ToJson([go |-> Text(con, base.go), cls |-> cls, ptr |-> (con # <<>> /\ con[1] = "ptr") \/ (con = <<>> /\ base.kind = "ptr"), depth |-> Len(con)])>>, Out)
=============================================================================
