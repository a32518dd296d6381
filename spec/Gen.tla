-------------------------------- MODULE Gen --------------------------------
(* C16: editing models, switching configuration and generating.  The         *)
(* generator reads what the user wrote, never what it wrote itself, so that   *)
(* its output is a function of the sources and the configuration.            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, CSV

CONSTANTS Pkgs, Structs,     \* packages, and the models that may exist in each
          Fields, Methods,   \* fields; methods the user may write
          Switches,          \* configuration settings that may be switched
          MaxEdit, MaxGen, Out

VARIABLES src,   \* package -> struct -> what the user wrote
          cfg,   \* the configuration
          out,   \* package -> methods in the generated file, <<struct, method>>
          err,   \* outcome of the last run
          run, todo, seen, edits, gens, hist
vars == <<src, cfg, out, err, run, todo, seen, edits, gens, hist>>

Absent == [fields |-> {}, key |-> "absent", own |-> {}, wrong |-> "none", base |-> FALSE]
Exists(p, s) == src[p][s].key # "absent"
Keys == {"none", "pk", "auto", "two"}

\* what a struct is made of; base: another package's struct is embedded
Columns(m) == m.fields \cup (CASE m.key = "none" -> {} [] m.key = "two" -> {"K1", "K2"} [] OTHER -> {"ID"})
              \cup (IF m.base THEN {"BaseA"} ELSE {})
KeyCols(m) == CASE m.key = "none" -> {} [] m.key = "two" -> {"K1", "K2"} [] OTHER -> {"ID"}
Inserted(m) == Columns(m) \ (IF m.key = "auto" THEN {"ID"} ELSE {})
Updated(m) == Columns(m) \ KeyCols(m)

\* the methods that a model needs
Needed(m, prefix) ==
  {"TableName", "Columns", "Addrs"}
  \cup (IF Inserted(m) # {} THEN {"Values", "InsertPlaceholders", "InsertOneStmt"} ELSE {})
  \cup (IF m.key = "auto" THEN {"IsAutoIncr", "ScanAutoIncr"} ELSE {})
  \cup (IF m.key = "auto" /\ Inserted(m) # {} THEN {"InsertColumns"} ELSE {})
  \cup (IF m.key # "none" THEN {"HasPK", "FindOneByPKStmt"} ELSE {})
  \cup (IF m.key \in {"pk", "auto"} THEN {"PK"} ELSE {})
  \cup (IF m.key = "two" THEN {"CompositeKey"} ELSE {})
  \cup (IF m.key # "none" /\ Updated(m) # {} THEN {"UpdateOneByPKStmt"} ELSE {})
  \cup {c \o "Value" : c \in Columns(m)}
  \cup {prefix \o c : c \in Columns(m)}
Own(m) == m.own \cup (IF m.wrong = "none" THEN {} ELSE {m.wrong})
Fresh(ss, prefix) == UNION {IF ss[s].key = "absent" THEN {} ELSE {<<s, x>> : x \in Needed(ss[s], prefix) \ Own(ss[s])} : s \in DOMAIN ss}
Wrong(ss) == \E s \in DOMAIN ss : ss[s].key # "absent" /\ ss[s].wrong # "none"
Some(ss) == \E s \in DOMAIN ss : ss[s].key # "absent"
\* a struct without any field is no column of any table; it is still a model
NoFile == {<<"none", "none">>}

Default == [driver |-> "mysql", naming |-> "snake", quote |-> FALSE, prefix |-> "Column", strict |-> TRUE, db |-> "db", tag |-> "sql"]
Other == [driver |-> {"postgres", "sqlite"}, naming |-> {"camel"}, quote |-> {TRUE}, prefix |-> {"Get"}, strict |-> {FALSE}, db |-> {"store"}, tag |-> {"db"}]

\* package base holds the struct that the others embed
Fixed == [fields |-> {"BaseA"}, key |-> "none", own |-> {}, wrong |-> "none", base |-> FALSE]
Init == /\ src = [p \in Pkgs |-> [s \in Structs |-> IF p = "base" /\ s = "Base" THEN Fixed ELSE Absent]]
        /\ cfg = Default /\ out = [p \in Pkgs |-> NoFile] /\ err = FALSE
        /\ run = "idle" /\ todo = {} /\ seen = {} /\ edits = 0 /\ gens = 0 /\ hist = <<>>

Step(r) == /\ run = "idle" /\ edits < MaxEdit /\ gens < MaxGen
           /\ edits' = edits + 1 /\ hist' = Append(hist, r) /\ UNCHANGED <<out, err, run, todo, seen, gens>>
Change(p, s, m, what) == src' = [src EXCEPT ![p][s] = m] /\ cfg' = cfg /\ Step([op |-> "edit", p |-> p, s |-> s, what |-> what, m |-> m])
Model(p, s) ==
  LET m == src[p][s] IN
  \/ /\ ~Exists(p, s) /\ s # "Base"
     /\ \E k \in Keys, f \in SUBSET Fields, b \in BOOLEAN :
          f # {} /\ (b => p # "base") /\ Change(p, s, [fields |-> f, key |-> k, own |-> {}, wrong |-> "none", base |-> b], "new")
  \/ /\ Exists(p, s)
     /\ \/ s # "Base" /\ Change(p, s, Absent, "drop")
        \/ s # "Base" /\ \E f \in Fields \ m.fields : Change(p, s, [m EXCEPT !.fields = @ \cup {f}], "field")
        \/ s # "Base" /\ \E f \in m.fields : Cardinality(m.fields) > 1 /\ Change(p, s, [m EXCEPT !.fields = @ \ {f}], "nofield")
        \/ s # "Base" /\ \E k \in Keys \ {m.key} : Change(p, s, [m EXCEPT !.key = k], "key")
        \/ p # "base" /\ Change(p, s, [m EXCEPT !.base = ~@], "base")
        \/ \E x \in Methods \ Own(m) : Change(p, s, [m EXCEPT !.own = @ \cup {x}], "own")
        \/ \E x \in m.own : Change(p, s, [m EXCEPT !.own = @ \ {x}], "disown")
        \/ m.wrong = "none" /\ \E x \in {"TableName", "Columns", "Values", "Addrs"} \ m.own : Change(p, s, [m EXCEPT !.wrong = x], "wrong")
        \/ m.wrong # "none" /\ Change(p, s, [m EXCEPT !.wrong = "none"], "right")
Switch(k) == \E v \in ({Default[k]} \cup Other[k]) \ {cfg[k]} :
               cfg' = [cfg EXCEPT ![k] = v] /\ src' = src /\ Step([op |-> "switch", key |-> k, value |-> v])

\* ---- a run over some of the packages
Begin == /\ run = "idle" /\ gens < MaxGen
         /\ \E ps \in SUBSET Pkgs : ps # {} /\ todo' = ps
         /\ run' = "parse" /\ seen' = {} /\ err' = FALSE /\ gens' = gens + 1
         /\ hist' = Append(hist, [op |-> "begin", pkgs |-> todo'])
         /\ UNCHANGED <<src, cfg, out, edits>>
Next1(ps) == CHOOSE p \in ps : TRUE
Parse == /\ run = "parse" /\ todo # {}
         /\ LET p == Next1(todo) IN
            \* methods of a generated file are not read
            /\ seen' = UNION {IF Exists(p, s) THEN {<<s, x>> : x \in Own(src[p][s])} ELSE {} : s \in Structs}
            /\ IF cfg.strict /\ Wrong(src[p]) THEN run' = "end" /\ err' = TRUE ELSE run' = "write" /\ err' = err
         /\ UNCHANGED <<src, cfg, out, todo, edits, gens, hist>>
Write == /\ run = "write"
         /\ LET p == Next1(todo)
                need == UNION {IF Exists(p, s) THEN {<<s, x>> : x \in Needed(src[p][s], cfg.prefix)} ELSE {} : s \in Structs}
            IN out' = [out EXCEPT ![p] = IF Some(src[p]) THEN need \ seen ELSE NoFile] /\ todo' = todo \ {p}
         /\ run' = IF todo' = {} THEN "end" ELSE "parse"
         /\ UNCHANGED <<src, cfg, err, seen, edits, gens, hist>>
End == /\ run = "end" /\ run' = "idle" /\ todo' = {} /\ seen' = {}
       /\ hist' = Append(hist, [op |-> "end", ok |-> ~err, src |-> src, cfg |-> cfg,
                                out |-> [p \in Pkgs |-> IF out[p] = NoFile THEN [none |-> TRUE, has |-> {}] ELSE [none |-> FALSE, has |-> out[p]]]])
       /\ UNCHANGED <<src, cfg, out, err, edits, gens>>

Next == \/ \E p \in Pkgs, s \in Structs : Model(p, s)
        \/ \E k \in Switches : Switch(k)
        \/ Begin \/ Parse \/ Write \/ End
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------ what must hold
Last == hist[Len(hist)]
Ran == hist # <<>> /\ run = "idle" /\ Last.op = "end"
RanOver(p) == Ran /\ p \in hist[Len(hist) - 1].pkgs
\* after a successful run the output is that of the sources and the configuration
FreshOut == \A p \in Pkgs : RanOver(p) /\ ~err => out[p] = (IF Some(src[p]) THEN Fresh(src[p], cfg.prefix) ELSE NoFile)
\* no method is there twice, none is missing
Whole == \A p \in Pkgs : RanOver(p) /\ ~err => \A s \in Structs :
   Exists(p, s) => /\ {x \in Own(src[p][s]) : <<s, x>> \in out[p]} = {}
                   /\ Needed(src[p][s], cfg.prefix) \subseteq Own(src[p][s]) \cup {y[2] : y \in {z \in out[p] : z[1] = s}}
\* nothing is generated for structs that are gone
Live == \A p \in Pkgs : RanOver(p) /\ ~err /\ out[p] # NoFile => \A y \in out[p] : Exists(p, y[1])
KeepStep == (run # "write") => out' = out
Keeps == [][KeepStep]_vars

Emit == run = "idle" /\ gens = MaxGen /\ Ran => CSVWrite("%1$s", <<ToJson(hist)>>, Out)
=============================================================================
