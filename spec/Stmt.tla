-------------------------------- MODULE Stmt --------------------------------
(* C08, C21: the statement builder.  Up to Slots statements are taken from  *)
(* the pool, written, given arguments, formatted, reset and given back in   *)
(* any order.  A text is a sequence of pieces <<"raw", p>> and placeholders *)
(* <<"var", n>>; n is the number of the argument it stands for.             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, CSV, Randomization

CONSTANTS Slots, Pieces, Vals, MaxVars,
          Numbered,   \* placeholders carry their number and may be used late
          MaxSteps, Pick, Out

VARIABLES st, held, hist
vars == <<st, held, hist>>

Fresh == [live |-> TRUE, text |-> <<>>, args |-> <<>>]
Dead  == [live |-> FALSE, text |-> <<>>, args |-> <<>>]

Init == st = [s \in Slots |-> Dead] /\ held = [s \in Slots |-> <<>>] /\ hist = <<>>

Acts == [a : {"acquire", "release", "reset"}, s : Slots, x : {0}]
   \cup [a : {"write"}, s : Slots, x : Pieces]
   \cup [a : {"var"}, s : Slots, x : Vals]
   \cup [a : {"vars"}, s : Slots, x : 0..MaxVars]
   \cup (IF Numbered THEN [a : {"hold"}, s : Slots, x : Vals] \cup [a : {"flush"}, s : Slots, x : {0}] ELSE {})

Enabled(c) ==
  CASE c.a = "acquire" -> ~st[c.s].live
    [] c.a = "flush" -> st[c.s].live /\ held[c.s] # <<>>
    \* a placeholder without its number must be written where it was made
    [] OTHER -> st[c.s].live

\* the values of the argument list of a Vars call
ListOf(n) == [i \in 1..n |-> i]

After(c) ==
  LET x == st[c.s]
      n == Len(x.args)
  IN CASE c.a = "acquire" -> Fresh
       [] c.a = "release" -> Dead
       [] c.a = "reset"   -> Fresh
       [] c.a = "write"   -> [x EXCEPT !.text = Append(@, <<"raw", c.x>>)]
       [] c.a = "var"     -> [x EXCEPT !.text = Append(@, <<"var", n + 1>>), !.args = Append(@, c.x)]
       [] c.a = "vars"    -> [x EXCEPT !.text = @ \o <<<<"open", 0>>>> \o
                                 [i \in 1..c.x |-> <<"item", n + i>>] \o <<<<"close", 0>>>>,
                              !.args = @ \o ListOf(c.x)]
       [] c.a = "hold"    -> [x EXCEPT !.args = Append(@, c.x)]
       [] c.a = "flush"   -> [x EXCEPT !.text = @ \o [i \in 1..Len(held[c.s]) |-> <<"var", Reverse(held[c.s])[i]>>]]

HeldAfter(c) ==
  CASE c.a = "hold" -> Append(held[c.s], Len(st[c.s].args) + 1)
    [] c.a \in {"flush", "release", "reset", "acquire"} -> <<>>
    [] OTHER -> held[c.s]

Step(c) ==
  /\ Enabled(c)
  /\ st' = [st EXCEPT ![c.s] = After(c)]
  /\ held' = [held EXCEPT ![c.s] = HeldAfter(c)]
  /\ hist' = Append(hist, c)

Choice == IF Pick = 0 THEN Acts ELSE LET E == {c \in Acts : Enabled(c)} IN RandomSubset(IF Pick < Cardinality(E) THEN Pick ELSE Cardinality(E), E)
Next == Len(hist) < MaxSteps /\ \E c \in Choice : Step(c)
Spec == Init /\ [][Next]_vars

IsVar(t) == t[1] \in {"var", "item"}
VarsOf(s) == SelectSeq(st[s].text, IsVar)

(* one placeholder per argument, none for anything else *)
OnePerArgument ==
  \A s \in Slots :
    LET v == VarsOf(s) IN
    /\ \A i \in 1..Len(v) : v[i][2] \in 1..Len(st[s].args)
    /\ Cardinality({v[i][2] : i \in 1..Len(v)}) = Len(v)
    /\ {v[i][2] : i \in 1..Len(v)} \cup {held[s][i] : i \in 1..Len(held[s])} = 1..Len(st[s].args)
    /\ ~Numbered => \A i \in 1..Len(v) : v[i][2] = i
(* a statement taken from the pool is empty, whatever was in it before *)
FreshWhenTaken == [][\A s \in Slots : (~st[s].live /\ st'[s].live) => st'[s] = Fresh]_vars
(* what is done to one statement does not change another *)
Apart == [][\A s \in Slots : (hist' # hist /\ Last(hist').s # s) => st'[s] = st[s]]_vars
\* what a debug rendering shows: the argument in the place of its placeholder
Render(s) == [i \in 1..Len(st'[s].text) |->
                LET t == st'[s].text[i] IN IF IsVar(t) THEN <<"lit", st'[s].args[t[2]], t[2]>> ELSE <<t[1], t[2], 0>>]

Emit == Out = "" \/ (Len(hist') < MaxSteps /\ Pick > 0) \/
        CSVWrite("%1$s", <<ToJson([hist |-> hist', st |-> [s \in Slots |-> [live |-> st'[s].live, text |-> st'[s].text,
                 args |-> st'[s].args, shown |-> Render(s)]]])>>, Out)
=============================================================================
