------------------------------- MODULE Naming -------------------------------
(* C15: how a Go identifier is split into words.  The identifier is read one *)
(* character at a time; what is kept of the past is the list of words.       *)
(* Classes: U upper case, l lower case, d digit, _ underscore, X and x upper *)
(* and lower case letters outside of ASCII.                                  *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC, Json, CSV

CONSTANTS Classes, MaxLen, MinEmit, Out
VARIABLES id, words     \* words: sequence of sequences of positions
vars == <<id, words>>

Up(c) == c \in {"U", "X"}
Low(c) == c \in {"l", "x"}
Dig(c) == c = "d"
Sep(c) == c = "_"

Prev == Last(id)
Pos == Len(id) + 1
Grow == [words EXCEPT ![Len(words)] = Append(@, Pos)]
Start == Append(words, <<Pos>>)

Read(c) ==
  /\ id' = Append(id, c)
  /\ words' =
       CASE Sep(c) -> words
         [] id = <<>> \/ Sep(Prev) -> Start
         [] Dig(c) # Dig(Prev) -> Start
         [] Low(Prev) /\ Up(c) -> Start
         \* the last capital of a row of capitals begins the word that a small letter continues
         [] Low(c) /\ Up(Prev) /\ Len(Last(words)) > 1 ->
              [words EXCEPT ![Len(words)] = Front(@)] \o <<<<Pos - 1, Pos>>>>
         [] OTHER -> Grow

Init == id = <<>> /\ words = <<>>
Next == /\ Len(id) < MaxLen
        /\ \E c \in Classes : (id = <<>> => Up(c)) /\ Read(c)
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------ the same, said of the whole identifier
Letters == SelectSeq([i \in 1..Len(id) |-> i], LAMBDA i : ~Sep(id[i]))
Begins(i) == /\ ~Sep(id[i])
             /\ \/ i = 1
                \/ Sep(id[i - 1])
                \/ Dig(id[i]) # Dig(id[i - 1])
                \/ Low(id[i - 1]) /\ Up(id[i])
                \/ Up(id[i]) /\ Up(id[i - 1]) /\ i < Len(id) /\ Low(id[i + 1])
Kept == FlattenSeq(words) = Letters
Split == {words[k][1] : k \in 1..Len(words)} = {i \in 1..Len(id) : Begins(i)}
NonEmpty == id # <<>> => words # <<>> /\ \A k \in 1..Len(words) : words[k] # <<>>

\* the name in snake case: classes of its characters
Small(c) == IF c = "U" THEN "l" ELSE IF c = "X" THEN "x" ELSE c
Snake == FlattenSeq([k \in 1..Len(words) |-> (IF k > 1 THEN <<"_">> ELSE <<>>) \o [j \in 1..Len(words[k]) |-> Small(id[words[k][j]])]])
\* there is nothing left to split in it
BeginsIn(s, i) == /\ ~Sep(s[i]) /\ i > 1 /\ ~Sep(s[i - 1])
                  /\ \/ Dig(s[i]) # Dig(s[i - 1])
                     \/ Low(s[i - 1]) /\ Up(s[i])
Again == \A i \in 1..Len(Snake) : ~Up(Snake[i]) /\ ~BeginsIn(Snake, i)

Emit == Len(id) >= MinEmit => CSVWrite("%1$s", <<ToJson([id |-> id, words |-> words])>>, Out)
=============================================================================
