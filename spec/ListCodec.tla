------------------------------ MODULE ListCodec ------------------------------
(* C14: the texts of list columns.  A text grows symbol by symbol; the      *)
(* parser's state tells which list, if any, it denotes.                     *)
EXTENDS ListText, FiniteSets, TLC, Json, CSV

CONSTANTS Syn, Kind, Symbols, MaxLen, MaxElems, Out
VARIABLES text, st
vars == <<text, st>>

Step(s, x) == StepOf(Syn, Kind, s, x)
Parse(t) == ParseOf(Syn, Kind, t)

\* the canonical text of a list
RECURSIVE Quote(_)
Quote(cs) == IF cs = <<>> THEN <<>>
             ELSE (CASE cs[1] \in {"\"", "\\"} -> <<"\\", cs[1]>>
                     [] cs[1] = "ctrl" /\ Syn = "json" -> <<"\\", "n">>
                     [] OTHER -> <<cs[1]>>) \o Quote(Tail(cs))
Elem(e) == IF Kind = "str" THEN <<"\"">> \o Quote(e) \o <<"\"">> ELSE <<e>>
RECURSIVE Join(_)
Join(l) == IF Len(l) = 1 THEN Elem(l[1]) ELSE Elem(l[1]) \o <<",">> \o Join(Tail(l))
Encode(l) == <<IF Syn = "json" THEN "[" ELSE "{">> \o (IF l = <<>> THEN <<>> ELSE Join(l)) \o <<IF Syn = "json" THEN "]" ELSE "}">>

Init == text = <<>> /\ st = Start
\* two tokens side by side would be another token
Next == \E x \in Symbols :
          /\ Len(text) < MaxLen
          /\ st.mode \notin {"err", "any"}
          /\ st.mode = "tok" => x \in Punct
          /\ (Kind # "str" /\ st.mode = "done") => x \in Punct
          /\ text' = Append(text, x)
          /\ st' = Step(st, x)
          /\ Len(st'.list) <= MaxElems
Spec == Init /\ [][Next]_vars

Outcome == CASE st.mode = "done" -> "ok" [] st.mode = "any" -> "any" [] OTHER -> "err"

Lossless == st.mode = "done" => LET p == Parse(Encode(st.list)) IN p.mode = "done" /\ p.list = st.list
\* what the text was read as is what the text is
Whole == LET p == Parse(text) IN p = st
\* adding symbols never turns a refused text into a list, nor one list into another
Refused == [][(st.mode = "err" => st'.mode = "err") /\ (st.mode = "done" /\ st'.mode = "done" => st'.list = st.list)]_vars

Emit == CSVWrite("%1$s", <<ToJson([t |-> text, o |-> Outcome, l |-> st.list])>>, Out)
=============================================================================
