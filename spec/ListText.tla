------------------------------ MODULE ListText ------------------------------
(* The texts of list columns: how a text is read, symbol by symbol.  Syntax *)
(* "json" is a JSON array, "pg" a PostgreSQL array literal.  In lists of    *)
(* strings the symbols are characters; in the others an element is a token. *)
EXTENDS Integers, Sequences, SequencesExt

S(m, l, c) == [mode |-> m, list |-> l, cur |-> c]
Bad(s)  == S("err", s.list, <<>>)
Free(s) == S("any", s.list, <<>>)   \* not specified
Blank == {"sp", "ctrl"}   \* ctrl is a newline
Punct == {"[", "]", "{", "}", ",", "sp", "\"", "\\", "/"}

\* what a token denotes as an element; "err" when it is no element of the kind, "any" when that is left open
Token(syn, kind, t) ==
  LET ints == {"zero", "one", "max"}
  IN CASE Len(t) > 2 /\ SubSeq(t, 1, 2) = "v:" -> t   \* a value, when checking recorded texts
       [] kind = "int"   -> IF t \in ints \cup {"min", "neg"} THEN t
                            ELSE IF syn = "pg" /\ t = "quoted" THEN "one"
                            ELSE IF syn = "pg" /\ t \in {"plus", "lead0"} THEN "any" ELSE "err"
       [] kind = "uint"  -> IF t \in ints THEN t
                            ELSE IF syn = "pg" /\ t = "quoted" THEN "one"
                            ELSE IF syn = "pg" /\ t \in {"plus", "lead0"} THEN "any" ELSE "err"
       [] kind = "float" -> IF t \in ints \cup {"min", "neg", "frac", "exp"} THEN t
                            ELSE IF syn = "pg" /\ t = "quoted" THEN "one"
                            ELSE IF syn = "pg" /\ t \in {"nan", "inf", "ninf"} THEN t
                            ELSE IF syn = "pg" /\ t \in {"plus", "lead0"} THEN "any" ELSE "err"
       [] kind = "bool"  -> IF syn = "json" THEN IF t \in {"true", "false"} THEN t ELSE "err"
                            ELSE IF t \in {"t", "f"} THEN t ELSE IF t \in {"true", "false"} THEN "any" ELSE "err"
       [] kind = "bytea" -> IF t \in {"hexempty", "hexab", "plain", "octal", "back"} THEN t
                            ELSE IF t = "null" THEN "any" ELSE "err"

TakeToken(syn, kind, s, t) ==
  LET v == Token(syn, kind, t)
  IN CASE v = "err" -> Bad(s) [] v = "any" -> Free(s) [] OTHER -> S("tok", Append(s.list, v), <<>>)

\* the character after a backslash in a JSON string
Esc(c) == CASE c \in {"\"", "\\", "/"} -> c
            [] c = "n" -> "ctrl"
            [] c = "u000a" -> "ctrl"
            [] c = "u00e9" -> "eacute"
            [] c = "upair" -> "astral"
            [] Len(c) > 2 /\ SubSeq(c, 1, 2) = "u:" -> SubSeq(c, 3, Len(c))   \* in recorded texts
            [] OTHER -> "err"

JStep(syn, kind, s, x) ==
  CASE s.mode \in {"err", "any"} -> s
    [] s.mode = "start" -> CASE x \in Blank -> s [] x = "[" -> S("first", <<>>, <<>>) [] x = "null" -> Free(s) [] OTHER -> Bad(s)
    [] s.mode \in {"first", "elem"} ->
         CASE x \in Blank -> s
           [] x = "]" /\ s.mode = "first" -> S("done", s.list, <<>>)
           [] x = "\"" /\ kind = "str" -> S("str", s.list, <<>>)
           [] x \in Punct \/ kind = "str" -> Bad(s)
           [] OTHER -> TakeToken(syn, kind, s, x)
    [] s.mode \in {"after", "tok"} ->
         CASE x \in Blank -> S("after", s.list, <<>>) [] x = "," -> S("elem", s.list, <<>>) [] x = "]" -> S("done", s.list, <<>>) [] OTHER -> Bad(s)
    [] s.mode = "str" ->
         CASE x = "\"" -> S("after", Append(s.list, s.cur), <<>>)
           [] x = "\\" -> S("esc", s.list, s.cur)
           [] x \in {"ctrl", "bad"} -> Bad(s)
           [] OTHER -> S("str", s.list, Append(s.cur, x))
    [] s.mode = "esc" -> LET e == Esc(x) IN IF e = "err" THEN Bad(s) ELSE S("str", s.list, Append(s.cur, e))
    [] s.mode = "done" -> IF x \in Blank THEN s ELSE Bad(s)

PStep(syn, kind, s, x) ==
  CASE s.mode \in {"err", "any"} -> s
    [] s.mode = "start" -> CASE x = "sp" -> Free(s) [] x = "{" -> S("first", <<>>, <<>>) [] OTHER -> Bad(s)
    [] s.mode = "nest" -> IF x = "}" THEN Free(s) ELSE Bad(s)   \* {{}}
    [] s.mode \in {"first", "elem"} ->
         CASE x = "}" -> IF s.mode = "first" THEN S("done", s.list, <<>>) ELSE Bad(s)
           [] x = "{" -> IF s.mode = "first" THEN S("nest", s.list, <<>>) ELSE Bad(s)
           [] x = "sp" -> Free(s)
           [] x \in {",", "\\"} -> Bad(s)
           [] x = "\"" -> IF kind = "str" THEN S("str", s.list, <<>>) ELSE Bad(s)
           [] kind # "str" -> IF x \in Punct THEN Bad(s) ELSE TakeToken(syn, kind, s, x)
           [] OTHER -> S("bare", s.list, <<x>>)
    [] s.mode = "bare" ->
         CASE x \in {",", "}"} -> IF s.cur = <<"NULL">> THEN Bad(s) ELSE S(IF x = "," THEN "elem" ELSE "done", Append(s.list, s.cur), <<>>)
           [] x \in {"\"", "\\", "{"} -> Bad(s)
           [] x = "sp" -> Free(s)
           [] OTHER -> S("bare", s.list, Append(s.cur, x))
    [] s.mode \in {"after", "tok"} ->
         CASE x = "sp" -> Free(s) [] x = "," -> S("elem", s.list, <<>>) [] x = "}" -> S("done", s.list, <<>>) [] OTHER -> Bad(s)
    [] s.mode = "str" ->
         CASE x = "\"" -> S("after", Append(s.list, s.cur), <<>>)
           [] x = "\\" -> S("esc", s.list, s.cur)
           [] OTHER -> S("str", s.list, Append(s.cur, x))
    [] s.mode = "esc" -> S("str", s.list, Append(s.cur, x))
    [] s.mode = "done" -> IF x = "sp" THEN Free(s) ELSE Bad(s)

StepOf(syn, kind, s, x) == IF syn = "json" THEN JStep(syn, kind, s, x) ELSE PStep(syn, kind, s, x)
Start == S("start", <<>>, <<>>)
ParseOf(syn, kind, t) == LET f(s, x) == StepOf(syn, kind, s, x) IN FoldLeft(f, Start, t)
=============================================================================
