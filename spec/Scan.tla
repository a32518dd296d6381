-------------------------------- MODULE Scan --------------------------------
(* C13: reading database values into scalar destinations.  The numbers are  *)
(* divided into the points where some destination begins or ends and the    *)
(* gaps between them; a gap stands for any number in it.  A scan stores the *)
(* value of its source or refuses, whatever was stored before.              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, CSV, Randomization

CONSTANTS Dests,      \* [c |-> class, w |-> width or size, s |-> strict]
          Forms,      \* {"addr", "ptr"}
          First,      \* how many sources are tried as first of two
          MaxScans, Out

\* integers, in order; "g" points are the gaps
Points == << "g0", "-2^63-1", "-2^63", "g1", "-2^31-1", "-2^31", "g2", "-2^15-1", "-2^15", "g3", "-129", "-128", "g4", "-1", "0", "1", "g5",
             "127", "128", "g6", "255", "256", "g7", "2^15-1", "2^15", "g8", "2^16-1", "2^16", "g9", "2^31-1", "2^31", "gA", "2^32-1", "2^32",
             "gB", "2^63-1", "2^63", "gC", "2^64-1", "2^64", "gD" >>
Idx(p) == CHOOSE i \in 1..Len(Points) : Points[i] = p
IntPoints == {Points[i] : i \in 1..Len(Points)}
Between(a, p, b) == Idx(a) <= Idx(p) /\ Idx(p) <= Idx(b)
FitsInt(w, p) == CASE w = 8 -> Between("-128", p, "127") [] w = 16 -> Between("-2^15", p, "2^15-1")
                   [] w = 32 -> Between("-2^31", p, "2^31-1") [] w = 64 -> Between("-2^63", p, "2^63-1")
FitsUint(w, p) == CASE w = 8 -> Between("0", p, "255") [] w = 16 -> Between("0", p, "2^16-1")
                    [] w = 32 -> Between("0", p, "2^32-1") [] w = 64 -> Between("0", p, "2^64-1")

\* floating point numbers that are no small integers; over32 is too large for 32 bits, over64 for 64 bits
FloatPoints == {"frac", "-frac", "tenth", "tiny32", "tiny64", "max32", "-max32", "over32", "-over32", "max64", "-max64", "over64", "-over64", "-0", "inf", "-inf", "nan", "float1", "float300", "float0", "gap"}
FloatNative == FloatPoints \ {"over64", "-over64"}
Integral == {"float1", "float300", "float0", "-0", "max32", "-max32", "over32", "-over32", "max64", "-max64", "over64", "-over64"}
FitsFloat(w, p) == CASE p \in {"over64", "-over64"} -> FALSE
                     [] p \in {"over32", "-over32", "max64", "-max64"} -> w = 64
                     [] OTHER -> TRUE

\* texts
NumWords == {"plus", "lead0", "space", "under", "hex", "trail", "nul", "comma", "exp"}
BadWords == {"empty", "word", "trail", "nul", "comma", "dash"}
Words == NumWords \cup BadWords
BoolWords == {"1", "0", "true", "false", "T", "f", "TRUE", "yes", "2"}
TimeWords == {"date", "datetime", "tenth", "millis", "micros", "nanos", "offset", "offfrac", "utc", "twodots", "badmin", "badmonth", "dangling", "rfc", "rfcz", "badday", "badhour", "zerodate", "short", "trailing"}
TextWords == {"", "a", "ab", "abc", "abcd", "quote", "uni", "uni3", "uni4", "badutf", "binary", "long"}
ObjWords == {"full", "part", "null", "broken", "tail", "other"}
PairWords == {"pair", "half", "nopair"}

Src(k, p) == [k |-> k, p |-> p]
TextKinds == {"string", "bytes"}
IntSrc   == {Src("int64", p) : p \in {q \in IntPoints : FitsInt(64, q)}}
FloatSrc == {Src("float64", p) : p \in FloatNative}
MiscSrc  == {Src("bool", "true"), Src("bool", "false"), Src("nil", ""), Src("time", "utc"), Src("time", "zone"), Src("other", "struct")}
NumText  == {Src(k, "i:" \o p) : k \in TextKinds, p \in IntPoints} \cup {Src(k, "f:" \o p) : k \in TextKinds, p \in FloatPoints} \cup {Src(k, "w:" \o p) : k \in TextKinds, p \in Words}
Other(pre, ws) == {Src(k, pre \o w) : k \in TextKinds, w \in ws}
Head2(p) == SubSeq(p, 1, 2)
Rest2(p) == SubSeq(p, 3, Len(p))

Sources(d) ==
  LET base == IntSrc \cup FloatSrc \cup MiscSrc \cup NumText
  IN CASE d.c \in {"int", "uint", "float"} -> base
       [] d.c = "bool" -> base \cup Other("b:", BoolWords)
       [] d.c = "time" -> base \cup Other("t:", TimeWords)
       [] d.c \in {"string", "bytes", "barr", "rarr"} -> base \cup Other("s:", TextWords)
       [] d.c = "json" -> MiscSrc \cup IntSrc \cup FloatSrc \cup Other("o:", ObjWords) \cup Other("w:", {"empty", "word"})
       [] d.c \in {"text", "scanner"} -> MiscSrc \cup IntSrc \cup FloatSrc \cup Other("p:", PairWords) \cup Other("w:", {"empty"})
       [] d.c = "binary" -> MiscSrc \cup IntSrc \cup FloatSrc \cup Other("s:", TextWords)

\* how the length of a text compares with the size of an array: texts and their lengths in bytes and characters
Bytes(w) == CASE w = "" -> 0 [] w = "a" -> 1 [] w = "ab" -> 2 [] w = "abc" -> 3 [] w = "abcd" -> 4 [] w = "quote" -> 3
              [] w = "uni" -> 2 [] w = "uni3" -> 7 [] w = "uni4" -> 10 [] w = "badutf" -> 3 [] w = "binary" -> 3 [] w = "long" -> 40
Runes(w) == CASE w = "uni" -> 1 [] w = "uni3" -> 3 [] w = "uni4" -> 4 [] OTHER -> Bytes(w)

\* "must" store the value of the source, "may" (else refuse), "err" refuse, "free" not specified
OnText(d, k, p) ==
  LET h == Head2(p) v == Rest2(p)
      native == k = "bytes" \/ d.c \notin {"int", "uint", "binary"}   \* integers are read from the bytes that drivers give
      Must(x) == IF x = "must" /\ ~native THEN "may" ELSE x
  IN CASE d.c \in {"int", "uint"} ->
            Must(CASE h = "i:" -> IF (IF d.c = "int" THEN FitsInt(d.w, v) ELSE FitsUint(d.w, v)) THEN "must" ELSE "err"
                   [] h = "f:" -> IF v \in {"float1", "float0"} THEN "may" ELSE IF v = "-0" THEN "may" ELSE IF v = "float300" THEN IF d.w = 8 THEN "err" ELSE "may" ELSE IF v \in Integral THEN "err" ELSE "err"
                   [] h = "w:" -> IF v \in BadWords THEN "err" ELSE "may"
                   [] OTHER -> "free")
       [] d.c = "float" ->
            IF d.s THEN "err"
            ELSE (CASE h = "i:" -> "must"
                    [] h = "f:" -> IF ~FitsFloat(d.w, v) THEN "err" ELSE IF v \in {"inf", "-inf", "nan"} \/ (v = "tiny64" /\ d.w = 32) THEN "may" ELSE "must"
                    [] h = "w:" -> IF v \in BadWords THEN "err" ELSE IF v = "exp" THEN "must" ELSE "may"
                    [] OTHER -> "free")
       [] d.c = "bool" ->
            IF d.s THEN "err"
            ELSE (CASE h = "b:" -> IF v \in {"1", "0", "true", "false"} THEN "must" ELSE IF v \in {"yes", "2"} THEN "free" ELSE "may"
                    [] h = "i:" -> IF v \in {"0", "1"} THEN "must" ELSE "err"
                    [] h = "f:" -> IF v = "frac" \/ v = "tenth" THEN "err" ELSE "free"
                    [] h = "w:" -> IF v \in {"empty", "word", "trail", "comma"} THEN "err" ELSE "free")
       [] d.c = "time" ->
            (CASE h = "t:" -> IF v \in {"badday", "badhour", "badmin", "badmonth", "twodots", "trailing"} THEN "err" ELSE IF v \in {"zerodate", "short", "dangling"} THEN "free" ELSE "must"
               [] h = "w:" -> IF v \in {"empty", "word", "dash"} THEN "err" ELSE "free"
               [] OTHER -> "free")
       [] d.c \in {"string", "bytes"} -> "must"
       [] d.c = "barr" -> IF h = "s:" THEN IF Bytes(v) <= d.w THEN "must" ELSE "err" ELSE "free"
       [] d.c = "rarr" -> IF h = "s:" THEN IF v = "badutf" THEN "err" ELSE IF v = "binary" THEN "free" ELSE IF Runes(v) <= d.w THEN "must" ELSE "err" ELSE "free"
       [] d.c = "json" -> IF h = "o:" THEN IF v \in {"broken", "tail", "other"} THEN "err" ELSE "must" ELSE "err"
       [] d.c \in {"text", "scanner"} -> IF h = "p:" /\ v = "pair" THEN "must" ELSE "err"
       [] d.c = "binary" -> IF v = "abc" THEN "err" ELSE IF k = "bytes" THEN "must" ELSE "may"   \* the type at hand refuses abc

Outcome(d, x) ==
  CASE x.k = "nil" -> "must"
    [] x.k = "other" -> "err"
    [] x.k \in TextKinds -> OnText(d, x.k, x.p)
    [] x.k = "int64" -> (CASE d.c = "int" -> IF FitsInt(d.w, x.p) THEN "must" ELSE "err"
                           [] d.c = "uint" -> IF FitsUint(d.w, x.p) THEN "must" ELSE "err"
                           [] d.c = "float" -> "must"
                           [] d.c = "bool" -> IF x.p \in {"0", "1"} THEN "must" ELSE "may"   \* everything but 0 is true
                           [] d.c \in {"string", "bytes"} -> IF d.s THEN "err" ELSE "must"
                           [] d.c = "time" -> "may"
                           [] OTHER -> "err")
    [] x.k = "float64" -> (CASE d.c = "float" -> IF FitsFloat(d.w, x.p) THEN "must" ELSE "err"
                             [] d.c \in {"int", "uint"} -> IF x.p \in {"float0", "float1", "-0"} \/ (x.p = "float300" /\ d.w > 8) THEN "may" ELSE "err"
                             [] d.c \in {"string", "bytes"} -> IF d.s THEN "err" ELSE "must"
                             [] d.c = "bool" -> IF x.p \in {"frac", "tenth"} THEN "err" ELSE "free"
                             [] d.c = "time" -> "free"
                             [] OTHER -> "err")
    [] x.k = "bool" -> (CASE d.c = "bool" -> "must"
                          [] d.c \in {"string", "bytes"} -> IF d.s THEN "err" ELSE "must"
                          [] d.c \in {"int", "uint", "float"} -> "free"
                          [] OTHER -> "err")
    [] x.k = "time" -> (CASE d.c = "time" -> "must"
                          [] d.c \in {"string", "bytes"} -> IF d.s THEN "err" ELSE "free"
                          [] d.c \in {"int", "uint", "float"} -> "free"
                          [] OTHER -> "err")

VARIABLES dst,   \* [d, f, now]: what is stored
          hist
vars == <<dst, hist>>

Init == dst \in {[d |-> d, f |-> f, now |-> Src("start", "")] : d \in Dests, f \in Forms} /\ hist = <<>>
Next == /\ Len(hist) < MaxScans
        /\ \E x \in (IF Len(hist) < MaxScans - 1 THEN RandomSubset(First, Sources(dst.d)) ELSE Sources(dst.d)) :
             LET o == Outcome(dst.d, x) IN
             /\ hist' = Append(hist, [k |-> x.k, p |-> x.p, o |-> o])
             /\ \/ o \in {"must", "may", "free"} /\ dst' = [dst EXCEPT !.now = x]
                \/ o \in {"may", "err", "free"} /\ dst' = dst
Spec == Init /\ [][Next]_vars

\* the destination holds the start or a value that was read whole, never one that had to be refused
Exact == dst.now.k = "start" \/ \E i \in 1..Len(hist) : hist[i].k = dst.now.k /\ hist[i].p = dst.now.p /\ hist[i].o # "err"
Latest == hist # <<>> /\ Last(hist).o = "must" => dst.now = Src(Last(hist).k, Last(hist).p)
\* numbers have no other representation: what must be stored fits
Fits == \A i \in 1..Len(hist) :
          hist[i].o = "must" /\ hist[i].k = "int64" => (dst.d.c = "int" => FitsInt(dst.d.w, hist[i].p)) /\ (dst.d.c = "uint" => FitsUint(dst.d.w, hist[i].p))

Emit == Len(hist') < MaxScans \/ CSVWrite("%1$s", <<ToJson([d |-> dst.d, f |-> dst.f, h |-> hist'])>>, Out)
View == <<dst.d, dst.f, hist>>
=============================================================================
