----------------------------- MODULE SentTrace -----------------------------
(* C08: every statement that the real code sent.  A record of the trace is  *)
(*   [m, key, sty, phs, nargs, lits, breaks, text, shape, nk, ni, nu]       *)
(* phs are the numbers of the placeholders in the order of the text (their  *)
(* ordinals when the style has no numbers), lits the number of literals and *)
(* comments in the text, breaks the number of statement separators before   *)
(* the end.  Records with the same key are calls of one shape for one model *)
(* and follow each other.                                                   *)
EXTENDS Calls, IOUtils

CONSTANTS File, Rejects

TR == ndJsonDeserialize(File)

VARIABLE l
tvars == <<shape, data, l>>

WellFormed(r) ==
  /\ Len(r.phs) = r.nargs
  /\ r.sty = "?" => \A i \in 1..Len(r.phs) : r.phs[i] = i
  /\ r.sty = "$" => {r.phs[i] : i \in 1..Len(r.phs)} = 1..r.nargs
  /\ r.other = 0     \* placeholders of another style

NotInlined(r) == r.lits = 0 /\ r.breaks = 0

Counted(r) == r.i > 0 \/ r.ni < 0 \/ LET n == Count(r.shape, r.nk, r.ni, r.nu) IN n = -1 \/ n = r.nargs

SameText(i) == i = 1 \/ TR[i - 1].key # TR[i].key \/ TR[i - 1].text = TR[i].text

Problem(i) ==
  LET r == TR[i] IN
  IF ~WellFormed(r) THEN "placeholders do not match the arguments"
  ELSE IF ~NotInlined(r) THEN "data in the statement text"
  ELSE IF ~Counted(r) THEN "unexpected number of arguments"
  ELSE IF ~SameText(i) THEN "the text of the statement depends on the data" ELSE ""

TInit == shape = Base /\ data = 0 /\ l = 0
TNext ==
  /\ l < Len(TR)
  /\ l' = l + 1
  /\ UNCHANGED <<shape, data>>
  /\ LET p == Problem(l') IN
     p = "" \/ CSVWrite("%1$s", <<ToJson([what |-> p, rec |-> TR[l'], prev |-> IF l' > 1 THEN TR[l' - 1].text ELSE ""])>>, Rejects)
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
