------------------------------- MODULE GenFS --------------------------------
(* C17: which files a run of the generator reads and writes.  A tree of      *)
(* directories with files; sources name files in it; a run works off the     *)
(* directories of the named files one after the other, then writes the two   *)
(* database files, and may fail at each of them.                             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, CSV

CONSTANTS Dirs,      \* directories: sequences of names; the current one is <<"p">>
          Files,     \* file names: sequences of parts
          Full,      \* BOOLEAN: all files exist from the start
          Bases,     \* directories the patterns start from
          Forms,     \* what comes after the directory
          DbDir, OpDir,
          AnyOrder,  \* BOOLEAN: the directories of a run come in any order
          FaultKinds, MaxSrc, MaxEdit, MaxGen, Out

VARIABLES has,      \* directory -> the user's files
          bad,      \* <<directory, file>>: files with an invalid declaration
          blocked,  \* directories whose output cannot be written
          gen,      \* directory -> content of its generated file
          poss,     \* what the content may be, said without the order of work
          db, dbposs,
          srcs, todo, stage, limit, edits, gens, hist,
          plan, faulty  \* of the run: target -> its content afterwards; targets with a fault
vars == <<has, bad, blocked, gen, poss, db, dbposs, srcs, todo, stage, limit, edits, gens, hist, plan, faulty>>

Last(s) == s[Len(s)]
\* ------------------------------------------------------------- names and patterns
IsGo(f) == Last(f) = ".go"
IsTest(f) == Len(f) >= 2 /\ f[Len(f) - 1] = "_test" /\ IsGo(f)
Plain(f) == f[1] = "util"            \* declares no type
Counts(f) == IsGo(f) /\ ~IsTest(f)   \* part of the package

RECURSIVE SegMatch(_, _), DirMatch(_, _)
\* one name: "*" stands for any parts
SegMatch(p, f) == IF p = <<>> THEN f = <<>>
                  ELSE IF p[1] = "*" THEN \E i \in 0..Len(f) : SegMatch(Tail(p), SubSeq(f, i + 1, Len(f)))
                  ELSE f # <<>> /\ f[1] = p[1] /\ SegMatch(Tail(p), Tail(f))
\* directories: "**" stands for any of them, "*" for one
DirMatch(p, d) == IF p = <<>> THEN d = <<>>
                  ELSE IF p[1] = "**" THEN \E i \in 0..Len(d) : DirMatch(Tail(p), SubSeq(d, i + 1, Len(d)))
                  ELSE d # <<>> /\ p[1] \in {"*", d[1]} /\ DirMatch(Tail(p), Tail(d))

\* A form is [dirs |-> pattern of directories below the base, name |-> <<>> or pattern of the file]
\* without name and "**": the directory; a name that ends in "*" means the Go files
Completed(n) == IF n # <<>> /\ Last(n) = "*" THEN Append(n, ".go") ELSE n
NamedBy(s) ==
  LET dp == s.base \o s.form.dirs
      n  == Completed(s.form.name)
  IN UNION {{<<e, f>> : f \in {g \in has[e] : Counts(g) /\ (n = <<>> \/ SegMatch(n, g))}} : e \in {d \in Dirs : DirMatch(dp, d)}}
\* the same without recursion: the stars are given lengths
Fits(p, wild, f) ==
  \E l \in [1..Len(p) -> 0..Len(f)] :
     LET At(i) == LET RECURSIVE Sum(_)
                      Sum(k) == IF k = 0 THEN 0 ELSE l[k] + Sum(k - 1) IN Sum(i)
     IN /\ At(Len(p)) = Len(f)
        /\ \A i \in 1..Len(p) :
             IF p[i] = wild THEN TRUE
             ELSE l[i] = 1 /\ (p[i] \in {"*", f[At(i - 1) + 1]})
Sources == [base : Bases, form : Forms]
ASSUME \A s \in Sources : \A d \in Dirs :
   LET p == s.base \o s.form.dirs IN DirMatch(p, d) = (d # <<>> /\ Fits(p, "**", d))
ASSUME \A s \in Sources : \A f \in Files :
   LET n == Completed(s.form.name)
       Fit == \E l \in [1..Len(n) -> 0..Len(f)] :
                LET At(i) == LET RECURSIVE Sum(_)
                                 Sum(k) == IF k = 0 THEN 0 ELSE l[k] + Sum(k - 1) IN Sum(i)
                IN At(Len(n)) = Len(f) /\ \A i \in 1..Len(n) : n[i] = "*" \/ (l[i] = 1 /\ n[i] = f[At(i - 1) + 1])
   IN n # <<>> => SegMatch(n, f) = Fit

\* ------------------------------------------------------------- the work of a run
Reserved == {DbDir, OpDir}           \* the directories of the database files hold no models
Named(ss) == UNION {NamedBy(ss[i]) : i \in 1..Len(ss)}
PlanOf(ss) ==
  LET nm == {y \in Named(ss) : y[1] \notin Reserved}
  IN [d \in {x[1] : x \in nm} |->
        LET m == {x[2] : x \in {y \in nm : y[1] = d /\ ~Plain(y[2])}}
        IN IF m = {} THEN <<"none">> ELSE <<"of", m>>]
HasModels(p, d) == p[d] # <<"none">>
FaultyOf(p) == {d \in DOMAIN p : HasModels(p, d) /\ (d \in blocked \/ \E f \in p[d][2] : <<d, f>> \in bad)}
NoPlan == [d \in {} |-> <<"none">>]

Init == /\ has = [d \in Dirs |-> IF Full THEN Files ELSE {}]
        /\ bad = {} /\ blocked = {}
        /\ gen = [d \in Dirs |-> <<"none">>] /\ poss = [d \in Dirs |-> {<<"none">>}]
        /\ db = <<"none", "none">> /\ dbposs = <<{"none"}, {"none"}>>
        /\ srcs = <<>> /\ todo = {} /\ stage = "idle" /\ limit = FALSE
        /\ edits = 0 /\ gens = 0 /\ hist = <<>> /\ plan = NoPlan /\ faulty = {}

Idle == stage = "idle"
Edit(r) == /\ Idle /\ edits < MaxEdit /\ gens < MaxGen /\ edits' = edits + 1 /\ hist' = Append(hist, r)
           /\ UNCHANGED <<srcs, todo, stage, limit, gens, plan, faulty>>
Put(d, f) == /\ f \notin has[d] /\ has' = [has EXCEPT ![d] = @ \cup {f}]
             /\ Edit([op |-> "put", d |-> d, f |-> f]) /\ UNCHANGED <<bad, blocked, gen, poss, db, dbposs>>
Take(d, f) == /\ f \in has[d] /\ ~Full /\ has' = [has EXCEPT ![d] = @ \ {f}] /\ bad' = bad \ {<<d, f>>}
              /\ Edit([op |-> "take", d |-> d, f |-> f]) /\ UNCHANGED <<blocked, gen, poss, db, dbposs>>
Spoil(d, f) == /\ f \in has[d] /\ Counts(f) /\ ~Plain(f) /\ <<d, f>> \notin bad
               /\ \E k \in FaultKinds \ {"block", "limit"} :
                    Edit([op |-> "spoil", d |-> d, f |-> f, kind |-> k]) /\ bad' = bad \cup {<<d, f>>}
               /\ UNCHANGED <<has, blocked, gen, poss, db, dbposs>>
Repair(d, f) == /\ <<d, f>> \in bad /\ bad' = bad \ {<<d, f>>}
                /\ Edit([op |-> "repair", d |-> d, f |-> f]) /\ UNCHANGED <<has, blocked, gen, poss, db, dbposs>>
\* something that is no file has the name of the output
Block(d) == /\ "block" \in FaultKinds /\ d \notin blocked /\ poss[d] = {<<"none">>} /\ blocked' = blocked \cup {d}
            /\ Edit([op |-> "block", d |-> d]) /\ UNCHANGED <<has, bad, gen, poss, db, dbposs>>
Unblock(d) == /\ d \in blocked /\ blocked' = blocked \ {d}
              /\ Edit([op |-> "unblock", d |-> d]) /\ UNCHANGED <<has, bad, gen, poss, db, dbposs>>
\* an output of an earlier run, of types that are gone
Leave(d) == /\ d \notin Reserved /\ d \notin blocked /\ poss[d] = {<<"none">>}
            /\ gen' = [gen EXCEPT ![d] = <<"stale">>] /\ poss' = [poss EXCEPT ![d] = {<<"stale">>}]
            /\ Edit([op |-> "leave", d |-> d]) /\ UNCHANGED <<has, bad, blocked, db, dbposs>>
LeaveDb(i) == /\ dbposs[i] = {"none"} /\ db' = [db EXCEPT ![i] = "old"] /\ dbposs' = [dbposs EXCEPT ![i] = {"old"}]
              /\ Edit([op |-> "leavedb", i |-> i]) /\ UNCHANGED <<has, bad, blocked, gen, poss>>

NameSource(s) == /\ stage \in {"idle", "naming"} /\ gens < MaxGen /\ Len(srcs) < MaxSrc
                 /\ srcs' = Append(srcs, s) /\ stage' = "naming"
                 /\ UNCHANGED <<has, bad, blocked, gen, poss, db, dbposs, todo, limit, edits, gens, hist, plan, faulty>>
Start == /\ stage = "naming"
         /\ limit' \in (IF "limit" \in FaultKinds THEN BOOLEAN ELSE {FALSE})
         /\ plan' = PlanOf(srcs) /\ faulty' = FaultyOf(plan')
         /\ todo' = DOMAIN plan' /\ stage' = "models" /\ gens' = gens + 1
         /\ UNCHANGED <<has, bad, blocked, gen, poss, db, dbposs, srcs, edits, hist>>
Work(d) == /\ stage = "models" /\ d \in todo
           /\ AnyOrder \/ d = CHOOSE e \in todo : TRUE
           /\ IF d \in faulty \/ (limit /\ HasModels(plan, d))
              THEN stage' = "failed" /\ UNCHANGED <<gen, todo>>
              ELSE gen' = [gen EXCEPT ![d] = IF d \in blocked THEN @ ELSE plan[d]] /\ todo' = todo \ {d} /\ stage' = stage
           /\ UNCHANGED <<has, bad, blocked, poss, db, dbposs, srcs, limit, edits, gens, hist, plan, faulty>>
Data(i) == /\ stage = (IF i = 1 THEN "models" ELSE "db") /\ todo = {}
           /\ IF limit THEN stage' = "failed" /\ db' = db
              ELSE db' = [db EXCEPT ![i] = "new"] /\ stage' = (IF i = 1 THEN "db" ELSE "done")
           /\ UNCHANGED <<has, bad, blocked, gen, poss, dbposs, srcs, todo, limit, edits, gens, hist, plan, faulty>>

\* ---- what may be there after a run, from its beginning alone
Ok == ~limit /\ faulty = {}
Poss == [d \in Dirs |->
   IF d \notin DOMAIN plan \/ d \in faulty \/ d \in blocked THEN poss[d]
   ELSE IF Ok THEN {plan[d]}
   ELSE IF limit /\ HasModels(plan, d) THEN poss[d]
   ELSE poss[d] \cup {plan[d]}]
DbPoss == IF Ok THEN <<{"new"}, {"new"}>> ELSE dbposs   \* models come first
Finish == /\ stage \in {"failed", "done"}
          /\ poss' = Poss /\ dbposs' = DbPoss
          /\ hist' = Append(hist, [op |-> "gen", srcs |-> srcs, limit |-> limit, ok |-> Ok, poss |-> {<<d, Poss[d]>> : d \in Dirs}, db |-> DbPoss])
          /\ stage' = "idle" /\ srcs' = <<>> /\ todo' = {} /\ limit' = FALSE /\ plan' = NoPlan /\ faulty' = {}
          /\ UNCHANGED <<has, bad, blocked, gen, db, edits, gens>>

Next == \/ \E d \in Dirs : \/ \E f \in Files : Put(d, f) \/ Take(d, f) \/ Spoil(d, f) \/ Repair(d, f)
                           \/ Block(d) \/ Unblock(d) \/ Leave(d) \/ Work(d)
        \/ \E i \in 1..2 : LeaveDb(i) \/ Data(i)
        \/ \E s \in Sources : NameSource(s)
        \/ Start \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Start \/ Finish \/ Data(1) \/ Data(2) \/ \E d \in Dirs : Work(d))

Within == Idle => (\A d \in Dirs : gen[d] \in poss[d]) /\ (\A i \in 1..2 : db[i] \in dbposs[i])
Agrees == stage \in {"failed", "done"} => (stage = "done") = Ok
\* a run writes to the named directories only, and never anything but what it was asked for
StepOk == /\ \A d \in Dirs : gen'[d] # gen[d] => gen'[d] = <<"stale">> \/ (d \in DOMAIN plan /\ gen'[d] = plan[d])
          /\ stage # "idle" => has' = has
OnlyNamed == [][StepOk]_vars
Ends == (stage # "idle") ~> Idle
\* the directory and its Go files, the recursive wildcard and the plain one
Laws == stage = "idle" /\ gens = 0 => \A b \in Bases : LET N(ds, n) == NamedBy([base |-> b, form |-> [dirs |-> ds, name |-> n]]) IN
   /\ N(<<>>, <<>>) = N(<<>>, <<"*">>)
   /\ N(<<>>, <<"*", ".go">>) \subseteq N(<<"**">>, <<"*", ".go">>)
   /\ N(<<"*">>, <<"*">>) \cap N(<<>>, <<"*">>) = {}
   /\ N(<<"**">>, <<"*">>) = N(<<"**">>, <<>>)
   /\ N(<<"**">>, <<"*">>) = N(<<>>, <<"*">>) \cup N(<<"*", "**">>, <<"*">>)

Emit == Idle /\ gens = MaxGen => CSVWrite("%1$s", <<ToJson(hist)>>, Out)
=============================================================================
