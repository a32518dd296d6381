------------------------------- MODULE Config -------------------------------
(* C18: where the value of every setting comes from.  Configuration files    *)
(* and the caller give some settings; loading starts from the defaults, lays *)
(* the first existing file over them and then what the caller gives.         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, CSV

CONSTANTS Names,      \* how many of the documented file names may exist
          Settings,   \* the settings that occur
          Calls,      \* those a caller may give (the command line gives sources only)
          MayName,    \* whether the caller may name the file to read
          MaxFile, MaxCall, MinTotal, Out
VARIABLES files, caller, named, pc, cfg
vars == <<files, caller, named, pc, cfg>>

All == {"src", "driver", "naming", "tag", "quote", "readonly", "strict", "skipempty", "execfile", "prefix",
        "dbpkg", "dbdir", "dbfile", "oppkg", "opdir", "opfile", "migdsn", "migpkg", "migdir", "migfile",
        "omitgetters", "sourcemap", "skipheader", "skiptidy", "dtA", "dtB", "dtC"}
Migration == {"migdsn", "migpkg", "migdir", "migfile"}
\* a setting that, when nobody gives it, has the value of another one
Follows == [oppkg |-> "dbpkg", opdir |-> "dbdir"]
Unset == {"migdsn", "dtA", "dtB", "dtC"}       \* without default

None == [absent |-> TRUE, given |-> {}]
Exists(f) == ~f.absent
\* the file that is read: the one that is named, else the first one of the documented order
Found(fs) == IF \E i \in 1..Names : Exists(fs[i]) THEN CHOOSE i \in 1..Names : Exists(fs[i]) /\ \A j \in 1..i-1 : ~Exists(fs[j]) ELSE 0
First(fs) == IF named # 0 THEN named ELSE Found(fs)

Init == /\ files = [i \in 1..Names |-> None]
        /\ caller = {} /\ named = 0 /\ pc = "writing"
        /\ cfg = [s \in All |-> "none"]

Create(i) == /\ pc = "writing" /\ ~Exists(files[i])
             /\ files' = [files EXCEPT ![i] = [absent |-> FALSE, given |-> {}]]
             /\ UNCHANGED <<caller, named, pc, cfg>>
Write(i, s) == /\ pc = "writing" /\ Exists(files[i]) /\ s \notin files[i].given /\ Cardinality(files[i].given) < MaxFile
               /\ files' = [files EXCEPT ![i].given = @ \cup {s}]
               /\ UNCHANGED <<caller, named, pc, cfg>>
Give(s) == /\ pc = "writing" /\ s \notin caller /\ Cardinality(caller) < MaxCall
           /\ caller' = caller \cup {s}
           /\ UNCHANGED <<files, named, pc, cfg>>
Name(i) == /\ pc = "writing" /\ MayName /\ Exists(files[i]) /\ named = 0
           /\ named' = i
           /\ UNCHANGED <<files, caller, pc, cfg>>

Total == Cardinality(caller) + Cardinality(UNION {files[i].given : i \in 1..Names})
Begin == /\ pc = "writing" /\ Total >= MinTotal
         /\ cfg' = [s \in All |-> IF s \in DOMAIN Follows \cup Unset THEN "none" ELSE "default"]
         /\ pc' = "defaults" /\ UNCHANGED <<files, caller, named>>
Lay(level, given) == [s \in All |-> IF s \in given THEN level ELSE cfg[s]]
Read == /\ pc = "defaults"
        /\ cfg' = IF First(files) = 0 THEN cfg ELSE Lay("file", files[First(files)].given)
        /\ pc' = "read" /\ UNCHANGED <<files, caller, named>>
Merge == /\ pc = "read"
         /\ cfg' = Lay("caller", caller)
         /\ pc' = "merged" /\ UNCHANGED <<files, caller, named>>
Fill == /\ pc = "merged"
        /\ LET HasMig == \E s \in Migration : cfg[s] \in {"file", "caller"}
           IN cfg' = [s \in All |->
                IF s \in Migration /\ ~HasMig THEN "none"
                ELSE IF s \in DOMAIN Follows /\ cfg[s] = "none" THEN "as " \o cfg[Follows[s]]
                ELSE cfg[s]]
        /\ pc' = "done" /\ UNCHANGED <<files, caller, named>>

Next == \/ \E i \in 1..Names : (Create(i) \/ Name(i) \/ \E s \in Settings : Write(i, s))
        \/ \E s \in Settings \cap Calls : Give(s)
        \/ Begin \/ Read \/ Merge \/ Fill
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------ what is effective, said at once
Effective(s) ==
  IF s \in caller THEN "caller"
  ELSE IF First(files) # 0 /\ s \in files[First(files)].given THEN "file"
  ELSE "other"
Done == pc = "done" => \A s \in All :
   CASE Effective(s) # "other" -> cfg[s] = Effective(s)
     [] s \in DOMAIN Follows -> cfg[s] = "as " \o cfg[Follows[s]]
     [] s \in Unset -> cfg[s] = "none"
     [] s \in Migration -> cfg[s] = (IF \E m \in Migration : Effective(m) # "other" THEN "default" ELSE "none")
     [] OTHER -> cfg[s] = "default"
\* a level changes nothing but what it gives
Rank(v) == CASE v = "none" -> 0 [] v = "default" -> 1 [] v = "file" -> 2 [] v = "caller" -> 3 [] OTHER -> 0
KeepStep == pc \in {"defaults", "read"} => \A s \in All : (cfg'[s] # cfg[s]) => (Rank(cfg'[s]) > Rank(cfg[s]))
Keeps == [][KeepStep]_vars
\* files behind the first one have no influence
OnlyFirst == pc = "done" => \A s \in All : cfg[s] = "file" => s \in files[First(files)].given

Emit == pc = "done" =>
  CSVWrite("%1$s", <<ToJson([files |-> [i \in 1..Names |-> IF Exists(files[i]) THEN [given |-> files[i].given] ELSE [absent |-> TRUE]],
                             caller |-> caller, first |-> First(files), named |-> named, cfg |-> cfg])>>, Out)
=============================================================================
