------------------------------ MODULE Version ------------------------------
(* P29.  Versions of servers and installations are understood as announced.         *)
(* A version: nums (1 to 4 numbers), cls and lev (the state: "" and -1 if absent),   *)
(* and what the packager appended, which says nothing about the version.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Nums, Classes, Levels, Packs, Lens
VARIABLES v, act, obs, ei
vars == <<v, act, obs, ei>>
View == v
None == -1
Versions == {[nums |-> n, cls |-> c, lev |-> l, pack |-> p] : n \in UNION {[1 .. k -> Nums] : k \in Lens}, c \in Classes, l \in Levels, p \in Packs}
Valid(x) == (x.cls = "" => x.lev = None)
\* --- text
RECURSIVE Dotted(_, _)
Dotted(n, i) == IF i > Len(n) THEN "" ELSE (IF i > 1 THEN "." ELSE "") \o ToString(n[i]) \o Dotted(n, i + 1)
Bare(x) == Dotted(x.nums, 1) \o x.cls \o (IF x.lev = None THEN "" ELSE ToString(x.lev))
Text(x) == Bare(x) \o x.pack
\* --- what it denotes: at least three numbers, then the state
Pad(n, z) == IF Len(n) >= 3 THEN n ELSE n \o [i \in 1 .. 3 - Len(n) |-> z]
Split(x) == [nums |-> Pad(x.nums, None), cls |-> x.cls, lev |-> x.lev]
Normal(x) == [nums |-> Pad(x.nums, 0), cls |-> IF x.cls = "" THEN "final" ELSE x.cls, lev |-> IF x.lev = None THEN 0 ELSE x.lev]
\* --- laws
Less(a, b) == \E i \in 1 .. Len(a) : i <= Len(b) /\ a[i] < b[i] /\ \A j \in 1 .. i - 1 : a[j] = b[j]
Feature(x) == SubSeq(Normal(x).nums, 1, 2)
Init == v \in {x \in Versions : Valid(x)} /\ act = 0 /\ obs = 0 /\ ei = 0
Next == /\ act = 0 /\ act' = [op |-> "read", text |-> Text(v), bare |-> Bare(v)] /\ obs' = [split |-> Split(v), normal |-> Normal(v)] /\ UNCHANGED <<v, ei>>
Spec == Init /\ [][Next]_vars
Laws == \* appended text and states do not change the numbers by which features are chosen
        /\ Split([v EXCEPT !.pack = ""]) = Split(v) /\ Normal([v EXCEPT !.pack = ""]) = Normal(v)
        /\ Feature([v EXCEPT !.cls = "", !.lev = None]) = Feature(v)
        /\ Len(Normal(v).nums) >= 3
Edge == CSVWrite("%1$s", <<ToJson(<<v, act', obs', v>>)>>, IOEnv.EDGES)
----------------------------------------------------------------------------
\* Judging what was recorded: e.v the version which was announced, e.op how.
\* Options of the configuration: the last of equally named ones counts; a flag is TRUE.
Find(os, k) == LET at == {i \in DOMAIN os : os[i].key = k} IN os[CHOOSE i \in at : \A j \in at : j <= i].val
Keys(os) == {os[i].key : i \in DOMAIN os}
Options(os, got) == Keys(os) = Keys(got) /\ Len(got) = Cardinality(Keys(os)) /\ \A k \in Keys(os) : Find(os, k) = Find(got, k)
Ssl(os) == \E k \in Keys(os) : k \in {"with_openssl", "with_ssl"}
Say(x) == "expected " \o ToString(x)
Judge(e) ==
    IF e.err # "" THEN "no error expected"
    ELSE CASE e.op = "split" -> IF e.r # Split(e.v) THEN Say(Split(e.v)) ELSE ""
           [] e.op = "normalize" -> IF e.r # Normal(e.v) THEN Say(Normal(e.v)) ELSE ""
           [] e.op = "unsplit" -> IF e.r # Bare(e.v) THEN Say(Bare(e.v)) ELSE ""
           [] e.op = "connect" -> IF e.r # Normal(e.v) THEN Say(Normal(e.v)) ELSE ""
           [] e.op = "install" -> IF e.r.version # Normal(e.v) THEN Say(Normal(e.v)) ELSE IF e.r.type # "PostgreSQL" THEN Say("PostgreSQL")
                                  ELSE IF ~Options(e.options, e.r.options) THEN "options: " \o Say(e.options)
                                  ELSE IF e.r.ssl # Ssl(e.options) THEN "ssl: " \o Say(Ssl(e.options))
                                  ELSE IF e.r.found # e.present THEN "executables: " \o Say(e.present)
                                  ELSE IF e.r.dirs # e.dirs THEN "directories: " \o Say(e.dirs) ELSE ""
           \* the installation of the environment, else the first of the path, else none
           [] e.op = "default" -> LET w == IF e.env # "" THEN e.env ELSE IF e.path = <<>> THEN "" ELSE e.path[1] IN IF e.r # w THEN Say(w) ELSE ""
Cases == JsonDeserialize(IOEnv.CASES)
Out(k) == LET z == Judge(Cases[k]) IN IF z = "" THEN TRUE ELSE CSVWrite("%1$s", <<ToString(k) \o " " \o z>>, IOEnv.VERDICTS)
EvalInit == ei = 0 /\ v = 0 /\ act = 0 /\ obs = 0
EvalNext == /\ ei < Len(Cases) /\ Out(ei + 1) /\ ei' = ei + 1
            /\ (ei' = Len(Cases) => CSVWrite("%1$s", <<"done " \o ToString(ei')>>, IOEnv.VERDICTS))
            /\ UNCHANGED <<v, act, obs>>
EvalSpec == EvalInit /\ [][EvalNext]_vars
=============================================================================
