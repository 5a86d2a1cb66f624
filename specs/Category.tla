---- MODULE Category ----
\* Categories: libraries are bound to connections under their own names or those given;
\* attributes of connections are never replaced.
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV
CONSTANTS Libs, Own, Names, Taken
VARIABLES direct, named, act, obs
vars == <<direct, named, act, obs>>
View == vars
St == [direct |-> direct, named |-> named]
None == "none"
Edge == CSVWrite("%1$s", <<ToJson(<<St, act', obs', St'>>)>>, IOEnv.EDGES)
Init == direct \in SUBSET Libs /\ named \in [Names -> Libs \cup {None}] /\ act = [op |-> "start"] /\ obs = [none |-> 0]
\* what a name is bound to
Bound(n) == {l \in direct : Own[l] = n} \cup (IF n \in Names /\ named[n] # None THEN {named[n]} ELSE {})
Used == {n \in Names \cup {Own[l] : l \in Libs} : Bound(n) # {}}
Conflict == (\E n \in Used : n \in Taken) \/ (\E n \in Used : Cardinality(Bound(n)) > 1)
\* (the same twice)
Twice == \E l \in direct : Own[l] \in Names /\ named[Own[l]] = l
Connect == /\ act.op = "start" /\ UNCHANGED <<direct, named>> /\ act' = [op |-> "connect"]
           /\ obs' = [ok |-> ~Conflict, either |-> ~Conflict /\ Twice, bound |-> [n \in Used |-> Bound(n)]]
Spec == Init /\ [][Connect]_vars
Unique == (act.op = "connect" /\ obs.ok) => \A n \in DOMAIN obs.bound : Cardinality(obs.bound[n]) = 1
====
