-------------------------------- MODULE Hooks --------------------------------
(* P04.  A message travels from its creator outward along the prime factors    *)
(* to the system hook; the first hook which returns true (or raises) ends it.  *)
EXTENDS Integers, Sequences, TLC, Json, CSV, IOUtils
CONSTANTS MaxDepth, Kinds   \* Kinds: what an object's hook may be
VARIABLES chain, at, called, done, act, obs
vars == <<chain, at, called, done, act, obs>>
View == <<chain, at, done>>
St == [chain |-> chain, at |-> at, done |-> done]
Init == /\ chain \in UNION {[1 .. d -> Kinds] : d \in 1 .. MaxDepth}
        /\ at = 1 /\ called = <<>> /\ done = "no" /\ act = [op |-> "emit"] /\ obs = [r |-> "ok"]
Visit == /\ done = "no" /\ at <= Len(chain)
         /\ LET k == chain[at] IN
            /\ act' = [op |-> "visit", at |-> at]
            /\ called' = IF k = "none" THEN called ELSE Append(called, at)
            /\ done' = IF k \in {"true", "raise"} THEN k ELSE "no"
            /\ at' = IF k \in {"true", "raise"} THEN at ELSE at + 1
            /\ obs' = [r |-> k, called |-> called', at |-> at, chain |-> chain]
         /\ UNCHANGED chain
\* nobody trapped it
System == /\ done = "no" /\ at = Len(chain) + 1
          /\ act' = [op |-> "system", at |-> at] /\ done' = "system"
          /\ obs' = [r |-> "system", called |-> called, at |-> at, chain |-> chain]
          /\ UNCHANGED <<chain, at, called>>
Next == Visit \/ System
Spec == Init /\ [][Next]_vars
\* calls are in order, each object at most once, none behind a trap
Ordered == /\ \A i, j \in 1 .. Len(called) : i < j => called[i] < called[j]
           /\ \A i \in 1 .. Len(called) - 1 : chain[called[i]] = "false"
           /\ done = "system" => \A i \in 1 .. Len(chain) : chain[i] \in {"none", "false"}
Edge == CSVWrite("%1$s", <<ToJson(<<St, act', obs', St'>>)>>, IOEnv.EDGES)
=============================================================================
