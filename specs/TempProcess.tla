----------------------------- MODULE TempProcess -----------------------------
(* P25.  The temporary cluster of a process: made when the first context of an      *)
(* instance is entered, removed with its server when the process ends, whatever is   *)
(* still connected, and only by the process that made it, not by its children.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Insts, MaxDepth, MaxLinger
VARIABLES made,     \* the instances whose cluster exists
          depth, child, linger, ended, act, obs
vars == <<made, depth, child, linger, ended, act, obs>>
St == [made |-> made, depth |-> depth, child |-> child, linger |-> linger, ended |-> ended]
View == St
Edge == CSVWrite("%1$s", <<ToJson(<<St, act', obs', [made |-> made', depth |-> depth', child |-> child', linger |-> linger', ended |-> ended']>>)>>, IOEnv.EDGES)
Obs == obs' = [clusters |-> Cardinality(made')]
Total == LET RECURSIVE sum(_) sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN depth[x] + sum(S \ {x}) IN sum(Insts)
Enter(x) == /\ ~ended /\ child = "none" /\ depth[x] < MaxDepth /\ (\A y \in Insts : y # x => depth[y] = 0) /\ made' = made \cup {x} /\ depth' = [depth EXCEPT ![x] = @ + 1]
            /\ UNCHANGED <<child, linger, ended>> /\ act' = [op |-> "enter", x |-> x] /\ Obs
Exit(x, how) == /\ ~ended /\ child = "none" /\ depth[x] > 0 /\ depth' = [depth EXCEPT ![x] = @ - 1]
                /\ UNCHANGED <<made, child, linger, ended>> /\ act' = [op |-> "exit", x |-> x, how |-> how] /\ Obs
\* a connection somebody keeps: idle, or with an open transaction
Linger(x, how) == /\ ~ended /\ child = "none" /\ x \in made /\ linger < MaxLinger /\ linger' = linger + 1 /\ UNCHANGED <<made, depth, child, ended>> /\ act' = [op |-> "linger", x |-> x, how |-> how] /\ Obs
\* a child forked: it may use the cluster, and ends by itself
Fork == /\ ~ended /\ child = "none" /\ made # {} /\ Total = 0 /\ child' = "idle" /\ UNCHANGED <<made, depth, linger, ended>> /\ act' = [op |-> "fork"] /\ Obs
ChildUse(x) == /\ child = "idle" /\ x \in made /\ child' = "used" /\ UNCHANGED <<made, depth, linger, ended>> /\ act' = [op |-> "childuse", x |-> x] /\ Obs
ChildEnd(how) == /\ child # "none" /\ child' = "none" /\ UNCHANGED <<made, depth, linger, ended>> /\ act' = [op |-> "childend", how |-> how] /\ Obs
End(how) == /\ ~ended /\ child = "none" /\ made # {} /\ ended' = TRUE /\ made' = {} /\ UNCHANGED <<depth, child, linger>> /\ act' = [op |-> "end", how |-> how] /\ Obs
Init == made = {} /\ depth = [x \in Insts |-> 0] /\ child = "none" /\ linger = 0 /\ ended = FALSE /\ act = [op |-> "init"] /\ obs = [clusters |-> 0]
Next == \/ \E x \in Insts : Enter(x) \/ (\E h \in {"none", "error", "interrupt"} : Exit(x, h)) \/ (\E h \in {"idle", "xact", "other"} : Linger(x, h)) \/ ChildUse(x)
        \/ Fork \/ (\E h \in {"exit", "error"} : ChildEnd(h)) \/ (\E h \in {"return", "error", "exit"} : End(h))
Spec == Init /\ [][Next]_vars
OnlyEndRemoves == [][(made' \subseteq made /\ made' # made) => act'.op = "end"]_vars
NothingRemains == ended => made = {}
==============================================================================
