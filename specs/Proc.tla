---- MODULE Proc ----
\* Procedures: parameters with modes and names, called with positions and keywords.
\* Keywords are the names of input parameters; the positions are those not named, in order.
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV
CONSTANTS MaxParams
VARIABLES sig, ret, act, obs
vars == <<sig, ret, act, obs>>
View == <<sig, ret, act>>
St == [sig |-> sig, ret |-> ret]
Modes == {"in", "out", "inout", "variadic"}
Names == <<"alpha", "Be ta", "self">>
Ins(s) == SelectSeq(s, LAMBDA p : p.mode # "out")
Outs(s) == SelectSeq(s, LAMBDA p : p.mode \in {"out", "inout"})
\* variadic parameters end the inputs
Legal(s) == \A i \in 1 .. Len(s) : s[i].mode = "variadic" => \A j \in i + 1 .. Len(s) : s[j].mode = "out"
Params(i) == {[mode |-> m, name |-> n] : m \in Modes, n \in {"", Names[i]}}
RECURSIVE Sigs(_)
Sigs(n) == IF n = 0 THEN {<< >>} ELSE {Append(s, p) : s \in Sigs(n - 1), p \in Params(n)}
All == {s \in UNION {Sigs(n) : n \in 0 .. MaxParams} : Legal(s)}
\* what it returns: the type, and whether a set; outputs determine the type
Rets(s) == IF Outs(s) # << >> THEN {"outs", "setof outs"} ELSE {"int", "setof int", "pair", "setof pair", "dpair", "setof dpair", "ddpair", "single", "void", "table1", "table2"}
Composite(s, r) == IF r \in {"outs", "setof outs"} THEN Len(Outs(s)) > 1 ELSE r \in {"pair", "setof pair", "dpair", "setof dpair", "ddpair", "single", "table2"}
Set(r) == r \in {"setof outs", "setof int", "setof pair", "setof dpair", "table1", "table2"}
\* (width of its rows)
Width(s, r) == IF r \in {"outs", "setof outs"} THEN Len(Outs(s)) ELSE IF r = "single" THEN 1 ELSE IF Composite(s, r) THEN 2 ELSE 1
Edge == CSVWrite("%1$s", <<ToJson(<<St, act', obs', St'>>)>>, IOEnv.EDGES)
Init == sig = << >> /\ ret = "" /\ act = [op |-> "start"] /\ obs = [none |-> 0]
Declare == /\ ret = "" /\ \E s \in All : \E r \in Rets(s) : sig' = s /\ ret' = r
           /\ act' = [op |-> "declare"] /\ obs' = [composite |-> Composite(sig', ret'), set |-> Set(ret'), width |-> Width(sig', ret'), inputs |-> Len(Ins(sig'))]
\* the arguments 1, 2, ... are positions, 11, 12, ... those of the names in the order of the parameters
Named(s, ks) == {i \in 1 .. Len(Ins(s)) : Ins(s)[i].name \in ks}
RECURSIVE Fill(_, _, _, _)
Fill(s, ks, i, n) == IF i > Len(Ins(s)) THEN << >> ELSE IF Ins(s)[i].name \in ks THEN <<10 + i>> \o Fill(s, ks, i + 1, n) ELSE <<n>> \o Fill(s, ks, i + 1, n + 1)
Given(s) == {p.name : p \in {s[i] : i \in 1 .. Len(s)}} \ {""}
Call == /\ ret # "" /\ act.op = "declare" /\ UNCHANGED <<sig, ret>>
        /\ \E n \in 0 .. Len(Ins(sig)) + 1 : \E ks \in SUBSET (Given(sig) \cup {"unknown"}) :
             /\ act' = [op |-> "call", n |-> n, keys |-> ks]
             /\ LET fit == \A k \in ks : \E i \in 1 .. Len(Ins(sig)) : Ins(sig)[i].name = k IN
                LET ok == fit /\ n + Cardinality(ks) = Len(Ins(sig)) IN
                obs' = [ok |-> ok, args |-> IF ok THEN Fill(sig, ks, 1, 1) ELSE << >>, names |-> [i \in 1 .. Len(Ins(sig)) |-> Ins(sig)[i].name]]
Spec == Init /\ [][Declare \/ Call]_vars
\* every argument is used once
Once == (act.op = "call" /\ obs.ok) => Len(obs.args) = Len(Ins(sig)) /\ \A i, j \in 1 .. Len(obs.args) : i # j => obs.args[i] # obs.args[j]
====
