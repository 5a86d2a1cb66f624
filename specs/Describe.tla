------------------------------ MODULE Describe ------------------------------
(* P28.  A statement and its results describe themselves as the server does.        *)
(* What is described is a function of the statement alone: not of the transaction    *)
(* block, of what was read, of what else was prepared, or of having been closed.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Slots, Kinds, Hows

VARIABLES blk, st, out, act, obs, ei
vars == <<blk, st, out, act, obs, ei>>
View == <<blk, st, out>>
St == [blk |-> blk, st |-> st, out |-> out]
\* st[s]: "none"; "lazy" (the server has not been asked yet); "open"; "closed"; "vague" (closed before it was asked)
\* out[s]: the result read by means of the statement: "none", "some", "over"
Init == blk = "I" /\ st = [s \in Slots |-> "none"] /\ out = [s \in Slots |-> "none"] /\ act = [op |-> "init"] /\ obs = [blk |-> "I", st |-> "none"] /\ ei = 0
Do(a) == act' = a /\ obs' = [blk |-> blk, st |-> IF "slot" \in DOMAIN a THEN st[a.slot] ELSE "none"] /\ UNCHANGED ei
Known(x) == x \in {"open", "closed"}
Usable(s) == st[s] \in {"lazy", "open"} /\ blk # "E"
Prepare(s, h) == /\ st[s] \in {"none", "closed", "vague"} /\ blk # "E"
                 /\ st' = [st EXCEPT ![s] = IF h = "id" THEN "lazy" ELSE "open"] /\ out' = [out EXCEPT ![s] = "none"] /\ UNCHANGED blk
                 /\ Do([op |-> "prepare", slot |-> s, how |-> h])
Describe(s) == /\ st[s] # "none" /\ st' = [st EXCEPT ![s] = IF @ = "lazy" /\ blk # "E" THEN "open" ELSE @] /\ UNCHANGED <<blk, out>>
               /\ Do([op |-> "describe", slot |-> s])
Exec(s) == /\ Usable(s) /\ st' = [st EXCEPT ![s] = "open"] /\ UNCHANGED <<blk, out>> /\ Do([op |-> "exec", slot |-> s])
Open(s, k) == /\ Usable(s) /\ st' = [st EXCEPT ![s] = "open"] /\ out' = [out EXCEPT ![s] = "some"] /\ UNCHANGED blk
              /\ (k = "cid" => blk = "T")
              /\ Do([op |-> "open", slot |-> s, kind |-> k])
DescOut(s) == out[s] # "none" /\ UNCHANGED <<blk, st, out>> /\ Do([op |-> "descout", slot |-> s])
Read(s) == out[s] = "some" /\ blk # "E" /\ out' = [out EXCEPT ![s] = "over"] /\ UNCHANGED <<blk, st>> /\ Do([op |-> "read", slot |-> s])
Close(s) == /\ st[s] \in {"lazy", "open"} /\ st' = [st EXCEPT ![s] = IF @ = "lazy" THEN "vague" ELSE "closed"] /\ UNCHANGED <<blk, out>>
            /\ Do([op |-> "close", slot |-> s])
\* results do not outlive the block in which they were opened
Over == [s \in Slots |-> IF out[s] = "some" THEN "over" ELSE out[s]]
Begin == blk = "I" /\ blk' = "T" /\ UNCHANGED <<st, out>> /\ Do([op |-> "begin"])
End == blk # "I" /\ blk' = "I" /\ out' = Over /\ UNCHANGED st /\ Do([op |-> "end"])
Fail == blk = "T" /\ blk' = "E" /\ out' = Over /\ UNCHANGED st /\ Do([op |-> "fail"])
Next == (\E s \in Slots : Describe(s) \/ Exec(s) \/ DescOut(s) \/ Read(s) \/ Close(s) \/ (\E h \in Hows : Prepare(s, h)) \/ (\E k \in Kinds : Open(s, k)))
        \/ Begin \/ End \/ Fail
Spec == Init /\ [][Next]_vars
TypeOK == blk \in {"I", "T", "E"} /\ \A s \in Slots : out[s] # "none" => st[s] # "none"
\* once known, a description stays known until the statement is another one
Stays == [][\A s \in Slots : Known(st[s]) /\ act'.op # "prepare" => Known(st'[s])]_vars

----------------------------------------------------------------------------
\* The judgement of recorded behaviour.  e.is: what the server says of the statement (taken
\* from the server by another client): rows, names, oids, params (oids); tag and count.
\* e.got: how the library describes it; the SQL names of the types as the oids which the
\* server finds by these names.
PyOf == ("int2" :> "int") @@ ("int4" :> "int") @@ ("int8" :> "int") @@ ("oid" :> "int") @@ ("text" :> "str") @@ ("varchar" :> "str") @@ ("bpchar" :> "str")
        @@ ("name" :> "str") @@ ("numeric" :> "Decimal") @@ ("float4" :> "float") @@ ("float8" :> "float") @@ ("bool" :> "bool") @@ ("bytea" :> "bytes")
        @@ ("date" :> "date") @@ ("timestamp" :> "datetime") @@ ("timestamptz" :> "datetime") @@ ("time" :> "time") @@ ("timetz" :> "time") @@ ("interval" :> "timedelta")
        @@ ("bit" :> "Bit") @@ ("varbit" :> "Varbit") @@ ("uuid" :> "UUID") @@ ("point" :> "Point") @@ ("box" :> "Box") @@ ("lseg" :> "Lseg") @@ ("circle" :> "Circle")
        @@ ("array" :> "Array") @@ ("row" :> "tuple") @@ ("enum" :> "str") @@ ("json" :> "str") @@ ("inet" :> "str") @@ ("char" :> "bytes")
Py(ks) == [i \in DOMAIN ks |-> PyOf[ks[i]]]
Columns(w, is, g) ==
    IF g.rows # is.rows THEN w \o ": rows expected: " \o ToString(is.rows)
    ELSE IF ~is.rows THEN ""
    ELSE IF g.names # is.names THEN w \o ": names expected: " \o ToString(is.names)
    ELSE IF g.oids # is.oids THEN w \o ": types expected: " \o ToString(is.oids)
    ELSE IF g.sqls # is.oids THEN w \o ": names of types do not denote " \o ToString(is.oids)
    ELSE IF g.pys # Py(is.keys) THEN w \o ": Python types expected: " \o ToString(Py(is.keys)) ELSE ""
Params(is, g) ==
    IF g.poids # is.poids THEN "parameters expected: " \o ToString(is.poids)
    ELSE IF g.psqls # is.poids THEN "names of types of parameters do not denote " \o ToString(is.poids)
    ELSE IF g.ppys # Py(is.pkeys) THEN "Python types of parameters expected: " \o ToString(Py(is.pkeys)) ELSE ""
Check(e) ==
    IF e.r # "ok" THEN IF e.op = "describe" /\ e.st = "lazy" /\ e.blk = "E" /\ e.r = "25P02" THEN "" ELSE "no error expected"
    ELSE CASE e.op = "describe" -> IF e.st = "vague" \/ (e.st = "lazy" /\ e.blk = "E") THEN ""
                                   ELSE LET c == Columns("statement", e.is, e.got) IN IF c # "" THEN c ELSE Params(e.is, e.got)
           [] e.op = "descout" -> Columns("result", e.is, e.got)
           [] e.op = "exec" -> IF e.got # e.is.result THEN "result expected: " \o ToString(e.is.result) ELSE ""
           [] OTHER -> ""
RECURSIVE First(_, _)
First(es, i) == IF i > Len(es) THEN "" ELSE LET c == Check(es[i]) IN IF c # "" THEN "event " \o ToString(i) \o " " \o c ELSE First(es, i + 1)
Cases == JsonDeserialize(IOEnv.CASES)
Verdict(c) == First(c.events, 1)
Out(k) == LET v == Verdict(Cases[k]) IN IF v = "" THEN TRUE ELSE CSVWrite("%1$s", <<ToString(k) \o " " \o v>>, IOEnv.VERDICTS)
EvalInit == ei = 0 /\ blk = 0 /\ st = 0 /\ out = 0 /\ act = 0 /\ obs = 0
EvalNext == /\ ei < Len(Cases) /\ Out(ei + 1) /\ ei' = ei + 1
            /\ (ei' = Len(Cases) => CSVWrite("%1$s", <<"done " \o ToString(ei')>>, IOEnv.VERDICTS))
            /\ UNCHANGED <<blk, st, out, act, obs>>
EvalSpec == EvalInit /\ [][EvalNext]_vars
Edge == CSVWrite("%1$s", <<ToJson(<<St, act', obs', St'>>)>>, IOEnv.EDGES)
=============================================================================
