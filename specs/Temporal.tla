------------------------------- MODULE Temporal -------------------------------
(* P25.  Contexts of temporary databases in one process.  Each context has its own  *)
(* connection and a schema of its own in which its objects are made; the builtins    *)
(* (db, new, ...) are those of the innermost.  pre is what the user had defined       *)
(* before.  Contexts left by an interrupt (not an Exception) do not wait for the      *)
(* server: what they had there may remain until the process ends (lost).              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS MaxDepth, MaxNew, MaxLost, Tables, Conns
VARIABLES pre, stack, lost, act, obs
vars == <<pre, stack, lost, act, obs>>
St == [pre |-> pre, stack |-> stack, lost |-> lost]
View == St
Edge == CSVWrite("%1$s", <<ToJson(<<St, act', obs', [pre |-> pre', stack |-> stack', lost |-> lost']>>)>>, IOEnv.EDGES)
Names == {"db", "new"}
D == Len(stack)
Top == stack[D]
Fresh == [conn |-> "idle", news |-> 0, tables |-> {}, assigned |-> FALSE]
Front(s) == SubSeq(s, 1, Len(s) - 1)
\* whose the builtin of the name is
Owner(s, p, n) == IF s = << >> THEN (IF n \in p THEN "user" ELSE "absent")
                  ELSE IF s[Len(s)].assigned /\ n = "db" THEN "assigned" ELSE "context"
Sessions(s) == LET f[i \in 0 .. Len(s)] == IF i = 0 THEN 0 ELSE f[i - 1] + s[i].news + (IF s[i].conn \in {"closed", "killed"} THEN 0 ELSE 1) IN f[Len(s)]
Seen(s) == [i \in 1 .. Len(s) |-> IF s[i].conn = "idle" THEN s[i].tables ELSE {"unknown"}]
Do(a, s, p, l, r) ==
    /\ stack' = s /\ pre' = p /\ lost' = l /\ act' = a
    /\ obs' = [r |-> r, owner |-> [n \in Names |-> Owner(s, p, n)], depth |-> Len(s), seen |-> Seen(s), schemas |-> Len(s), sessions |-> Sessions(s), lost |-> l]
Upd(i, f, v) == IF f = "conn" THEN [stack EXCEPT ![i].conn = v] ELSE IF f = "news" THEN [stack EXCEPT ![i].news = v]
                ELSE IF f = "tables" THEN [stack EXCEPT ![i].tables = v] ELSE [stack EXCEPT ![i].assigned = v]
\* leaving a context gives the builtins of the outer one
Again == IF stack = << >> THEN stack ELSE [stack EXCEPT ![D].assigned = FALSE]
Enter == D < MaxDepth /\ Do([op |-> "enter"], Append(stack, Fresh), pre, lost, "ok")
\* neither an unreachable server nor one which refuses the schema leaves anything
EnterFails(how) == D < MaxDepth /\ Do([op |-> "enterfails", how |-> how], IF how = "denied" THEN Again ELSE stack, pre, lost, "error")
\* a decorated function has a context for each call
Call(how) == D < MaxDepth /\ (how = "interrupt" => lost < MaxLost)
             /\ Do([op |-> "call", how |-> how], Again, pre, IF how = "interrupt" THEN lost + 1 ELSE lost, how)
Exit(how) == /\ D > 0 /\ (how = "interrupt" => lost < MaxLost)
             /\ LET s == Front(stack)
                    t == IF s # << >> THEN [s EXCEPT ![Len(s)].assigned = FALSE] ELSE s IN
                Do([op |-> "exit", how |-> how], t, pre, IF how = "interrupt" THEN lost + 1 ELSE lost, "ok")
New == D > 0 /\ Top.news < MaxNew /\ Do([op |-> "new"], Upd(D, "news", Top.news + 1), pre, lost, "ok")
CloseNew == D > 0 /\ Top.news > 0 /\ Do([op |-> "closenew"], Upd(D, "news", Top.news - 1), pre, lost, "ok")
Create(i, t) == i <= D /\ stack[i].conn = "idle" /\ t \notin stack[i].tables
                /\ Do([op |-> "create", i |-> i, t |-> t], Upd(i, "tables", stack[i].tables \cup {t}), pre, lost, "ok")
DropT(i, t) == i <= D /\ stack[i].conn = "idle" /\ t \in stack[i].tables
               /\ Do([op |-> "drop", i |-> i, t |-> t], Upd(i, "tables", stack[i].tables \ {t}), pre, lost, "ok")
\* what a context's connection is left in
Leave(c) == D > 0 /\ Top.conn = "idle" /\ c # "idle" /\ Do([op |-> "leave", c |-> c], Upd(D, "conn", c), pre, lost, "ok")
Assign == D > 0 /\ ~Top.assigned /\ Do([op |-> "assign"], Upd(D, "assigned", TRUE), pre, lost, "ok")
User(p) == D = 0 /\ p # pre /\ Do([op |-> "user", p |-> p], stack, p, lost, "ok")
Init == pre = {} /\ stack = << >> /\ lost = 0 /\ act = [op |-> "init"] /\ obs = [r |-> "ok"]
Next == \/ Enter \/ New \/ CloseNew \/ Assign
        \/ \E h \in {"unreachable", "denied"} : EnterFails(h)
        \/ \E h \in {"return", "error", "interrupt"} : Call(h)
        \/ \E h \in {"none", "error", "interrupt"} : Exit(h)
        \/ \E i \in 1 .. MaxDepth, t \in Tables : Create(i, t) \/ DropT(i, t)
        \/ \E c \in Conns : Leave(c)
        \/ \E p \in SUBSET Names : User(p)
Spec == Init /\ [][Next]_vars

\* what is done in one context does not show in another
Isolated == [][\A i \in 1 .. Len(stack) : (i <= Len(stack') /\ stack[i].tables # stack'[i].tables) => (act'.op \in {"create", "drop"} /\ act'.i = i)]_vars
NothingLeft == [][(stack' = << >>) => (obs'.sessions = 0 /\ obs'.schemas = 0 /\ \A n \in Names : obs'.owner[n] = (IF n \in pre' THEN "user" ELSE "absent"))]_vars
Nested == [][(act'.op \in {"exit", "enter"}) => (Len(stack') # Len(stack))]_vars
UserKept == [][(act'.op # "user") => pre' = pre]_vars
==============================================================================
