-------------------------------- MODULE Xact --------------------------------
(* P07.  Transaction objects of one connection and the server's transaction.   *)
(* stack is the server's transaction: the block and its savepoints, each with   *)
(* the object that started it and the rows written while it was innermost.      *)
(* saved is the data which survives.  pend is a result that is still being       *)
(* received and turns out to have failed.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Cfg,       \* configuration of each object: "plain", "serial", "readonly"
          MaxRow, Extras   \* Extras: subset of {"lazy", "lost", "bad"}
VARIABLES ost, oty, stack, saved, failed, pend, lost, nrow, encl, excused, act, obs
vars == <<ost, oty, stack, saved, failed, pend, lost, nrow, encl, excused, act, obs>>
St == [ost |-> ost, oty |-> oty, stack |-> stack, saved |-> saved, failed |-> failed, pend |-> pend, lost |-> lost, nrow |-> nrow, encl |-> encl, excused |-> excused]
View == St
Objs == DOMAIN Cfg
Bad(row) == row < 0
Pos(s, o) == LET P == {i \in 1 .. Len(s.stack) : s.stack[i].o = o} IN IF P = {} THEN 0 ELSE CHOOSE i \in P : TRUE
AllRows(s) == UNION {s.stack[i].rows : i \in 1 .. Len(s.stack)}
Res(s, r) == [s |-> s, r |-> r]
Settle(s) == IF s.pend THEN [s EXCEPT !.pend = FALSE, !.failed = TRUE] ELSE s
Readonly(s) == Len(s.stack) > 0 /\ Cfg[s.stack[1].o] = "readonly"

\* an instruction is refused at once, or the connection is lost, or what was running has failed
Guard(s, do(_)) == IF s.lost THEN Res(s, "closed") ELSE IF s.pend THEN Res(Settle(s), "pending") ELSE do(s)
Start(s, o) ==
    LET do(t) == IF t.stack = << >>
                 THEN Res([t EXCEPT !.stack = <<[o |-> o, rows |-> {}]>>, !.ost[o] = "open", !.oty[o] = "block"], "ok")
                 ELSE IF t.failed THEN Res([t EXCEPT !.oty[o] = "savepoint"], "infailed")
                 ELSE Res([t EXCEPT !.stack = Append(@, [o |-> o, rows |-> {}]), !.ost[o] = "open", !.oty[o] = "savepoint"], "ok") IN
    IF s.ost[o] = "open" THEN Res(s, "ok")
    ELSE IF s.ost[o] # "init" THEN Res(s, "operr")
    ELSE IF s.stack # << >> /\ Cfg[o] # "plain" THEN Res([s EXCEPT !.oty[o] = "savepoint"], "operr")
    ELSE LET z == Guard(s, do) IN
         IF z.r \in {"pending", "closed"} THEN Res([z.s EXCEPT !.oty[o] = IF s.stack = << >> THEN "block" ELSE "savepoint"], z.r) ELSE z
Rollback(s, o) ==
    LET do(t) == IF t.oty[o] = "block" THEN Res([t EXCEPT !.stack = << >>, !.failed = FALSE, !.ost[o] = "aborted"], "ok")
                 ELSE IF t.stack = << >> THEN Res(t, "noxact")
                 ELSE IF Pos(t, o) < 2 THEN Res([t EXCEPT !.failed = TRUE], "nosavepoint")
                 ELSE Res([t EXCEPT !.stack = SubSeq(@, 1, Pos(t, o) - 1), !.failed = FALSE, !.ost[o] = "aborted"], "ok") IN
    IF s.ost[o] = "aborted" THEN Res(s, "ok")
    ELSE IF s.ost[o] # "open" THEN Res(s, "operr")
    ELSE Guard(s, do)
Commit(s, o) ==
    LET do(t) == IF t.oty[o] = "block"
                 THEN \* COMMIT in a failed block implies a rollback (documented)
                      IF t.failed THEN Res([t EXCEPT !.stack = << >>, !.failed = FALSE, !.ost[o] = "committed", !.excused = @ \cup AllRows(t)], "ok")
                      ELSE IF \E x \in AllRows(t) : Bad(x) THEN Res([t EXCEPT !.stack = << >>, !.ost[o] = "aborted"], "constraint")
                      ELSE Res([t EXCEPT !.stack = << >>, !.ost[o] = "committed", !.saved = @ \cup AllRows(t)], "ok")
                 ELSE IF t.stack = << >> THEN Res(t, "noxact")
                 ELSE IF t.failed THEN Res(t, "infailed")
                 ELSE LET p == Pos(t, o) IN
                      IF p < 2 THEN Res([t EXCEPT !.failed = TRUE], "nosavepoint")
                      ELSE Res([t EXCEPT !.ost[o] = "committed",
                                !.stack = [i \in 1 .. p - 1 |-> IF i < p - 1 THEN @[i] ELSE
                                            [o |-> @[i].o, rows |-> UNION {@[j].rows : j \in p - 1 .. Len(@)}]]], "ok") IN
    IF s.ost[o] = "committed" THEN Res(s, "ok")
    ELSE IF s.ost[o] # "open" THEN Res(s, "operr")
    ELSE Guard(s, do)
Exit(s0, o) ==
    LET s == Settle(s0) IN
    IF s.failed THEN LET z == Rollback(s, o) IN Res(z.s, IF z.r = "ok" THEN "infailed" ELSE z.r)
    ELSE LET z == Commit(s, o) IN
         IF z.r # "ok" /\ z.s.failed THEN LET y == Rollback(z.s, o) IN Res(y.s, IF y.r = "ok" THEN z.r ELSE y.r) ELSE z
ExitExc(s0, o) == IF s0.lost THEN Res(s0, "ok") ELSE Rollback(Settle(s0), o)
\* writing row x
Write(s, x) ==
    LET do(t) == IF t.failed THEN Res(t, "infailed")
                 ELSE IF Readonly(t) THEN Res([t EXCEPT !.failed = TRUE], "readonly")
                 ELSE IF t.stack = << >> THEN IF Bad(x) THEN Res(t, "constraint") ELSE Res([t EXCEPT !.saved = @ \cup {x}], "ok")
                 ELSE Res([t EXCEPT !.stack[Len(t.stack)].rows = @ \cup {x}], "ok")
        z == Guard(s, do) IN
    Res([z.s EXCEPT !.nrow = @ + 1, !.encl = Append(@, IF z.r = "ok" THEN {s.stack[i].o : i \in 1 .. Len(s.stack)} ELSE {})], z.r)
\* a failing statement
Fail(s) == LET do(t) == IF t.failed THEN Res(t, "infailed") ELSE Res([t EXCEPT !.failed = t.stack # << >>], "failed") IN Guard(s, do)

Do(s, a) == CASE a.op = "start" -> Start(s, a.o) [] a.op = "commit" -> Commit(s, a.o) [] a.op = "rollback" -> Rollback(s, a.o)
              [] a.op = "exit" -> Exit(s, a.o) [] a.op = "exitexc" -> ExitExc(s, a.o)
              [] a.op = "write" -> Write(s, a.row) [] a.op = "fail" -> Fail(s)
              [] a.op = "lazy" -> Res([s EXCEPT !.pend = TRUE], "ok") [] a.op = "lose" -> Res([s EXCEPT !.lost = TRUE, !.stack = << >>], "ok")
Acts == [op : {"start", "commit", "rollback", "exit", "exitexc"}, o : Objs]
        \cup (IF nrow < MaxRow THEN [op : {"write"}, row : {nrow + 1} \cup (IF "bad" \in Extras THEN {- (nrow + 1)} ELSE {})] ELSE {})
        \cup {[op |-> "fail"]}
        \cup (IF "lazy" \in Extras /\ stack # << >> /\ ~failed /\ ~pend /\ ~lost THEN {[op |-> "lazy"]} ELSE {})
        \cup (IF "lost" \in Extras /\ ~failed /\ ~pend /\ ~lost THEN {[op |-> "lose"]} ELSE {})
Init == /\ ost = [o \in Objs |-> "init"] /\ oty = [o \in Objs |-> "none"] /\ stack = << >> /\ saved = {} /\ failed = FALSE /\ pend = FALSE
        /\ lost = FALSE /\ nrow = 0 /\ encl = << >> /\ excused = {} /\ act = [op |-> "init"] /\ obs = "ok"
Next == \E a \in Acts : LET z == Do(St, a) IN
        /\ act' = a /\ obs' = z.r
        /\ ost' = z.s.ost /\ oty' = z.s.oty /\ stack' = z.s.stack /\ saved' = z.s.saved /\ failed' = z.s.failed /\ pend' = z.s.pend
        /\ lost' = z.s.lost /\ nrow' = z.s.nrow /\ encl' = z.s.encl /\ excused' = z.s.excused
Spec == Init /\ [][Next]_vars

Abs(x) == IF x < 0 THEN -x ELSE x
\* nothing written inside a scope that was rolled back survives
NoGhosts == \A x \in saved : \A o \in encl[Abs(x)] : ost[o] # "aborted"
\* everything written in scopes all of which are committed survives, but for the documented exception
NoLoss == \A i \in 1 .. nrow : encl[i] # {} /\ (\A o \in encl[i] : ost[o] = "committed") => i \in saved \/ i \in excused \/ -i \in excused
\* what survives never disappears
Durable == [][saved \subseteq saved']_vars
\* leaving a scope normally without an error means that it was committed, and never hides a failure
ExitCommits == [][(act'.op = "exit" /\ obs' = "ok") => ost'[act'.o] = "committed" /\ ~failed /\ ~pend]_vars
\* leaving a scope that is the innermost one never leaves the failure behind
ExitResolves == [][(act'.op \in {"exit", "exitexc"} /\ ~lost /\ stack # << >> /\ stack[Len(stack)].o = act'.o)
                   => ~failed' /\ ~pend' /\ ost'[act'.o] \in {"committed", "aborted"} /\ Len(stack') = Len(stack) - 1]_vars
\* an object never leaves a final state
Final == [][\A o \in Objs : ost[o] \in {"committed", "aborted"} => ost'[o] = ost[o]]_vars
Edge == CSVWrite("%1$s", <<ToJson(<<St, act', [r |-> obs'], St'>>)>>, IOEnv.EDGES)
=============================================================================
