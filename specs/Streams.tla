------------------------------- MODULE Streams -------------------------------
(* P09.  Results that are consumed piece by piece (streams) on one connection,  *)
(* interleaved with each other, with transaction control and with other           *)
(* commands.  A result has rows 1 .. n, of which row bad (0: none) cannot be        *)
(* computed by the server (cls "srv") or decoded by the client (cls "dec").         *)
(* Legal(s, e) is the set of states after the recorded event e in state s; empty:   *)
(* e breaks the property.  The generator (Spec) produces schedules.                *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Slots, Kinds, Bads

None == [st |-> "none", kind |-> "", n |-> 0, bad |-> 0, cls |-> "", pos |-> 0, where |-> "", hurt |-> FALSE]
\* blk: "I" no transaction, "T" in one, "E" in a failed one;  sp: savepoint set
\* zomb: a stream that was given up may have failed;  perm, tmp, mark: rows written for good, in this transaction, before the savepoint
S0 == [blk |-> "I", sp |-> FALSE, zomb |-> FALSE, perm |-> << >>, tmp |-> << >>, mark |-> << >>, str |-> [i \in Slots |-> None]]
Live(s) == {i \in Slots : s.str[i].st = "live"}
\* streams whose failure has not been reported: any operation may have to report it (and is not performed then)
Pend(s) == {i \in Live(s) : (s.str[i].bad > 0 /\ s.str[i].cls = "srv") \/ s.str[i].hurt} \cup {i \in Slots : s.str[i].st = "dead" /\ s.str[i].hurt}
\* a failing transaction takes the streams with it
Hurt(s, P(_)) == [s EXCEPT !.str = [i \in Slots |-> IF @[i].st \in {"live", "ended", "dead"} /\ P(i) THEN [@[i] EXCEPT !.hurt = TRUE] ELSE @[i]]]
Fails(s) == IF s.blk = "T" THEN Hurt([s EXCEPT !.blk = "E"], LAMBDA i : TRUE) ELSE s
\* the failure of stream i was raised by another operation: i must raise it too
Reported(s, i) == LET st == IF s.str[i].st = "dead" THEN "dead" ELSE "reported" IN {[Fails(s) EXCEPT !.str[i].st = st], [s EXCEPT !.str[i].st = st]}
Others(s, k) == UNION {Reported(s, i) : i \in Pend(s) \ {k}} \cup (IF s.zomb THEN {[s EXCEPT !.zomb = FALSE], [Fails(s) EXCEPT !.zomb = FALSE]} ELSE {})
GivenUp(s, i) == [s EXCEPT !.zomb = @ \/ i \in Pend(s)]
\* an operation which raised an error that is not its own
Refused(s) == Others(s, 0) \cup (IF s.blk = "E" THEN {s} ELSE {})
Wrote(s, rows) == IF s.blk = "I" THEN [s EXCEPT !.perm = @ \o rows] ELSE [s EXCEPT !.tmp = @ \o rows]
Ends(s) == [Hurt(s, LAMBDA i : s.str[i].where # "I") EXCEPT !.blk = "I", !.sp = FALSE, !.tmp = << >>, !.mark = << >>]
IsRun(ids, from) == \A k \in 1 .. Len(ids) : ids[k] = from + k - 1
CompleteRun(ids, n) == Len(ids) = n /\ IsRun(ids, 1)

Next1(s, e) ==
    LET t == s.str[e.slot] IN
    CASE e.r = "rows" ->
           IF Len(e.ids) = 0 THEN {}
           ELSE IF t.st \in {"live", "reported"} THEN
                (IF IsRun(e.ids, t.pos + 1) /\ t.pos + Len(e.ids) <= t.n /\ (t.bad = 0 \/ t.pos + Len(e.ids) < t.bad)
                 THEN {[s EXCEPT !.str[e.slot].pos = @ + Len(e.ids)]} ELSE {})
           \* after an error was raised, what comes is still in order and never repeated
           ELSE IF t.st = "dead" THEN
                (IF IsRun(e.ids, e.ids[1]) /\ e.ids[1] > t.pos /\ e.ids[Len(e.ids)] <= t.n
                 THEN {[s EXCEPT !.str[e.slot].pos = e.ids[Len(e.ids)]]} ELSE {})
           ELSE {}
      [] e.r = "end" ->
           IF t.st = "live" THEN (IF t.pos = t.n THEN {[s EXCEPT !.str[e.slot].st = "ended"]} ELSE {})
           ELSE IF t.st \in {"dead", "closed", "ended"} THEN {s} ELSE {}
      [] e.r = "error" ->
           IF t.st = "live"
           THEN (IF t.bad > 0 THEN {[s EXCEPT !.str[e.slot].st = "dead"]} \cup (IF t.cls = "srv" THEN {[Fails(s) EXCEPT !.str[e.slot].st = "dead"]} ELSE {}) ELSE {})
                \cup (IF t.hurt \/ s.blk = "E" THEN {[Fails(s) EXCEPT !.str[e.slot].st = "dead"], [s EXCEPT !.str[e.slot].st = "dead"]} ELSE {})
                \cup {[u EXCEPT !.str[e.slot].st = "dead"] : u \in Others(s, e.slot)}
           ELSE IF t.st \in {"dead", "reported"} \/ (t.st = "closed" /\ t.kind = "cursor") THEN {[u EXCEPT !.str[e.slot].st = "dead"] : u \in {s, Fails(s)}}
           ELSE Others(s, e.slot) \cup (IF t.kind = "cursor" /\ (t.hurt \/ s.blk = "E") THEN {s, Fails(s)} ELSE {})
      [] OTHER -> {}
Legal0(s, e) ==
    CASE e.op = "open" ->
           LET new == [None EXCEPT !.st = "live", !.kind = e.kind, !.n = e.n, !.bad = e.bad, !.cls = e.cls, !.where = IF s.sp THEN "sp" ELSE s.blk, !.hurt = s.blk = "E"] IN
           IF e.r = "ok" THEN {[s EXCEPT !.str[e.slot] = new]}
           ELSE {[u EXCEPT !.str[e.slot] = None] : u \in Refused(s) \cup (IF e.bad > 0 /\ e.cls = "srv" THEN {Fails(s), s} ELSE {})}
      [] e.op = "next" -> Next1(s, e)
      [] e.op = "close" -> {[GivenUp(s, e.slot) EXCEPT !.str[e.slot].st = IF @ \in {"live", "reported"} \/ (@ = "ended" /\ s.str[e.slot].kind = "cursor") THEN "closed" ELSE @]}
      [] e.op = "drop" -> {[GivenUp(s, e.slot) EXCEPT !.str[e.slot] = None]}
      \* the whole result at once
      [] e.op = "call" -> IF e.r = "ok" THEN (IF s.blk # "E" /\ e.bad = 0 /\ (IF e.first THEN e.ids = SubSeq(<<1>>, 1, IF e.n = 0 THEN 0 ELSE 1) ELSE CompleteRun(e.ids, e.n)) THEN {s} ELSE {})
                          ELSE Refused(s) \cup (IF e.bad > 0 THEN (IF e.cls = "srv" THEN {Fails(s)} ELSE {s}) ELSE {})
      \* a command that writes rows: all of them or none
      [] e.op = "write" -> IF e.r = "ok" THEN (IF s.blk # "E" THEN {Wrote(s, e.ids)} ELSE {}) ELSE Refused(s)
      [] e.op = "fail" -> IF e.r = "ok" THEN {} ELSE Refused(s) \cup {Fails(s)}
      \* bulk loading: chunks of rows; the chunk numbered e.at (0: none) contains the bad one
      [] e.op = "load" ->
           IF e.r = "ok" THEN (IF s.blk # "E" /\ e.at = 0 THEN {Wrote(s, FlattenSeq(e.chunks))} ELSE IF s.blk = "E" /\ FlattenSeq(e.chunks) = << >> /\ e.at = 0 THEN {s} ELSE {})
           ELSE Refused(s) \cup
                (IF e.at = 0 \/ s.blk = "E" THEN (IF e.at > 0 /\ e.cls = "py" THEN {s} ELSE {})
                 ELSE LET done == FlattenSeq(SubSeq(e.chunks, 1, e.at - 1)) IN
                      IF e.cls = "py" THEN {Wrote(s, done)} ELSE {Fails(Wrote(s, done))})
      [] e.op = "begin" -> IF e.r = "ok" THEN (IF s.blk = "I" THEN {[s EXCEPT !.blk = "T"]} ELSE IF s.blk = "T" THEN {s} ELSE {}) ELSE Refused(s)
      [] e.op = "commit" ->
           IF e.r = "ok" THEN (IF s.blk = "I" THEN {s} ELSE {[Ends(s) EXCEPT !.perm = IF s.blk = "T" THEN @ \o s.tmp ELSE @]})
           \* cursors which remain are computed at the commit
           ELSE Others(s, 0) \cup (IF \E i \in Pend(s) : s.str[i].kind = "cursor" THEN {Ends(Hurt(s, LAMBDA i : TRUE))} ELSE {})
      [] e.op = "rollback" -> IF e.r = "ok" THEN (IF s.blk = "I" THEN {s} ELSE {Ends(s)}) ELSE Others(s, 0)
      [] e.op = "savepoint" -> IF e.r = "ok" THEN (IF s.blk = "T" THEN {[s EXCEPT !.sp = TRUE, !.mark = s.tmp]} ELSE {}) ELSE Refused(s) \cup (IF s.blk = "I" THEN {s} ELSE {})
      [] e.op = "rollto" -> IF e.r = "ok" THEN (IF s.sp THEN {[Hurt(s, LAMBDA i : s.str[i].where = "sp") EXCEPT !.blk = "T", !.tmp = s.mark]} ELSE {}) ELSE Others(s, 0) \cup (IF s.sp THEN {} ELSE {Fails(s)})
      [] e.op = "table" -> IF e.ids = s.perm THEN {s} ELSE {}
      [] OTHER -> {}

\* whatever was executed in between has been finished
Legal(s, e) == LET z == Legal0(s, e) IN
    IF e.r = "ok" /\ e.op \notin {"close", "drop", "table", "load"} THEN {[t EXCEPT !.zomb = FALSE] : t \in z} ELSE z

\* --- judging recorded behaviours
Cases == JsonDeserialize(IOEnv.CASES)
Step(acc, e) == IF acc.bad # "" THEN acc
                ELSE LET nxt == UNION {Legal(s, e) : s \in acc.states} IN
                     [n |-> acc.n + 1, states |-> nxt, bad |-> IF nxt = {} THEN "event " \o ToString(acc.n) \o " " \o ToString(e) \o " is not allowed in " \o ToString(acc.states) ELSE ""]
Verdict(c) == FoldLeft(Step, [n |-> 1, states |-> {S0}, bad |-> ""], c.events).bad
VARIABLES blk, sp, slots, act, obs, ei
Out(k) == LET v == Verdict(Cases[k]) IN IF v = "" THEN TRUE ELSE CSVWrite("%1$s", <<ToString(k) \o " " \o v>>, IOEnv.VERDICTS)
EvalInit == ei = 0 /\ blk = 0 /\ sp = 0 /\ slots = 0 /\ act = 0 /\ obs = 0
EvalNext == /\ ei < Len(Cases) /\ Out(ei + 1) /\ ei' = ei + 1
            /\ (ei' = Len(Cases) => CSVWrite("%1$s", <<"done " \o ToString(ei')>>, IOEnv.VERDICTS))
            /\ UNCHANGED <<blk, sp, slots, act, obs>>
EvalSpec == EvalInit /\ [][EvalNext]_<<blk, sp, slots, act, obs, ei>>

\* --- schedules: the environment's view.  A slot: what it holds, where it was opened, how far it was read.
vars == <<blk, sp, slots, act, obs, ei>>
View == <<blk, sp, slots>>
St == [blk |-> blk, sp |-> sp, slots |-> slots]
Empty == [kind |-> "none", bad |-> "no", where |-> "", phase |-> ""]
Init == blk = "I" /\ sp = FALSE /\ slots = [i \in Slots |-> Empty] /\ ei = 0 /\ act = [op |-> "start"] /\ obs = [r |-> "ok"]
Do(a) == act' = a /\ obs' = [r |-> "ok"] /\ UNCHANGED ei
Where == IF sp THEN "sp" ELSE blk
Open(i, k, b) == slots[i].kind = "none" /\ slots' = [slots EXCEPT ![i] = [kind |-> k, bad |-> b, where |-> Where, phase |-> "fresh"]] /\ UNCHANGED <<blk, sp>> /\ Do([op |-> "open", slot |-> i, kind |-> k, bad |-> b])
Pull(i, amt) == slots[i].kind # "none" /\ slots' = [slots EXCEPT ![i].phase = IF amt = "all" THEN "done" ELSE IF @ = "fresh" THEN "mid" ELSE @]
                /\ blk' = (IF slots[i].bad = "srv" /\ amt = "all" /\ blk = "T" THEN "E" ELSE blk)
                /\ UNCHANGED sp /\ Do([op |-> "next", slot |-> i, amt |-> amt])
Close(i) == slots[i].kind # "none" /\ slots[i].phase # "done" /\ slots' = [slots EXCEPT ![i].phase = "done"] /\ UNCHANGED <<blk, sp>> /\ Do([op |-> "close", slot |-> i])
Drop(i) == slots[i].kind # "none" /\ slots' = [slots EXCEPT ![i] = Empty] /\ UNCHANGED <<blk, sp>> /\ Do([op |-> "drop", slot |-> i])
Cmd(c) == UNCHANGED <<sp, slots>> /\ blk' = (IF c \in {"fail", "load srv"} /\ blk = "T" THEN "E" ELSE blk) /\ Do([op |-> "cmd", cmd |-> c])
Begin == blk = "I" /\ blk' = "T" /\ UNCHANGED <<sp, slots>> /\ Do([op |-> "begin"])
End(c) == blk # "I" /\ blk' = "I" /\ sp' = FALSE /\ UNCHANGED slots /\ Do([op |-> c])
Save == blk = "T" /\ sp' = TRUE /\ UNCHANGED <<blk, slots>> /\ Do([op |-> "savepoint"])
RollTo == sp /\ blk' = "T" /\ UNCHANGED <<sp, slots>> /\ Do([op |-> "rollto"])
Next == \/ \E i \in Slots : (\E k \in Kinds, b \in Bads : Open(i, k, b)) \/ (\E a \in {"one", "some", "all"} : Pull(i, a)) \/ Close(i) \/ Drop(i)
        \/ \E c \in {"write", "fail", "call", "first", "load", "load srv", "load py"} : Cmd(c)
        \/ Begin \/ End("commit") \/ End("rollback") \/ Save \/ RollTo
Spec == Init /\ [][Next]_vars
TypeOK == blk \in {"I", "T", "E"} /\ (sp => blk # "I")
Edge == CSVWrite("%1$s", <<ToJson(<<St, act', obs', St'>>)>>, IOEnv.EDGES)
=============================================================================
