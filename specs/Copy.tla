--------------------------------- MODULE Copy ---------------------------------
(* P11.  Copies out of and into the server on one connection.  A copy out has      *)
(* rows 1 .. n and may fail at row bad;  it is consumed piece by piece between     *)
(* other operations, which complete it.  A copy in takes rows from a source that    *)
(* may fail (srcfail), contain a row the server rejects (rej) or perform an           *)
(* operation on the connection itself (inner).                                       *)
(* Legal(s, e) is the set of states after the recorded event e in state s; empty:     *)
(* e breaks the property.  The generator (Spec) produces the schedules.               *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Slots, Cmds
None == [st |-> "none", n |-> 0, bad |-> 0, pos |-> 0]
\* blk: "I" no transaction, "T" in one, "E" in a failed one;  zomb: a failing copy out was given up
\* perm, tmp: rows stored for good, in this transaction;  lost: the connection is gone
S0 == [blk |-> "I", zomb |-> FALSE, lost |-> FALSE, perm |-> << >>, tmp |-> << >>, out |-> [i \in Slots |-> None]]
Fails(s) == IF s.blk = "T" THEN [s EXCEPT !.blk = "E"] ELSE s
Pend(s) == {i \in Slots : s.out[i].st = "live" /\ s.out[i].bad > 0}
\* an operation other than reading i raises the error of the copy out i and is not performed
Others(s) == {[Fails(s) EXCEPT !.out[i].st = "reported"] : i \in Pend(s)} \cup (IF s.zomb THEN {[Fails(s) EXCEPT !.zomb = FALSE]} ELSE {})
Refused(s) == Others(s) \cup (IF s.blk = "E" \/ s.lost THEN {s} ELSE {})
\* it can be performed: no failure of a copy is left in this transaction
Clear(s) == s.blk # "E" /\ ~s.lost /\ (s.blk = "I" \/ (Pend(s) = {} /\ ~s.zomb))
Stored(s, ids) == IF s.blk = "I" THEN [s EXCEPT !.perm = @ \o ids] ELSE [s EXCEPT !.tmp = @ \o ids]
Run(ids, from) == \A k \in 1 .. Len(ids) : ids[k] = from + k - 1

Next1(s, e) ==
    LET t == s.out[e.slot] IN
    CASE e.r = "rows" -> IF t.st \in {"live", "reported"} /\ Len(e.ids) > 0 /\ Run(e.ids, t.pos + 1) /\ t.pos + Len(e.ids) <= t.n /\ (t.bad = 0 \/ t.pos + Len(e.ids) < t.bad)
                         THEN {[s EXCEPT !.out[e.slot].pos = @ + Len(e.ids)]} ELSE {}
      [] e.r = "end" -> IF t.st = "live" THEN (IF t.pos = t.n /\ t.bad = 0 THEN {[s EXCEPT !.out[e.slot].st = "ended"]} ELSE {})
                        ELSE IF t.st \in {"ended", "closed", "dead"} THEN {s} ELSE {}
      [] e.r = "error" -> IF t.st = "live" THEN (IF t.bad > 0 THEN {[Fails(s) EXCEPT !.out[e.slot].st = "dead"]} ELSE {})
                          ELSE IF t.st \in {"reported", "dead"} THEN {[s EXCEPT !.out[e.slot].st = "dead"]} ELSE {}
      [] OTHER -> {}

\* how a copy in ends when it is performed
Load(s, e) ==
    LET inner == e.inner # "" /\ (e.srcfail = 0 \/ e.at <= e.srcfail)
        all == Stored(s, e.ids)
        failed(S) == IF e.r \in S THEN {Fails(s)} ELSE {}
        gone(S) == IF e.r \in S THEN {[s EXCEPT !.lost = TRUE, !.tmp = << >>, !.blk = "I"]} ELSE {}
        src == IF e.srcfail > 0 THEN {"src", "error"} ELSE {"error"}
    IN  IF inner /\ e.inner \in {"close", "kill"} THEN gone(src)
        ELSE IF inner /\ e.inner = "cancel" THEN failed(src) \cup (IF e.r = "ok" /\ e.srcfail = 0 /\ e.rej = 0 THEN {all} ELSE {})
        \* the operation is refused, and so is the copy
        ELSE IF inner THEN (IF e.ir # "error" THEN {} ELSE failed(src))
        \* it is the exception of the source that is raised
        ELSE IF e.srcfail > 0 THEN failed(IF e.rej > 0 THEN src ELSE {"src"})
        ELSE IF e.rej > 0 THEN failed({"error"})
        ELSE IF e.r = "ok" THEN {all} ELSE {}

Legal(s, e) ==
    CASE e.op = "open" ->
           IF e.r = "ok" THEN (IF s.blk # "E" /\ ~s.lost /\ Clear(s) THEN {[s EXCEPT !.zomb = FALSE, !.out[e.slot] = [st |-> "live", n |-> e.n, bad |-> e.bad, pos |-> 0]]} ELSE {})
           ELSE {[t EXCEPT !.out[e.slot] = None] : t \in Refused(s) \cup (IF e.bad > 0 THEN {Fails(s)} ELSE {})}
      [] e.op = "next" -> Next1(s, e)
      [] e.op \in {"close", "drop"} -> {[s EXCEPT !.zomb = @ \/ e.slot \in Pend(s), !.out[e.slot] = IF e.op = "drop" THEN None ELSE [@ EXCEPT !.st = IF @ \in {"live", "reported", "dead"} THEN "closed" ELSE @]]}
      \* all rows of a copy out at once
      [] e.op = "whole" -> IF e.r = "ok" THEN (IF Clear(s) /\ e.bad = 0 /\ Len(e.ids) = e.n /\ Run(e.ids, 1) THEN {s} ELSE {}) ELSE Refused(s) \cup (IF e.bad > 0 THEN {Fails(s)} ELSE {})
      [] e.op = "load" ->
           \* (the source may fail before the server is asked)
           (IF e.r \in {"error", "src"} /\ e.ir = "" THEN Refused(s) ELSE {}) \cup (IF Clear(s) THEN Load(s, e) ELSE {})
      \* the rest of a copy out of the same connection is stored
      [] e.op = "loadown" ->
           LET t == s.out[e.slot]
               rest == IF t.st \in {"live", "reported"} THEN [k \in 1 .. t.n - t.pos |-> t.pos + k] ELSE << >> IN
           IF e.r = "ok" THEN (IF Clear(s) /\ t.bad = 0 THEN {[Stored(s, rest) EXCEPT !.out[e.slot].st = IF t.st = "closed" THEN "closed" ELSE "ended"]} ELSE IF Clear(s) /\ t.st \in {"dead", "closed"} THEN {s} ELSE {})
           ELSE Refused(s) \cup (IF t.bad > 0 THEN {[Fails(s) EXCEPT !.out[e.slot].st = "dead"]} ELSE {})
      \* a copy in without a source, or a source for what is not a copy in
      [] e.op = "misuse" -> IF e.r = "ok" THEN {} ELSE Refused(s) \cup {Fails(s)} \cup (IF e.how = "load" THEN {s} ELSE {})
      [] e.op = "query" -> IF e.r = "ok" THEN (IF Clear(s) THEN {s} ELSE {}) ELSE Refused(s)
      [] e.op = "fail" -> IF e.r = "ok" THEN {} ELSE Refused(s) \cup {Fails(s)}
      [] e.op = "look" -> IF e.r = "ok" THEN (IF Clear(s) /\ e.ids = s.perm \o s.tmp THEN {s} ELSE {}) ELSE Refused(s)
      [] e.op = "table" -> IF e.ids = s.perm THEN {s} ELSE {}
      [] e.op = "begin" -> IF e.r = "ok" THEN (IF s.blk = "I" /\ ~s.lost THEN {[s EXCEPT !.blk = "T"]} ELSE {}) ELSE Refused(s)
      [] e.op = "commit" -> IF e.r = "ok" THEN (IF s.lost THEN {} ELSE {[s EXCEPT !.blk = "I", !.tmp = << >>, !.perm = IF s.blk = "T" THEN @ \o s.tmp ELSE @]}) ELSE Others(s) \cup (IF s.lost THEN {s} ELSE {})
      [] e.op = "rollback" -> IF e.r = "ok" THEN (IF s.lost THEN {} ELSE {[s EXCEPT !.blk = "I", !.tmp = << >>]}) ELSE Others(s) \cup (IF s.lost THEN {s} ELSE {})
      [] OTHER -> {}

\* --- judging recorded behaviours
Cases == JsonDeserialize(IOEnv.CASES)
Step(acc, e) == IF acc.bad # "" THEN acc
                ELSE LET nxt == UNION {Legal(s, e) : s \in acc.states} IN
                     [n |-> acc.n + 1, states |-> nxt, bad |-> IF nxt = {} THEN "event " \o ToString(acc.n) \o " " \o ToString(e) \o " is not allowed in " \o ToString(acc.states) ELSE ""]
Verdict(c) == FoldLeft(Step, [n |-> 1, states |-> {S0}, bad |-> ""], c.events).bad
VARIABLES blk, slots, act, obs, ei
Out(k) == LET v == Verdict(Cases[k]) IN IF v = "" THEN TRUE ELSE CSVWrite("%1$s", <<ToString(k) \o " " \o v>>, IOEnv.VERDICTS)
EvalInit == ei = 0 /\ blk = 0 /\ slots = 0 /\ act = 0 /\ obs = 0
EvalNext == /\ ei < Len(Cases) /\ Out(ei + 1) /\ ei' = ei + 1
            /\ (ei' = Len(Cases) => CSVWrite("%1$s", <<"done " \o ToString(ei')>>, IOEnv.VERDICTS))
            /\ UNCHANGED <<blk, slots, act, obs>>
EvalSpec == EvalInit /\ [][EvalNext]_<<blk, slots, act, obs, ei>>

\* --- schedules: the environment's view
vars == <<blk, slots, act, obs, ei>>
View == <<blk, slots>>
St == [blk |-> blk, slots |-> slots]
Empty == [bad |-> FALSE, phase |-> "none"]
Init == blk = "I" /\ slots = [i \in Slots |-> Empty] /\ ei = 0 /\ act = [op |-> "start"] /\ obs = [r |-> "ok"]
Do(a) == act' = a /\ obs' = [r |-> "ok"] /\ UNCHANGED ei
Open(i, b) == slots[i].phase = "none" /\ slots' = [slots EXCEPT ![i] = [bad |-> b, phase |-> "fresh"]] /\ UNCHANGED blk /\ Do([op |-> "open", slot |-> i, bad |-> b])
Pull(i, amt) == slots[i].phase # "none" /\ slots' = [slots EXCEPT ![i].phase = IF amt = "all" THEN "done" ELSE IF @ = "fresh" THEN "mid" ELSE @]
                /\ blk' = (IF slots[i].bad /\ amt = "all" /\ blk = "T" THEN "E" ELSE blk) /\ Do([op |-> "next", slot |-> i, amt |-> amt])
Close(i) == slots[i].phase \in {"fresh", "mid"} /\ slots' = [slots EXCEPT ![i].phase = "done"] /\ UNCHANGED blk /\ Do([op |-> "close", slot |-> i])
Drop(i) == slots[i].phase # "none" /\ slots' = [slots EXCEPT ![i] = Empty] /\ UNCHANGED blk /\ Do([op |-> "drop", slot |-> i])
LoadOwn(i) == slots[i].phase # "none" /\ slots' = [slots EXCEPT ![i].phase = "done"] /\ UNCHANGED blk /\ Do([op |-> "loadown", slot |-> i])
Cmd(c) == UNCHANGED slots /\ blk' = (IF c \notin {"query", "look", "load", "peer", "whole"} /\ blk = "T" THEN "E" ELSE blk) /\ Do([op |-> "cmd", cmd |-> c])
Begin == blk = "I" /\ blk' = "T" /\ UNCHANGED slots /\ Do([op |-> "begin"])
End(c) == blk # "I" /\ blk' = "I" /\ UNCHANGED slots /\ Do([op |-> c])
Next == \/ \E i \in Slots : (\E b \in BOOLEAN : Open(i, b)) \/ (\E a \in {"one", "some", "all"} : Pull(i, a)) \/ Close(i) \/ Drop(i) \/ LoadOwn(i)
        \/ \E c \in Cmds : Cmd(c)
        \/ Begin \/ End("commit") \/ End("rollback")
Spec == Init /\ [][Next]_vars
TypeOK == blk \in {"I", "T", "E"}

\* --- the judge itself: nothing is stored unless a copy succeeded with all of its rows
LoadEvents == [op : {"load"}, ids : {<<1, 2>>, << >>}, srcfail : 0 .. 2, rej : 0 .. 2, inner : {"", "query", "cancel", "close"}, at : 1 .. 2, ir : {"", "ok", "error"}, r : {"ok", "src", "error"}]
Starts == {[S0 EXCEPT !.blk = b, !.perm = p, !.zomb = z, !.out = [i \in Slots |-> [st |-> o, n |-> 2, bad |-> x, pos |-> 1]]] : b \in {"I", "T", "E"}, p \in {<< >>, <<9>>}, z \in BOOLEAN, o \in {"none", "live", "reported", "dead"}, x \in {0, 2}}
ASSUME \A s \in Starts : \A e \in LoadEvents : \A t \in Legal(s, e) :
        /\ e.r = "ok" => t.perm \o t.tmp = s.perm \o s.tmp \o e.ids /\ e.srcfail = 0 /\ e.rej = 0
        /\ e.r # "ok" => t.perm = s.perm /\ (t.lost \/ t.tmp = s.tmp)
        /\ e.r # "ok" /\ s.blk = "T" /\ ~t.lost => t.blk = "E"
Edge == CSVWrite("%1$s", <<ToJson(<<St, act', obs', St'>>)>>, IOEnv.EDGES)
=============================================================================
