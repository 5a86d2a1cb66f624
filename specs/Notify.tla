------------------------------- MODULE Notify -------------------------------
(* P13.  Connections that receive notifications and a manager that watches     *)
(* them.  Per connection c, notifications are numbered in the order the server  *)
(* sends them:                                                                *)
(*   sent[c]  sent by the server                                              *)
(*   low[c]   reached the client for certain (it will not be lost whatever      *)
(*            happens to the connection)                                      *)
(*   out[c]   emitted by the iterator                                         *)
(* life[c]: "up", "eof" (ended in order), "pipe" (sending fails, what is unread  *)
(* is lost), "closed" (by the client).                                         *)
(* Legal(s, e) is the set of states after event e in state s; empty: e breaks   *)
(* the property.  The generator (Spec) produces schedules of inputs; the        *)
(* recorded behaviour of the real iterators is judged by Legal (EvalSpec).      *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS N, MaxSent, MaxCmd

Conns == 1 .. N
S0(members) == [sent |-> [c \in Conns |-> 0], low |-> [c \in Conns |-> 0], out |-> [c \in Conns |-> 0],
      life |-> [c \in Conns |-> "up"], mem |-> members, garbage |-> {}, idle |-> {}]
Alive(s, c) == s.life[c] = "up"
\* what has to be delivered before the iteration may end or stay idle
Due(s, c) == IF s.life[c] \in {"up", "eof"} /\ c \in s.mem THEN s.sent[c] ELSE s.low[c]
Owed(s) == {c \in s.mem : s.out[c] < Due(s, c) \/ ~Alive(s, c)}
Waiting(s) == {c \in s.mem \cup s.garbage : s.out[c] < Due(s, c)}
\* failures which the manager has noticed are in garbage and not in the set
Noticed(s) == LET dead == {c \in s.mem : ~Alive(s, c)} IN
              [s EXCEPT !.mem = @ \ dead, !.garbage = @ \cup dead, !.low = [c \in Conns |-> IF c \in dead /\ s.life[c] = "eof" THEN s.sent[c] ELSE s.low[c]]]
Sets(s, e) == s.mem = ToSet(e.members) /\ s.garbage = ToSet(e.garbage)
\* notifications i..j of connection c were emitted
Emit(s, c, ids) == [s EXCEPT !.out[c] = @ + Len(ids)]
InOrder(s, c, ids) == /\ Len(ids) > 0 /\ s.out[c] + Len(ids) <= s.sent[c]
                      /\ \A k \in 1 .. Len(ids) : ids[k] = s.out[c] + k
Legal(s, e) ==
    CASE e.op = "arrive" -> {[s EXCEPT !.sent[e.c] = @ + e.k, !.idle = {}]}
      \* an operation of the user's: what arrives with it is received; what arrives behind it is not yet
      [] e.op = "op" -> {[s EXCEPT !.low[e.c] = s.sent[e.c] + e.before, !.sent[e.c] = @ + e.before + e.after, !.idle = {}]}
      [] e.op = "kill" -> {[s EXCEPT !.life[e.c] = e.how, !.idle = {}]}
      [] e.op = "add" -> {[s EXCEPT !.mem = @ \cup {e.c}, !.garbage = @ \ {e.c}, !.idle = {}]}
      [] e.op = "remove" -> {[s EXCEPT !.mem = @ \ {e.c}, !.idle = {}]}
      [] e.op = "next" ->
           \* a discarded connection may still have events, so any connection may be reported
           IF e.r = "event" THEN (IF InOrder(s, e.c, e.ids)
                                  THEN {t \in {Emit(u, e.c, e.ids) : u \in {[s EXCEPT !.idle = {}], Noticed([s EXCEPT !.idle = {}])}} : Sets(t, e)}
                                  ELSE {})
           \* idle events occur, but not again while notifications are waiting
           ELSE IF e.r = "idle" THEN (IF e.timeout > 0 /\ ~(s.idle \cap Owed(s) # {})
                                      THEN {t \in {[u EXCEPT !.idle = Owed(u)] : u \in {s, Noticed(s)}} : Sets(t, e)} ELSE {})
           \* the end: nothing may be left
           ELSE IF e.r = "stop" THEN (IF (e.timeout = 0 \/ Noticed(s).mem = {}) /\ Waiting(s) = {}
                                      THEN {t \in {Noticed(s)} : Sets(t, e)} ELSE {})
           ELSE {}
      [] OTHER -> {}

\* --- judging recorded behaviours
Cases == JsonDeserialize(IOEnv.CASES)
Step(acc, e) == IF acc.bad # "" THEN acc
                ELSE LET nxt == UNION {Legal(s, e) : s \in acc.states} IN
                     [n |-> acc.n + 1, states |-> nxt, bad |-> IF nxt = {} THEN "event " \o ToString(acc.n) \o " " \o ToString(e) \o " is not allowed in " \o ToString(acc.states) ELSE ""]
Verdict(c) == FoldLeft(Step, [n |-> 1, states |-> {S0(ToSet(c.members))}, bad |-> ""], c.events).bad
VARIABLES sent, life, mem, n, act, obs, ei
Out(k) == LET v == Verdict(Cases[k]) IN IF v = "" THEN TRUE ELSE CSVWrite("%1$s", <<ToString(k) \o " " \o v>>, IOEnv.VERDICTS)
EvalInit == ei = 0 /\ sent = 0 /\ life = 0 /\ mem = 0 /\ n = 0 /\ act = 0 /\ obs = 0
EvalNext == /\ ei < Len(Cases) /\ Out(ei + 1) /\ ei' = ei + 1
            /\ (ei' = Len(Cases) => CSVWrite("%1$s", <<"done " \o ToString(ei')>>, IOEnv.VERDICTS))
            /\ UNCHANGED <<sent, life, mem, n, act, obs>>
EvalSpec == EvalInit /\ [][EvalNext]_<<sent, life, mem, n, act, obs, ei>>

\* --- schedules
vars == <<sent, life, mem, n, act, obs, ei>>
View == <<sent, life, mem>>
St == [sent |-> sent, life |-> life, mem |-> mem]
Init == /\ sent = [c \in Conns |-> 0] /\ life = [c \in Conns |-> "up"] /\ mem \in SUBSET Conns /\ n = 0 /\ ei = 0 /\ act = [op |-> "start"] /\ obs = [r |-> "ok"]
Do(a) == act' = a /\ obs' = [r |-> "ok"] /\ UNCHANGED <<n, ei>>
Arrive(c, k) == life[c] = "up" /\ sent[c] + k <= MaxSent /\ sent' = [sent EXCEPT ![c] = @ + k] /\ UNCHANGED <<life, mem>> /\ Do([op |-> "arrive", c |-> c, k |-> k])
Oper(c, b, a) == life[c] = "up" /\ sent[c] + a + b <= MaxSent /\ sent' = [sent EXCEPT ![c] = @ + a + b] /\ UNCHANGED <<life, mem>> /\ Do([op |-> "op", c |-> c, before |-> b, after |-> a])
Kill(c, how) == life[c] = "up" /\ life' = [life EXCEPT ![c] = how] /\ UNCHANGED <<sent, mem>> /\ Do([op |-> "kill", c |-> c, how |-> how])
Add(c) == c \notin mem /\ life[c] = "up" /\ mem' = mem \cup {c} /\ UNCHANGED <<sent, life>> /\ Do([op |-> "add", c |-> c])
RemoveConn(c) == c \in mem /\ mem' = mem \ {c} /\ UNCHANGED <<sent, life>> /\ Do([op |-> "remove", c |-> c])
\* one call of next(); or until the iterator ends; or a fresh iterator over one connection
Next1(t) == UNCHANGED <<sent, life, mem>> /\ Do([op |-> "next", timeout |-> t])
Drain == UNCHANGED <<sent, life, mem>> /\ Do([op |-> "drain"])
Next == \/ \E c \in Conns : (\E k \in 1 .. 2 : Arrive(c, k)) \/ (\E b, a \in 0 .. 1 : Oper(c, b, a)) \/ (\E h \in {"eof", "pipe", "closed"} : Kill(c, h)) \/ Add(c) \/ RemoveConn(c)
        \/ \E t \in {0, 1, 2} : Next1(t)
        \/ Drain
Spec == Init /\ [][Next]_vars
TypeOK == \A c \in Conns : sent[c] \in 0 .. MaxSent
Edge == CSVWrite("%1$s", <<ToJson(<<St, act', obs', St'>>)>>, IOEnv.EDGES)
=============================================================================
