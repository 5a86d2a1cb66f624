------------------------------- MODULE Faults -------------------------------
(* P06.  A connection whose transport fails.                                  *)
(* Ops[o] = [r |-> bytes received, s |-> bytes sent] of operation o when        *)
(* nothing fails; Ops[1] is connecting.  A failure is placed behind byte k of   *)
(* one direction: if the operation needs more than k bytes there it must        *)
(* report the failure, otherwise it must finish as if nothing happened, and     *)
(* the failure is met by the first later operation that needs the transport.    *)
(* Once reported, the connection is lost for good: it says it is closed,        *)
(* every later operation is refused, and the transport is not touched again.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Ops, Kinds, Step, Shift, MaxAfter
VARIABLES conn, after, act, obs
vars == <<conn, after, act, obs>>
View == <<conn, after>>
St == [conn |-> conn, after |-> after]
NOps == Len(Ops)
OO == Ops
SK == Kinds
Size(o, d) == IF d = "r" THEN OO[o].r ELSE OO[o].s
\* the failure positions explored: every Step-th byte of every exchange, the very first byte and the end
Points(o, d) == {k \in 0 .. Size(o, d) - 1 : k = 0 \/ (k + o + Shift) % Step = 0}
Init == conn = "new" /\ after = 0 /\ act = [op |-> "start"] /\ obs = [r |-> "ok"]
Connect == conn = "new" /\ conn' = "up" /\ after' = 0 /\ act' = [op |-> "connect"] /\ obs' = [r |-> "ok", closed |-> FALSE]
ConnectFail(d, k, kind) == /\ conn = "new" /\ conn' = "failed" /\ after' = 0
    /\ act' = [op |-> "connectfail", d |-> d, k |-> k, kind |-> kind] /\ obs' = [r |-> "error", closed |-> TRUE]
\* short writes, short reads and interrupted calls only
Partial(o) == /\ conn = "up" /\ UNCHANGED conn /\ after' = 0 /\ act' = [op |-> "partial", o |-> o] /\ obs' = [r |-> "result", o |-> o, closed |-> FALSE]
Fail(o, d, k, kind) == /\ conn = "up" /\ conn' = "lost" /\ after' = 0
    /\ act' = [op |-> "fail", o |-> o, d |-> d, k |-> k, kind |-> kind]
    /\ obs' = [r |-> "error", rows |-> "prefix", closed |-> TRUE]
\* the transport dies right behind the operation's last byte
FailBehind(o, d, kind) == /\ conn = "up" /\ conn' = "doomed" /\ after' = 0
    /\ act' = [op |-> "behind", o |-> o, d |-> d, kind |-> kind] /\ obs' = [r |-> "result", o |-> o, closed |-> FALSE]
Meet(o) == /\ conn = "doomed" /\ conn' = "lost" /\ after' = 0 /\ act' = [op |-> "use", o |-> o] /\ obs' = [r |-> "error", rows |-> "prefix", closed |-> TRUE]
Use(o) == /\ conn \in {"lost", "failed", "closed"} /\ after < MaxAfter /\ after' = after + 1 /\ UNCHANGED conn
    /\ act' = [op |-> "refused", o |-> o] /\ obs' = [r |-> "error", rows |-> "none", closed |-> TRUE]
Reconnect == /\ conn \in {"lost", "failed"} /\ after < MaxAfter /\ after' = after + 1 /\ UNCHANGED conn
    /\ act' = [op |-> "reconnect"] /\ obs' = [r |-> "error", closed |-> TRUE]
\* closing never fails, whatever the transport does, and never brings a connection back
Close == /\ conn \in {"up", "doomed", "lost", "failed", "closed"} /\ after < MaxAfter /\ after' = after + 1
    /\ conn' = (IF conn \in {"up", "doomed"} THEN "closed" ELSE conn)
    /\ act' = [op |-> "close"] /\ obs' = [r |-> "ok", closed |-> TRUE]
D == {"r", "s"}
Next == \/ Connect \/ Reconnect \/ Close
        \/ \E o \in 2 .. NOps : Partial(o) \/ Meet(o) \/ Use(o)
        \/ \E d \in D : \E k \in Points(1, d) : \E i \in {((k + Shift) % Len(SK)) + 1} : ConnectFail(d, k, SK[i])
        \/ \E d \in D, o \in 2 .. NOps : \E k \in Points(o, d) : \E i \in {(((k \div Step) + o + Shift) % Len(SK)) + 1} : Fail(o, d, k, SK[i])
        \/ \E o \in 2 .. NOps, d \in D, i \in 1 .. Len(SK) : FailBehind(o, d, SK[i])
Spec == Init /\ [][Next]_vars
\* what the property says about every step
Sound == /\ (obs.r = "error" => obs.closed)
         /\ (conn \in {"lost", "failed", "closed"} => obs.closed)
NeverBack == [][(conn \in {"lost", "failed", "closed"}) => (conn' = conn)]_vars
Edge == CSVWrite("%1$s", <<ToJson(<<St, act', obs', St'>>)>>, IOEnv.EDGES)
=============================================================================
