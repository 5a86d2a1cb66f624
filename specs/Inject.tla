------------------------------- MODULE Inject -------------------------------
(* P04.  Operations on a connection while the server also sends              *)
(* asynchronous messages: a notice N, a notification A, a parameter report S. *)
(* Ops[o] is the number of messages the server sends for operation o.         *)
(* Whatever is injected, wherever: the operation's result is that of the       *)
(* undisturbed operation, and every consumer sees every message of its kind    *)
(* once and in order, even if it raises.                                      *)
EXTENDS Integers, Sequences, TLC, Json, CSV, IOUtils
CONSTANTS Ops, MaxInj, Stride
VARIABLES o, pos, n, expect, act, obs
vars == <<o, pos, n, expect, act, obs>>
View == <<o, pos, n>>
St == [o |-> o, pos |-> pos, n |-> n]
Init == o \in 1 .. Len(Ops) /\ pos = 0 /\ n = 0 /\ expect = <<>> /\ act = [op |-> "start"] /\ obs = [r |-> "ok"]
\* one message of the operation's own
Msg == /\ pos < Ops[o] /\ pos' = pos + 1 /\ act' = [op |-> "msg"] /\ obs' = [r |-> "own"]
       /\ UNCHANGED <<o, n, expect>>
Async(m, h) == /\ n < MaxInj /\ n' = n + 1
               /\ act' = [op |-> "async", m |-> m, pos |-> pos, h |-> h]
               /\ obs' = [r |-> "delivered"]
               /\ expect' = Append(expect, m)
               /\ UNCHANGED <<o, pos>>
\* the operation is over; what arrived behind its last message is delivered at the latest with the next one
Finish == /\ pos = Ops[o]
          /\ act' = [op |-> "finish", o |-> o] /\ obs' = [r |-> "result", o |-> o]
          /\ o' = ((o + Stride - 1) % Len(Ops)) + 1 /\ pos' = 0 /\ n' = 0 /\ expect' = <<>>
Next == Msg \/ (\E m \in {"N", "A", "S"}, h \in {"ok", "raise"} : Async(m, h)) \/ Finish
Spec == Init /\ [][Next]_vars
Bounded == Len(expect) = n /\ pos <= Ops[o]
Edge == CSVWrite("%1$s", <<ToJson(<<St, act', obs', St'>>)>>, IOEnv.EDGES)
=============================================================================
