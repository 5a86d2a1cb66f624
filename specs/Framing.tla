------------------------------ MODULE Framing ------------------------------
(* P01.  The incoming message buffer: a FIFO of messages over a byte stream  *)
(* which arrives in arbitrary pieces.                                       *)
(*                                                                          *)
(* A stream is a sequence of body lengths.  A message with body length n     *)
(* occupies 5+n bytes (type byte, four bytes of size, body).  A negative n   *)
(* stands for a header whose size field is n+4, i.e. impossibly small.       *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS Streams,     \* sequence of streams (each a sequence of body lengths)
          Steps,       \* write sizes tried besides the boundary-relative ones
          MarkEvery,   \* consider only the boundaries of every so many messages
          Reads,       \* numbers of messages asked for
          TrackCuts    \* keep the chunk boundaries in the state

VARIABLES si,    \* index of the current stream
          fed,   \* bytes of it written so far
          k,     \* index of the next message to be delivered
          cuts,  \* positions of chunk boundaries in the unconsumed part
          delivered, \* history: messages delivered from this stream
          act, obs

vars == <<si, fed, k, cuts, delivered, act, obs>>
View == <<si, fed, k, cuts>>
St == [si |-> si, fed |-> fed, k |-> k, cuts |-> cuts]

Body(s, j) == Streams[s][j]
Larger(a, b) == IF a > b THEN a ELSE b
StartTab == [s \in 1 .. Len(Streams) |->
    FoldLeft(LAMBDA acc, n : Append(acc, acc[Len(acc)] + 5 + Larger(n, 0)), <<0>>, Streams[s])]
Start(s, j) == StartTab[s][j]
N(s) == Len(Streams[s])
Total(s) == Start(s, N(s) + 1)

HasHeader(j) == j <= N(si) /\ Start(si, j) + 5 <= fed
Bad(j) == HasHeader(j) /\ Body(si, j) < 0
Complete(j) == HasHeader(j) /\ Body(si, j) >= 0 /\ Start(si, j + 1) <= fed

\* the first impossible message of a stream, or one past the last message
LimitTab == [s \in 1 .. Len(Streams) |->
    FoldLeft(LAMBDA acc, j : IF acc <= N(s) THEN acc ELSE IF Streams[s][j] < 0 THEN j ELSE acc,
             N(s) + 1, [j \in 1 .. N(s) |-> j])]
\* the largest m in lo .. hi with Start(m) <= fed
RECURSIVE Bisect(_, _)
Bisect(lo, hi) == IF lo = hi THEN lo
                  ELSE LET mid == (lo + hi + 1) \div 2
                       IN IF Start(si, mid) <= fed THEN Bisect(mid, hi) ELSE Bisect(lo, mid - 1)
\* number of complete messages from j on
Count(j) == Bisect(j, LimitTab[si]) - j
\* an impossible header follows them
BadAhead(j) == Bad(j + Count(j))

Init == /\ si \in 1 .. Len(Streams)
        /\ fed = 0 /\ k = 1 /\ cuts = {} /\ delivered = <<>>
        /\ act = [op |-> "init"] /\ obs = [r |-> "ok"]

Keep(c, kk) == IF TrackCuts THEN {x \in c : x > Start(si, kk)} ELSE {}

\* sizes worth distinguishing: small, and to/around the next boundaries
Sizes == LET left == Total(si) - fed
             js == {j \in 1 .. N(si) : j % MarkEvery = 0 \/ j = N(si)}
             marks == {Start(si, j) : j \in js \cup {N(si) + 1}} \cup {Start(si, j) + 5 : j \in js}
             rel == UNION {{m - 1 - fed, m - fed, m + 1 - fed} : m \in marks}
         IN {n \in (Steps \cup rel \cup {left}) : n >= 0 /\ n <= left}

Write(n) == /\ fed' = fed + n
            /\ cuts' = Keep(cuts \cup {fed}, k)
            /\ act' = [op |-> "write", n |-> n]
            /\ obs' = [r |-> "ok"]
            /\ UNCHANGED <<si, k, delivered>>

Take(c) == /\ k' = k + c
           /\ cuts' = Keep(cuts, k + c)
           /\ delivered' = delivered \o [i \in 1 .. c |-> k + i - 1]
           /\ UNCHANGED <<si, fed>>
Stay == UNCHANGED <<si, fed, k, cuts, delivered>>

ReadAll == /\ act' = [op |-> "read"]
           /\ IF BadAhead(k)
              THEN obs' = [r |-> "err"] /\ Stay
              ELSE obs' = [r |-> "msgs", from |-> k, n |-> Count(k)] /\ Take(Count(k))
ReadN(n) == /\ BadAhead(k) => Count(k) < n
            /\ act' = [op |-> "readn", n |-> n]
            /\ IF BadAhead(k)
               THEN obs' = [r |-> "err"] /\ Stay
               ELSE LET c == IF Count(k) < n THEN Count(k) ELSE n
                    IN obs' = [r |-> "msgs", from |-> k, n |-> c] /\ Take(c)
One(name) == /\ act' = [op |-> name]
             /\ CASE Bad(k) -> obs' = [r |-> "err"] /\ Stay
                  [] Complete(k) -> obs' = [r |-> "msgs", from |-> k, n |-> 1] /\ Take(1)
                  [] OTHER -> obs' = [r |-> "none"] /\ Stay
Has == /\ act' = [op |-> "has"] /\ Stay
       /\ obs' = IF Bad(k) THEN [r |-> "err"] ELSE [r |-> "bool", v |-> Complete(k)]
Length == /\ act' = [op |-> "len"] /\ Stay
          /\ obs' = IF BadAhead(k) THEN [r |-> "err"] ELSE [r |-> "int", v |-> Count(k)]
GetValue == /\ act' = [op |-> "getvalue"] /\ Stay
            /\ obs' = [r |-> "bytes", from |-> Start(si, k), to |-> fed]
Truncate == /\ act' = [op |-> "truncate", si |-> (si % Len(Streams)) + 1]
            /\ obs' = [r |-> "ok"]
            /\ si' = (si % Len(Streams)) + 1
            /\ fed' = 0 /\ k' = 1 /\ cuts' = {} /\ delivered' = <<>>

Next == \/ \E n \in Sizes : Write(n)
        \/ ReadAll
        \/ \E n \in Reads : ReadN(n)
        \/ (MarkEvery = 1 /\ (One("next_message") \/ One("iter")))
        \/ Has \/ Length \/ GetValue \/ Truncate

Spec == Init /\ [][Next]_vars

\* --- the property, on the specification
\* every message delivered once, in order, nothing skipped
InOrder == delivered = [i \in 1 .. Len(delivered) |-> i] /\ k = Len(delivered) + 1
\* what was delivered and what remains is what was written
Conserved == /\ Start(si, k) <= fed \/ k = 1
             /\ \A j \in 1 .. k - 1 : Body(si, j) >= 0 /\ Start(si, j + 1) <= fed

Edge == CSVWrite("%1$s", <<ToJson(<<St, act', obs', St'>>)>>, IOEnv.EDGES)
=============================================================================
