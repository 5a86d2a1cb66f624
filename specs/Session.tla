------------------------------ MODULE Session ------------------------------
(* P03/P04.  A client connection in protocol version 3: batches of requests, *)
(* and every legal way for the server to answer them.                       *)
(*                                                                          *)
(* One transition consumes one server message (or is one client operation of *)
(* a COPY FROM STDIN).  How messages are grouped into reads is not part of    *)
(* the state: the property is that grouping makes no difference, so the      *)
(* conformance harness chooses the groups.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS Batches,   \* sequence of batches; a batch is a sequence of requests
          MaxRows,   \* data messages per result
          MaxAsync,  \* asynchronous messages per batch
          MaxHeld,   \* asynchronous messages after the ready message
          MaxBatches, \* batches run on one connection
          WithFaults \* illegal responses and fatal errors too

VARIABLES b,      \* index of the running batch
          off,    \* the request responses are attributed to
          st,     \* progress within it
          mode,   \* "run", "copyin", "idle", "dead"
          err,    \* an error response was received for this batch
          rows, na, held, nb,
          ready,  \* transaction status of the last ready message
          act, obs

vars == <<b, off, st, mode, err, rows, na, held, nb, ready, act, obs>>
View == <<b, off, st, mode, err, rows, na, held, nb>>
St == [b |-> b, off |-> off, st |-> st, mode |-> mode, err |-> err, rows |-> rows,
       na |-> na, held |-> held, nb |-> nb]

\* Requests: Q simple query, F function call, P parse, B bind, Ds/Dp describe
\* statement/portal, X execute, C close, S sync, H flush.
\* Responses, named by their type byte.
All == {"T", "D", "C", "I", "G", "H", "d", "c", "Z", "V", "1", "2", "3", "t", "n", "s", "K", "R"}

BT == Batches   \* (TLC evaluates this once)
Cmd == IF off > Len(BT[b]) THEN "-" ELSE BT[b][off]
\* only requests which an unfinished COPY FROM STDIN discards follow
Rest == SubSeq(BT[b], off + 1, Len(BT[b]))
CopyInFits == \A i \in 1 .. Len(Rest) : Rest[i] \in {"S", "H"}

END == "end"
\* <<message, next progress>>: what the server may answer now
Legal ==
  CASE Cmd = "Q" /\ st = "start" -> {<<"T", "rows">>, <<"I", "more">>, <<"C", "more">>, <<"H", "out">>}
                                    \cup (IF CopyInFits THEN {<<"G", "in">>} ELSE {})
    [] Cmd = "Q" /\ st = "more"  -> {<<"T", "rows">>, <<"C", "more">>, <<"H", "out">>, <<"Z", END>>}
                                    \cup (IF CopyInFits THEN {<<"G", "in">>} ELSE {})
    [] Cmd = "Q" /\ st = "rows"  -> {<<"D", "rows">>, <<"C", "more">>}
    [] Cmd = "Q" /\ st = "out"   -> {<<"d", "out">>, <<"c", "tag">>}
    [] Cmd = "Q" /\ st = "tag"   -> {<<"C", "more">>}
    [] Cmd = "Q" /\ st = "err"   -> {<<"Z", END>>}
    [] Cmd = "F" /\ st = "start" -> {<<"V", "result">>}
    [] Cmd = "F" /\ st = "result"-> {<<"Z", END>>}
    [] Cmd = "F" /\ st = "err"   -> {<<"Z", END>>}
    [] Cmd = "P" -> {<<"1", END>>}
    [] Cmd = "B" -> {<<"2", END>>}
    [] Cmd = "C" -> {<<"3", END>>}
    [] Cmd = "S" -> {<<"Z", END>>}
    [] Cmd = "Dp" -> {<<"T", END>>, <<"n", END>>}
    [] Cmd = "Ds" /\ st = "start" -> {<<"t", "params">>}
    [] Cmd = "Ds" /\ st = "params" -> {<<"T", END>>, <<"n", END>>}
    [] Cmd = "X" /\ st = "start" -> {<<"D", "rows">>, <<"H", "out">>, <<"I", END>>, <<"C", END>>}
                                    \cup (IF CopyInFits THEN {<<"G", "in">>} ELSE {})
    [] Cmd = "X" /\ st = "rows" -> {<<"D", "rows">>, <<"s", END>>, <<"C", END>>}
    [] Cmd = "X" /\ st = "out" -> {<<"d", "out">>, <<"c", "tag">>}
    [] Cmd = "X" /\ st = "tag" -> {<<"C", END>>}
    [] OTHER -> {}

\* Responses which the protocol does not foresee here but which a tolerant
\* client may pass over without harm; nothing is claimed about them.
Tolerated ==
  CASE Cmd = "Q" -> {"T", "I", "C", "H", "G", "Z"}
    [] Cmd = "F" -> {"V"}
    [] Cmd = "X" /\ st = "start" -> {"G"}
    [] Cmd \in {"Ds", "Dp"} -> {"T", "t", "n"}
    [] OTHER -> {}
Illegal == (All \ {m[1] : m \in Legal}) \ Tolerated

RECURSIVE SkipIn(_, _)
SkipIn(x, i) == IF i <= Len(BT[x]) /\ BT[x][i] = "H" THEN SkipIn(x, i + 1) ELSE i
SkipFlush(i) == SkipIn(b, i)

Init == /\ b \in 1 .. Len(BT)
        /\ off = SkipIn(b, 1) /\ st = "start" /\ mode = "run" /\ err = FALSE
        /\ rows = 0 /\ na = 0 /\ held = 0 /\ nb = 1 /\ ready = "I"
        /\ act = [op |-> "push"] /\ obs = [r |-> "ok"]

\* the next request which has responses
RECURSIVE FindSync(_)
FindSync(i) == IF BT[b][i] = "S" THEN i ELSE FindSync(i + 1)
HasSync(i) == \E j \in i .. Len(BT[b]) : BT[b][j] = "S"

Respond(m, nx, z) ==
  /\ mode = "run" /\ <<m, nx>> \in Legal
  /\ m \in {"D", "d"} => rows < MaxRows
  /\ act' = [op |-> "srv", m |-> m, z |-> z]
  /\ m = "Z" => ready' = z
  /\ m # "Z" => ready' = ready
  /\ rows' = IF m \in {"D", "d"} THEN rows + 1 ELSE IF m \in {"C", "s", "T", "H"} THEN 0 ELSE rows
  /\ IF nx = END
     THEN LET o == SkipFlush(off + 1) IN
          /\ off' = o /\ st' = "start"
          /\ mode' = IF o > Len(BT[b]) THEN "idle" ELSE "run"
     ELSE /\ off' = off /\ st' = IF nx = "in" THEN "tag" ELSE nx
          /\ mode' = IF nx = "in" THEN "copyin" ELSE "run"
  /\ obs' = [r |-> "keep"]
  /\ err' = (err /\ m # "Z")
  /\ UNCHANGED <<b, na, held, nb>>

Async(m) ==
  /\ mode \in {"run", "copyin"} /\ na < MaxAsync
  /\ na' = na + 1
  /\ act' = [op |-> "async", m |-> m]
  /\ obs' = [r |-> "async"]
  /\ UNCHANGED <<b, off, st, mode, err, rows, held, nb, ready>>

\* asynchronous messages behind the ready message belong to nobody yet
Held(m) ==
  /\ mode = "idle" /\ held < MaxHeld /\ nb < MaxBatches
  /\ held' = held + 1
  /\ act' = [op |-> "held", m |-> m]
  /\ obs' = [r |-> "held"]
  /\ UNCHANGED <<b, off, st, mode, err, rows, na, nb, ready>>

\* The server reports an error, ignores requests up to the next sync (which a
\* simple query and a function call imply), and says ready.
Error ==
  /\ \/ mode = "run"
     \/ mode = "copyin" /\ Cmd = "Q" /\ rows = 0   \* before the client starts to send
  /\ mode' = "run"
  /\ ~ (Cmd \in {"Q", "F"} /\ st \in {"err"})
  /\ Cmd = "S" => ~ err
  /\ Cmd \in {"Q", "F"} \/ HasSync(off)
  /\ act' = [op |-> "srv", m |-> "E", z |-> "ERROR"]
  /\ obs' = [r |-> "error"]
  /\ err' = TRUE /\ rows' = 0
  /\ IF Cmd \in {"Q", "F"}
     THEN off' = off /\ st' = "err"
     ELSE off' = FindSync(off) /\ st' = "start"
  /\ UNCHANGED <<b, na, held, nb, ready>>

Fatal(sev) ==
  /\ WithFaults /\ mode = "run"
  /\ act' = [op |-> "srv", m |-> "E", z |-> sev]
  /\ obs' = [r |-> "fatal"]
  /\ mode' = "dead"
  /\ UNCHANGED <<b, off, st, err, rows, na, held, nb, ready>>

Violate(m) ==
  /\ WithFaults /\ mode = "run" /\ m \in Illegal
  /\ act' = [op |-> "srv", m |-> m, z |-> "I"]
  /\ obs' = [r |-> "violation"]
  /\ mode' = "dead"
  /\ UNCHANGED <<b, off, st, err, rows, na, held, nb, ready>>

\* COPY FROM STDIN: the client sends data, then says done or fail
Send == /\ mode = "copyin" /\ rows < MaxRows
        /\ rows' = rows + 1
        /\ act' = [op |-> "send"] /\ obs' = [r |-> "sent"]
        /\ UNCHANGED <<b, off, st, mode, err, na, held, nb, ready>>
\* the requests behind the COPY were discarded and are sent again
Finish(how) ==
        /\ mode = "copyin"
        /\ mode' = "run" /\ rows' = 0
        /\ act' = [op |-> how] /\ obs' = [r |-> "resent", tail |-> Rest]
        /\ UNCHANGED <<b, off, st, err, na, held, nb, ready>>

NextBatch(i) ==
  /\ mode = "idle" /\ nb < MaxBatches
  /\ b' = i /\ off' = SkipIn(i, 1) /\ st' = "start" /\ mode' = "run" /\ err' = FALSE
  /\ rows' = 0 /\ na' = 0 /\ held' = 0 /\ nb' = nb + 1
  /\ act' = [op |-> "push"] /\ obs' = [r |-> "ok"]
  /\ UNCHANGED ready

\* nothing is sent any more
Refuse == /\ mode = "dead" /\ nb < MaxBatches
          /\ nb' = MaxBatches
          /\ act' = [op |-> "refuse"] /\ obs' = [r |-> "refused"]
          /\ UNCHANGED <<b, off, st, mode, err, rows, na, held, ready>>

Next == \/ \E m \in Legal : IF m[1] = "Z" THEN \E z \in {"I", "T", "E"} : Respond(m[1], m[2], z)
                                          ELSE Respond(m[1], m[2], "-")
        \/ \E m \in {"N", "A", "S"} : Async(m) \/ Held(m)
        \/ Error
        \/ \E s \in {"FATAL", "PANIC"} : Fatal(s)
        \/ \E m \in All : Violate(m)
        \/ Send \/ Finish("done") \/ Finish("fail")
        \/ NextBatch((b % Len(BT)) + 1)
        \/ Refuse

Spec == Init /\ [][Next]_vars

\* --- on the specification itself
TypeOK == /\ mode \in {"run", "copyin", "idle", "dead"}
          /\ off \in 1 .. Len(BT[b]) + 1
\* a batch is over exactly at its last ready message
DoneAtReady == mode = "idle" <=> off = Len(BT[b]) + 1
\* the server always has something to say to an unfinished batch
NeverStuck == mode = "run" => Legal # {}
\* after an error, only ready is awaited
ErrSkips == (err /\ mode = "run") => (Cmd \in {"Q", "F"} /\ st = "err") \/ Cmd = "S"

Edge == CSVWrite("%1$s", <<ToJson(<<St, act', obs', St'>>)>>, IOEnv.EDGES)
=============================================================================
