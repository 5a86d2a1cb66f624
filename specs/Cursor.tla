------------------------------- MODULE Cursor -------------------------------
(* P10.  A scrollable cursor over a result of n rows.                          *)
(* The abstract cursor: at is the index of the row the cursor is on, 0 just     *)
(* before the first and n + 1 just after the last, in the view of the default    *)
(* direction (the view is the result, or the reversed result).                  *)
(* real is the position of the server's cursor: the driver's translation of     *)
(* each operation into FETCH and MOVE commands is run on it (Pg...), and Agree    *)
(* says that the translation implements the abstract cursor.                    *)
EXTENDS Integers, Sequences, TLC, Json, CSV, IOUtils
CONSTANTS MinN, MaxN, Kinds, Quantities, Offsets
VARIABLES n, kind, at, fwd, real, got, act, obs
vars == <<n, kind, at, fwd, real, got, act, obs>>
View == <<n, kind, at, fwd>>
St == [n |-> n, kind |-> kind, at |-> at, fwd |-> fwd]
Clamp(x) == IF x < 0 THEN 0 ELSE IF x > n + 1 THEN n + 1 ELSE x
\* row number i of the view
Row(i) == IF fwd THEN i ELSE n + 1 - i
All == 1000000
\* moving by q rows (negative: backwards) passes over these indexes
Passed(from, q) == IF q > 0 THEN [i \in 1 .. (IF from >= n THEN 0 ELSE IF from + q > n THEN n - from ELSE q) |-> from + i]
                   ELSE IF q < 0 THEN [i \in 1 .. (IF from <= 1 THEN 0 ELSE IF from + q < 1 THEN from - 1 ELSE -q) |-> from - i]
                   ELSE << >>
Rows(idx) == [i \in DOMAIN idx |-> Row(idx[i])]
Target(k, whence) == CASE whence = "ABSOLUTE" -> IF k >= 0 THEN Clamp(k) ELSE Clamp(n + 1 + k)
                       [] whence = "FROM_END" -> Clamp(n + 1 - k)
                       [] whence \in {"RELATIVE", "FORWARD"} -> Clamp(at + k)
                       [] whence = "BACKWARD" -> Clamp(at - k)
\* --- the server's cursor (PostgreSQL's FETCH and MOVE; they may only differ in the rows shown)
PgMove(p, q) == Clamp(p + q)
PgAbs(p, k) == IF k >= 0 THEN Clamp(k) ELSE Clamp(n + 1 + k)
PgEnd(p) == n + 1  \* MOVE LAST then MOVE NEXT
\* --- the driver's translation
TrSeek(p, k, whence) ==
    CASE whence = "ABSOLUTE" -> IF fwd THEN PgAbs(p, k) ELSE IF k < 0 THEN PgAbs(p, -k) ELSE PgMove(PgEnd(p), -k)
      [] whence = "FROM_END" -> IF fwd THEN PgMove(PgEnd(p), -k) ELSE PgAbs(p, IF k < 0 THEN 0 ELSE k)
      [] whence \in {"RELATIVE", "FORWARD"} -> PgMove(p, IF fwd THEN k ELSE -k)
      [] whence = "BACKWARD" -> PgMove(p, IF fwd THEN -k ELSE k)

Init == /\ n \in MinN .. MaxN /\ kind \in Kinds /\ at = 0 /\ fwd = TRUE /\ real = 0 /\ got = << >>
        /\ act = [op |-> "init"] /\ obs = [r |-> "ok"]
Quiet == got' = << >>
Same == UNCHANGED <<n, kind>>
Dir(d) == IF d = "BACKWARD" THEN FALSE ELSE TRUE
\* reading q rows; a direction that is given is relative to the default direction
Read == \E q \in Quantities \cup {All}, d \in {"none", "FORWARD", "BACKWARD"} :
        LET s == IF Dir(d) THEN q ELSE -q
            idx == Passed(at, s) IN
        /\ act' = [op |-> "read", q |-> q, d |-> d]
        /\ at' = IF q = 0 THEN at ELSE Clamp(at + s)
        /\ real' = IF q = 0 THEN real ELSE PgMove(real, IF Dir(d) = fwd THEN q ELSE -q)
        /\ got' = Rows(idx) /\ obs' = [r |-> "rows", rows |-> Rows(idx)]
        /\ UNCHANGED fwd /\ Same
Step == LET idx == Passed(at, 1) IN
        /\ act' = [op |-> "next"] /\ at' = Clamp(at + 1) /\ real' = PgMove(real, IF fwd THEN 1 ELSE -1)
        /\ got' = Rows(idx) /\ obs' = IF idx = << >> THEN [r |-> "stop"] ELSE [r |-> "row", rows |-> Rows(idx)]
        /\ UNCHANGED fwd /\ Same
\* moves forward or backward report how many rows they passed over
Seek == \E k \in Offsets, w \in {"ABSOLUTE", "RELATIVE", "FROM_END", "FORWARD", "BACKWARD"} :
        LET t == Target(k, w)
            s == IF w = "BACKWARD" THEN -k ELSE k IN
        /\ act' = [op |-> "seek", k |-> k, w |-> w]
        /\ at' = t /\ real' = TrSeek(real, k, w)
        /\ obs' = IF w \in {"FORWARD", "BACKWARD"} /\ k # 0 THEN [r |-> "count", count |-> Len(Passed(at, s))] ELSE [r |-> "ok"]
        /\ Quiet /\ UNCHANGED fwd /\ Same
SeekAll == \E w \in {"default", "FORWARD", "BACKWARD"} :
        LET s == IF w = "BACKWARD" THEN -All ELSE All IN
        /\ act' = [op |-> "seekall", w |-> w]
        /\ at' = Clamp(at + s) /\ real' = PgMove(real, IF (w # "BACKWARD") = fwd THEN All ELSE -All)
        /\ obs' = [r |-> "count", count |-> Len(Passed(at, s))]
        /\ Quiet /\ UNCHANGED fwd /\ Same
Turn == \E d \in BOOLEAN :
        /\ act' = [op |-> "direction", d |-> d] /\ fwd' = d
        /\ at' = IF d = fwd THEN at ELSE n + 1 - at
        /\ obs' = [r |-> "ok"] /\ Quiet /\ UNCHANGED real /\ Same
\* refused without moving
Invalid == \E w \in {"read-direction", "set-direction", "seek-whence", "seek-offset"}, i \in 1 .. 4 :
        /\ act' = [op |-> "invalid", w |-> w, i |-> i] /\ obs' = [r |-> "refused"]
        /\ Quiet /\ UNCHANGED <<at, real, fwd>> /\ Same
\* a clone is a new cursor of the same statement and parameters
Clone == /\ kind = "declared" /\ act' = [op |-> "clone"] /\ at' = 0 /\ real' = 0 /\ fwd' = TRUE /\ obs' = [r |-> "ok"]
         /\ Quiet /\ Same
Next == Read \/ Step \/ Seek \/ SeekAll \/ Turn \/ Invalid \/ Clone
Spec == Init /\ [][Next]_vars

InRange == at \in 0 .. n + 1
Agree == real = IF fwd THEN at ELSE n + 1 - at
\* what is returned are consecutive rows of the result
Consecutive == \A i \in 1 .. Len(got) : got[i] \in 1 .. n /\ (i > 1 => got[i] - got[i - 1] = got[2] - got[1] /\ got[2] - got[1] \in {-1, 1})
\* reading forward to the end from the start gives the whole view
Whole == [][(act'.op = "read" /\ act'.q = All /\ act'.d # "BACKWARD" /\ at = 0) => got' = [i \in 1 .. n |-> Row(i)]]_vars
\* a read that returns fewer rows than asked for has reached the end it was heading for
Exhausted == [][(act'.op = "read" /\ act'.q > 0 /\ Len(got') < act'.q) => at' \in {0, n + 1}]_vars
\* turning round twice changes nothing, and a turn moves nothing
TurnMoves == [][(act'.op = "direction") => real' = real]_vars
Edge == CSVWrite("%1$s", <<ToJson(<<St, act', obs', St'>>)>>, IOEnv.EDGES)
=============================================================================
