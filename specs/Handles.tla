------------------------------- MODULE Handles -------------------------------
(* P08.  Client objects for prepared statements and cursors, and what exists on  *)
(* the server for them.  stm[i]: statement objects: kind "stmt" (created by the  *)
(* client), "id" (opened from the identifier of a statement that exists);         *)
(* dep[j]: cursors ("cursor", "idcursor") and result streams ("stream") with the   *)
(* statement they hold.  user: the program still references it.                   *)
(* A released object is gone for the next operation at the latest, so the server    *)
(* sets are given as the next operation would find them.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS NS, ND, Extras
VARIABLES stm, dep, named, blk, sp, lost, act, obs
vars == <<stm, dep, named, blk, sp, lost, act, obs>>
St == [stm |-> stm, dep |-> dep, named |-> named, blk |-> blk, sp |-> sp, lost |-> lost]
View == St
NoS == [kind |-> "none", user |-> FALSE, closed |-> FALSE]
\* on: it exists on the server;  where: the transaction it depends on
NoD == [kind |-> "none", of |-> 0, on |-> FALSE, closed |-> FALSE, where |-> ""]
S == 1 .. NS
D == 1 .. ND
Holders(s, i) == {j \in D : s.dep[j].kind # "none" /\ s.dep[j].of = i}
\* a statement object without any reference is gone
Sweep(s) == [s EXCEPT !.stm = [i \in S |-> IF s.stm[i].kind # "none" /\ ~s.stm[i].user /\ Holders(s, i) = {} THEN NoS ELSE s.stm[i]]]
OnServer(s, i) == s.stm[i].kind = "stmt" /\ ~s.stm[i].closed
Count(s, i) == Cardinality({j \in D : s.dep[j].on /\ s.dep[j].of = i})
Seen(s) == [st |-> {i \in S : OnServer(s, i)}, named |-> s.named, cu |-> [i \in S |-> Count(s, i)], idcu |-> {j \in D : s.dep[j].on /\ s.dep[j].of = 0}]
Ok(s) == [s |-> s, r |-> [r |-> "ok"]]
Err(s, c) == [s |-> s, r |-> [r |-> c]]
Broken(s) == [s EXCEPT !.blk = IF @ = "T" THEN "E" ELSE @]
\* the cursors and streams for which P holds are gone from the server
Kill(s, P(_)) == [s EXCEPT !.dep = [j \in D |-> IF s.dep[j].kind # "none" /\ P(s.dep[j]) THEN [s.dep[j] EXCEPT !.on = FALSE] ELSE s.dep[j]]]
Held(s) == [s EXCEPT !.dep = [j \in D |-> IF s.dep[j].kind # "none" THEN [s.dep[j] EXCEPT !.where = "I"] ELSE s.dep[j]]]
Guard(s, z) == IF s.lost THEN Err(s, "closed") ELSE IF s.blk = "E" THEN Err(s, "infailed") ELSE z
Where(s) == IF s.blk = "I" THEN "I" ELSE IF s.sp THEN "sp" ELSE "T"

Step(s, a) ==
    CASE a.op = "prepare" -> Guard(s, Ok([s EXCEPT !.stm[a.i] = [kind |-> "stmt", user |-> TRUE, closed |-> FALSE]]))
      [] a.op = "clone" -> Guard(s, Ok([s EXCEPT !.stm[a.k] = [kind |-> "stmt", user |-> TRUE, closed |-> FALSE]]))
      \* the identifier's statement is created with SQL when there is none
      [] a.op = "fromid" -> Guard(s, Ok([s EXCEPT !.stm[a.i] = [kind |-> "id", user |-> TRUE, closed |-> FALSE], !.named = @ \cup {a.i}]))
      [] a.op = "use" -> IF s.stm[a.i].closed THEN Err(s, "refused") ELSE IF s.lost THEN Err(s, "closed") ELSE Guard(s, IF s.stm[a.i].kind = "id" /\ a.i \notin s.named THEN Err(Broken(s), "refused") ELSE Ok(s))
      [] a.op = "closestm" -> Ok([s EXCEPT !.stm[a.i].closed = TRUE, !.named = IF s.stm[a.i].kind = "id" /\ ~s.stm[a.i].closed THEN @ \ {a.i} ELSE @])
      [] a.op = "dropstm" -> Ok(Sweep([s EXCEPT !.stm[a.i].user = FALSE]))
      [] a.op = "open" -> Guard(s, Ok([s EXCEPT !.dep[a.j] = [kind |-> a.kind, of |-> a.i, on |-> TRUE, closed |-> FALSE, where |-> Where(s)]]))
      [] a.op = "opencur" -> Guard(s, Ok([s EXCEPT !.dep[a.j] = [kind |-> "idcursor", of |-> 0, on |-> TRUE, closed |-> FALSE, where |-> Where(s)]]))
      [] a.op = "read" -> IF s.dep[a.j].closed THEN Err(s, "end") ELSE Ok(s)
      \* a stream that was read to its end is released
      [] a.op = "finish" -> Ok(IF s.dep[a.j].kind = "stream" THEN [s EXCEPT !.dep[a.j].on = FALSE, !.dep[a.j].closed = TRUE] ELSE s)
      [] a.op = "closedep" -> Ok([s EXCEPT !.dep[a.j].closed = TRUE, !.dep[a.j].on = FALSE])
      \* a cursor opened from an identifier outlives its object
      [] a.op = "dropdep" -> Ok(IF s.dep[a.j].kind = "idcursor" /\ ~s.dep[a.j].closed THEN [s EXCEPT !.dep[a.j].kind = "left"] ELSE Sweep([s EXCEPT !.dep[a.j] = NoD]))
      [] a.op = "reopen" -> Guard(s, Ok([s EXCEPT !.dep[a.j].kind = "idcursor"]))
      [] a.op = "query" -> Guard(s, Ok(s))
      [] a.op = "fail" -> IF s.lost THEN Err(s, "closed") ELSE IF s.blk = "E" THEN Err(s, "infailed") ELSE Err(Broken(s), "failed")
      [] a.op = "begin" -> IF s.lost THEN Err(s, "closed") ELSE Ok([s EXCEPT !.blk = "T"])
      [] a.op = "commit" -> IF s.lost THEN Err(s, "closed")
                            ELSE Ok([IF s.blk = "E" THEN Kill(s, LAMBDA d : d.where # "I")
                                     ELSE Held(Kill(s, LAMBDA d : d.where # "I" /\ d.kind = "stream")) EXCEPT !.blk = "I", !.sp = FALSE])
      [] a.op = "rollback" -> IF s.lost THEN Err(s, "closed") ELSE Ok([Kill(s, LAMBDA d : d.where # "I") EXCEPT !.blk = "I", !.sp = FALSE])
      [] a.op = "savepoint" -> Guard(s, Ok([s EXCEPT !.sp = TRUE, !.dep = [j \in D |-> IF s.dep[j].where = "sp" THEN [s.dep[j] EXCEPT !.where = "T"] ELSE s.dep[j]]]))
      [] a.op = "rollto" -> IF s.lost THEN Err(s, "closed") ELSE Ok([Kill(s, LAMBDA d : d.where = "sp") EXCEPT !.blk = "T"])
      [] a.op = "look" -> IF s.lost THEN Err(s, "closed") ELSE [s |-> s, r |-> [r |-> "ok"] @@ Seen(s)]
      [] a.op = "lose" -> Ok([Kill(s, LAMBDA d : TRUE) EXCEPT !.lost = TRUE, !.blk = "I", !.sp = FALSE, !.named = {}])

Free(i) == stm[i].kind = "none"
FreeD(j) == dep[j].kind = "none"
Mine(i) == stm[i].user
Acts == [op : {"prepare", "fromid"}, i : {i \in S : Free(i)}]
        \cup (IF "clone" \in Extras THEN [op : {"clone"}, i : {i \in S : Mine(i) /\ stm[i].kind = "stmt"}, k : {k \in S : Free(k)}] ELSE {})
        \* what a refused use does to an open transaction is left open
        \cup [op : {"use"}, i : {i \in S : Mine(i) /\ ((stm[i].closed \/ (stm[i].kind = "id" /\ i \notin named)) => blk = "I")}]
        \cup [op : {"closestm"}, i : {i \in S : Mine(i)}] \cup [op : {"dropstm"}, i : {i \in S : Mine(i)}]
        \cup [op : {"open"}, kind : {"cursor", "stream"}, i : {i \in S : Mine(i) /\ ~stm[i].closed /\ stm[i].kind = "stmt"}, j : {j \in D : FreeD(j) /\ blk # "E"}]
        \cup (IF "idcursor" \in Extras /\ ~lost THEN [op : {"opencur"}, j : {j \in D : FreeD(j)}] ELSE {})
        \cup [op : {"reopen"}, j : {j \in D : dep[j].kind = "left" /\ dep[j].on /\ ~lost}]
        \cup [op : {"read", "finish"}, j : {j \in D : dep[j].kind \notin {"none", "left"} /\ ((dep[j].on /\ blk # "E") \/ (dep[j].closed /\ dep[j].kind = "stream"))}]
        \cup [op : {"closedep", "dropdep"}, j : {j \in D : dep[j].kind \notin {"none", "left"}}]
        \cup [op : {"query", "fail"}]
        \cup (IF blk = "I" THEN [op : {"begin"}] ELSE [op : {"commit", "rollback"}])
        \cup (IF blk = "T" THEN [op : {"savepoint"}] ELSE {}) \cup (IF sp /\ blk # "I" THEN [op : {"rollto"}] ELSE {})
        \cup (IF blk # "E" THEN [op : {"look"}] ELSE {})
        \cup (IF "lose" \in Extras /\ ~lost THEN [op : {"lose"}] ELSE {})
Init == /\ stm = [i \in S |-> NoS] /\ dep = [j \in D |-> NoD] /\ named = {} /\ blk = "I" /\ sp = FALSE /\ lost = FALSE
        /\ act = [op |-> "init"] /\ obs = [r |-> "ok"]
Next == \E a \in Acts : LET z == Step(St, a) IN
        /\ act' = a /\ obs' = z.r /\ stm' = z.s.stm /\ dep' = z.s.dep /\ named' = z.s.named /\ blk' = z.s.blk /\ sp' = z.s.sp /\ lost' = z.s.lost
Spec == Init /\ [][Next]_vars

\* a statement exists exactly as long as it is referenced and not closed
Exact == \A i \in S : OnServer(St, i) <=> (stm[i].kind = "stmt" /\ ~stm[i].closed /\ (stm[i].user \/ Holders(St, i) # {}))
\* nothing exists that no object can release, but what was opened from an identifier
NoLeak == \A j \in D : dep[j].on => dep[j].kind # "none" /\ ~dep[j].closed /\ (dep[j].kind = "left" => dep[j].of = 0)
\* what is named ceases to exist only by closing it (or with the connection)
NamedStay == [][named' # named => act'.op \in {"fromid", "closestm", "lose"}]_vars
\* releasing one object releases nothing else
Others == [][act'.op \in {"closestm", "dropstm", "closedep", "dropdep"} =>
             \A j \in D : dep[j].on /\ ~dep'[j].on => act'.op \in {"closedep", "dropdep"} /\ act'.j = j]_vars
Edge == CSVWrite("%1$s", <<ToJson(<<St, act', obs', St'>>)>>, IOEnv.EDGES)
=============================================================================
