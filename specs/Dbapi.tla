-------------------------------- MODULE Dbapi --------------------------------
(* P16.  A DB-API connection with its implicit transaction and its cursors.     *)
(* saved are the rows every session sees, work what the transaction has added    *)
(* or removed (the rows visible in it are mine).  A cursor has a result: a list  *)
(* of rows of the table (tab), or n generated ones; pos of them were fetched.     *)
(* A result that was opened in a transaction which has ended or failed may only   *)
(* be fetched from with an error or with the right rows ("may"); it is not known  *)
(* (murky) whether the transaction has failed then.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Cursors, MaxRow, Sizes, Amounts,
          Extras  \* subset of {"auto", "bad", "late", "many", "ret", "close", "with", "delete"}
VARIABLES auto, saved, mine, failed, pend, murky, nrow, cs, shut, act, obs
vars == <<auto, saved, mine, failed, pend, murky, nrow, cs, shut, act, obs>>
St == [auto |-> auto, saved |-> saved, mine |-> mine, failed |-> failed, pend |-> pend, murky |-> murky, nrow |-> nrow, cs |-> cs, shut |-> shut]
View == St
Bad(r) == r < 0
NoResult == [st |-> "none", tab |-> << >>, n |-> 0, pos |-> 0, hold |-> FALSE]
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN << >> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
Low(a, b) == IF a < b THEN a ELSE b

\* results of the transaction end with it
Gone(c) == [i \in DOMAIN c |-> IF c[i].st = "res" /\ ~c[i].hold THEN [c[i] EXCEPT !.st = "may"] ELSE c[i]]
Told(c) == [i \in DOMAIN c |-> IF c[i].st = "bad" THEN [c[i] EXCEPT !.st = "undef"] ELSE c[i]]
Broken(s) == [s EXCEPT !.failed = TRUE, !.pend = FALSE, !.cs = Told(Gone(@))]
Res(s, r, v) == [s |-> s, r |-> r, v |-> v]
Upd(a, z) ==
    /\ auto' = z.s.auto /\ saved' = z.s.saved /\ mine' = z.s.mine /\ failed' = z.s.failed /\ pend' = z.s.pend /\ murky' = z.s.murky
    /\ nrow' = z.s.nrow /\ cs' = z.s.cs /\ shut' = z.s.shut /\ act' = a /\ obs' = [r |-> z.r, v |-> z.v]
\* anything that needs the server
Guard(c, z) == IF c # 0 /\ cs[IF c = 0 THEN 1 ELSE c].st = "closed" THEN Res(St, "cursorclosed", 0)
               ELSE IF shut THEN Res(St, "closed", 0)
               ELSE IF pend THEN Res(Broken(St), "pending", 0)
               ELSE z
Run(c, z) == Guard(c, IF failed THEN Res(St, "infailed", 0) ELSE z)
Change(s, add, del) == IF s.auto THEN [s EXCEPT !.saved = (@ \cup add) \ del] ELSE [s EXCEPT !.mine = (@ \cup add) \ del]
Visible == IF auto THEN saved ELSE mine
\* an error ends what it belongs to: a statement in auto-commit mode, else the transaction is failed
Error(s) == IF s.auto THEN s ELSE Broken(s)
Put(s, c, r) == [s EXCEPT !.cs[c] = r]
Drop(s, c) == Put(s, c, NoResult)

Insert(c, bad) ==
    LET r == IF bad THEN -(nrow + 1) ELSE nrow + 1 IN
    nrow < MaxRow /\ Upd([op |-> "insert", c |-> c, row |-> r], Run(c,
        IF bad /\ auto THEN Res(St, "constraint", 0)
        ELSE Res(Drop([Change(St, {r}, {}) EXCEPT !.nrow = @ + 1], c), "ok", 1)))
InsertReturning(c) ==
    LET r == nrow + 1 IN
    nrow < MaxRow /\ Upd([op |-> "insertret", c |-> c, row |-> r], Run(c,
        Res(Put([Change(St, {r}, {}) EXCEPT !.nrow = @ + 1], c, [NoResult EXCEPT !.st = "res", !.tab = <<r>>, !.hold = auto]), "ok", -1)))
Many(c) ==
    nrow + 2 <= MaxRow /\ Upd([op |-> "many", c |-> c, row |-> nrow + 1], Run(c,
        Res(Drop([Change(St, {nrow + 1, nrow + 2}, {}) EXCEPT !.nrow = @ + 2], c), "ok", -1)))
\* the second of the parameters fails
ManyBad(c) == Upd([op |-> "manybad", c |-> c, row |-> 9], Run(c, Res(Error(St), "error", 0)))
DeleteAll(c) == Upd([op |-> "delete", c |-> c], Run(c, Res(Drop(Change(St, {}, Visible), c), "ok", Cardinality(Visible))))
Series(c, n) == Upd([op |-> "series", c |-> c, n |-> n], Run(c, Res(Put(St, c, [NoResult EXCEPT !.st = "res", !.n = n, !.hold = auto]), "ok", -1)))
Table(c) == Upd([op |-> "table", c |-> c], Run(c, Res(Put(St, c, [NoResult EXCEPT !.st = "res", !.tab = Sorted(Visible), !.hold = auto]), "ok", -1)))
FailExec(c) == Upd([op |-> "failexec", c |-> c], Run(c, Res(Error(St), "error", 0)))
\* a result that fails while it is being received
Late(c) == Upd([op |-> "late", c |-> c], Run(c, IF auto THEN Res(St, "error", 0)
                ELSE Res([Put(St, c, [NoResult EXCEPT !.st = "bad"]) EXCEPT !.pend = TRUE], "ok", -1)))

Size(x) == Len(x.tab) + x.n
Fetch(c, a, k) ==   \* up to k rows, or all if k = -1
    LET x == cs[c]
        to == IF k = -1 THEN Size(x) ELSE Low(x.pos + k, Size(x)) IN
    Upd(a, IF x.st = "closed" THEN Res(St, "cursorclosed", 0)
           ELSE IF shut THEN Res(St, "closed", 0)
           ELSE IF x.st = "none" THEN Res(St, "noresult", 0)
           ELSE IF x.st = "bad" THEN Res(Broken(St), "pending", 0)
           ELSE IF x.st \in {"may"} \/ failed THEN Res([Put(St, c, [x EXCEPT !.st = "undef"]) EXCEPT !.murky = TRUE], "may", [from |-> x.pos, to |-> to])
           ELSE Res(Put(St, c, [x EXCEPT !.pos = to]), "ok", [from |-> x.pos, to |-> to]))
\* whether what was received before is given while another result is pending is left open
Near(x) == Size(x) < 10 \/ x.pos < 2 \/ x.pos > Size(x) - 3 \/ x.pos \in 4095 .. 4097
FetchOp(c) == cs[c].st # "undef" /\ (pend => cs[c].st \in {"bad", "closed"}) /\
    \/ Near(cs[c]) /\ Fetch(c, [op |-> "one", c |-> c], 1)
    \/ \E k \in Amounts : Fetch(c, [op |-> "fetchmany", c |-> c, k |-> k], k)
    \/ Fetch(c, [op |-> "all", c |-> c], -1)

Constraint(s) == \E r \in s.mine : Bad(r)
NewXact(s) == [s EXCEPT !.failed = FALSE, !.mine = s.saved, !.cs = Gone(@)]
Commit == Upd([op |-> "commit"],
    IF shut THEN Res(St, "closed", 0) ELSE IF auto THEN Res(St, "autocommit", 0)
    ELSE IF pend THEN Res(Broken(St), "pending", 0)
    ELSE IF failed THEN Res(NewXact(St), "ok", 0)       \* nothing of it is kept; as documented for COMMIT
    ELSE IF Constraint(St) THEN Res(NewXact(St), "constraint", 0)
    ELSE Res(NewXact([St EXCEPT !.saved = mine]), "ok", 0))
Rollback == Upd([op |-> "rollback"],
    IF shut THEN Res(St, "closed", 0) ELSE IF auto THEN Res(St, "autocommit", 0)
    ELSE IF pend THEN Res(Broken(St), "pending", 0)
    ELSE Res(NewXact(St), "ok", 0))
Auto(v) == ~shut /\ Upd([op |-> "auto", v |-> v],
    IF v = auto THEN Res(St, "ok", 0)
    ELSE IF v THEN (IF pend THEN Res(Broken(St), "pending", 0) ELSE Res([NewXact(St) EXCEPT !.auto = TRUE, !.mine = {}], "ok", 0))
    ELSE Res([St EXCEPT !.auto = FALSE, !.mine = saved], "ok", 0))
CloseCursor(c) == Upd([op |-> "closecursor", c |-> c],
    IF cs[c].st = "closed" THEN Res(St, "cursorclosed", 0) ELSE Res(Put(St, c, [NoResult EXCEPT !.st = "closed"]), "ok", 0))
\* a new cursor in the place of a closed one
NewCursor(c) == cs[c].st = "closed" /\ ~shut /\ Upd([op |-> "cursor", c |-> c], Res(Put(St, c, NoResult), "ok", 0))
Close == Upd([op |-> "close"], IF shut THEN Res(St, "closed", 0) ELSE Res([St EXCEPT !.shut = TRUE, !.mine = {}, !.failed = FALSE, !.pend = FALSE], "ok", 0))
\* such a fetch can have failed the transaction, at once or when its failure is noticed
Recover == murky /\ Upd([op |-> "recover"], Res([NewXact(St) EXCEPT !.murky = FALSE, !.mine = IF auto THEN {} ELSE saved], "ok", 0))
\* entering the connection's context once more changes nothing
With == ~shut /\ Upd([op |-> "with"], Res(St, "ok", 0))

Init == /\ auto = FALSE /\ saved = {} /\ mine = {} /\ failed = FALSE /\ pend = FALSE /\ murky = FALSE /\ nrow = 0
        /\ cs = [c \in 1 .. Cursors |-> NoResult] /\ shut = FALSE /\ act = [op |-> "init"] /\ obs = [r |-> "", v |-> 0]
Next == IF murky THEN Recover ELSE
    \/ \E c \in 1 .. Cursors :
        \/ Insert(c, FALSE) \/ Table(c) \/ FailExec(c) \/ FetchOp(c)
        \/ \E n \in Sizes : Series(c, n)
        \/ "bad" \in Extras /\ Insert(c, TRUE)
        \/ "late" \in Extras /\ Late(c)
        \/ "many" \in Extras /\ (Many(c) \/ ManyBad(c))
        \/ "ret" \in Extras /\ InsertReturning(c)
        \/ "delete" \in Extras /\ DeleteAll(c)
        \/ "close" \in Extras /\ (CloseCursor(c) \/ NewCursor(c))
    \/ Commit \/ Rollback
    \/ "auto" \in Extras /\ \E v \in BOOLEAN : Auto(v)
    \/ "close" \in Extras /\ Close
    \/ "with" \in Extras /\ With
Spec == Init /\ [][Next]_vars

\* fetches partition the result: each continues where the last one ended
Partition == [][\A c \in 1 .. Cursors : (act'.op \in {"one", "fetchmany", "all"} /\ act'.c = c /\ obs'.r = "ok")
                => obs'.v.from = cs[c].pos /\ cs'[c].pos = obs'.v.to /\ obs'.v.to <= Size(cs[c])]_vars
Durable == [][saved # saved' => \/ act'.op = "commit" /\ obs'.r = "ok" /\ ~failed /\ saved' = mine
                                \/ auto /\ act'.op \in {"insert", "insertret", "many", "delete"}]_vars
\* what is done in auto-commit mode is kept, at once and by itself
AutoIsDurable == [][(auto /\ act'.op \in {"insert", "insertret"} /\ obs'.r = "ok") => act'.row \in saved']_vars
RollbackDiscards == [][(act'.op = "rollback" /\ obs'.r = "ok") => (saved' = saved /\ mine' = saved /\ ~failed')]_vars
ClosedRefuses == [][(shut /\ act'.op # "closecursor") => (obs'.r \in {"closed", "cursorclosed"} /\ St' = St)]_vars
NotBad == \A r \in saved : ~Bad(r)

Edge == CSVWrite("%1$s", <<ToJson(<<St, act', obs', St'>>)>>, IOEnv.EDGES)
==============================================================================
