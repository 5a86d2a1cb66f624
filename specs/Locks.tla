-------------------------------- MODULE Locks --------------------------------
(* P14.  Advisory lock objects of two sessions and the server's lock table.     *)
(* held[s][i][m] is how often session s has locked identifier i in mode m       *)
(* (1 share, 2 exclusive); an object counts its acquisitions in cnt.  One        *)
(* blocking acquisition at a time may be waiting (wait, having got the first     *)
(* got identifiers); nothing else happens in its session meanwhile.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Objs,      \* << [s |-> session, m |-> mode, ids |-> <<identifiers>>], ... >>
          NIds, MaxCnt,
          Extras     \* subset of {"tx", "close", "interrupt"}
VARIABLES cnt, held, tx, wait, got, done, act, obs
vars == <<cnt, held, tx, wait, got, done, act, obs>>
Sess == 1 .. 2
St == [cnt |-> cnt, held |-> held, tx |-> tx, wait |-> wait, got |-> got, done |-> done]
View == St
O == DOMAIN Objs
Ids(o) == Objs[o].ids
Confl(m, n) == m = 2 \/ n = 2

Waits(st, s, i, m) == st.wait # 0 /\ Objs[st.wait].s # s /\ Ids(st.wait)[st.got + 1] = i /\ Confl(Objs[st.wait].m, m)
\* the server also lets requests wait which conflict with those already waiting
Grantable(st, s, i, m) ==
    \/ st.held[s][i][m] > 0
    \/ /\ \A t \in Sess \ {s} : \A n \in 1 .. 2 : st.held[t][i][n] > 0 => ~Confl(m, n)
       /\ ~Waits(st, s, i, m)
\* versions of the server differ here: the session holds it in the other mode and another one waits for it
Unclear(st, s, i, m) == Waits(st, s, i, m) /\ st.held[s][i][m] = 0 /\ st.held[s][i][3 - m] > 0
Put(st, s, i, m, d) == [st EXCEPT !.held[s][i][m] = @ + d]
RECURSIVE PutAll(_, _, _, _, _)
PutAll(st, s, is, m, d) == IF is = << >> THEN st ELSE PutAll(Put(st, s, Head(is), m, d), s, Tail(is), m, d)

\* takes the identifiers of o from k + 1 on for as long as they are to be had
RECURSIVE Take(_, _, _)
Take(st, o, k) ==
    IF k = Len(Ids(o)) THEN [s |-> st, k |-> k]
    ELSE IF Grantable(st, Objs[o].s, Ids(o)[k + 1], Objs[o].m) THEN Take(Put(st, Objs[o].s, Ids(o)[k + 1], Objs[o].m, 1), o, k + 1)
    ELSE [s |-> st, k |-> k]
\* what the waiting session gets of what was given up
Settle(st) ==
    IF st.wait = 0 THEN st
    ELSE LET z == Take([st EXCEPT !.wait = 0], st.wait, st.got) IN
         IF z.k = Len(Ids(st.wait)) THEN [z.s EXCEPT !.cnt[st.wait] = 1, !.got = 0]
         ELSE [z.s EXCEPT !.wait = st.wait, !.got = z.k]
Res(st, r) == [s |-> st, r |-> r]
Usable(s, do) == IF tx[s] = "closed" THEN Res(St, "closed") ELSE IF tx[s] = "failed" THEN Res(St, "infailed") ELSE do
Acq(o) ==
    IF cnt[o] > 0 THEN Res([St EXCEPT !.cnt[o] = @ + 1], "ok")
    ELSE Usable(Objs[o].s, LET z == Take(St, o, 0) IN
             IF z.k = Len(Ids(o)) THEN Res([z.s EXCEPT !.cnt[o] = 1], "ok")
             ELSE Res([z.s EXCEPT !.wait = o, !.got = z.k], "waits"))
Try(o) ==
    IF cnt[o] > 0 THEN Res([St EXCEPT !.cnt[o] = @ + 1], "ok")
    ELSE Usable(Objs[o].s, IF \A k \in 1 .. Len(Ids(o)) : Grantable(St, Objs[o].s, Ids(o)[k], Objs[o].m)
                           THEN Res([PutAll(St, Objs[o].s, Ids(o), Objs[o].m, 1) EXCEPT !.cnt[o] = 1], "ok")
                           ELSE Res(St, "busy"))
Rel(o) ==
    IF cnt[o] = 0 THEN Res(St, "unheld")
    ELSE IF cnt[o] > 1 \/ tx[Objs[o].s] = "closed" THEN Res([St EXCEPT !.cnt[o] = @ - 1], "ok")
    ELSE Usable(Objs[o].s, Res(Settle([PutAll(St, Objs[o].s, Ids(o), Objs[o].m, -1) EXCEPT !.cnt[o] = 0]), "ok"))

Upd(z, a) ==
    /\ cnt' = z.s.cnt /\ held' = z.s.held /\ tx' = z.s.tx /\ wait' = z.s.wait /\ got' = z.s.got /\ done' = z.s.done
    /\ act' = a /\ obs' = [r |-> z.r, woke |-> IF wait # 0 /\ z.s.wait = 0 /\ z.s.cnt[wait] = 1 THEN wait ELSE 0]
Free(s) == ~done /\ (IF wait = 0 THEN TRUE ELSE Objs[wait].s # s)
Clear(o) == IF cnt[o] > 0 THEN TRUE ELSE \A k \in 1 .. Len(Ids(o)) : ~Unclear(St, Objs[o].s, Ids(o)[k], Objs[o].m)
DoAcq(o) == /\ Free(Objs[o].s) /\ cnt[o] < MaxCnt /\ Clear(o)
            /\ ~(tx[Objs[o].s] = "closed" /\ cnt[o] > 0)
            /\ LET z == Acq(o) IN (z.r = "waits" => wait = 0) /\ Upd(z, [op |-> "acq", o |-> o])
DoTry(o) == /\ Free(Objs[o].s) /\ cnt[o] < MaxCnt /\ Clear(o)
            /\ ~(tx[Objs[o].s] = "closed" /\ cnt[o] > 0)
            /\ Upd(Try(o), [op |-> "try", o |-> o])
DoRel(o) == Free(Objs[o].s) /\ Upd(Rel(o), [op |-> "rel", o |-> o])
Begin(s) == "tx" \in Extras /\ Free(s) /\ tx[s] = "idle" /\ Upd(Res([St EXCEPT !.tx[s] = "open"], "ok"), [op |-> "begin", s |-> s])
Fail(s) == "tx" \in Extras /\ Free(s) /\ tx[s] = "open" /\ Upd(Res([St EXCEPT !.tx[s] = "failed"], "ok"), [op |-> "fail", s |-> s])
\* the end of a transaction, either way, does not concern these locks
End(s) == "tx" \in Extras /\ Free(s) /\ tx[s] \in {"open", "failed"} /\ Upd(Res([St EXCEPT !.tx[s] = "idle"], "ok"), [op |-> "end", s |-> s])
Nothing == [i \in 1 .. NIds |-> <<0, 0>>]
Close(s) == /\ "close" \in Extras /\ Free(s) /\ tx[s] # "closed"
            /\ Upd(Res(Settle([St EXCEPT !.tx[s] = "closed", !.held[s] = Nothing]), "ok"), [op |-> "close", s |-> s])
Interrupt == /\ "interrupt" \in Extras /\ ~done /\ wait # 0
             /\ LET s == Objs[wait].s
                    st == PutAll(St, s, SubSeq(Ids(wait), 1, got), Objs[wait].m, -1) IN
                Upd(Res([st EXCEPT !.wait = 0, !.got = 0, !.done = TRUE, !.tx[s] = IF @ = "open" THEN "failed" ELSE @], "interrupted"), [op |-> "interrupt", o |-> wait])
Init == /\ cnt = [o \in O |-> 0] /\ held = [s \in Sess |-> Nothing] /\ tx = [s \in Sess |-> "idle"]
        /\ wait = 0 /\ got = 0 /\ done = FALSE /\ act = [op |-> "init"] /\ obs = [r |-> "", woke |-> 0]
Next == (\E o \in O : DoAcq(o) \/ DoTry(o) \/ DoRel(o)) \/ (\E s \in Sess : Begin(s) \/ Fail(s) \/ End(s) \/ Close(s)) \/ Interrupt
Spec == Init /\ [][Next]_vars

RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(f, S \ {x})
Times(o, i, n) == Cardinality({k \in 1 .. n : Ids(o)[k] = i})
\* The locks held are those of the objects which have been acquired more often than released.
Exact == \A s \in Sess : tx[s] # "closed" => \A i \in 1 .. NIds : \A m \in 1 .. 2 :
            held[s][i][m] = Sum([o \in O |-> IF Objs[o].s # s \/ Objs[o].m # m THEN 0
                                  ELSE IF cnt[o] > 0 THEN Times(o, i, Len(Ids(o)))
                                  ELSE IF wait = o THEN Times(o, i, got) ELSE 0], O)
Exclusive == \A i \in 1 .. NIds : \A m, n \in 1 .. 2 : held[1][i][m] > 0 /\ held[2][i][n] > 0 => ~Confl(m, n)
ClosedHasNone == \A s \in Sess : tx[s] = "closed" => held[s] = Nothing
AllOrNothing == [][(act'.op = "try" /\ obs'.r # "ok") => (held' = held /\ cnt' = cnt)]_vars
NestedOnlyCount == [][(act'.op \in {"acq", "try", "rel"} /\ cnt[act'.o] > 0 /\ cnt'[act'.o] > 0) => (held' = held)]_vars
Refused == [][(act'.op = "rel" /\ cnt[act'.o] = 0) => (obs'.r = "unheld" /\ held' = held /\ cnt' = cnt)]_vars
NotByTransactions == [][(act'.op \in {"begin", "fail", "end"}) => (held' = held /\ cnt' = cnt)]_vars

Edge == CSVWrite("%1$s", <<ToJson(<<St, act', obs', St'>>)>>, IOEnv.EDGES)
==============================================================================
