------------------------------- MODULE Cancel -------------------------------
(* P26.  Operations which are cancelled (db.interrupt) or abandoned by an exception *)
(* that is raised while the driver waits for the server, on one connection.          *)
(* Legal(s, e): the states after the recorded event e in s; empty: not allowed.       *)
(* e.d says what happened to the operation:                                          *)
(*   no        nothing                       cut      an exception at one of its I/O calls *)
(*   cancel    interrupted while the server executed it (r = error)                  *)
(*   leaveint  left while the server executed it, and interrupted then               *)
(*   leave     left while the server executed it, and not interrupted                *)
(*   bystander another connection was interrupted while it was executed              *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Writes, Reads, Streams, Ds

NoStr == [st |-> "none", from |-> 0, n |-> 0, pos |-> 0, where |-> ""]
\* pend: error code of an abandoned operation which has not been raised ("" none);  loose: the kind of one which may still be executing
S0 == [blk |-> "I", perm |-> << >>, tmp |-> << >>, pend |-> "", loose |-> "", str |-> NoStr]
Kill(s) == IF s.str.st = "none" THEN s ELSE [s EXCEPT !.str.st = "dead"]
Fails(s) == IF s.blk = "T" THEN Kill([s EXCEPT !.blk = "E"]) ELSE s
Pend(s, c) == [s EXCEPT !.pend = c]
Clear(s) == [s EXCEPT !.pend = "", !.loose = ""]
Wrote(s, rows) == IF s.blk = "I" THEN [s EXCEPT !.perm = @ \o rows] ELSE [s EXCEPT !.tmp = @ \o rows]
Ends(s) == [(IF s.str.where = "I" THEN s ELSE Kill(s)) EXCEPT !.blk = "I", !.tmp = << >>]
Commits(s) == [Ends(s) EXCEPT !.perm = IF s.blk = "T" THEN @ \o s.tmp ELSE @]
\* it was the abandoned one that was hit
Lost(s) == IF s.loose = "" THEN {} ELSE {Fails(Clear(s)), Kill(Fails(Clear(s)))} \cup (IF s.loose = "commit" THEN {Ends(Clear(s)), Kill(Ends(Clear(s)))} ELSE {})
IsRun(ids, from, n) == Len(ids) = n /\ \A k \in 1 .. n : ids[k] = from + k
\* an error with this code which is not due to the operation itself: it was not executed
Refused(s, e) == (IF s.pend # "" /\ s.pend = e.code THEN {Clear(s), Kill(Clear(s))} ELSE {}) \cup (IF s.blk = "E" /\ e.code = "25P02" THEN {Clear(s)} ELSE {})
\* an operation with the effects Eff(s), none of which is a failure; Fail(s): what is left when it is cancelled; cp: it may be cancelled by being left
Plain(s, e, Eff(_), Fail(_), cp) ==
    LET c == Clear(s) free == s.blk # "E" IN
    CASE e.r = "ok" -> IF e.d \in {"leaveint", "leave"} \/ (e.d = "cancel" /\ s.loose = "") THEN {} ELSE IF free THEN Eff(c) ELSE {}
      [] e.r = "error" -> Refused(s, e) \cup (IF e.d = "cancel" /\ free /\ e.code = "57014" THEN {Fail(c)} \cup Lost(s) ELSE {})
      [] e.r = "abandoned" ->
           {[t EXCEPT !.loose = IF @ = "commit" THEN @ ELSE e.op] :
            t \in CASE e.d = "cut" -> {s, c} \cup (IF free THEN Eff(c) \cup (IF cp THEN {Pend(Fail(c), "57014")} ELSE {}) ELSE {Pend(c, "25P02")})
                    [] e.d = "leaveint" -> IF free THEN {Pend(Fail(c), "57014")} \cup {Pend(x, "57014") : x \in Lost(s)} ELSE {}
                    \* what was executed may have been an earlier one, which had been abandoned before it was sent
                    [] e.d = "leave" -> (IF s.loose # "" THEN {c} ELSE {}) \cup IF free THEN Eff(c) \cup (IF cp THEN {Pend(Fail(c), "57014")} ELSE {}) ELSE {}
                    [] OTHER -> {}}
      [] OTHER -> {}
Same(s) == {s}
\* bulk loading: every chunk is written or not, in order; the server was busy with chunk e.at
SomeOf(s, ch) == {Wrote(s, FlattenSeq(SubSeq(ch, 1, k))) : k \in 0 .. Len(ch)}
Load(s, e) ==
    LET c == Clear(s) free == s.blk # "E" all == FlattenSeq(e.chunks) before == FlattenSeq(SubSeq(e.chunks, 1, e.at - 1)) IN
    CASE e.r = "ok" -> IF e.d \in {"leaveint", "leave"} \/ (e.d = "cancel" /\ s.loose = "") THEN {} ELSE IF free THEN {Wrote(c, all)} ELSE {}
      [] e.r = "error" -> Refused(s, e) \cup (IF e.d = "cancel" /\ free /\ e.code = "57014" THEN {Fails(Wrote(c, before))} \cup Lost(s) ELSE {})
      [] e.r = "abandoned" ->
           {[t EXCEPT !.loose = IF @ = "commit" THEN @ ELSE e.op] :
            t \in CASE e.d = "cut" -> {s, c} \cup (IF free THEN SomeOf(c, e.chunks) ELSE {Pend(c, "25P02")})
                    [] e.d = "leaveint" -> IF free THEN UNION {{Fails(x), Pend(Fails(x), "57014")} : x \in {Wrote(c, before)} \cup Lost(s)} ELSE {}
                    [] e.d = "leave" -> IF free THEN SomeOf(c, e.chunks) ELSE {}
                    [] OTHER -> {}}
      [] OTHER -> {}
Stop(s) == [s EXCEPT !.str.st = "dead"]
Leave(s) == [s EXCEPT !.str.st = IF @ = "live" THEN "left" ELSE @]
\* A stream goes on where it was.  After an error it need not, but nothing comes twice or out of order.  After an exception (left)
\* nothing is skipped, unless the rows were consumed by the read() of a cursor; only iterators made of others may just end.
Next1(s, e) ==
    LET t == s.str c == Clear(s) IN
    CASE e.r = "rows" ->
           IF Len(e.ids) = 0 \/ t.st \notin {"live", "left", "dead"} THEN {}
           ELSE LET k == e.ids[1] - t.from - 1 IN
                IF IsRun(e.ids, e.ids[1] - 1, Len(e.ids)) /\ k + Len(e.ids) <= t.n /\ (IF t.st = "live" \/ (t.st = "left" /\ e.kind # "cursor") THEN k = t.pos ELSE k >= t.pos)
                THEN LET u == [s EXCEPT !.str.pos = k + Len(e.ids), !.loose = IF @ = "commit" THEN @ ELSE e.op] IN
                     \* (what it asks for next may fail)
                     {u} \cup (IF e.d # "no" THEN {Pend(Kill(Fails(u)), "57014")} ELSE {}) \cup (IF t.st = "dead" /\ u.pend = "" THEN {Pend(Fails(u), x) : x \in {"34000", "25P02"}} ELSE {}) ELSE {}
      [] e.r = "end" -> IF t.st = "dead" \/ t.pos = t.n \/ (t.st = "left" /\ e.kind # "chunks") THEN {[s EXCEPT !.str.st = "dead"]} ELSE {}
      [] e.r = "error" -> {Stop(x) : x \in Refused(s, e) \cup (IF e.d = "cancel" /\ e.code = "57014" THEN {Fails(c)} ELSE {}) \cup (IF t.st = "dead" THEN {s, c, Fails(c)} ELSE {})}
      [] e.r = "abandoned" -> {[Leave(x) EXCEPT !.loose = IF @ = "commit" THEN @ ELSE e.op] : x \in CASE e.d = "cut" -> {s, c} \cup (IF t.st = "dead" THEN {Pend(Fails(c), k) : k \in {"34000", "25P02"}} ELSE {})
                                                 [] e.d = "leaveint" -> {Pend(Fails(c), "57014")}
                                                 [] e.d = "leave" -> {c}
                                                 [] OTHER -> {}}
      [] OTHER -> {}
Legal0(s, e) ==
    CASE e.op = "write" -> LET W(x) == {Wrote(x, e.ids)} IN Plain(s, e, W, Fails, e.kind \in {"copy"})
      [] e.op = "load" -> Load(s, e)
      [] e.op = "read" -> IF e.r = "ok" /\ ~IsRun(e.ids, e.from, e.n) THEN {} ELSE Plain(s, e, Same, Fails, FALSE)
      \* kind: what the driver took it for ("" a command of the user)
      [] e.op = "begin" -> LET B(x) == IF (e.kind = "block" /\ x.blk = "T") \/ (e.kind = "savepoint" /\ x.blk = "I") THEN {} ELSE {[x EXCEPT !.blk = "T"]} IN Plain(s, e, B, Fails, FALSE)
      [] e.op = "commit" -> LET C(x) == {Commits(x)} IN Plain([s EXCEPT !.blk = IF @ = "E" THEN "X" ELSE @], e, C, Ends, FALSE)
      [] e.op = "rollback" -> LET R(x) == {Ends(x)} IN Plain([s EXCEPT !.blk = IF @ = "E" THEN "X" ELSE @], e, R, Ends, FALSE)
      \* one that fails
      [] e.op = "fail" ->
           LET c == Clear(s) IN
           CASE e.r = "error" -> Refused(s, e) \cup (IF s.blk # "E" /\ e.code = "22012" THEN {Fails(c)} ELSE {})
             [] e.r = "abandoned" -> {[t EXCEPT !.loose = IF @ = "commit" THEN @ ELSE e.op] : t \in {s, c} \cup {IF s.blk = "E" THEN Pend(c, "25P02") ELSE Pend(Fails(c), "22012")}}
             [] OTHER -> {}
      [] e.op = "open" -> LET N(x) == {[x EXCEPT !.str = [st |-> "live", from |-> e.from, n |-> e.n, pos |-> 0, where |-> s.blk]]} IN
           \* (what it needs may be executed while it has returned already)
           IF e.r = "ok" /\ s.blk = "E" THEN {Pend([x EXCEPT !.str.st = "dead"], "25P02") : x \in N(Clear(s))}
           ELSE IF e.r = "ok" /\ e.d = "cancel" /\ s.blk # "E" THEN {Pend([Fails(x) EXCEPT !.loose = IF @ = "commit" THEN @ ELSE e.op], "57014") : x \in N(Clear(s))}
           ELSE IF e.r = "ok" /\ e.d \in {"leave", "leaveint"} THEN Plain(s, [e EXCEPT !.d = "no"], N, Fails, FALSE) \cup (IF e.d = "leaveint" THEN {Pend(Kill(Fails(x)), "57014") : x \in N(Clear(s))} ELSE {})
           ELSE IF e.r = "ok" THEN {[x EXCEPT !.loose = IF @ = "commit" THEN @ ELSE e.op] : x \in Plain(s, e, N, Fails, FALSE)} ELSE {[x EXCEPT !.str = NoStr] : x \in Plain(s, e, Same, Fails, FALSE)}
      [] e.op = "next" -> Next1(s, e)
      [] e.op = "drop" -> {[s EXCEPT !.str = NoStr]}
      \* interrupted while nothing was executed for anyone
      [] e.op = "interrupt" -> {s} \cup {Pend(x, "57014") : x \in Lost(s)}
      [] e.op = "reconnect" -> {[S0 EXCEPT !.perm = s.perm]}
      [] e.op = "table" -> IF e.ids = s.perm THEN {s} ELSE {}
      [] OTHER -> {}
Unx(s) == [s EXCEPT !.blk = IF @ = "X" THEN "E" ELSE @]
\* what the driver knows of the state of the transaction (e.blk) is what it is; whom else it hit (e.other: outcome of the interrupted bystander)
Legal(s, e) == {t \in {Unx(x) : x \in Legal0(s, e)} : (e.blk = "" \/ t.blk = e.blk) /\ (e.d # "bystander" \/ e.other = "57014")}

\* --- judging recorded behaviours
Cases == JsonDeserialize(IOEnv.CASES)
Step(acc, e) == IF acc.bad # "" THEN acc
                ELSE LET nxt == UNION {Legal(s, e) : s \in acc.states} IN
                     [n |-> acc.n + 1, states |-> nxt, bad |-> IF nxt = {} THEN "event " \o ToString(acc.n) \o " " \o ToString(e) \o " is not allowed in " \o ToString(acc.states) ELSE ""]
\* the request: length 16, code 80877102, then process and key as they were announced; only where the session is
Request == <<0, 0, 0, 16, 4, 210, 22, 46>>
Wire(c) == LET one == CASE c.how = "refused" -> << >>
                            [] c.how = "broken" -> [i \in DOMAIN c.timeouts |-> << >>]
                            [] OTHER -> [i \in DOMAIN c.timeouts |-> Request \o c.id] IN
           IF c.sent # [i \in 1 .. c.hosts |-> IF i = c.connected THEN one ELSE << >>] THEN "requests sent: " \o ToString(c.sent)
           ELSE IF c.given # c.timeouts THEN "timeouts: " \o ToString(c.given)
           \* failing to ask is an error, failing to hear of the outcome is not
           ELSE IF c.raised # (IF c.how \in {"refused", "broken", "left"} THEN Len(c.timeouts) ELSE 0) THEN "errors raised: " \o ToString(c.raised)
           ELSE IF c.left # 0 THEN "sockets left open" ELSE IF ~c.works THEN "the session does not work afterwards" ELSE ""
Verdict(c) == IF c.kind = "wire" THEN Wire(c) ELSE FoldLeft(Step, [n |-> 1, states |-> {S0}, bad |-> ""], c.events).bad
VARIABLES blk, str, loose, act, obs, ei, m, gone
Out(k) == LET v == Verdict(Cases[k]) IN IF v = "" THEN TRUE ELSE CSVWrite("%1$s", <<ToString(k) \o " " \o v>>, IOEnv.VERDICTS)
EvalInit == ei = 0 /\ blk = 0 /\ str = 0 /\ loose = 0 /\ act = 0 /\ obs = 0 /\ m = 0 /\ gone = 0
EvalNext == /\ ei < Len(Cases) /\ Out(ei + 1) /\ ei' = ei + 1
            /\ (ei' = Len(Cases) => CSVWrite("%1$s", <<"done " \o ToString(ei')>>, IOEnv.VERDICTS))
            /\ UNCHANGED <<blk, str, loose, act, obs, m, gone>>
EvalSpec == EvalInit /\ [][EvalNext]_<<blk, str, loose, act, obs, ei, m, gone>>

\* --- schedules: the environment's view
vars == <<blk, str, loose, act, obs, ei, m, gone>>
View == <<blk, str, loose, m, gone>>
St == [blk |-> blk, str |-> str, loose |-> loose]
Init == blk = "I" /\ str = "none" /\ loose = FALSE /\ ei = 0 /\ m = S0 /\ gone = {} /\ act = [op |-> "start"] /\ obs = [r |-> "ok"]
Do(a) == act' = a /\ obs' = [r |-> "ok"] /\ UNCHANGED <<ei, m, gone>>
Hit(d) == d \in {"cancel", "leaveint"}
After(d) == blk' = (IF Hit(d) /\ blk = "T" THEN "E" ELSE blk) /\ loose' = (d \in {"cut", "leave", "leaveint"})
Op(o, k, d) == After(d) /\ UNCHANGED str /\ Do([op |-> o, kind |-> k, d |-> d])
Begin(d) == blk = "I" /\ d \in {"no", "cut"} /\ blk' = "T" /\ loose' = (d = "cut") /\ UNCHANGED str /\ Do([op |-> "begin", kind |-> "", d |-> d])
End(o, d) == blk # "I" /\ (o = "commit" \/ d \in {"no", "cut"}) /\ blk' = "I" /\ loose' = (d \in {"cut", "leave", "leaveint"}) /\ UNCHANGED str /\ Do([op |-> o, kind |-> "", d |-> d])
Fail(d) == d \in {"no", "cut"} /\ blk' = (IF blk = "T" THEN "E" ELSE blk) /\ loose' = (d = "cut") /\ UNCHANGED str /\ Do([op |-> "fail", kind |-> "", d |-> d])
Open(k, d) == str = "none" /\ str' = k /\ After(d) /\ Do([op |-> "open", kind |-> k, d |-> d])
Pull(d) == str # "none" /\ After(d) /\ UNCHANGED str /\ Do([op |-> "next", kind |-> str, d |-> d])
Drop == str # "none" /\ str' = "none" /\ UNCHANGED <<blk, loose>> /\ Do([op |-> "drop", kind |-> str, d |-> "no"])
Idle == UNCHANGED <<blk, str, loose>> /\ Do([op |-> "interrupt", kind |-> "", d |-> "no"])
Again == blk' = "I" /\ str' = "none" /\ loose' = FALSE /\ Do([op |-> "reconnect", kind |-> "", d |-> "no"])
Next == \/ \E d \in Ds : (\E k \in Writes : Op("write", k, d)) \/ (\E k \in Reads : Op("read", k, d)) \/ Op("load", "", d) \/ Begin(d) \/ End("commit", d) \/ End("rollback", d) \/ Fail(d)
                         \/ (\E k \in Streams : Open(k, d)) \/ Pull(d)
        \/ Drop \/ Idle \/ Again
Spec == Init /\ [][Next]_vars
TypeOK == blk \in {"I", "T", "E"}
Edge == CSVWrite("%1$s", <<ToJson(<<St, act', obs', St'>>)>>, IOEnv.EDGES)

\* --- the rules themselves: rows are never doubled, and what was cancelled or refused is never kept
Id == Len(m.perm) + Len(m.tmp) + Cardinality(gone) + 1
Ev(o, r, d, code) == [op |-> o, kind |-> "call", r |-> r, d |-> d, code |-> code, blk |-> "", other |-> "57014", ids |-> <<Id>>, chunks |-> <<<<Id>>>>, at |-> 1, from |-> 0, n |-> 1]
Codes == {"", "57014", "22012", "25P02"}
MNext == \E o \in {"write", "load", "begin", "commit", "rollback", "fail", "interrupt", "reconnect"}, r \in {"ok", "error", "abandoned"}, d \in Ds, c \in Codes :
            /\ (c = "") = (r # "error") /\ Id <= 4
            /\ LET e == Ev(o, r, d, c) IN
               \E t \in Legal(m, e) : m' = t /\ gone' = gone \cup (IF o \in {"write", "load"} /\ Id \notin ToSet(t.perm \o t.tmp) THEN {Id} ELSE {})
                                                       \cup {x \in ToSet(m.tmp) : x \notin ToSet(t.perm \o t.tmp)}
                                      /\ act' = e /\ obs' = [r |-> r] /\ UNCHANGED <<blk, str, loose, ei>>
MSpec == Init /\ [][MNext]_vars
Once == IsInjective(m.perm \o m.tmp) /\ ToSet(m.perm \o m.tmp) \cap gone = {}
Safe == m.blk \in {"I", "T", "E"} /\ (m.blk = "I" => m.tmp = << >>)
\* a cancelled write, one left and interrupted, and one that raised an error leave nothing
NothingOf == [][(act'.op \in {"write", "load"} /\ (act'.d = "leaveint" \/ (act'.d = "cancel" /\ m.loose = "") \/ act'.r = "error")) => ToSet(m'.perm \o m'.tmp) \subseteq ToSet(m.perm \o m.tmp)]_vars
\* what returned without an error took effect
Told == [][(act'.op \in {"write", "load"} /\ act'.r = "ok") => act'.ids[1] \in ToSet(m'.perm \o m'.tmp)]_vars
Kept == [][ToSet(m.perm) \subseteq ToSet(m'.perm)]_vars
=============================================================================
