--------------------------------- MODULE Errors ---------------------------------
(* P22.  Which exception an error becomes, what it carries, whom it names, who is   *)
(* told about messages, and what the connection can do afterwards.                  *)
EXTENDS ErrorTable, Sequences, SequencesExt, Integers, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Symbols, Endings,         \* codes
          Fields, MaxFields, Kinds, \* messages
          Ops, Codes, Answers       \* histories
VARIABLES code, msg, xact, last, act, obs
vars == <<code, msg, xact, last, act, obs>>
View == <<code, msg, xact, last>>
St == [xact |-> xact, last |-> last]

General(kind) == IF kind = "error" THEN "Error" ELSE "Warning"
Own(kind, c) == {d \in Declared : d.kind = kind /\ d.code = c}
Table(kind) == [c \in {d.code : d \in {x \in Declared : x.kind = kind /\ x.code # ""}} |-> (CHOOSE d \in Own(kind, c) : TRUE).name]
TheWarnings == Table("warning")
\* codes of older servers
TheErrors == LET t == Table("error") IN t @@ [c \in DOMAIN Older |-> t[Older[c]]]
\* (kept in registers, so that they are made once)
ASSUME TLCSet(11, TheErrors) /\ TLCSet(12, TheWarnings)
ErrorOf == TLCGet(11)
WarningOf == TLCGet(12)
Of(kind) == IF kind = "error" THEN ErrorOf ELSE WarningOf
Class(c) == SubSeq(c, 1, 2) \o "000"
Lookup(kind, c) == IF c \in DOMAIN Of(kind) THEN Of(kind)[c]
                   ELSE IF Len(c) >= 2 /\ Class(c) \in DOMAIN Of(kind) THEN Of(kind)[Class(c)] ELSE General(kind)
RECURSIVE Up(_)
Up(name) == {name} \cup UNION {Up(p) : p \in UNION {d.parents : d \in {x \in Declared : x.name = name}}}
TheAbove == [n \in {d.name : d \in Declared} \cup UNION {d.parents : d \in Declared} |-> Up(n)]
ASSUME TLCSet(13, TheAbove)
Above(name) == TLCGet(13)[name]
\* the declarations are unambiguous, and every condition belongs to the exception of its class of codes
Sound == /\ \A d, e \in Declared : (d.code = e.code /\ d.code # "" /\ d.kind = e.kind) => d = e
         /\ \A d, e \in Declared : d.name = e.name => d = e
         /\ \A d \in Declared : d.code # "" /\ Own(d.kind, Class(d.code)) # {} => Lookup(d.kind, Class(d.code)) \in Above(d.name)
ASSUME Sound

Init0 == code = "" /\ msg = << >> /\ xact = "none" /\ last = "none" /\ act = [op |-> "start"] /\ obs = [none |-> 0]
Edge == CSVWrite("%1$s", <<ToJson(<<St, act', obs', St'>>)>>, IOEnv.EDGES)

\* --- codes
Put(c, i, s) == SubSeq(c, 1, i - 1) \o s \o SubSeq(c, i + 1, Len(c))
Look(c) == /\ code' = c /\ act' = [op |-> "lookup"] /\ UNCHANGED <<msg, xact, last>>
           /\ obs' = [code |-> c, error |-> Lookup("error", c), errors |-> Above(Lookup("error", c)), warning |-> Lookup("warning", c)]
CSpec == Init0 /\ [][code = "" /\ (\/ \E d \in Declared : Len(d.code) = 5 /\ (Look(d.code) \/ \E i \in 1 .. 5 : \E s \in Symbols : Look(Put(d.code, i, s)))
                                   \/ \E a, b \in Symbols : \E e \in Endings : Look(a \o b \o e)
                                   \/ \E c \in DOMAIN Older : Look(c))]_vars
\* nothing gets a more general exception than a code of the same class would
Specific == (code # "" /\ Len(code) >= 2 /\ Class(code) \in DOMAIN ErrorOf) => ErrorOf[Class(code)] \in Above(Lookup("error", code))

\* --- what messages carry
\* severities are words of the server's language in one field, and keys in another field (which servers before 9.6 do not send)
Severities == {"ERROR", "FATAL", "PANIC", "WARNING", "NOTICE", "INFO", "DEBUG", "LOG"}
Send(c, sev, words, fs) ==
  /\ msg = << >> /\ msg' = <<c, sev, words, fs>> /\ act' = [op |-> "send"] /\ UNCHANGED <<code, xact, last>>
  /\ obs' = [code |-> c, severity |-> sev, words |-> words, fields |-> fs, fatal |-> sev \in {"FATAL", "PANIC"},
             kind |-> IF sev \in {"ERROR", "FATAL", "PANIC"} THEN "error" ELSE "message",
             class |-> IF sev \in {"ERROR", "FATAL", "PANIC"} THEN Lookup("error", c) ELSE IF sev = "WARNING" THEN Lookup("warning", c) ELSE "Message"]
FewFields == UNION {[S -> Kinds] : S \in {s \in SUBSET Fields : Cardinality(s) <= MaxFields}}
AllFields == {[f \in Fields |-> IF f = x THEN k ELSE j] : x \in Fields, k \in Kinds, j \in {"ascii", "bad"}}
MSpec == Init0 /\ [][msg = << >> /\ \E fs \in FewFields \cup AllFields : \E sev \in Severities : \E c \in Codes : \E words \in {"key", "only", "other"} : Send(c, sev, words, fs)]_vars
\* messages are errors or not, whatever they carry
Apart == msg # << >> => (obs.kind = "error" <=> \E d \in Declared : d.kind = "error" /\ d.name = obs.class)

\* --- histories of operations on one connection
\* the object an operation acts through
Through(op) == IF op \in {"execute", "settings", "multi", "begin", "rollback"} THEN "connection" ELSE "statement"
\* who is told of a message: the hooks on the way from the object to the connection, and the system's, until one takes it
Told(op, hs) == LET way == (IF Through(op) = "statement" THEN <<"statement">> ELSE << >>) \o <<"connection">>
                    told == SelectSeq(way, LAMBDA w : hs[w] # "none")
                    stops == {i \in 1 .. Len(told) : hs[told[i]] = "takes"} IN
                IF stops = {} THEN told \o <<"system">> ELSE SubSeq(told, 1, CHOOSE i \in stops : \A j \in stops : i <= j)
Hooks == [{"statement", "connection"} -> Answers]
NoHooks == [x \in {"statement", "connection"} |-> "none"]
Quiet == [told |-> << >>, class |-> "none", code |-> "", through |-> "none", error |-> "none", ecode |-> "", above |-> {}]
Act(op, how, hs, c) == act' = [op |-> op, how |-> how, hooks |-> hs, code |-> c]
With(o, op, c) == [o EXCEPT !.error = Lookup("error", c), !.above = Above(Lookup("error", c)), !.ecode = c, !.through = Through(op)]
Heard(op, hs, class, c) == [Quiet EXCEPT !.told = Told(op, hs), !.class = class, !.code = c, !.through = Through(op)]
Same == UNCHANGED <<code, msg>>
\* operations which run something that can fail and warn as it likes
Work == Ops \ {"settings", "prepare"}
\* the codes with which an operation fails
Failing(op) == IF op = "settings" THEN {"22023"} ELSE IF op = "prepare" THEN {"42P01", "42601"} ELSE Codes
Fail == xact' = IF xact = "open" THEN "failed" ELSE xact
WarnCodes == {"01000", "01999", "55000"}
Do(op) == /\ op \in Ops /\ Same /\ last' = op
          /\ IF xact = "failed"
             THEN /\ op # "load" /\ Act(op, "ok", NoHooks, "") /\ obs' = With(Quiet, op, "25P02") /\ xact' = xact
             ELSE \/ Act(op, "ok", NoHooks, "") /\ obs' = Quiet /\ xact' = xact
                  \/ \E c \in Failing(op) : Act(op, "fail", NoHooks, c) /\ obs' = With(Quiet, op, c) /\ Fail
                  \/ \E hs \in Hooks : \E c \in WarnCodes : op \in Work /\ Act(op, "warn", hs, c) /\ xact' = xact /\ obs' = Heard(op, hs, Lookup("warning", c), c)
                  \/ \E hs \in Hooks : op \in Work /\ Act(op, "notice", hs, "00000") /\ xact' = xact /\ obs' = Heard(op, hs, "Message", "00000")
                  \* warned first
                  \/ \E c \in Codes : op \in Work /\ Act(op, "both", NoHooks, c) /\ Fail /\ obs' = With(Heard(op, NoHooks, Lookup("warning", "01999"), "01999"), op, c)
                  \* what cannot be sent
                  \/ op \in {"call", "first", "rows", "chunks", "column", "load", "declare"} /\ Act(op, "unsendable", NoHooks, "") /\ obs' = With(Quiet, op, "--PIO") /\ xact' = xact
Begin == xact = "none" /\ xact' = "open" /\ last' = "begin" /\ Same /\ Act("begin", "ok", NoHooks, "") /\ obs' = Quiet
End == xact # "none" /\ xact' = "none" /\ last' = "rollback" /\ Same /\ Act("rollback", "ok", NoHooks, "") /\ obs' = Quiet
HSpec == Init0 /\ [][Begin \/ End \/ \E op \in Ops : Do(op)]_vars
\* only the statement's own failure changes what the connection can do
Keeps == /\ [][(xact' = "failed" /\ xact # "failed") => (xact = "open" /\ act'.how \in {"fail", "both"})]_vars
         /\ [][(xact = "none" /\ obs'.error # "none") => xact' = "none"]_vars
=================================================================================
