------------------------------- MODULE Cluster -------------------------------
(* P23.  A data directory, the server processes serving it and a Cluster object   *)
(* controlling it.  own is the process that the object started: it boots, then    *)
(* takes the lock file (file) and is up, until it is dead; ext is a server that   *)
(* somebody else started.  The lock file may have been left by others: a process  *)
(* that is gone (stale), a process of another user (other), a standalone backend   *)
(* (neg, alive) or a writer that has not finished (garbage).  phase is that of the *)
(* server which holds the lock.  stack has, for each context entered, whether it   *)
(* started the server.  code is the exit code of own.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS MaxStack, Ops     \* Ops: the families of operations explored
VARIABLES dir, file, own, code, ext, phase, busy, stack, act, obs
vars == <<dir, file, own, code, ext, phase, busy, stack, act, obs>>
St == [dir |-> dir, file |-> file, own |-> own, code |-> code, ext |-> ext, phase |-> phase, busy |-> busy, stack |-> stack]
View == St

TERM == 15
INTR == 2
KILL == 9
HUP == 1
None == -1

Holder(s) == IF s.own = "up" THEN "own" ELSE IF s.ext THEN "ext" ELSE "none"
\* the process that is the cluster's server
Server(s) == IF Holder(s) # "none" THEN Holder(s) ELSE IF s.own = "boot" THEN "own" ELSE "none"
Running(s) == Server(s) # "none"
Lockable(s) == s.dir = "made" /\ Holder(s) = "none" /\ s.file \in {"none", "stale", "other"}

Die(s, c) == IF s.own \in {"boot", "up"} THEN [s EXCEPT !.own = "dead", !.code = c] ELSE s
\* the holder ends properly and removes its file, or crashes and leaves it
End(s) == [(IF Holder(s) = "own" THEN Die(s, 0) ELSE [s EXCEPT !.ext = FALSE]) EXCEPT !.file = "none", !.phase = "none", !.busy = FALSE]
Crash(s) == [(IF Holder(s) = "own" THEN Die(s, KILL) ELSE [s EXCEPT !.ext = FALSE]) EXCEPT !.file = "stale", !.phase = "none", !.busy = FALSE]
Lock(s) == IF Lockable(s) THEN [s EXCEPT !.own = "up", !.file = "own", !.phase = "starting"] ELSE Die(s, 1)
Spawn(s) == [s EXCEPT !.own = "boot", !.code = None]
Up(s) == IF s.own = "boot" /\ Holder(s) = "none"
         THEN (IF Lockable(s) THEN [Lock(s) EXCEPT !.phase = "ready"] ELSE Lock(s))
         ELSE IF s.phase = "starting" THEN [s EXCEPT !.phase = "ready"] ELSE s
\* a signal reaches the server
Signal(s, n) ==
    LET t == Server(s) IN
    IF t = "none" \/ n = HUP THEN s
    ELSE IF n = KILL THEN (IF Holder(s) # "none" THEN Crash(s) ELSE Die(s, KILL))
    ELSE IF Holder(s) = "none" THEN Die(s, 0)
    ELSE [s EXCEPT !.phase = "stopping", !.busy = IF n = INTR THEN FALSE ELSE @]
Sent(s, n) == IF Running(s) THEN <<[to |-> Server(s), sig |-> n]>> ELSE << >>
Settle(s) == IF s.phase = "stopping" /\ ~s.busy THEN End(s) ELSE s

O == [res |-> "ok", sigs |-> << >>, spawned |-> FALSE, val |-> "", code |-> None]
Do(s, a, o) == /\ dir' = s.dir /\ file' = s.file /\ own' = s.own /\ code' = s.code /\ ext' = s.ext
               /\ phase' = s.phase /\ busy' = s.busy /\ stack' = s.stack /\ act' = a /\ obs' = o
Env(a, s) == Do(s, [op |-> a], O)

\* ---- what the world does
ELock == own = "boot" /\ Env("e-lock", Lock(St))
EReady == phase = "starting" /\ Env("e-ready", [St EXCEPT !.phase = "ready"])
EEnd == phase = "stopping" /\ ~busy /\ Env("e-end", End(St))
ECrash == Holder(St) # "none" /\ Env("e-crash", Crash(St))
EBootCrash == own = "boot" /\ Env("e-bootcrash", Die(St, KILL))
EExt == "ext" \in Ops /\ ~ext /\ Lockable(St) /\ Env("e-ext", [St EXCEPT !.ext = TRUE, !.file = "ext", !.phase = "starting"])
EClient == phase = "ready" /\ ~busy /\ Env("e-client", [St EXCEPT !.busy = TRUE])
ELeave == busy /\ Env("e-leave", [St EXCEPT !.busy = FALSE])
EFile(f) == /\ "files" \in Ops /\ dir # "void" /\ Holder(St) = "none" /\ f # file
            /\ Do([St EXCEPT !.file = f], [op |-> "e-file", f |-> f], O)
EMkdir == dir = "void" /\ Env("e-mkdir", [St EXCEPT !.dir = "bare"])
\* another object, or another program, takes over the directory
New == /\ own # "boot" /\ "ext" \in Ops /\ stack = << >> /\ own # "none"
       /\ Env("e-new", [St EXCEPT !.own = "none", !.code = None, !.ext = ext \/ own = "up", !.file = IF own = "up" THEN "ext" ELSE file])

\* ---- the operations
Start(m) == LET r == Running(St) IN
    Do(IF r THEN St ELSE Spawn(St), [op |-> "start", m |-> m], [O EXCEPT !.spawned = ~r])
Send(op, n) == Do(Signal(St, n), [op |-> op], [O EXCEPT !.sigs = Sent(St, n)])
Query(op, v) == Do(St, [op |-> op], [O EXCEPT !.val = v])
State(s) == IF Running(s) THEN "running" ELSE IF s.dir = "void" THEN "void" ELSE "stopped"
Ready(s) == IF ~Running(s) THEN "None" ELSE IF s.phase = "ready" THEN "True" ELSE "False"
Queries == \/ Query("running", IF Running(St) THEN "True" ELSE "False")
           \/ Query("pid", Server(St))
           \/ Query("state", State(St))
           \/ Query("metas", IF Running(St) THEN Server(St) ELSE State(St))
           \/ Query("ready", Ready(St))
           \/ Query("initialized", IF dir = "made" THEN "True" ELSE "False")
           \/ Do(St, [op |-> "connect"], [O EXCEPT !.res = IF ~Running(St) THEN "notrunning" ELSE IF phase = "ready" THEN "reached" ELSE "refused"])

\* what waiting for the start ends with, when ev happens meanwhile
Gone(s, o) == [o EXCEPT !.res = IF s.own = "none" THEN "notrunning" ELSE "gone", !.code = s.code]
WaitedUp(s, o) == IF ~Running(s) THEN Gone(s, o)
                  ELSE IF s.phase = "ready" THEN o
                  ELSE [o EXCEPT !.res = IF s.phase = "none" THEN "timeout" ELSE "notready"]
Event(s, ev) == CASE ev = "none" -> s
                  [] ev = "up" -> Up(s)
                  [] ev = "crash" -> IF Holder(s) # "none" THEN Crash(s) ELSE Die(s, KILL)
                  [] ev = "end" -> Settle(s)
WaitStarted(ev) ==
    /\ ev # "none" => (Running(St) /\ phase # "ready" /\ Event(St, ev) # St)
    /\ LET s == Event(St, ev)
           o == WaitedUp(s, O) IN
       Do(s, [op |-> "wait-started", ev |-> ev],
          \* it is known to have terminated if it was the object's and died while waiting
          IF own = "boot" /\ ~ext /\ ~Running(s) THEN [o EXCEPT !.res = "terminated"]
          ELSE IF own = "up" /\ ~Running(s) THEN [o EXCEPT !.res = "terminated"] ELSE o)
WaitStopped(ev) ==
    /\ ev # "none" => (Running(St) /\ Event(St, ev) # St)
    /\ LET s == Event(St, ev) IN
       Do(s, [op |-> "wait-stopped", ev |-> ev], [O EXCEPT !.res = IF Running(s) THEN "timeout" ELSE "ok", !.code = s.code])

\* ---- compounds: the server comes up and ends by itself
Stoppable(s) == s.phase \in {"ready", "none"} /\ s.own # "boot"
Enter ==
    /\ "contexts" \in Ops /\ Len(stack) < MaxStack /\ Stoppable(St)
    /\ IF Running(St) THEN Do([St EXCEPT !.stack = Append(@, FALSE)], [op |-> "enter"], O)
       ELSE LET u == Up(Spawn(St)) IN
            IF u.own = "up" THEN Do([u EXCEPT !.stack = Append(@, TRUE)], [op |-> "enter"], [O EXCEPT !.spawned = TRUE])
            ELSE Do(u, [op |-> "enter"], [O EXCEPT !.spawned = TRUE, !.res = "terminated", !.code = u.code])
Exit(exc) ==
    /\ "contexts" \in Ops /\ stack # << >> /\ own # "boot" /\ (phase = "stopping" => busy)
    /\ LET st == stack[Len(stack)]
           s0 == [St EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)]
           s1 == Signal(s0, TERM)
           s2 == Settle(s1) IN
       IF ~st THEN Do(s0, [op |-> "exit", exc |-> exc], O)
       ELSE Do(s2, [op |-> "exit", exc |-> exc], [O EXCEPT !.sigs = Sent(s0, TERM), !.res = IF Running(s2) THEN "timeout" ELSE "ok"])
Restart(m) ==
    /\ "contexts" \in Ops /\ Stoppable(St)
    /\ LET s1 == Settle(Signal(St, TERM))
           u == Up(Spawn(s1))
           a == [op |-> "restart", m |-> m]
           o == [O EXCEPT !.sigs = Sent(St, TERM)] IN
       IF Running(s1) THEN Do(s1, a, [o EXCEPT !.res = "timeout"])
       ELSE IF u.own = "up" THEN Do(u, a, [o EXCEPT !.spawned = TRUE])
       ELSE Do(u, a, [o EXCEPT !.spawned = TRUE, !.res = "terminated", !.code = u.code])

Init_(how) ==
    /\ "init" \in Ops /\ ~Running(St)
    /\ (how \in {"fails", "hangs"} => dir # "made")
    /\ LET ok == how \in {"plain", "options", "password", "both"} /\ dir # "made" IN
       Do(IF ok THEN [St EXCEPT !.dir = "made"] ELSE St, [op |-> "init", how |-> how],
          [O EXCEPT !.res = IF ok THEN "ok" ELSE IF how = "unknown" THEN "typeerror" ELSE "initdberror"])
\* a stubborn server disregards the request to end and has to be killed
Drop(how) ==
    /\ "init" \in Ops /\ ~(own = "boot" /\ Holder(St) # "none") /\ ~(dir = "void" /\ Running(St))
    /\ (how = "stubborn" => Running(St)) /\ stack = << >>
    /\ LET s1 == Signal(St, INTR)
           s2 == IF how = "polite" \/ Holder(St) = "none" THEN Settle(s1) ELSE Signal(St, KILL)
           g == IF how = "polite" \/ Holder(St) = "none" THEN Sent(St, INTR) ELSE Sent(St, INTR) \o Sent(St, KILL) IN
       Do([s2 EXCEPT !.dir = "void", !.file = "none"], [op |-> "drop", how |-> how], [O EXCEPT !.sigs = g, !.res = IF dir = "void" THEN "oserror" ELSE "ok"])

Init == /\ dir = "made" /\ file = "none" /\ own = "none" /\ code = None /\ ext = FALSE /\ phase = "none" /\ busy = FALSE
        /\ stack = << >> /\ act = [op |-> "init0"] /\ obs = O
Files == {"none", "stale", "neg", "garbage", "other"}
Next == \/ ELock \/ EReady \/ EEnd \/ ECrash \/ EBootCrash \/ EExt \/ EClient \/ ELeave \/ EMkdir \/ New
        \/ \E f \in Files : EFile(f)
        \/ \E m \in {"plain", "settings", "logfile"} : Start(m)
        \/ Send("stop", TERM) \/ Send("shutdown", INTR) \/ Send("kill", KILL) \/ Send("reload", HUP)
        \/ Queries
        \/ \E ev \in {"none", "up", "crash"} : WaitStarted(ev)
        \/ \E ev \in {"none", "end", "crash"} : WaitStopped(ev)
        \/ Enter \/ \E x \in {TRUE, FALSE} : Exit(x)
        \/ \E m \in {"plain", "settings"} : Restart(m)
        \/ \E how \in {"plain", "options", "password", "both", "unknown", "fails", "hangs"} : Init_(how)
        \/ \E how \in {"polite", "stubborn"} : Drop(how)
Spec == Init /\ [][Next]_vars

Edge == CSVWrite("%1$s", <<ToJson(<<St, act', obs', [dir |-> dir', file |-> file', own |-> own', code |-> code', ext |-> ext', phase |-> phase', busy |-> busy', stack |-> stack']>>)>>, IOEnv.EDGES)

\* ---- properties
OneHolder == ~(own = "up" /\ ext)
FileNamesHolder == (own = "up" <=> file = "own") /\ (ext <=> file = "ext")
Phased == (phase # "none") <=> Holder(St) # "none"
DeadHasCode == (own = "dead") <=> (code # None)
\* signals are only sent when there is a server, to it, and never by what asks
SignalsServer == [][\A i \in 1 .. Len(obs'.sigs) : Running(St) /\ obs'.sigs[i].to = Server(St)]_vars
AsksOnly == [][act'.op \in {"running", "pid", "state", "metas", "ready", "initialized", "connect"} =>
               UNCHANGED <<dir, file, own, code, ext, phase, busy, stack>> /\ obs'.sigs = << >> /\ ~obs'.spawned]_vars
StartsOnce == [][(obs'.spawned /\ act'.op # "restart") => ~Running(St)]_vars
\* leaving a context ends the server only if the context started it
LeavesRunning == [][(act'.op = "exit" /\ ~stack[Len(stack)]) => (Holder(St) = Holder([dir |-> dir', file |-> file', own |-> own', code |-> code', ext |-> ext', phase |-> phase', busy |-> busy', stack |-> stack']) /\ obs'.sigs = << >>)]_vars
StopsPolitely == [][(act'.op \in {"stop", "exit", "restart"} /\ busy) => ((own = "up" => own' = "up") /\ (ext => ext'))]_vars
DropsAll == [][(act'.op = "drop") => (dir' = "void" /\ own' \notin {"boot", "up"} /\ ~ext')]_vars
WaitedIsReady == [][(act'.op \in {"wait-started", "enter", "restart"} /\ obs'.res = "ok") => phase' = "ready"]_vars
WaitedIsGone == [][(act'.op = "wait-stopped" /\ obs'.res = "ok") => (own' \notin {"boot", "up"} /\ ~ext')]_vars
==============================================================================
