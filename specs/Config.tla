-------------------------------- MODULE Config --------------------------------
(* P19.  Histories of edits of a configuration file.  The environment's view of     *)
(* the file is a sequence of kinds of lines;  recorded behaviours are judged on the  *)
(* characters (ConfLine).                                                            *)
EXTENDS ConfLine, TLC, Json, CSV, IOUtils
CONSTANTS Kinds, MaxLines, MaxCtx, NamesN
\* Kinds: the initial lines, e.g. <<"act", 1, 1>> an active setting of name 1 to value 1, <<"com", 1, 2>>, <<"other", 0, 0>>
VARIABLES file, ctx, act, obs, ei
vars == <<file, ctx, act, obs, ei>>
View == <<file, ctx>>
St == [file |-> file, ctx |-> ctx]
Init == file \in UNION {[1 .. n -> Kinds] : n \in 0 .. MaxLines} /\ ctx = << >> /\ act = [op |-> "start"] /\ obs = [r |-> "ok"] /\ ei = 0
Of(f, n) == {i \in 1 .. Len(f) : f[i][2] = n}
On(f, n) == {i \in Of(f, n) : f[i][1] = "act"}
Val(f, n) == IF On(f, n) = {} THEN 0 ELSE f[CHOOSE i \in On(f, n) : \A j \in On(f, n) : j <= i][3]
Latest(S) == CHOOSE i \in S : \A j \in S : j <= i
\* value 0: no value
Put(f, n, v) ==
    IF v = 0 THEN [i \in 1 .. Len(f) |-> IF i \in On(f, n) THEN <<"com", n, f[i][3]>> ELSE f[i]]
    ELSE IF Of(f, n) = {} THEN Append(f, <<"act", n, v>>)
    ELSE LET w == IF On(f, n) = {} THEN Latest(Of(f, n)) ELSE Latest(On(f, n)) IN
         [i \in 1 .. Len(f) |-> IF i = w THEN <<"act", n, v>> ELSE IF i \in On(f, n) THEN <<"com", n, f[i][3]>> ELSE f[i]]
PutAll(f, m) == FoldLeft(LAMBDA a, x : Put(a, x[1], x[2]), f, m)
Do(a) == act' = a /\ obs' = [vals |-> [n \in 1 .. NamesN |-> Val(file', n)]] /\ UNCHANGED ei
Vs == 0 .. 2
Set(n, v) == file' = Put(file, n, v) /\ UNCHANGED ctx /\ Do([op |-> IF v = 0 THEN "del" ELSE "set", m |-> <<<<n, v>>>>])
Update(v, w) == file' = PutAll(file, <<<<1, v>>, <<2, w>>>>) /\ UNCHANGED ctx /\ Do([op |-> "update", m |-> <<<<1, v>>, <<2, w>>>>])
Get == UNCHANGED <<file, ctx>> /\ Do([op |-> "get", m |-> << >>])
Enter(n, v) == /\ Len(ctx) < MaxCtx /\ ctx' = Append(ctx, <<n, Val(file, n)>>) /\ file' = Put(file, n, v)
               /\ Do([op |-> "enter", m |-> <<<<n, v>>>>])
Exit == ctx # << >> /\ ctx' = SubSeq(ctx, 1, Len(ctx) - 1) /\ file' = Put(file, ctx[Len(ctx)][1], ctx[Len(ctx)][2]) /\ Do([op |-> "exit", m |-> <<ctx[Len(ctx)]>>])
Next == \/ \E n \in 1 .. NamesN, v \in Vs : Set(n, v)
        \/ NamesN > 1 /\ \E v, w \in Vs : Update(v, w)
        \/ Get
        \/ \E n \in 1 .. NamesN, v \in 1 .. 2 : Enter(n, v)
        \/ Exit
Spec == Init /\ [][Next]_vars
Edge == CSVWrite("%1$s", <<ToJson(<<St, act', obs', St'>>)>>, IOEnv.EDGES)
\* the requested settings change, no others;  other lines stay as they are
Sets == [][\A n \in 1 .. NamesN : Val(file', n) = IF \E k \in 1 .. Len(act'.m) : act'.m[k][1] = n THEN act'.m[CHOOSE k \in 1 .. Len(act'.m) : act'.m[k][1] = n][2] ELSE Val(file, n)]_vars
Stays == [][\A i \in 1 .. Len(file) : i <= Len(file') /\ (file[i][2] \notin {act'.m[k][1] : k \in 1 .. Len(act'.m)} => file'[i] = file[i])]_vars

\* --- judging recorded behaviours:  [lines, events], an event: [op, m, lines (afterwards), view, server]
Cases == JsonDeserialize(IOEnv.CASES)
AsSet(ps) == {[name |-> ps[k].name, val |-> ps[k].val] : k \in 1 .. Len(ps)}
Low(ps) == {[name |-> Lower(p.name), val |-> p.val] : p \in ps}
Step(acc, e) ==
    IF acc.bad # "" THEN acc
    ELSE LET w == Wrong(acc.lines, e.lines, e.m)
             s == Settings(e.lines)
             odd == {Line(e.lines[i]).name : i \in {j \in 1 .. Len(e.lines) : Line(e.lines[j]).k = "bad"}}
             sure(ps) == {p \in ps : p.name \notin odd} IN
         [n |-> acc.n + 1, lines |-> e.lines, bad |->
            IF w # "" THEN w \o ": " \o ToString(e.m) \o " made " \o ToString(e.lines) \o " of " \o ToString(acc.lines)
            ELSE IF sure(Low(AsSet(e.view))) # sure(s) THEN "view: " \o ToString(e.view) \o " of " \o ToString(e.lines)
            ELSE IF \E k \in 1 .. Len(e.got) : \/ e.got[k].some # (\E x \in s : x.name = Lower(e.got[k].name))
                                               \/ (e.got[k].some /\ ~\E x \in s : x.name = Lower(e.got[k].name) /\ x.val = e.got[k].val) THEN "get: " \o ToString(e.got) \o " of " \o ToString(e.lines)
            ELSE IF e.asked /\ Low(AsSet(e.server)) # s THEN "server: " \o ToString(e.server) \o " of " \o ToString(e.lines)
            ELSE ""]
Verdict(c) == FoldLeft(Step, [n |-> 1, lines |-> c.lines, bad |-> ""], c.events).bad
Out(k) == LET v == Verdict(Cases[k]) IN IF v = "" THEN TRUE ELSE CSVWrite("%1$s", <<ToString(k) \o " " \o v>>, IOEnv.VERDICTS)
EvalInit == ei = 0 /\ file = 0 /\ ctx = 0 /\ act = 0 /\ obs = 0
EvalNext == /\ ei < Len(Cases) /\ Out(ei + 1) /\ ei' = ei + 1
            /\ (ei' = Len(Cases) => CSVWrite("%1$s", <<"done " \o ToString(ei')>>, IOEnv.VERDICTS))
            /\ UNCHANGED <<file, ctx, act, obs>>
EvalSpec == EvalInit /\ [][EvalNext]_vars
===============================================================================
