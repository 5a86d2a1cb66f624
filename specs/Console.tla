------------------------------ MODULE Console ------------------------------
(* P30.  pg_python runs a program as Python does, with a connection.               *)
(* A run: how the program is given, the contexts which are executed before it, its   *)
(* steps, and how it ends.  What is to be seen: what it prints, in order; its exit   *)
(* status; its complaint; what it leaves in the database.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Kinds, Contexts, Steps, Ends, MaxSteps, MaxCtx
VARIABLES run, act, obs, ei
vars == <<run, act, obs, ei>>
View == run
\* --- the program, step by step: out (what was printed), rows (what is committed), and whether it goes on
S0 == [out |-> <<>>, rows |-> 0, on |-> TRUE, code |-> 0, err |-> "", n |-> 0]
Shown(s, x) == [s EXCEPT !.out = Append(@, x)]
\* each step and context has a number of its own: what it prints is told by it
Ctx(s, c) == LET t == [s EXCEPT !.n = @ + 1] IN
    IF ~s.on THEN s
    ELSE CASE c = "say" -> Shown(t, t.n)
           [] c = "insert" -> [t EXCEPT !.rows = @ + 1]
           \* nothing after a context that fails
           [] c = "fail" -> [Shown(t, t.n) EXCEPT !.on = FALSE, !.code = 1, !.err = "ValueError"]
Step(s, c) == LET t == [s EXCEPT !.n = @ + 1] IN
    IF ~s.on THEN s
    ELSE CASE c = "say" -> Shown(t, t.n)
           [] c = "insert" -> [t EXCEPT !.rows = @ + 1]
           [] c = "block" -> [t EXCEPT !.rows = @ + 2]
           \* a block that an exception leaves, which is then caught
           [] c = "undone" -> Shown(t, t.n)
           [] c = "caught" -> Shown(t, t.n)
End(s, e) ==
    IF ~s.on THEN s
    ELSE CASE e = "fall" -> s
           [] e = "none" -> s
           [] e = "zero" -> s
           [] e = "three" -> [s EXCEPT !.code = 3]
           [] e = "text" -> [s EXCEPT !.code = 1, !.err = "a text"]
           [] e = "raise" -> [s EXCEPT !.code = 1, !.err = "ValueError"]
           [] e = "sql" -> [s EXCEPT !.code = 1, !.err = "postgresql.exceptions.UndefinedColumnError"]
           \* what was done in a block that is left by an exception is undone
           [] e = "block raise" -> [s EXCEPT !.code = 1, !.err = "KeyError"]
           [] e = "block exit" -> [s EXCEPT !.code = 3]
           [] e = "open block" -> s
RECURSIVE All(_, _, _, _)
All(Op(_, _), s, cs, i) == IF i > Len(cs) THEN s ELSE All(Op, Op(s, cs[i]), cs, i + 1)
Expect(r) == LET s == End(All(Step, All(Ctx, S0, r.ctx, 1), r.steps, 1), r.end)
             IN [out |-> s.out, rows |-> s.rows, code |-> s.code, err |-> s.err, ran |-> s.on \/ (\A i \in DOMAIN r.ctx : r.ctx[i] # "fail")]
Runs == {[kind |-> k, ctx |-> c, steps |-> p, end |-> e] :
           k \in Kinds, c \in UNION {[1 .. m -> Contexts] : m \in 0 .. MaxCtx}, p \in UNION {[1 .. m -> Steps] : m \in 0 .. MaxSteps}, e \in Ends}
Init == run \in Runs /\ act = 0 /\ obs = 0 /\ ei = 0
Next == act = 0 /\ act' = [op |-> "run"] /\ obs' = Expect(run) /\ UNCHANGED <<run, ei>>
Spec == Init /\ [][Next]_vars
Laws == LET x == Expect(run) IN
        /\ x.code = 0 => x.err = "" /\ x.ran
        /\ x.err # "" => x.code = 1
        /\ ~x.ran => x.code = 1 /\ x.err = "ValueError"
        \* the end does not take back what was committed before
        /\ \A e \in Ends : Expect([run EXCEPT !.end = e]).rows = x.rows
        \* contexts come before the program
        /\ x.ran => LET y == Expect([run EXCEPT !.steps = <<>>]) IN SubSeq(x.out, 1, Len(y.out)) = y.out
Edge == CSVWrite("%1$s", <<ToJson(<<run, act', obs', run>>)>>, IOEnv.EDGES)
----------------------------------------------------------------------------
Say(w, x) == w \o ": expected " \o ToString(x)
Verdict(c) == LET x == Expect(c.run) g == c.got IN
    IF g.code # x.code THEN Say("status", x.code)
    ELSE IF g.out # x.out THEN Say("output", x.out)
    ELSE IF g.rows # x.rows THEN Say("rows", x.rows)
    ELSE IF g.err # x.err THEN Say("complaint", x.err)
    \* the traceback is that of the program
    ELSE IF ~g.clean THEN "traceback: not only of the program"
    ELSE IF g.backends # 0 THEN "connection: still there"
    ELSE IF x.ran /\ ~g.env.argv THEN "arguments: not those given"
    ELSE IF x.ran /\ g.env.name # "__main__" THEN Say("name", "__main__")
    ELSE IF x.ran /\ ~g.env.builtins THEN "builtins: not those documented"
    ELSE IF x.ran /\ ~g.env.module THEN "module: names of the program are not those of __main__"
    ELSE IF x.ran /\ g.env.package # (IF c.run.kind \in {"package", "member"} THEN "pk" ELSE "") THEN "package: not that of the program"
    ELSE IF x.ran /\ ~g.env.beside THEN "imports: module beside the program not found"
    ELSE ""
Cases == JsonDeserialize(IOEnv.CASES)
Out(k) == LET z == Verdict(Cases[k]) IN IF z = "" THEN TRUE ELSE CSVWrite("%1$s", <<ToString(k) \o " " \o z>>, IOEnv.VERDICTS)
EvalInit == ei = 0 /\ run = 0 /\ act = 0 /\ obs = 0
EvalNext == /\ ei < Len(Cases) /\ Out(ei + 1) /\ ei' = ei + 1
            /\ (ei' = Len(Cases) => CSVWrite("%1$s", <<"done " \o ToString(ei')>>, IOEnv.VERDICTS))
            /\ UNCHANGED <<run, act, obs>>
EvalSpec == EvalInit /\ [][EvalNext]_vars
=============================================================================
