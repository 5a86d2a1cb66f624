------------------------------- MODULE Settings -------------------------------
(* P15.  The settings of one session and the mapping through which they are     *)
(* read and changed.  cur is the value in effect, sess the value which remains   *)
(* once the transaction commits (they differ after SET LOCAL); stack has a       *)
(* snapshot for the block and for each savepoint.  0 is a setting's default.     *)
(* ctx is the stack of entered settings contexts: the values to restore.  subs    *)
(* is the set of subscriptions <<callback, key>>, key 0 stands for all settings;  *)
(* callback 2 unsubscribes itself when it is called.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS NG, Rep,    \* settings 1 .. NG, those whose changes the server reports
          MaxVal, MaxCtx, MaxStack, Callbacks,
          Extras      \* subset of {"unknown", "reset", "update"}
VARIABLES cur, sess, stack, failed, ctx, subs, act, obs
vars == <<cur, sess, stack, failed, ctx, subs, act, obs>>
St == [cur |-> cur, sess |-> sess, stack |-> stack, failed |-> failed, ctx |-> ctx, subs |-> subs]
View == St
G == 1 .. NG
V == 0 .. MaxVal
None == -1
Partial == [G -> V \cup {None}]        \* None: not given
Over(f, p) == [g \in G |-> IF p[g] = None THEN f[g] ELSE p[g]]
Set(s, p) == [s EXCEPT !.cur = Over(@, p), !.sess = Over(@, p)]
One(g, v) == [h \in G |-> IF h = g THEN v ELSE None]
SetLocal(s, p) == IF s.stack = << >> THEN s ELSE [s EXCEPT !.cur = Over(@, p)]
\* an error undoes what the innermost level of the transaction has set
Abort(s) == IF s.stack = << >> THEN s
            ELSE [s EXCEPT !.failed = TRUE, !.cur = s.stack[Len(s.stack)].cur, !.sess = s.stack[Len(s.stack)].sess]

\* who is told: each subscriber of a reported setting whose value changed, and of all settings, once per change
Calls(old, new, sb) == {<<s[1], s[2], g, new[g]>> : s \in sb, g \in {g \in Rep : old[g] # new[g]}}
Wanted(x) == x[2] \in {0, x[3]}
Do(s, a, r, v) ==
    LET calls == {x \in Calls(cur, s.cur, subs) : Wanted(x)} IN
    /\ cur' = s.cur /\ sess' = s.sess /\ stack' = s.stack /\ failed' = s.failed /\ ctx' = s.ctx
    /\ subs' = s.subs \ {<<x[1], x[2]>> : x \in {y \in calls : y[1] = 2}}
    /\ act' = a /\ obs' = [r |-> r, v |-> v, calls |-> calls]
Act(a, s) == IF failed THEN Do(St, a, "infailed", None) ELSE Do(s, a, "ok", None)

\* callback 2 can only be told about one change at a time: it is gone before the next
Clean(s) == \A x \in subs : x[1] = 2 => Cardinality({c \in Calls(cur, s.cur, subs) : c[1] = 2 /\ c[2] = x[2] /\ Wanted(c)}) <= 1

SetItem(g, v) == Act([op |-> "set", g |-> g, v |-> v], Set(St, One(g, v)))
Sql(g, v) == Act([op |-> "sql", g |-> g, v |-> v], Set(St, One(g, v)))
Local(g, v) == stack # << >> /\ Act([op |-> "local", g |-> g, v |-> v], SetLocal(St, One(g, v)))
Del(g) == Act([op |-> "del", g |-> g], Set(St, One(g, 0)))
Update(p) == "update" \in Extras /\ Cardinality({g \in G : p[g] # None}) >= 2 /\ Clean(Set(St, p)) /\ Act([op |-> "update", p |-> p], Set(St, p))
Get(g) == /\ act' = [op |-> "get", g |-> g] /\ UNCHANGED <<cur, sess, stack, failed, ctx, subs>>
          /\ obs' = IF failed /\ g \notin Rep THEN [r |-> "infailed", v |-> None, calls |-> {}] ELSE [r |-> "ok", v |-> cur[g], calls |-> {}]
GetUnknown == /\ "unknown" \in Extras /\ act' = [op |-> "getunknown"] /\ UNCHANGED <<cur, sess, stack, failed, ctx, subs>>
              /\ obs' = [r |-> IF failed THEN "infailed" ELSE "keyerror", v |-> None, calls |-> {}]
SetUnknown(p) == "unknown" \in Extras /\ (IF failed THEN Do(St, [op |-> "setunknown", p |-> p], "infailed", None)
                                          ELSE Clean(Abort(St)) /\ Do(Abort(St), [op |-> "setunknown", p |-> p], "unknown", None))
Enter(p) == /\ Len(ctx) < MaxCtx /\ (\E g \in G : p[g] # None) /\ Clean(Set(St, p))
            /\ Act([op |-> "enter", p |-> p], [Set(St, p) EXCEPT !.ctx = Append(@, [g \in G |-> IF p[g] = None THEN None ELSE cur[g]])])
EnterUnknown(p) == /\ "unknown" \in Extras /\ Len(ctx) < MaxCtx
                   /\ Do(St, [op |-> "enterunknown", p |-> p], IF failed THEN "infailed" ELSE "keyerror", None)
Exit == /\ ctx # << >> /\ Clean(Set(St, ctx[Len(ctx)]))
        /\ LET rest == SubSeq(ctx, 1, Len(ctx) - 1) IN
           IF failed THEN Do([St EXCEPT !.ctx = rest], [op |-> "exit"], "infailed", None)
           ELSE Do([Set(St, ctx[Len(ctx)]) EXCEPT !.ctx = rest], [op |-> "exit"], "ok", None)
Snap == [cur |-> cur, sess |-> sess]
Begin == stack = << >> /\ Do([St EXCEPT !.stack = <<Snap>>], [op |-> "begin"], "ok", None)
Save == stack # << >> /\ ~failed /\ Len(stack) < MaxStack /\ Do([St EXCEPT !.stack = Append(@, Snap)], [op |-> "savepoint"], "ok", None)
Fail == LET s == IF failed THEN St ELSE Abort(St) IN Clean(s) /\ Do(s, [op |-> "fail"], IF failed THEN "infailed" ELSE "error", None)
Commit == LET s == IF failed THEN [St EXCEPT !.stack = << >>, !.failed = FALSE, !.cur = stack[1].cur, !.sess = stack[1].sess]
                   ELSE [St EXCEPT !.stack = << >>, !.cur = sess] IN
          stack # << >> /\ Clean(s) /\ Do(s, [op |-> "commit"], "ok", None)
Rollback == LET s == [St EXCEPT !.stack = << >>, !.failed = FALSE, !.cur = stack[1].cur, !.sess = stack[1].sess] IN
            stack # << >> /\ Clean(s) /\ Do(s, [op |-> "rollback"], "ok", None)
RollbackTo == LET n == Len(stack)
                  s == [St EXCEPT !.failed = FALSE, !.cur = stack[n].cur, !.sess = stack[n].sess] IN
              n > 1 /\ Clean(s) /\ Do(s, [op |-> "rollbackto"], "ok", None)
Release == Len(stack) > 1 /\ ~failed /\ Do([St EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)], [op |-> "release"], "ok", None)
Reset == LET s == [St EXCEPT !.stack = << >>, !.failed = FALSE, !.cur = [g \in G |-> 0], !.sess = [g \in G |-> 0]] IN
         "reset" \in Extras /\ Clean(s) /\ Do(s, [op |-> "reset"], "ok", None)
Subscribe(c, k) == Do([St EXCEPT !.subs = @ \cup {<<c, k>>}], [op |-> "sub", c |-> c, k |-> k], "ok", None)
Unsubscribe(c, k) == Do([St EXCEPT !.subs = @ \ {<<c, k>>}], [op |-> "unsub", c |-> c, k |-> k], "ok", None)
Init == /\ cur = [g \in G |-> 0] /\ sess = [g \in G |-> 0] /\ stack = << >> /\ failed = FALSE /\ ctx = << >> /\ subs = {}
        /\ act = [op |-> "init"] /\ obs = [r |-> "", v |-> None, calls |-> {}]
Next == \/ \E g \in G : Get(g) \/ Del(g) \/ \E v \in V : SetItem(g, v) \/ Sql(g, v) \/ Local(g, v)
        \/ \E p \in Partial : Update(p) \/ Enter(p)
        \/ \E g \in G : \E v \in V : SetUnknown(One(g, v)) \/ EnterUnknown(One(g, v))
        \/ GetUnknown \/ Exit \/ Begin \/ Save \/ Fail \/ Commit \/ Rollback \/ RollbackTo \/ Release \/ Reset
        \/ \E c \in Callbacks : \E k \in 0 .. NG : Subscribe(c, k) \/ Unsubscribe(c, k)
Spec == Init /\ [][Next]_vars

Idle == stack = << >> => (cur = sess /\ ~failed)
\* assigning takes effect at once
Assigned == [][(act'.op \in {"set", "sql"} /\ obs'.r = "ok") => cur'[act'.g] = act'.v]_vars
ReadsCurrent == [][(act'.op = "get" /\ obs'.r = "ok") => obs'.v = cur[act'.g]]_vars
\* a context restores what was in effect when it was entered, and only what it set
Restores == [][(act'.op = "exit" /\ obs'.r = "ok") => \A g \in G : cur'[g] = IF ctx[Len(ctx)][g] = None THEN cur[g] ELSE ctx[Len(ctx)][g]]_vars
ToldOnce == [][\A s \in subs : \A g \in Rep : (s[2] \in {0, g} /\ cur[g] # cur'[g]) <=> (\E x \in obs'.calls : x[1] = s[1] /\ x[2] = s[2] /\ x[3] = g /\ x[4] = cur'[g])]_vars
NotTold == [][\A x \in obs'.calls : <<x[1], x[2]>> \in subs]_vars
Unchanged == [][(obs'.r \in {"infailed", "keyerror"}) => (cur' = cur /\ sess' = sess)]_vars

Edge == CSVWrite("%1$s", <<ToJson(<<St, act', obs', St'>>)>>, IOEnv.EDGES)
===============================================================================
