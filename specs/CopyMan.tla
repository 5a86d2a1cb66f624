------------------------------ MODULE CopyMan ------------------------------
(* P12.  A managed copy: one producer, receivers 1..N.  The producer's copy     *)
(* messages are numbered; Sizes gives their lengths on the wire and L is the    *)
(* number of bytes of them that the producer has emitted.                      *)
(*   mem    receivers in the operation     due[r]  what a receiver out of it    *)
(*   seen   the producer was exhausted             has been given (-1: not out) *)
(*   rep    emitted bytes reported by the iteration so far                     *)
(* Legal(s, e): the states after event e; none when e breaks the property.      *)
(* The generator (Spec) chooses fragmentations, faults, reconciliations and the *)
(* way the operation is left; the behaviour recorded from the real manager is   *)
(* judged by Legal (EvalSpec).                                                 *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS N, MaxCyc

Recv == 1 .. N
Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
\* whole messages within the first L bytes, and their length
Whole(sizes, L) == Cardinality({k \in 1 .. Len(sizes) : Sum(SubSeq(sizes, 1, k)) <= L})
Floor(sizes, L) == Sum(SubSeq(sizes, 1, Whole(sizes, L)))
\* what a receiver of some kind has when L bytes were given to it
Has(c, r, L) == IF c.kinds[r] = "call" THEN Floor(c.sizes, L) ELSE L
S0(c) == [mem |-> Recv, L |-> 0, due |-> [r \in Recv |-> -1], seen |-> FALSE, rep |-> 0]
Good(c, s, e) == \A r \in Recv : e.pre[r] /\ (IF r \in s.mem THEN e.lens[r] = Has(c, r, s.L) ELSE e.lens[r] <= s.due[r])
Legal(c, s, e) ==
  IF e.op = "cycle" THEN
    LET t == [s EXCEPT !.L = e.total] raised == ToSet(e.raised) IN
    IF e.total < s.L \/ e.total > Sum(c.sizes) \/ \E r \in Recv : ~e.pre[r] THEN {}
    ELSE IF e.r = "ok" THEN
       (IF raised = {} /\ Good(c, t, e) /\ ToSet(e.members) = s.mem /\ s.mem # {}
          /\ e.b = t.L - s.rep /\ e.n = Whole(c.sizes, t.L) - Whole(c.sizes, s.rep)
        THEN {[t EXCEPT !.rep = t.L]} ELSE {})
    ELSE IF e.r = "fault" THEN
       LET u == [t EXCEPT !.mem = @ \ raised, !.due = [r \in Recv |-> IF r \in raised THEN Has(c, r, t.L) ELSE @[r]]] IN
       (IF raised # {} /\ ToSet(e.faults) = raised /\ raised \subseteq s.mem /\ Good(c, u, e) /\ ToSet(e.members) = u.mem /\ e.same THEN {u} ELSE {})
    ELSE IF e.r = "prodfault" THEN (IF (e.broken \/ c.prod = "bad") /\ e.total = s.L /\ Good(c, s, e) /\ ToSet(e.members) = s.mem THEN {s} ELSE {})
    ELSE IF e.r = "stop" THEN
       \* the end of the iteration is the end of the data
       (IF Good(c, s, e) /\ (c.prod # "bad" \/ s.mem = {}) /\ e.total = s.L /\ ToSet(e.members) = s.mem /\ (s.mem # {} => s.L = Sum(c.sizes)) THEN {[s EXCEPT !.seen = s.mem # {}]} ELSE {})
    ELSE {}
  ELSE IF e.op = "reconcile" THEN
    (IF ~e.pre[e.c] THEN {}
     ELSE IF e.r = "ok" THEN (IF e.lens[e.c] = s.due[e.c] THEN {t \in {[s EXCEPT !.mem = @ \cup {e.c}, !.due[e.c] = -1]} : ToSet(e.members) = t.mem} ELSE {})
     ELSE IF e.r = "again" THEN (IF e.lens[e.c] <= s.due[e.c] /\ ToSet(e.members) = s.mem THEN {s} ELSE {})
     ELSE {})
  ELSE IF e.op = "exit" THEN
    LET bad == ToSet(c.bad) \cap s.mem
        success == s.seen /\ ~e.raised /\ s.mem # {} /\ bad = {} IN
    IF /\ (e.r = "ok") <=> success
       \* the source's statement may fail at once: nothing was started
       /\ e.r \in {"ok", "copyfail"} \/ (e.r = "refused" /\ c.prod = "bad" /\ s.L = 0 /\ \A r \in Recv : c.kinds[r] = "stmt" => e.rows[r] = "empty")
       /\ \A r \in s.mem : e.usable[r] /\ e.aligned[r]
       /\ e.usable[N + 1]
       /\ IF s.seen /\ ~e.raised
          THEN ToSet(e.rf) = bad /\ \A r \in s.mem \ bad : e.rows[r] = "full"
          ELSE \A r \in s.mem : e.rows[r] # "partial" \/ c.kinds[r] # "stmt"
       /\ \A r \in bad : e.rows[r] # "partial"
       /\ ToSet(e.rf) \subseteq s.mem
       /\ e.async
    THEN {s} ELSE {}
  ELSE {}

\* --- judging recorded behaviours
Cases == JsonDeserialize(IOEnv.CASES)
Verdict(c) == FoldLeft(LAMBDA acc, e : IF acc.bad # "" THEN acc
                         ELSE LET nxt == UNION {Legal(c, s, e) : s \in acc.states} IN
                              [n |-> acc.n + 1, states |-> nxt, bad |-> IF nxt = {} THEN "event " \o ToString(acc.n) \o " " \o ToString(e) \o " is not allowed in " \o ToString(acc.states) ELSE ""],
                       [n |-> 1, states |-> {S0(c)}, bad |-> ""], c.events).bad
VARIABLES mem, pend, cyc, phase, cfg, act, obs, ei
Out(k) == LET v == Verdict(Cases[k]) IN IF v = "" THEN TRUE ELSE CSVWrite("%1$s", <<ToString(k) \o " " \o v>>, IOEnv.VERDICTS)
EvalInit == ei = 0 /\ mem = 0 /\ pend = 0 /\ cyc = 0 /\ phase = 0 /\ cfg = 0 /\ act = 0 /\ obs = 0
EvalNext == /\ ei < Len(Cases) /\ Out(ei + 1) /\ ei' = ei + 1
            /\ (ei' = Len(Cases) => CSVWrite("%1$s", <<"done " \o ToString(ei')>>, IOEnv.VERDICTS))
            /\ UNCHANGED <<mem, pend, cyc, phase, cfg, act, obs>>
EvalSpec == EvalInit /\ [][EvalNext]_<<mem, pend, cyc, phase, cfg, act, obs, ei>>

\* --- schedules
vars == <<mem, pend, cyc, phase, cfg, act, obs, ei>>
View == <<mem, pend, cyc, phase, cfg>>
St == [mem |-> mem, pend |-> pend, cyc |-> cyc, phase |-> phase, cfg |-> cfg]
Kinds == IF N = 1 THEN {<<"stmt">>, <<"call">>} ELSE {<<"stmt", "stmt">>, <<"stmt", "call">>, <<"call", "stmt">>}
Cfgs == {c \in [prod : {"stmt", "iter", "bad"}, kinds : Kinds, bad : 0 .. N, async : BOOLEAN] :
           /\ c.bad = 0 \/ c.kinds[c.bad] = "stmt"
           /\ c.prod = "iter" => ~c.async}
Frags == {1, 4, 7, 60, 100000}
Cuts == {-1, 0, 3, 9}
Init == /\ mem = Recv /\ pend = {} /\ cyc = 0 /\ phase = "run" /\ cfg \in Cfgs /\ ei = 0 /\ act = [op |-> "start"] /\ obs = [r |-> "ok"]
Do(a) == act' = a /\ obs' = [r |-> "ok"] /\ UNCHANGED <<cfg, ei>>
\* one cycle with reads of at most k bytes; receiver r fails after f[r] bytes (-1: it does not)
Cycle(k, f) == /\ phase = "run" /\ cyc < MaxCyc /\ cyc' = cyc + 1
               /\ \A r \in Recv : r \notin mem => f[r] = -1
               /\ LET out == {r \in mem : f[r] # -1} IN mem' = mem \ out /\ pend' = out \* not reconciled by now: dropped
               /\ UNCHANGED phase /\ Do([op |-> "cycle", k |-> k, f |-> f])
Reconcile(r, j) == /\ phase = "run" /\ r \in pend
                   /\ IF j = -1 THEN mem' = mem \cup {r} /\ pend' = pend \ {r} ELSE UNCHANGED <<mem, pend>>
                   /\ UNCHANGED <<cyc, phase>> /\ Do([op |-> "reconcile", c |-> r, j |-> j])
ProdFault == phase = "run" /\ cyc < MaxCyc /\ cyc' = cyc + 1 /\ pend' = {} /\ UNCHANGED <<mem, phase>> /\ Do([op |-> "prodfault"])
Leave(how, k) == phase = "run" /\ phase' = "left" /\ UNCHANGED <<mem, pend, cyc>> /\ Do([op |-> how, k |-> k])
Next == \/ \E k \in Frags, f \in [Recv -> Cuts] : Cycle(k, f)
        \/ \E r \in Recv, j \in {-1, 0, 5} : Reconcile(r, j)
        \/ ProdFault
        \/ \E k \in Frags, h \in {"finish", "run"} : (h = "run" => cyc = 0) /\ Leave(h, k)
        \/ \E h \in {"break", "raise", "kill"} : (h = "kill" => cfg.prod = "stmt") /\ Leave(h, 60)
Spec == Init /\ [][Next]_vars
TypeOK == mem \cap pend = {}
Edge == CSVWrite("%1$s", <<ToJson(<<St, act', obs', St'>>)>>, IOEnv.EDGES)
=============================================================================
