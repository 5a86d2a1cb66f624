---- MODULE Library ----
\* Symbols of a library bound to connections.  Every source counts its evaluations.
\* Preloaded symbols are resolved when the library is bound, others when they are first used,
\* transient ones each time; statements are retained accordingly.  Constants are evaluated when first
\* used.  References make symbols of what their query gives at the time (version); constant ones once.
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV
CONSTANTS Syms, Binds, Conn, MaxCount, MaxVersion
VARIABLES cnt,    \* evaluations of each symbol
          version, broken, \* what references give; whether the constants cannot be evaluated
          bound,  \* bindings which exist
          con,    \* values of the constants of each
          cver,   \* version of the constant reference of each
          kept,   \* symbols each binding retains
          held,   \* a symbol the user holds: <<>> or <<[b, s, made, ver, own]>>
          act, obs
vars == <<cnt, version, broken, bound, con, cver, kept, held, act, obs>>
St == [cnt |-> cnt, version |-> version, broken |-> broken, bound |-> bound, con |-> con, cver |-> cver, kept |-> kept, held |-> held]
View == St
Kind == [plain |-> "", plain2 |-> "static", pre |-> "preload", con |-> "const", conull |-> "const", once |-> "transient", proc |-> "proc",
         ref |-> "", refcon |-> "const", reftrans |-> "transient", refproc |-> "proc", refpre |-> "preload"]
Refs == {"ref", "refcon", "reftrans", "refproc", "refpre"}
Consts == {s \in Syms : Kind[s] = "const" /\ s \notin Refs}
\* resolved when bound (procedures need not exist by then)
AtBind == {s \in Syms : Kind[s] = "preload"}
Conns == {Conn[b] : b \in Binds}
Holds(c, s, made) == IF held # << >> /\ held[1].own /\ held[1].s = s /\ held[1].made = made /\ Conn[held[1].b] = c THEN 1 ELSE 0
\* the statements the server has: of symbols (and queries of references), and of what references made
Query(c) == [s \in Syms \ Consts |-> (IF s = "refcon" THEN 0 ELSE Cardinality({b \in bound : Conn[b] = c /\ s \in kept[b]})) + Holds(c, s, FALSE)]
Made(c) == [s \in Syms \cap Refs |-> (IF s = "refcon" THEN Cardinality({b \in bound : Conn[b] = c /\ cver[b] # 0}) ELSE 0) + Holds(c, s, TRUE)]
Edge == CSVWrite("%1$s", <<ToJson(<<St, act', obs', St'>>)>>, IOEnv.EDGES)
Init == /\ cnt = [s \in Syms |-> 0] /\ version = 1 /\ broken = FALSE /\ bound = {} /\ con = [b \in Binds |-> [s \in Consts |-> 0]] /\ cver = [b \in Binds |-> 0]
        /\ kept = [b \in Binds |-> {}] /\ held = << >> /\ act = [op |-> "start"] /\ obs = [none |-> 0]
Act(op, b, s) == act' = [op |-> op, b |-> b, s |-> s]
Obs(r, v, w) == obs' = [r |-> r, v |-> v, version |-> w, query |-> [c \in Conns |-> Query(c)'], made |-> [c \in Conns |-> Made(c)'], cnt |-> cnt']
Count(S) == cnt' = [s \in Syms |-> IF s \in S THEN cnt[s] + 1 ELSE cnt[s]]
Room(S) == \A s \in S : cnt[s] < MaxCount
Keep(b, s) == IF Kind[s] = "transient" THEN kept ELSE [kept EXCEPT ![b] = @ \cup {s}]

Bind(b) == /\ b \notin bound /\ UNCHANGED <<version, broken, held>> /\ Act("bind", b, "")
           /\ UNCHANGED <<cnt, con, cver>> /\ bound' = bound \cup {b} /\ kept' = [kept EXCEPT ![b] = AtBind] /\ Obs("ok", 0, 0)
\* (what the user holds of it lives on)
Unbind(b) == /\ b \in bound /\ UNCHANGED <<cnt, version, broken>> /\ Act("unbind", b, "")
             /\ bound' = bound \ {b} /\ con' = [con EXCEPT ![b] = [s \in Consts |-> 0]] /\ cver' = [cver EXCEPT ![b] = 0] /\ kept' = [kept EXCEPT ![b] = {}]
             /\ held' = (IF held # << >> /\ held[1].b = b THEN <<[held[1] EXCEPT !.own = TRUE]>> ELSE held) /\ Obs("ok", 0, 0)
Value(b, s) == /\ b \in bound /\ s \in Consts /\ UNCHANGED <<version, broken, bound, cver, kept, held>> /\ Act("value", b, s)
               /\ IF con[b][s] # 0 THEN UNCHANGED <<cnt, con>> /\ Obs(IF s = "conull" THEN "null" ELSE "ok", con[b][s], 0)
                  ELSE IF broken THEN UNCHANGED <<cnt, con>> /\ Obs("error", 0, 0)
                  ELSE Room({s}) /\ Count({s}) /\ con' = [con EXCEPT ![b][s] = cnt'[s]] /\ Obs(IF s = "conull" THEN "null" ELSE "ok", cnt'[s], 0)
Ver(b) == IF cver[b] # 0 THEN cver[b] ELSE version
Resolve(b, s) == cver' = IF s = "refcon" THEN [cver EXCEPT ![b] = Ver(b)] ELSE cver
\* calling: symbols give their results; constant references are symbols
Call(b, s) == /\ b \in bound /\ s \notin Consts /\ (s \in Refs => s = "refcon") /\ Room({s}) /\ UNCHANGED <<version, broken, bound, con, held>> /\ Act("call", b, s)
              /\ Count({s}) /\ Resolve(b, s) /\ kept' = Keep(b, s) /\ Obs("ok", cnt'[s], IF s \in Refs THEN Ver(b) ELSE 0)
\* making a symbol and calling it at once
CallMade(b, s) == /\ b \in bound /\ s \in (Syms \cap Refs) \ {"refcon"} /\ Room({s}) /\ UNCHANGED <<version, broken, bound, con, cver, held>> /\ Act("callmade", b, s)
                  /\ Count({s}) /\ kept' = Keep(b, s) /\ Obs("ok", cnt'[s], version)
\* holding a symbol, or what a reference makes
Take(b, s) == /\ b \in bound /\ held = << >> /\ s \notin Consts /\ UNCHANGED <<cnt, version, broken, bound, con>> /\ Act("take", b, s)
              /\ Resolve(b, s) /\ kept' = Keep(b, s)
              /\ held' = <<[b |-> b, s |-> s, made |-> s \in Refs, ver |-> IF s = "refcon" THEN Ver(b) ELSE version, own |-> (s \in Refs /\ s # "refcon") \/ Kind[s] = "transient"]>>
              /\ Obs("ok", 0, 0)
CallHeld == /\ held # << >> /\ LET h == held[1] IN /\ Room({h.s}) /\ UNCHANGED <<version, broken, bound, con, cver, kept, held>> /\ Act("callheld", h.b, h.s)
                                                   /\ Count({h.s}) /\ Obs("ok", cnt'[h.s], IF h.made THEN h.ver ELSE 0)
Drop == /\ held # << >> /\ held' = << >> /\ UNCHANGED <<cnt, version, broken, bound, con, cver, kept>> /\ Act("drop", held[1].b, held[1].s) /\ Obs("ok", 0, 0)
Edit == /\ Syms \cap Refs # {} /\ version < MaxVersion /\ version' = version + 1 /\ UNCHANGED <<cnt, broken, bound, con, cver, kept, held>> /\ Act("edit", 0, "") /\ Obs("ok", 0, 0)
Break == /\ Consts # {} /\ broken' = ~broken /\ UNCHANGED <<cnt, version, bound, con, cver, kept, held>> /\ Act("break", 0, "") /\ Obs("ok", 0, 0)
Next == \/ \E b \in Binds : Bind(b) \/ Unbind(b) \/ (\E s \in Syms : Value(b, s) \/ Call(b, s) \/ CallMade(b, s) \/ Take(b, s))
        \/ CallHeld \/ Drop \/ Edit \/ Break
Spec == Init /\ [][Next]_vars
\* constants remain what they were when first used, until unbound
ConstantsConstant == [][\A b \in bound \cap bound' : (cver[b] # 0 => cver'[b] = cver[b]) /\ \A s \in Consts : con[b][s] # 0 => con'[b][s] = con[b][s]]_vars
\* what is done with one binding does not affect another
Isolated == [][\A b \in Binds : act'.b # b => (b \in bound) = (b \in bound') /\ kept'[b] = kept[b] /\ con'[b] = con[b]]_vars
\* preloaded symbols are there from the beginning, transient ones never retained
Retained == \A b \in bound : AtBind \subseteq kept[b] /\ \A s \in kept[b] : Kind[s] # "transient"
====
