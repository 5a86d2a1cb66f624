---- MODULE Ilf ----
\* The text of SQL libraries: lines before the first section are the preface; a section is a
\* symbol with its annotations; comments at its beginning document it; *[name] stands for the
\* source of the last preceding symbol of that name; a later section of the same name replaces
\* the earlier one; what is not defined is refused.
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV
CONSTANTS MaxLines, Heads, Plain
VARIABLES lines, preface, syms, ok, act, obs
vars == <<lines, preface, syms, ok, act, obs>>
View == <<lines>>
St == [lines |-> lines]
Types == {"", "static", "preload", "const", "proc", "transient"}
Methods == {"", "all", "first", "rows", "chunks", "declare", "load_chunks", "load_rows", "column"}
\* a header: <<padding, reference, name, components>>
RECURSIVE Colons(_)
Colons(cs) == IF cs = << >> THEN "" ELSE ":" \o cs[1] \o Colons(Tail(cs))
HeadText(h) == h[1] \o "[" \o (IF h[2] THEN "&" ELSE "") \o h[3] \o Colons(h[4]) \o "]" \o h[1]
Comp(h, i) == IF i <= Len(h[4]) THEN h[4][i] ELSE ""
HeadOk(h) == Comp(h, 1) \in Types /\ Comp(h, 2) \in Methods
\* other lines: <<kind, name, text>>; kinds are doc, ref and text
PlainText(p) == IF p[1] = "ref" THEN "*[" \o p[2] \o "]" \o p[3] ELSE IF p[1] = "doc" THEN "-- " \o p[3] ELSE p[3]
Text(s) == [text |-> s, whole |-> << >>]
Whole(src) == [text |-> "", whole |-> src] \* the source of a symbol without space around it
Closed(n) == {i \in 1 .. Len(syms) - 1 : syms[i].name = n}
Latest(n) == CHOOSE i \in Closed(n) : \A j \in Closed(n) : j <= i
Edge == CSVWrite("%1$s", <<ToJson(<<St, act', obs', St'>>)>>, IOEnv.EDGES)
Init == lines = << >> /\ preface = << >> /\ syms = << >> /\ ok = TRUE /\ act = [op |-> "start"] /\ obs = [none |-> 0]
\* the last section of each name counts
Final(ss) == {ss[i] : i \in {i \in 1 .. Len(ss) : \A j \in i + 1 .. Len(ss) : ss[j].name # ss[i].name}}
Observe(t) == /\ lines' = Append(lines, t) /\ act' = [op |-> "text"]
              /\ obs' = [text |-> lines', ok |-> ok', preface |-> preface', syms |-> IF ok' THEN Final(syms') ELSE {}]
Section == \E h \in Heads :
          /\ Len(lines) < MaxLines /\ ok' = (ok /\ HeadOk(h)) /\ UNCHANGED preface
          /\ syms' = Append(syms, [name |-> h[3], ref |-> h[2], type |-> Comp(h, 1), method |-> IF Comp(h, 2) = "all" THEN "" ELSE Comp(h, 2), docs |-> TRUE, src |-> << >>])
          /\ Observe(HeadText(h))
Put(ps, d) == syms' = [syms EXCEPT ![Len(syms)] = [@ EXCEPT !.src = @ \o ps, !.docs = d]]
Other == \E p \in Plain :
           /\ Len(lines) < MaxLines
           /\ IF syms = << >> THEN preface' = Append(preface, PlainText(p)) /\ UNCHANGED <<syms, ok>>
              ELSE /\ UNCHANGED preface
                   /\ CASE p[1] = "doc" /\ syms[Len(syms)].docs -> UNCHANGED <<syms, ok>>
                        [] p[1] = "ref" -> IF Closed(p[2]) = {} THEN ok' = FALSE /\ UNCHANGED syms
                                           ELSE LET r == syms[Latest(p[2])] IN
                                                /\ Put((IF r.type = "proc" THEN <<Whole(r.src)>> ELSE r.src) \o <<Text(p[3] \o "\n")>>, FALSE) /\ UNCHANGED ok
                        [] OTHER -> Put(<<Text(PlainText(p) \o "\n")>>, FALSE) /\ UNCHANGED ok
           /\ Observe(PlainText(p))
Next == ok /\ (Section \/ Other)
Spec == Init /\ [][Next]_vars
\* every section is a symbol, and what a symbol contains was declared
Declared == ok => \A i \in 1 .. Len(syms) : syms[i].type \in Types /\ syms[i].method \in Methods
NoLoss == syms = << >> => Len(preface) = Len(lines)
\* sections already closed are never altered by what follows
Stable == [][\A i \in 1 .. Len(syms) - 1 : syms'[i] = syms[i]]_vars
====
