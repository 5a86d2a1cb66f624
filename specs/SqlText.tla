-------------------------------- MODULE SqlText --------------------------------
(* P21.  All texts made of at most MaxLen pieces of Alphabet, with the parts and    *)
(* statements they divide into, the names they denote and how they are quoted.      *)
EXTENDS SqlLex, TLC, Json, CSV, IOUtils
CONSTANTS Alphabet, MaxLen, MaxParts
VARIABLES text, lx, n, script, act, obs, ei
vars == <<text, lx, n, script, act, obs, ei>>
View == <<text, n, script>>
St == [n |-> n]
Read(s) == [text |-> s, parts |-> Lex(s), stmts |-> Statements(Lex(s), ";")]
Init == text = << >> /\ lx = L0 /\ n = 0 /\ script = << >> /\ act = [op |-> "start"] /\ obs = [text |-> << >>] /\ ei = 0
Add(f) == /\ n < MaxLen /\ n' = n + 1 /\ text' = text \o f /\ lx' = FoldLeft(Lex1, lx, f)
          /\ act' = [op |-> "text"] /\ UNCHANGED <<ei, script>>
          /\ LET ps == Parts(lx') IN obs' = [text |-> text', parts |-> ps, stmts |-> Statements(ps, ";")]
Next == \E f \in Alphabet : Add(f)
Spec == Init /\ [][Next]_vars
Edge == CSVWrite("%1$s", <<ToJson(<<St, act', obs', St'>>)>>, IOEnv.EDGES)

\* nothing is lost, the parts alternate, and no part of a statement has a terminator outside of quotations
Whole == /\ Shown(Parts(lx)) = text
         /\ \A k \in 1 .. Len(Parts(lx)) : (Parts(lx)[k].q = << >>) = (k % 2 = 1)
         /\ LET ss == Statements(Parts(lx), ";") IN
            /\ \A k \in 1 .. Len(ss) : \A j \in 1 .. Len(ss[k]) : ss[k][j].q = << >> => \A i \in 1 .. Len(ss[k][j].t) : ss[k][j].t[i] # ";"
            /\ FoldLeft(LAMBDA a, k : a \o (IF k > 1 THEN <<";">> ELSE << >>) \o Shown(ss[k]), << >>, [k \in 1 .. Len(ss) |-> k]) = text

\* quoted texts are one part, with the meaning they were made from
OnePart(s, m) == LET ps == Lex(s) IN Len(ps) = 3 /\ ps[1].t = << >> /\ ps[3].t = << >> /\ Meaning(ps[2]) = m
Inert == OnePart(Quoted(text, "'"), text) /\ OnePart(Quoted(text, "\""), text) /\ OnePart(Escaped(text), text)
\* names survive
Kept == Names(Dotted(<<text, <<"a", ".">>, text>>), <<".">>) = [ok |-> TRUE, names |-> <<text, <<"a", ".">>, text>>]
        /\ (~NeedsQuotes(text) => Names(text, <<".">>) = [ok |-> TRUE, names |-> <<text>>])

\* --- quoting: every text
QAdd(f) == /\ n < MaxLen /\ n' = n + 1 /\ text' = text \o f /\ UNCHANGED <<lx, ei, script>> /\ act' = [op |-> "quote"]
           /\ obs' = [text |-> text', lit |-> Quoted(text', "'"), ident |-> Quoted(text', "\""), needed |-> NeedsQuotes(text')]
QSpec == Init /\ [][\E f \in Alphabet : QAdd(f)]_vars
\* --- names: every text
NAdd(f) == /\ n < MaxLen /\ n' = n + 1 /\ text' = text \o f /\ UNCHANGED <<lx, ei, script>> /\ act' = [op |-> "names"]
           /\ obs' = [text |-> text', dot |-> Names(text', <<".">>), comma |-> Names(text', <<",">>),
                      sep |-> Separated(text', "\"", <<".">>, -1), sep1 |-> Separated(text', "\"", <<".">>, 1), lit |-> Separated(text', "'", <<".", ".">>, -1), lit1 |-> Separated(text', "'", <<".", ".">>, 1)]
NSpec == Init /\ [][\E f \in Alphabet : NAdd(f)]_vars
\* --- scripts of statements that store one quoted value
Dollar(t, s) == t \o s \o t
Ways(s) == {Quoted(s, "'"), Escaped(s)}
           \cup {<<"e", "'">> \o Doubled(s, "'") \o <<"'">> : x \in IF \E k \in 1 .. Len(s) : s[k] = "\\" THEN {} ELSE {1}}
           \cup {Dollar(t, s) : t \in {x \in {<<"$", "$">>, <<"$", "t", "$">>, <<"$", "E", "1", "$">>} : LET ps == Lex(Dollar(x, s)) IN Len(ps) = 3 /\ ps[3].t = << >> /\ ps[2].t = s}}
SAdd(f) == /\ n < MaxParts /\ n' = n + 1 /\ UNCHANGED <<lx, text, ei>> /\ act' = [op |-> "script"]
           /\ \E w \in Ways(f) : \E name \in {<<"v">>, <<";">>, <<"\"", ";", "'">>} :
                /\ script' = Append(script, [value |-> f, way |-> w, name |-> name])
                /\ obs' = [script |-> script', names |-> [k \in 1 .. Len(script') |-> Quoted(script'[k].name, "\"")]]
SSpec == Init /\ [][\E f \in Alphabet : SAdd(f)]_vars
AllWays == script # << >> => OnePart(script[Len(script)].way, script[Len(script)].value)

\* --- judging recorded splits of longer texts
Cases == JsonDeserialize(IOEnv.CASES)
Verdict(c) == LET r == Read(c.text) IN
              IF r.parts # c.parts THEN "parts are " \o ToString(r.parts) \o ", not " \o ToString(c.parts)
              ELSE IF r.stmts # c.stmts THEN "statements are " \o ToString(r.stmts) \o ", not " \o ToString(c.stmts) ELSE ""
Out(k) == LET v == Verdict(Cases[k]) IN IF v = "" THEN TRUE ELSE CSVWrite("%1$s", <<ToString(k) \o " " \o v>>, IOEnv.VERDICTS)
EvalInit == Init
EvalNext == /\ ei < Len(Cases) /\ Out(ei + 1) /\ ei' = ei + 1
            /\ (ei' = Len(Cases) => CSVWrite("%1$s", <<"done " \o ToString(ei')>>, IOEnv.VERDICTS))
            /\ UNCHANGED <<text, lx, n, script, act, obs>>
EvalSpec == EvalInit /\ [][EvalNext]_vars
===============================================================================
