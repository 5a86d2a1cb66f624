------------------------------- MODULE DbParams -------------------------------
(* P16.  Query texts made of pieces: parameters by position or by name, quoted   *)
(* texts, which are taken as they are, and operators, whose percent sign is       *)
(* doubled where there are parameters.  exp is what the server must give for      *)
(* each piece: the value of the arg-th parameter, or a literal.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS MaxLen, Pieces
VARIABLES toks, exp, act, obs
vars == <<toks, exp, act, obs>>
St == [toks |-> toks, exp |-> exp]
View == St
Literal == [mod |-> "2", lit |-> "%s %% %(a)s", quoted |-> "it's %", dollar |-> " %s %% '", ident |-> "i", esc |-> "\\'%s", like |-> "true", plain |-> "x"]
NPos(t) == Cardinality({i \in 1 .. Len(t) : t[i] = "pos"})
Value(t, p) == IF p = "pos" THEN [arg |-> NPos(t) + 1, lit |-> ""]
               ELSE IF p = "named_a" THEN [arg |-> 1, lit |-> ""]
               ELSE IF p = "named_b" THEN [arg |-> 2, lit |-> ""]
               ELSE [arg |-> 0, lit |-> Literal[p]]
Named(p) == p \in {"named_a", "named_b"}
Init == toks = << >> /\ exp = << >> /\ act = [op |-> "init"] /\ obs = [toks |-> << >>, exp |-> << >>]
\* a query uses one style of parameters
Next == \E p \in Pieces :
    /\ Len(toks) < MaxLen
    /\ ~(p = "pos" /\ \E i \in DOMAIN toks : Named(toks[i])) /\ ~(Named(p) /\ \E i \in DOMAIN toks : toks[i] = "pos")
    /\ toks' = Append(toks, p) /\ exp' = Append(exp, Value(toks, p))
    /\ act' = [op |-> "piece", p |-> p] /\ obs' = [toks |-> toks', exp |-> exp']
Spec == Init /\ [][Next]_vars
\* positional parameters are delivered in order, each once; named ones wherever they are named
Delivered == /\ \A i, j \in DOMAIN toks : (i < j /\ toks[i] = "pos" /\ toks[j] = "pos") => exp[i].arg < exp[j].arg
             /\ \A i \in DOMAIN toks : exp[i].arg # 0 <=> (toks[i] = "pos" \/ Named(toks[i]))
             /\ {exp[i].arg : i \in {k \in DOMAIN toks : toks[k] = "pos"}} = 1 .. NPos(toks)
Edge == CSVWrite("%1$s", <<ToJson(<<St, act', obs', St'>>)>>, IOEnv.EDGES)
===============================================================================
