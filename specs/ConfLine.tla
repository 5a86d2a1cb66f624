------------------------------- MODULE ConfLine -------------------------------
(* The server's reading of a configuration file: lines as sequences of             *)
(* one-character strings.                                                           *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets
Lc == [A |-> "a", B |-> "b", C |-> "c", D |-> "d", E |-> "e", F |-> "f", G |-> "g", H |-> "h", I |-> "i", J |-> "j", K |-> "k", L |-> "l", M |-> "m",
       N |-> "n", O |-> "o", P |-> "p", Q |-> "q", R |-> "r", S |-> "s", T |-> "t", U |-> "u", V |-> "v", W |-> "w", X |-> "x", Y |-> "y", Z |-> "z"]
Letters == DOMAIN Lc \cup {Lc[c] : c \in DOMAIN Lc} \cup {"_"}
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Blank == {" ", "\t", "\r", "\f"}
Lower(s) == [k \in 1 .. Len(s) |-> IF s[k] \in DOMAIN Lc THEN Lc[s[k]] ELSE s[k]]
\* the first position from k on whose character is not in S
RECURSIVE Skip(_, _, _)
Skip(s, k, S) == IF k <= Len(s) /\ s[k] \in S THEN Skip(s, k + 1, S) ELSE k
From(s, k) == SubSeq(s, k, Len(s))
\* the value of a quotation, and where it ends (0: it does not)
Esc == [f |-> "\f", n |-> "\n", r |-> "\r", t |-> "\t"]
RECURSIVE Quotation(_, _, _)
Quotation(s, k, v) ==
    IF k > Len(s) THEN [v |-> v, e |-> 0]
    ELSE IF s[k] = "\\" THEN (IF k = Len(s) THEN [v |-> v, e |-> 0] ELSE Quotation(s, k + 2, Append(v, IF s[k + 1] \in DOMAIN Esc THEN Esc[s[k + 1]] ELSE s[k + 1])))
    ELSE IF s[k] = "'" THEN (IF k < Len(s) /\ s[k + 1] = "'" THEN Quotation(s, k + 2, Append(v, "'")) ELSE [v |-> v, e |-> k])
    ELSE Quotation(s, k + 1, Append(v, s[k]))
Bare == Letters \cup Digits \cup {".", "-", "+", ":", "/"}
\* what a line is: a setting, a commented setting, neither, or one the server refuses
None == [k |-> "none", name |-> << >>, val |-> << >>, tail |-> << >>]
NameEnd(s, k) == Skip(s, k, Letters \cup Digits \cup {"."})
Directives == {<<"i","n","c","l","u","d","e">>, <<"i","n","c","l","u","d","e","_","d","i","r">>, <<"i","n","c","l","u","d","e","_","i","f","_","e","x","i","s","t","s">>}
RECURSIVE Line(_)
Line(s) ==
    LET k == Skip(s, 1, Blank) IN
    IF k > Len(s) THEN None
    ELSE IF s[k] = "#" THEN
         LET c == Skip(s, k, Blank \cup {"#"}) e == NameEnd(s, c) q == Skip(s, e, Blank) IN
         IF e > c /\ q <= Len(s) /\ s[q] = "=" THEN [None EXCEPT !.k = "com", !.name = Lower(SubSeq(s, c, e - 1))]
             ELSE IF c <= Len(s) /\ Line(From(s, c)).k = "set" THEN [None EXCEPT !.k = "old", !.name = Lower(SubSeq(s, c, e - 1))] ELSE None
    ELSE LET e == NameEnd(s, k)
             q == Skip(s, e, Blank)
             v == IF q <= Len(s) /\ s[q] = "=" THEN Skip(s, q + 1, Blank) ELSE q
             name == Lower(SubSeq(s, k, e - 1)) IN
         IF e = k \/ s[k] \notin Letters \/ v > Len(s) THEN [None EXCEPT !.k = "bad", !.name = name]
         ELSE IF name \in Directives THEN None
         ELSE LET z == IF s[v] = "'" THEN Quotation(s, v + 1, << >>) ELSE [v |-> SubSeq(s, v, Skip(s, v, Bare) - 1), e |-> Skip(s, v, Bare) - 1]
                  t == Skip(s, z.e + 1, Blank) IN
              IF z.e = 0 \/ z.e < v \/ (t <= Len(s) /\ s[t] # "#") THEN [None EXCEPT !.k = "bad", !.name = name]
              ELSE [k |-> "set", name |-> name, val |-> z.v, tail |-> From(s, t)]
\* the settings of a file: the last one counts
Settings(ls) ==
    LET cs == [i \in 1 .. Len(ls) |-> Line(ls[i])]
        on == {i \in 1 .. Len(ls) : cs[i].k = "set"}
        names == {cs[i].name : i \in on}
        last(n) == CHOOSE i \in on : cs[i].name = n /\ \A j \in on : cs[j].name = n => j <= i
    IN  {[name |-> n, val |-> cs[last(n)].val] : n \in names}
\* m: changes, as records [name, some, val];  some: whether there is to be a value
Changed(m) == {m[k].name : k \in 1 .. Len(m)}
Updated(set, m) == {x \in set : x.name \notin Changed(m)} \cup {[name |-> m[k].name, val |-> m[k].val] : k \in {j \in 1 .. Len(m) : m[j].some}}
\* what is wrong with the file after a change; "": nothing
Wrong(before, after, m) ==
    LET B == [i \in 1 .. Len(before) |-> Line(before[i])]
        A == [i \in 1 .. Len(after) |-> Line(after[i])]
        mine(c) == c.k \in {"set", "com", "old", "bad"} /\ c.name \in Changed(m)
        keep(ls, cs) == FoldLeft(LAMBDA acc, i : IF mine(cs[i]) THEN acc ELSE Append(acc, ls[i]), << >>, [i \in 1 .. Len(ls) |-> i])
        count(cs, n) == Cardinality({i \in 1 .. Len(cs) : mine(cs[i]) /\ cs[i].k # "old" /\ cs[i].name = n})
        tails(ls, cs) == {cs[i].tail : i \in {j \in 1 .. Len(ls) : mine(cs[j]) /\ cs[j].k = "set" /\ cs[j].tail # << >>}}
    IN  IF Settings(after) # Updated(Settings(before), m) THEN "settings"
        ELSE IF keep(after, A) # keep(before, B) THEN "lines"
        ELSE IF \E i \in 1 .. Len(B) : B[i].k = "old" /\ before[i] \notin {after[j] : j \in 1 .. Len(after)} THEN "comment"
        ELSE IF Len(after) < Len(before) THEN "gone"
        ELSE IF \E n \in Changed(m) : count(A, n) > count(B, n) /\ count(B, n) > 0 THEN "again"
        ELSE IF Len(before) = Len(after) /\ \E i \in 1 .. Len(A) : mine(A[i]) # mine(B[i]) \/ (mine(A[i]) /\ A[i].name # B[i].name) THEN "place"
        ELSE IF \E t \in tails(before, B) : ~\E i \in 1 .. Len(after) : IsSuffix(t, after[i]) THEN "comment"
        ELSE ""
===============================================================================
