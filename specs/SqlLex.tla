-------------------------------- MODULE SqlLex --------------------------------
(* How SQL text divides into unquoted and quoted parts: the server's rules, as an  *)
(* automaton over characters (sequences of one-character strings).                 *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
\* characters that are neither part of a word nor of a quotation
Others == {" ", "\n", "\t", ";", ",", ".", ":", "(", ")", "%", "=", "-", "+", "*", "/", "@", "?", "&", "!", "<", ">", "[", "]", "|", "~", "^", "#", "\\"}
WordStart(c) == c \notin Digits \cup Others \cup {"'", "\"", "$"}
\* mode: "plain", "lit" (with mark q), "dollar" (with delimiter q)
\* word: "no" outside of words, "E" after the word E, "yes" in any other word
\* delim: a dollar delimiter that is not complete;  maybe: the mark was seen, it may be the end
\* segs: the finished parts;  cur: the current one
L0 == [mode |-> "plain", q |-> << >>, word |-> "no", delim |-> << >>, maybe |-> FALSE, esc |-> FALSE, segs |-> << >>, cur |-> << >>]
Mark(q) == q[Len(q)]
Open(x, q, cur) == [L0 EXCEPT !.mode = IF q[1] = "$" THEN "dollar" ELSE "lit", !.q = q, !.segs = Append(x.segs, [q |-> << >>, t |-> cur])]
Shut(x, t) == [L0 EXCEPT !.segs = Append(x.segs, [q |-> x.q, t |-> t])]
Word(w, c) == IF w # "no" THEN (IF WordStart(c) \/ c \in Digits \cup {"$"} THEN "yes" ELSE "no")
              ELSE IF c \in {"E", "e"} THEN "E" ELSE IF WordStart(c) THEN "yes" ELSE "no"
Plain(x, c) ==
    CASE c = "'" /\ x.word = "E" -> Open(x, <<x.cur[Len(x.cur)], "'">>, SubSeq(x.cur, 1, Len(x.cur) - 1))
      [] c = "'" \/ c = "\"" -> Open(x, <<c>>, x.cur)
      [] c = "$" /\ x.word = "no" -> [x EXCEPT !.delim = <<"$">>]
      [] OTHER -> [x EXCEPT !.cur = Append(@, c), !.word = Word(@, c)]
\* what seemed to be a dollar delimiter was none
Undelim(x) == [x EXCEPT !.delim = << >>, !.cur = @ \o x.delim, !.word = FoldLeft(Word, "no", Tail(x.delim))]
EndsWith(s, t) == Len(s) >= Len(t) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t
Lex1(x, c) ==
    CASE x.mode = "plain" ->
           IF x.delim = << >> THEN Plain(x, c)
           ELSE IF c = "$" THEN Open(x, Append(x.delim, "$"), x.cur)
           ELSE IF WordStart(c) \/ (c \in Digits /\ Len(x.delim) > 1) THEN [x EXCEPT !.delim = Append(@, c)]
           ELSE Plain(Undelim(x), c)
      [] x.mode = "dollar" ->
           LET t == Append(x.cur, c) IN
           IF EndsWith(t, x.q) THEN Shut(x, SubSeq(t, 1, Len(t) - Len(x.q))) ELSE [x EXCEPT !.cur = t]
      [] x.mode = "lit" ->
           IF x.esc THEN [x EXCEPT !.esc = FALSE, !.cur = Append(@, c)]
           ELSE IF x.maybe THEN (IF c = Mark(x.q) THEN [x EXCEPT !.maybe = FALSE, !.cur = @ \o <<c, c>>] ELSE Plain(Shut(x, x.cur), c))
           ELSE IF c = Mark(x.q) THEN [x EXCEPT !.maybe = TRUE]
           ELSE [x EXCEPT !.cur = Append(@, c), !.esc = (Len(x.q) = 2 /\ c = "\\")]
\* the parts at the end of the text; an even number of them: the last quotation is not terminated
Parts(x) == IF x.mode = "plain" THEN Append(x.segs, [q |-> << >>, t |-> x.cur \o x.delim])
            ELSE IF x.maybe THEN Append(Append(x.segs, [q |-> x.q, t |-> x.cur]), [q |-> << >>, t |-> << >>])
            ELSE Append(x.segs, [q |-> x.q, t |-> x.cur])
Lex(s) == Parts(FoldLeft(Lex1, L0, s))
\* the text of parts
Shown(ps) == FoldLeft(LAMBDA a, k : a \o ps[k].q \o ps[k].t \o (IF ps[k].q # << >> /\ k < Len(ps) THEN (IF ps[k].q[1] = "$" THEN ps[k].q ELSE <<Mark(ps[k].q)>>) ELSE << >>), << >>, [k \in 1 .. Len(ps) |-> k])
\* splitting an unquoted text
Cut(s, sep) == LET at == SelectSeq([k \in 1 .. Len(s) |-> k], LAMBDA k : s[k] = sep)
                   ends == <<0>> \o at \o <<Len(s) + 1>> IN
               [k \in 1 .. Len(ends) - 1 |-> SubSeq(s, ends[k] + 1, ends[k + 1] - 1)]
\* the statements of a script, each as its parts
Statements(ps, sep) ==
    FoldLeft(LAMBDA a, p : IF p.q # << >> THEN [a EXCEPT ![Len(a)] = Append(@, p)]
                           ELSE LET c == Cut(p.t, sep) IN
                                [k \in 1 .. Len(a) |-> IF k < Len(a) THEN a[k] ELSE Append(a[k], [q |-> << >>, t |-> c[1]])]
                                \o [k \in 1 .. Len(c) - 1 |-> <<[q |-> << >>, t |-> c[k + 1]]>>],
             << << >> >>, ps)
\* --- quoting
Doubled(s, m) == FoldLeft(LAMBDA a, c : IF c = m THEN a \o <<m, m>> ELSE Append(a, c), << >>, s)
Quoted(s, m) == <<m>> \o Doubled(s, m) \o <<m>>
Escaped(s) == <<"E", "'">> \o FoldLeft(LAMBDA a, c : IF c \in {"'", "\\"} THEN a \o <<"\\", c>> ELSE Append(a, c), << >>, s) \o <<"'">>
\* what a quoted text means
Undoubled(s, m) == FoldLeft(LAMBDA a, c : IF c = m /\ a.half THEN [a EXCEPT !.half = FALSE] ELSE [t |-> Append(a.t, c), half |-> (c = m)], [t |-> << >>, half |-> FALSE], s).t
Unescaped(s) == FoldLeft(LAMBDA a, c : IF a.esc THEN [t |-> Append(a.t, c), esc |-> FALSE] ELSE IF c = "\\" THEN [a EXCEPT !.esc = TRUE] ELSE [a EXCEPT !.t = Append(@, c)], [t |-> << >>, esc |-> FALSE], s).t
Meaning(p) == CASE p.q[1] = "$" -> p.t [] Len(p.q) = 2 -> Unescaped(Undoubled(p.t, "'")) [] OTHER -> Undoubled(p.t, p.q[1])
\* --- texts separated outside of quotations that double their mark
Sep0 == [out |-> << >>, cur |-> << >>, inq |-> FALSE, skip |-> 0]
Separated(s, m, sep, max) ==
    LET step(a, k) ==
          IF a.skip > 0 THEN [a EXCEPT !.skip = @ - 1]
          ELSE IF s[k] = m THEN [a EXCEPT !.inq = ~@, !.cur = Append(@, s[k])]
          ELSE IF ~a.inq /\ Len(a.out) # max /\ k + Len(sep) - 1 <= Len(s) /\ SubSeq(s, k, k + Len(sep) - 1) = sep
               THEN [a EXCEPT !.out = Append(@, a.cur), !.cur = << >>, !.skip = Len(sep) - 1]
          ELSE [a EXCEPT !.cur = Append(@, s[k])]
        z == FoldLeft(step, Sep0, [k \in 1 .. Len(s) |-> k])
    IN  Append(z.out, z.cur)
\* --- names
Blank == {" ", "\n", "\t"}
RECURSIVE LStrip(_), RStrip(_)
LStrip(s) == IF s # << >> /\ s[1] \in Blank THEN LStrip(Tail(s)) ELSE s
RStrip(s) == IF s # << >> /\ s[Len(s)] \in Blank THEN RStrip(SubSeq(s, 1, Len(s) - 1)) ELSE s
Lower(c) == CASE c = "A" -> "a" [] c = "E" -> "e" [] OTHER -> c
\* the name that a text denotes: << >> when none, <<name>> otherwise
Name(s) == LET x == RStrip(LStrip(s)) IN
           IF x = << >> THEN << >>
           ELSE IF x[1] = "\"" THEN (LET ps == Lex(x) IN IF Len(ps) = 3 /\ ps[1].t = << >> /\ ps[2].q = <<"\"">> /\ ps[3].t = << >> THEN <<Meaning(ps[2])>> ELSE << >>)
           ELSE IF x[1] \notin Digits /\ \A k \in 1 .. Len(x) : x[k] \in Digits \/ WordStart(x[k]) THEN << [k \in 1 .. Len(x) |-> Lower(x[k])] >>
           ELSE << >>
Names(s, sep) == LET ns == [k \in 1 .. Len(Separated(s, "\"", sep, -1)) |-> Name(Separated(s, "\"", sep, -1)[k])] IN
                 IF \E k \in 1 .. Len(ns) : ns[k] = << >> THEN [ok |-> FALSE, names |-> << >>] ELSE [ok |-> TRUE, names |-> [k \in 1 .. Len(ns) |-> ns[k][1]]]
NeedsQuotes(s) == s = << >> \/ s[1] \in Digits \/ \E k \in 1 .. Len(s) : ~(s[k] \in Digits \/ (WordStart(s[k]) /\ Lower(s[k]) = s[k]))
Dotted(ps) == FoldLeft(LAMBDA a, k : a \o (IF k > 1 THEN <<".">> ELSE << >>) \o Quoted(ps[k], "\""), << >>, [k \in 1 .. Len(ps) |-> k])
===============================================================================
