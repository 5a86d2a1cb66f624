-------------------------------- MODULE Passfile --------------------------------
(* P20.  Lines of password files: host:port:database:user:password, with escapes.  *)
(* A line is built of pieces: separators, escaped characters, and others.           *)
EXTENDS Sequences, SequencesExt, Integers, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Pieces, MaxLen
VARIABLES line, act, obs
vars == <<line, act, obs>>
View == line
St == [n |-> Len(line)]
Mean(p) == CASE p = <<"\\", ":">> -> ":" [] p = <<"\\", "\\">> -> "\\" [] OTHER -> p[1]
\* the fields of a line
Fields == LET seps == {i \in 1 .. Len(line) : line[i] = <<":">>}
              ends == SortSeq(SetToSeq(seps \cup {Len(line) + 1}), <)
              from(k) == IF k = 1 THEN 1 ELSE ends[k - 1] + 1 IN
          [k \in 1 .. Len(ends) |-> [j \in 1 .. ends[k] - from(k) |-> Mean(line[from(k) + j - 1])]]
Valid == Len(Fields) = 5
Init == line = << >> /\ act = [op |-> "start"] /\ obs = [none |-> 0]
Add(p) == Len(line) < MaxLen /\ line' = Append(line, p) /\ act' = [op |-> "piece"] /\ obs' = [line |-> line', valid |-> Valid', fields |-> Fields']
Next == \E p \in Pieces : Add(p)
Spec == Init /\ [][Next]_vars
Edge == CSVWrite("%1$s", <<ToJson(<<St, act', obs', St'>>)>>, IOEnv.EDGES)
\* nothing is lost
Kept == LET fs == Fields IN
        /\ FoldLeft(LAMBDA a, f : a + Len(f), 0, fs) + Len(fs) - 1 = Len(line)
        /\ (Valid <=> Cardinality({i \in 1 .. Len(line) : line[i] = <<":">>}) = 4)
=================================================================================
