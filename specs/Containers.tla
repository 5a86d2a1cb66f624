------------------------------ MODULE Containers ------------------------------
(* P18.  What arrays and rows denote.  An array has elements el (numbers), lower    *)
(* bounds lo and dimensions dim.                                                     *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS MaxN, MaxDims, Lowers, Idx, NestDepth, NestWidth, Widths, Names
Nothing == [kind |-> "none", el |-> << >>, lo |-> << >>, dim |-> << >>]
Arr(el, lo, dim) == [kind |-> "array", el |-> el, lo |-> lo, dim |-> dim]
Empty == Arr(<< >>, << >>, << >>)
Product(s) == FoldLeft(LAMBDA a, x : a * x, 1, s)
Numbers(n) == [i \in 1 .. n |-> i]
Iff(c, a, b) == IF c THEN a ELSE b
UpTo(S, n) == UNION {[1 .. k -> S] : k \in 0 .. n}
Ok(a) == [r |-> "ok", arr |-> a]
Err(e) == [r |-> e, arr |-> Nothing]
\* --- construction from n elements, lower bounds and upper bounds;  "some": given
Make(n, hl, l, hu, u) ==
    IF ~hl /\ ~hu THEN Ok(IF n = 0 THEN Empty ELSE Arr(Numbers(n), <<1>>, <<n>>))
    ELSE IF ~hu THEN (IF n = 0 THEN (IF l = << >> THEN Ok(Empty) ELSE Err("ValueError"))
                      ELSE IF Len(l) = 1 THEN Ok(Arr(Numbers(n), l, <<n>>)) ELSE Err("ValueError"))
    ELSE LET lo == IF hl THEN l ELSE IF u = << >> THEN (IF n = 0 THEN << >> ELSE <<1>>) ELSE [i \in 1 .. Len(u) |-> 1]
             d == [i \in 1 .. Len(u) |-> u[i] - lo[i] + 1] IN
         IF Len(lo) # Len(u) THEN Err("any")
         ELSE IF u = << >> THEN (IF n = 0 THEN Ok(Empty) ELSE Err("ValueError"))
         ELSE IF \E i \in 1 .. Len(u) : d[i] < 1 THEN (IF n = 0 THEN Ok(Empty) ELSE Err("ValueError"))
         ELSE IF Product(d) # n THEN Err("ValueError")
         ELSE Ok(Arr(Numbers(n), lo, d))
\* --- construction from nests: <<"e">> an element, <<"l", children>> a list
Leaf == <<"e">>
RECURSIVE Trees(_)
Trees(d) == IF d = 0 THEN {Leaf} ELSE {Leaf} \cup {<<"l", c>> : c \in UpTo(Trees(d - 1), NestWidth)}
RECURSIVE Shape(_), Fits(_, _)
\* the dimensions along the first items
Shape(t) == IF Len(t) = 1 THEN << >> ELSE IF t[2] = << >> THEN <<0>> ELSE <<Len(t[2])>> \o Shape(t[2][1])
Fits(t, s) == IF s = << >> THEN Len(t) = 1 ELSE Len(t) = 2 /\ Len(t[2]) = s[1] /\ \A i \in 1 .. Len(t[2]) : Fits(t[2][i], Tail(s))
Nest(t) == IF t[2] = << >> THEN Ok(Empty)
           ELSE LET s == Shape(t) IN
                IF Fits(t, s) /\ s[Len(s)] > 0 THEN Ok(Arr(Numbers(Product(s)), [i \in 1 .. Len(s) |-> 1], s)) ELSE Err("ValueError")
\* --- access
Weight(a) == Product(Tail(a.dim))
Norm(i, n) == IF i < 0 THEN i + n ELSE i
Sub(a, i) == Arr(SubSeq(a.el, Weight(a) * i + 1, Weight(a) * (i + 1)), Tail(a.lo), Tail(a.dim))
At(a, i) == LET n == IF a.dim = << >> THEN 0 ELSE a.dim[1] k == Norm(i, n) IN
            IF k < 0 \/ k >= n THEN [r |-> "IndexError", el |-> 0, arr |-> Nothing]
            ELSE IF Len(a.dim) = 1 THEN [r |-> "element", el |-> a.el[k + 1], arr |-> Nothing]
            ELSE [r |-> "ok", el |-> 0, arr |-> Sub(a, k)]
\* slices;  99: not given
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Slice(n, f, t, s) ==
    LET st == IF s = 99 THEN 1 ELSE s
        from == IF f = 99 THEN (IF st > 0 THEN 0 ELSE n - 1) ELSE IF st > 0 THEN Clamp(Norm(f, n), 0, n) ELSE Clamp(Norm(f, n), -1, n - 1)
        to == IF t = 99 THEN (IF st > 0 THEN n ELSE -1) ELSE IF st > 0 THEN Clamp(Norm(t, n), 0, n) ELSE Clamp(Norm(t, n), -1, n - 1)
        all == [k \in 1 .. n |-> from + (k - 1) * st]
    IN  SelectSeq(all, LAMBDA x : IF st > 0 THEN x < to ELSE x > to)
Cut(a, f, t, s) ==
    LET ix == Slice(IF a.dim = << >> THEN 0 ELSE a.dim[1], f, t, s) IN
    IF Len(a.dim) < 2 THEN [r |-> "list", els |-> [k \in 1 .. Len(ix) |-> a.el[ix[k] + 1]], arr |-> Nothing]
    ELSE [r |-> "ok", els |-> << >>, arr |-> IF ix = << >> THEN Empty
            ELSE Arr(FoldLeft(LAMBDA acc, i : acc \o Sub(a, i).el, << >>, ix), <<1>> \o Tail(a.lo), <<Len(ix)>> \o Tail(a.dim))]
Pos(a, ks) == FoldLeft(LAMBDA acc, j : acc * a.dim[j] + ks[j], 0, Numbers(Len(ks)))
Element(a, ad) ==
    IF a.dim = << >> THEN "IndexError"
    ELSE IF Len(ad) # Len(a.dim) THEN "ValueError"
    ELSE LET ks == [j \in 1 .. Len(ad) |-> Norm(ad[j], a.dim[j])] IN
         IF \E j \in 1 .. Len(ad) : ks[j] < 0 \/ ks[j] >= a.dim[j] THEN "IndexError" ELSE ToString(a.el[Pos(a, ks) + 1])
SqlElement(a, ad) ==
    IF a.dim = << >> THEN "None"
    ELSE IF Len(ad) # Len(a.dim) THEN "refused"
    ELSE LET ks == [j \in 1 .. Len(ad) |-> ad[j] - a.lo[j]] IN
         IF \E j \in 1 .. Len(ad) : ks[j] < 0 \/ ks[j] >= a.dim[j] THEN "None" ELSE ToString(a.el[Pos(a, ks) + 1])
\* the array as a nest: <<"e", n>> and <<"l", children>>
RECURSIVE Nested(_)
Nested(a) == IF Len(a.dim) < 2 THEN <<"l", [i \in 1 .. Len(a.el) |-> <<"e", a.el[i]>>]>>
             ELSE <<"l", [i \in 1 .. a.dim[1] |-> Nested(Sub(a, i - 1))]>>
Uppers(a) == [i \in 1 .. Len(a.dim) |-> a.lo[i] + a.dim[i] - 1]

\* --- rows: names (equal names allowed) of columns with values 1 .. n;  a name denotes its last column
LastOf(ns, x) == IF \E i \in 1 .. Len(ns) : ns[i] = x THEN CHOOSE i \in 1 .. Len(ns) : ns[i] = x /\ \A j \in i + 1 .. Len(ns) : ns[j] # x ELSE 0
RowAt(ns, i) == LET k == Norm(i, Len(ns)) IN IF k < 0 \/ k >= Len(ns) THEN 0 ELSE k + 1
\* the distinct names in the order of their columns
Keys(ns) == SelectSeq(Numbers(Len(ns)), LAMBDA i : LastOf(ns, ns[i]) = i)
\* which columns a transformation changes: 0 not, 1 by position, 2 by name
Transformed(ns, pos, kws) == IF \E k \in kws : LastOf(ns, k) = 0 THEN << >>
                             ELSE [i \in 1 .. Len(ns) |-> IF \E k \in kws : LastOf(ns, k) = i THEN 2 ELSE IF i \in pos THEN 1 ELSE 0]

VARIABLES arr, row, act, obs
vars == <<arr, row, act, obs>>
View == <<arr, row>>
St == [arr |-> arr, row |-> row, up |-> Uppers(arr), nest |-> IF arr.kind = "array" THEN Nested(arr) ELSE << >>]
Init == arr = Nothing /\ row = << >> /\ act = [op |-> "start"] /\ obs = [r |-> "ok"]
Bounds == UpTo(Lowers, MaxDims)
MakeA == /\ arr = Nothing /\ row = << >>
         /\ \E n \in 0 .. MaxN, hl, hu \in BOOLEAN : \E l \in (IF hl THEN Bounds ELSE {<< >>}), u \in (IF hu THEN Bounds ELSE {<< >>}) :
              LET m == Make(n, hl, l, hu, u) IN
              /\ act' = [op |-> "make", n |-> n, hl |-> hl, l |-> l, hu |-> hu, u |-> u] /\ obs' = [r |-> m.r] /\ arr' = m.arr /\ UNCHANGED row
NestA == /\ arr = Nothing /\ row = << >> /\ NestDepth > 0
         /\ \E t \in Trees(NestDepth) : Len(t) = 2 /\ LET m == Nest(t) IN act' = [op |-> "nest", t |-> t] /\ obs' = [r |-> m.r] /\ arr' = m.arr /\ UNCHANGED row
AtA == arr # Nothing /\ \E i \in Idx : LET m == At(arr, i) IN act' = [op |-> "at", i |-> i] /\ obs' = [r |-> m.r, el |-> m.el] /\ arr' = Iff(m.r = "ok", m.arr, arr) /\ UNCHANGED row
CutA == arr # Nothing /\ \E f, t \in Idx \cup {99}, s \in {99, 1, 2, -1, -2} :
           LET m == Cut(arr, f, t, s) IN act' = [op |-> "cut", f |-> f, t |-> t, s |-> s] /\ obs' = [r |-> m.r, els |-> m.els] /\ arr' = Iff(m.r = "ok", m.arr, arr) /\ UNCHANGED row
GetA == arr # Nothing /\ \E ad \in UpTo(Idx, Len(arr.dim) + 1) : act' = [op |-> "get", ad |-> ad] /\ obs' = [r |-> Element(arr, ad), sql |-> SqlElement(arr, ad)] /\ UNCHANGED <<arr, row>>
RowA == /\ arr = Nothing /\ row = << >>
        /\ \E ns \in UpTo(Names, Widths) : ns # << >> /\ row' = ns /\ act' = [op |-> "row"] /\ obs' = [r |-> "ok"] /\ UNCHANGED arr
ReadA == /\ row # << >> /\ UNCHANGED <<arr, row>>
         /\ act' = [op |-> "read"]
         /\ obs' = [at |-> [i \in 1 .. 2 * Len(row) + 4 |-> RowAt(row, i - Len(row) - 3)],
                    keys |-> Keys(row), last |-> [k \in Names |-> LastOf(row, k)]]
XformA == /\ row # << >> /\ UNCHANGED <<arr, row>>
          /\ \E pos \in SUBSET (1 .. Len(row)), kws \in SUBSET Names :
               act' = [op |-> "transform", pos |-> SetToSeq(pos), kws |-> SetToSeq(kws)] /\ obs' = [r |-> Transformed(row, pos, kws)]
Next == MakeA \/ NestA \/ AtA \/ CutA \/ GetA \/ RowA \/ ReadA \/ XformA
Spec == Init /\ [][Next]_vars
Edge == CSVWrite("%1$s", <<ToJson(<<St, act', obs', St'>>)>>, IOEnv.EDGES)
\* --- the definitions agree with each other
RECURSIVE Leaves(_)
Leaves(t) == IF t[1] = "e" THEN <<t[2]>> ELSE FoldLeft(LAMBDA acc, c : acc \o Leaves(c), << >>, t[2])
Denotes == arr.kind = "array" =>
    /\ Len(arr.lo) = Len(arr.dim) /\ Len(arr.el) = (IF arr.dim = << >> THEN 0 ELSE Product(arr.dim))
    /\ Leaves(Nested(arr)) = arr.el
    /\ (arr.dim # << >> => \A i \in 0 .. arr.dim[1] - 1 :
          IF Len(arr.dim) = 1 THEN At(arr, i).el = arr.el[i + 1] /\ At(arr, i - arr.dim[1]) = At(arr, i) /\ Element(arr, <<i>>) = ToString(arr.el[i + 1]) /\ SqlElement(arr, <<i + arr.lo[1]>>) = Element(arr, <<i>>)
          ELSE Nested(At(arr, i).arr) = Nested(arr)[2][i + 1])
    /\ (Len(arr.dim) > 1 => Cut(arr, 99, 99, 99).arr = [arr EXCEPT !.lo[1] = 1])
    /\ (Len(arr.dim) = 1 => Cut(arr, 99, 99, 99).els = arr.el /\ Cut(arr, 99, 99, -1).els = Reverse(arr.el))
===============================================================================
