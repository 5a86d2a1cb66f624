------------------------------- MODULE Denote -------------------------------
(* P27.  Bit strings and geometric values compute as what they denote.              *)
(* A bit string denotes a sequence of 0 and 1; a coordinate is a rational <<n, d>>,  *)
(* d > 0.  Expect(e): "" if the recorded result of an operation is what is denoted,  *)
(* otherwise what was expected.  e.who: the library ("") or the server ("server").   *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Len0

None == 999
NoItem == 9
Say(x) == "expected " \o ToString(x)
Is(r, x) == IF r = x THEN "" ELSE Say(x)
\* --- bit strings
Rev(b) == [i \in 1 .. Len(b) |-> b[Len(b) + 1 - i]]
One(b) == \E i \in DOMAIN b : b[i] = 1
Times(b, k) == [i \in 1 .. (IF k > 0 THEN k * Len(b) ELSE 0) |-> b[((i - 1) % Len(b)) + 1]]
\* slices as sequences have them; missing bounds: None ; positions from 0
Clip(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Bound(x, n, neg, low, high) == Clip(IF x < 0 THEN x + n ELSE x, low, high)
SliceAt(n, s) ==
    LET k == IF s.step = None THEN 1 ELSE s.step
        from == IF s.from = None THEN (IF k > 0 THEN 0 ELSE n - 1) ELSE IF k > 0 THEN Bound(s.from, n, FALSE, 0, n) ELSE Bound(s.from, n, TRUE, -1, n - 1)
        to == IF s.to = None THEN (IF k > 0 THEN n ELSE -1) ELSE IF k > 0 THEN Bound(s.to, n, FALSE, 0, n) ELSE Bound(s.to, n, TRUE, -1, n - 1)
        cnt == IF k > 0 THEN (IF to > from THEN (to - from + k - 1) \div k ELSE 0) ELSE (IF from > to THEN (from - to - k - 1) \div (-k) ELSE 0)
    IN [i \in 1 .. cnt |-> from + (i - 1) * k]
Slice(b, s) == LET at == SliceAt(Len(b), s) IN [i \in DOMAIN at |-> b[at[i] + 1]]
Item(b, i) == LET k == IF i < 0 THEN i + Len(b) ELSE i IN IF k < 0 \/ k >= Len(b) THEN NoItem ELSE b[k + 1]
\* every view of a value agrees with the sequence
AsSeen(b, v) == IF v.text # b THEN "text: " \o Say(b) ELSE IF v.len # Len(b) THEN "length: " \o Say(Len(b)) ELSE IF v.truth # One(b) THEN "truth: " \o Say(One(b))
              ELSE IF v.items # b THEN "items: " \o Say(b) ELSE IF v.back # Rev(b) THEN "negative items: " \o Say(Rev(b))
              ELSE IF v.repr # b THEN "repr: " \o Say(b) ELSE IF v.again # b THEN "made of itself: " \o Say(b) ELSE IF v.server # b THEN "at the server: " \o Say(b) ELSE ""
Bits(e) ==
    CASE e.op = "new" -> AsSeen(e.a, e.r)
      [] e.op = "add" -> AsSeen(e.a \o e.b, e.r)
      [] e.op = "mul" -> AsSeen(Times(e.a, e.k), e.r)
      [] e.op = "slice" -> AsSeen(Slice(e.a, e.s), e.r)
      [] e.op = "item" -> Is(e.r, Item(e.a, e.k))
      [] e.op = "eq" -> Is(e.r, <<e.a = e.b, e.a # e.b>>)
      \* what is no bit string is equal to none
      [] e.op = "other" -> Is(e.r, <<FALSE, TRUE>>)
      [] e.op = "refused" -> Is(e.r, "ValueError")

\* --- rationals
Q(n) == <<n, 1>>
Plus(x, y) == <<x[1] * y[2] + y[1] * x[2], x[2] * y[2]>>
Neg(x) == <<-x[1], x[2]>>
Minus(x, y) == Plus(x, Neg(y))
Mult(x, y) == <<x[1] * y[1], x[2] * y[2]>>
Inv(x) == IF x[1] < 0 THEN <<-x[2], -x[1]>> ELSE <<x[2], x[1]>>
Same(x, y) == x[1] * y[2] = y[1] * x[2]
Less(x, y) == x[1] * y[2] < y[1] * x[2]
Zero(x) == x[1] = 0
Half(x) == <<x[1], 2 * x[2]>>
SameP(p, q) == Len(p) = 2 /\ Len(q) = 2 /\ Same(p[1], q[1]) /\ Same(p[2], q[2])
\* a list of points and numbers: equal coordinate by coordinate
SameL(r, x) == Len(r) = Len(x) /\ \A i \in DOMAIN x : Same(r[i], x[i])
Eq(r, x) == IF SameL(r, x) THEN "" ELSE Say(x)
\* --- points are complex numbers
PAdd(p, q) == <<Plus(p[1], q[1]), Plus(p[2], q[2])>>
PSub(p, q) == <<Minus(p[1], q[1]), Minus(p[2], q[2])>>
PMul(p, q) == <<Minus(Mult(p[1], q[1]), Mult(p[2], q[2])), Plus(Mult(p[1], q[2]), Mult(p[2], q[1]))>>
Norm(p) == Plus(Mult(p[1], p[1]), Mult(p[2], p[2]))
PDiv(p, q) == LET n == Inv(Norm(q)) m == PMul(p, <<q[1], Neg(q[2])>>) IN <<Mult(m[1], n), Mult(m[2], n)>>
Dist2(p, q) == Norm(PSub(p, q))
Mid(p, q) == <<Half(Plus(p[1], q[1])), Half(Plus(p[2], q[2]))>>
Dir(s) == PSub(s[2], s[1])
Cross(p, q) == Minus(Mult(p[1], q[2]), Mult(p[2], q[1]))
Dot(p, q) == Plus(Mult(p[1], q[1]), Mult(p[2], q[2]))
Greater(x, y) == IF Less(x, y) THEN y ELSE x
Lesser(x, y) == IF Less(x, y) THEN x ELSE y
High(p, q) == <<Greater(p[1], q[1]), Greater(p[2], q[2])>>
Low(p, q) == <<Lesser(p[1], q[1]), Lesser(p[2], q[2])>>
Null(s) == Zero(Dir(s)[1]) /\ Zero(Dir(s)[2])
\* the views of a value: its coordinates, by attribute, as the server reads its text and its binary form, of its repr
Views(v, x) == IF \A k \in DOMAIN v : SameL(v[k], x) THEN "" ELSE "views: " \o Say(x)
Geo(e) ==
    CASE e.op = "point" -> Views(e.r, e.a)
      [] e.op = "padd" -> Eq(e.r, PAdd(e.a, e.b))
      [] e.op = "psub" -> Eq(e.r, PSub(e.a, e.b))
      [] e.op = "pmul" -> Eq(e.r, PMul(e.a, e.b))
      [] e.op = "pdiv" -> IF Zero(Norm(e.b)) THEN (IF e.err = "ZeroDivisionError" THEN "" ELSE Say("ZeroDivisionError")) ELSE Eq(e.r, PDiv(e.a, e.b))
      [] e.op = "dist" -> Eq(e.r, <<Dist2(e.a, e.b)>>)
      [] e.op = "lseg" -> LET s == <<e.a, e.b>> IN Views(e.r, e.a \o e.b)
      [] e.op = "length" -> Eq(e.r, <<Dist2(e.a, e.b)>>)
      [] e.op = "center" -> Eq(e.r, Mid(e.a, e.b))
      [] e.op = "vertical" -> Is(e.r, Zero(Dir(<<e.a, e.b>>)[1]))
      [] e.op = "horizontal" -> Is(e.r, Zero(Dir(<<e.a, e.b>>)[2]))
      \* that of a vertical one is not a number
      [] e.op = "slope" -> LET d == Dir(<<e.a, e.b>>) IN IF Zero(d[1]) THEN "" ELSE Eq(e.r, <<Mult(d[2], Inv(d[1]))>>)
      \* (segments without length have no direction)
      [] e.op = "parallel" -> IF Null(<<e.a, e.b>>) \/ Null(<<e.c, e.d>>) THEN "" ELSE Is(e.r, Zero(Cross(Dir(<<e.a, e.b>>), Dir(<<e.c, e.d>>))))
      [] e.op = "perpendicular" -> IF Null(<<e.a, e.b>>) \/ Null(<<e.c, e.d>>) THEN "" ELSE Is(e.r, Zero(Dot(Dir(<<e.a, e.b>>), Dir(<<e.c, e.d>>))))
      [] e.op = "box" -> Views(e.r, High(e.a, e.b) \o Low(e.a, e.b))
      [] e.op = "bcenter" -> Eq(e.r, Mid(e.a, e.b))
      [] e.op = "circle" -> IF Less(e.k, Q(0)) THEN (IF e.err = "ValueError" THEN "" ELSE Say("ValueError")) ELSE Views(e.r, e.a \o <<e.k>>)
GeoOps == {"point", "padd", "psub", "pmul", "pdiv", "dist", "lseg", "length", "center", "vertical", "horizontal", "slope", "parallel", "perpendicular", "box", "bcenter", "circle"}
Expect(e) == IF e.op \in GeoOps THEN (IF e.err # "" /\ ~(e.op \in {"pdiv", "circle", "slope"}) THEN "no error expected" ELSE IF e.err # "" /\ ((e.op = "pdiv" /\ ~Zero(Norm(e.b))) \/ (e.op = "slope" /\ ~Zero(Dir(<<e.a, e.b>>)[1])) \/ (e.op = "circle" /\ ~Less(e.k, Q(0)))) THEN "no error expected" ELSE Geo(e))
             ELSE IF e.err # "" THEN "no error expected" ELSE Bits(e)

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ei, x, y, z
Out(k) == LET v == Expect(Cases[k]) IN IF v = "" THEN TRUE ELSE CSVWrite("%1$s", <<ToString(k) \o " " \o v>>, IOEnv.VERDICTS)
EvalInit == ei = 0 /\ x = 0 /\ y = 0 /\ z = 0
EvalNext == /\ ei < Len(Cases) /\ Out(ei + 1) /\ ei' = ei + 1
            /\ (ei' = Len(Cases) => CSVWrite("%1$s", <<"done " \o ToString(ei')>>, IOEnv.VERDICTS))
            /\ UNCHANGED <<x, y, z>>
EvalSpec == EvalInit /\ [][EvalNext]_<<ei, x, y, z>>

\* --- the denotations themselves: laws, over all short bit strings and small points
Strs == UNION {[1 .. n -> {0, 1}] : n \in 0 .. Len0}
Pts == {<<Q(a), Q(b)>> : a \in -2 .. 2, b \in -2 .. 2}
Ix == {None} \cup (-(Len0 + 1) .. Len0 + 1)
View == <<ei, x, y, z>>
LInit == \/ ei = 0 /\ x \in Strs /\ y \in Strs /\ z \in Ix
         \/ ei = 1 /\ x \in Pts /\ y \in Pts /\ z \in Pts
LSpec == LInit /\ [][UNCHANGED <<ei, x, y, z>>]_<<ei, x, y, z>>
IsPts == ei = 1
Sl(f, t, s) == [from |-> f, to |-> t, step |-> s]
BitLaws == ~IsPts =>
    /\ Slice(x, Sl(None, z, None)) \o Slice(x, Sl(z, None, None)) = (IF z = None THEN x \o x ELSE x)
    /\ Slice(x, Sl(None, None, -1)) = Rev(x)
    /\ Slice(x \o y, Sl(None, Len(x), None)) = x
    /\ Times(x, 2) = x \o x
    /\ (One(x \o y) <=> One(x) \/ One(y))
    /\ \A s \in {-3, -2, -1, 1, 2, 3} : LET r == SliceAt(Len(x), Sl(z, None, s)) IN IsInjective(r) /\ ToSet(r) \subseteq 0 .. (Len(x) - 1)
    /\ (z # None => IF z \in (-Len(x)) .. (Len(x) - 1) THEN Item(x, z) \in {0, 1} ELSE Item(x, z) = NoItem)
PtLaws == IsPts =>
    /\ SameP(PMul(x, PAdd(y, z)), PAdd(PMul(x, y), PMul(x, z)))
    /\ (~Zero(Norm(y)) => SameP(PMul(PDiv(x, y), y), x))
    /\ SameP(PAdd(PSub(x, y), y), x)
    /\ Same(Norm(PMul(x, y)), Mult(Norm(x), Norm(y)))
    /\ Same(Dist2(x, Mid(x, y)), Dist2(y, Mid(x, y)))
    /\ (x # y /\ y # z => (Zero(Cross(Dir(<<x, y>>), Dir(<<y, z>>))) => ~Zero(Dot(Dir(<<x, y>>), Dir(<<y, z>>)))))
    /\ SameP(High(x, y), High(y, x)) /\ ~Less(High(x, y)[1], Low(x, y)[1])
=============================================================================
