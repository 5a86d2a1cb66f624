------------------------------- MODULE Values -------------------------------
(* P17: what values denote, how the binary formats of the types represent them, and how the server writes them.
   A value is a sequence of integers (described at each type); Encode(t, v) is its binary representation, or Refused when the type
   cannot represent it; Decode(t, b) is the value represented by b; Text(t, v) is how the server reads (and, for most types, writes) it.
   The behaviours enumerate the values of each type: shapes of digits, boundaries of ranges, special values.
   Container types are t = [k |-> "array" | "record" | "hstore", a |-> types of the parts, o |-> their type identifiers]. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Groups,  \* the groups of types to enumerate
          NumDigits, \* numerics: all zero/nonzero patterns of up to so many digits
          Bits     \* bit strings: all up to this length
VARIABLES cur, act, obs, ei
vars == <<cur, act, obs, ei>>
Refused == <<-1>>
Bad == <<-2>>

\* --- numbers as bytes, most significant first
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
RECURSIVE U(_, _)
U(n, k) == IF k = 0 THEN << >> ELSE Append(U(n \div 256, k - 1), n % 256)
Not(b) == [i \in 1 .. Len(b) |-> 255 - b[i]]
S(n, k) == IF n >= 0 THEN U(n, k) ELSE Not(U(-n - 1, k))
RECURSIVE Nat_(_, _)
Nat_(b, a) == IF b = << >> THEN a ELSE Nat_(Tail(b), a * 256 + Head(b))
UN(b) == Nat_(b, 0)
SN(b) == IF b[1] < 128 THEN UN(b) ELSE -UN(Not(b)) - 1
RECURSIVE Div_(_, _, _, _)
Div_(b, m, q, r) == IF b = << >> THEN [q |-> q, r |-> r] ELSE LET x == r * 256 + Head(b) IN Div_(Tail(b), m, Append(q, x \div m), x % m)
Div(b, m) == Div_(b, m, << >>, 0)
RECURSIVE MulAdd_(_, _, _)
MulAdd_(b, m, c) == IF b = << >> THEN << >> ELSE LET x == Last(b) * m + c IN Append(MulAdd_(Front(b), m, x \div 256), x % 256)
MulAdd(b, m, c) == MulAdd_(b, m, c)
Zeros(n) == [i \in 1 .. n |-> 0]
AllOf(b, x) == \A i \in 1 .. Len(b) : b[i] = x
Last_(b, n) == SubSeq(b, Len(b) - n + 1, Len(b))
RECURSIVE Strip(_)
Strip(d) == IF d # << >> /\ Head(d) = 0 THEN Strip(Tail(d)) ELSE d
RECURSIVE StripR(_)
StripR(d) == IF d # << >> /\ Last(d) = 0 THEN StripR(Front(d)) ELSE d
RECURSIVE Cat(_)
Cat(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o Cat(Tail(ss))
RECURSIVE CatS(_)
CatS(ss) == IF ss = << >> THEN "" ELSE Head(ss) \o CatS(Tail(ss))
Join(ss, sep) == CatS([i \in 1 .. Len(ss) |-> IF i = 1 THEN ss[i] ELSE sep \o ss[i]])
RECURSIVE DecS(_)
DecS(b) == IF AllOf(b, 0) THEN "" ELSE LET d == Div(b, 10) IN DecS(d.q) \o ToString(d.r)
Dec(b) == IF AllOf(b, 0) THEN "0" ELSE DecS(b)
Hex1 == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
Hex(x) == Hex1[x \div 16 + 1] \o Hex1[(x % 16) + 1]
RECURSIVE PadN(_, _)
PadN(n, w) == IF w <= 1 \/ n >= Pow(10, w - 1) THEN ToString(n) ELSE "0" \o PadN(n, w - 1)

\* --- integers: nine bytes, two's complement
IntSize == [int2 |-> 2, int4 |-> 4, int8 |-> 8, oid |-> 4, xid |-> 4, cid |-> 4]
IsSigned(t) == t \in {"int2", "int4", "int8"}
EncInt(t, v) == LET n == IntSize[t] h == SubSeq(v, 1, 9 - n) IN
    IF IsSigned(t) THEN (IF AllOf(h, IF v[10 - n] >= 128 THEN 255 ELSE 0) THEN Last_(v, n) ELSE Refused)
    ELSE (IF AllOf(h, 0) THEN Last_(v, n) ELSE Refused)
DecInt(t, b) == LET n == IntSize[t] IN IF Len(b) # n THEN Bad ELSE [i \in 1 .. 9 - n |-> IF IsSigned(t) /\ b[1] >= 128 THEN 255 ELSE 0] \o b
IntText(v) == IF v[1] >= 128 THEN "-" \o Dec(MulAdd(Not(v), 1, 1)) ELSE Dec(v)

\* --- numerics: <<kind, scale, digits...>>, kind 0: not negative, 1: negative, 2: NaN, 3: Infinity, 4: -Infinity; no leading zeros
RECURSIVE Group(_)
Group(d) == IF d = << >> THEN << >> ELSE <<d[1] * 1000 + d[2] * 100 + d[3] * 10 + d[4]>> \o Group(SubSeq(d, 5, Len(d)))
Most(a, b) == IF a > b THEN a ELSE b
EncNum(v) ==
    IF v[1] >= 2 THEN S(0, 2) \o S(0, 2) \o (IF v[1] = 2 THEN <<192, 0>> ELSE IF v[1] = 3 THEN <<208, 0>> ELSE <<240, 0>>) \o S(0, 2) ELSE
    LET scale == v[2] ds == SubSeq(v, 3, Len(v)) n == Len(ds)
        ni == Most(0, n - scale)
        full == Zeros(((4 - (ni % 4)) % 4) + Most(0, scale - n)) \o ds \o Zeros((4 - (scale % 4)) % 4)
        gs == Group(full) w == (ni + 3) \div 4 - 1
        l == Strip(gs) g == StripR(l) IN
    IF g = << >> THEN U(0, 6) \o U(scale, 2) ELSE U(Len(g), 2) \o S(w - (Len(gs) - Len(l)), 2) \o (IF v[1] = 1 THEN <<64, 0>> ELSE <<0, 0>>) \o U(scale, 2) \o Cat([i \in 1 .. Len(g) |-> U(g[i], 2)])
DecNum(b) ==
    IF Len(b) < 8 THEN Bad ELSE
    LET nd == UN(SubSeq(b, 1, 2)) w == SN(SubSeq(b, 3, 4)) sg == UN(SubSeq(b, 5, 6)) sc == UN(SubSeq(b, 7, 8))
        gs == [i \in 1 .. nd |-> UN(SubSeq(b, 7 + 2 * i, 8 + 2 * i))]
        ds == Cat([i \in 1 .. nd |-> <<gs[i] \div 1000, (gs[i] \div 100) % 10, (gs[i] \div 10) % 10, gs[i] % 10>>])
        sh == 4 * (w - nd + 1) + sc IN
    IF Len(b) # 8 + 2 * nd \/ \E i \in 1 .. nd : gs[i] > 9999 THEN Bad
    ELSE IF sg = 49152 THEN <<2, 0>> ELSE IF sg = 53248 THEN <<3, 0>> ELSE IF sg = 61440 THEN <<4, 0>>
    ELSE IF sg \notin {0, 16384} \/ sc > 16383 THEN Bad
    ELSE LET s == Strip(ds)
             all == IF s = << >> THEN << >> ELSE IF sh >= 0 THEN s \o Zeros(sh) ELSE SubSeq(s, 1, Most(0, Len(s) + sh))
             lost == IF sh >= 0 \/ s = << >> THEN << >> ELSE SubSeq(s, Most(0, Len(s) + sh) + 1, Len(s)) IN
         IF ~AllOf(lost, 0) THEN Bad ELSE <<IF all = << >> THEN 0 ELSE sg \div 16384, sc>> \o all
NumText(v) ==
    IF v[1] = 2 THEN "NaN" ELSE IF v[1] = 3 THEN "Infinity" ELSE IF v[1] = 4 THEN "-Infinity" ELSE
    LET sc == v[2] ds == SubSeq(v, 3, Len(v)) n == Len(ds)
        all == IF n < sc THEN Zeros(sc - n) \o ds ELSE ds
        str(q) == CatS([i \in 1 .. Len(q) |-> ToString(q[i])])
        ip == SubSeq(all, 1, Len(all) - sc) IN
    (IF v[1] = 1 THEN "-" ELSE "") \o (IF ip = << >> THEN "0" ELSE str(ip)) \o (IF sc > 0 THEN "." \o str(Last_(all, sc)) ELSE "")

\* --- floating point: <<sign, class, exponent, bits of the mantissa...>>, class 0: zero, 1: subnormal, 2: normal, 3: infinite, 4: not a number
EncF8(v) == LET e == IF v[2] <= 1 THEN 0 ELSE IF v[2] = 2 THEN v[3] ELSE 2047 hi == IF v[2] = 4 THEN 524288 ELSE v[4] IN
    <<v[1] * 128 + e \div 16, (e % 16) * 16 + hi \div 65536>> \o U(hi % 65536, 2) \o U(v[5], 2) \o U(v[6], 2)
DecF8(b) == IF Len(b) # 8 THEN Bad ELSE
    LET s == b[1] \div 128 e == (b[1] % 128) * 16 + b[2] \div 16 hi == (b[2] % 16) * 65536 + UN(SubSeq(b, 3, 4)) m == <<hi, UN(SubSeq(b, 5, 6)), UN(SubSeq(b, 7, 8))>> IN
    IF e = 2047 THEN (IF AllOf(m, 0) THEN <<s, 3, 0, 0, 0, 0>> ELSE <<0, 4, 0, 0, 0, 0>>)
    ELSE IF e = 0 THEN (IF AllOf(m, 0) THEN <<s, 0, 0, 0, 0, 0>> ELSE <<s, 1, 0>> \o m) ELSE <<s, 2, e>> \o m
EncF4(v) == LET e == IF v[2] <= 1 THEN 0 ELSE IF v[2] = 2 THEN v[3] ELSE 255 hi == IF v[2] = 4 THEN 64 ELSE v[4] IN
    <<v[1] * 128 + e \div 2, (e % 2) * 128 + hi>> \o U(v[5], 2)
DecF4(b) == IF Len(b) # 4 THEN Bad ELSE
    LET s == b[1] \div 128 e == (b[1] % 128) * 2 + b[2] \div 128 m == <<b[2] % 128, UN(SubSeq(b, 3, 4))>> IN
    IF e = 255 THEN (IF AllOf(m, 0) THEN <<s, 3, 0, 0, 0>> ELSE <<0, 4, 0, 0, 0>>)
    ELSE IF e = 0 THEN (IF AllOf(m, 0) THEN <<s, 0, 0, 0, 0>> ELSE <<s, 1, 0>> \o m) ELSE <<s, 2, e>> \o m
Coords == [point |-> 2, lseg |-> 4, box |-> 4, circle |-> 3]
Part(v, i) == SubSeq(v, 6 * i - 5, 6 * i)

\* --- calendar
DaysOf(y, m, d) == LET yy == IF m <= 2 THEN y - 1 ELSE y era == yy \div 400 yoe == yy % 400 mp == IF m > 2 THEN m - 3 ELSE m + 9
    doy == (153 * mp + 2) \div 5 + d - 1 doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy IN era * 146097 + doe - 719468 - 10957
DateOf(n) == LET z == n + 719468 + 10957 era == z \div 146097 doe == z % 146097
    yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365 doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
    mp == (5 * doy + 2) \div 153 d == doy - (153 * mp + 2) \div 5 + 1 m == IF mp < 10 THEN mp + 3 ELSE mp - 9 IN
    <<yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0), m, d>>
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
\* a count of microseconds as days, seconds of the day, microseconds; floor division
EncUs(d, s, u) == IF d >= 0 THEN MulAdd(MulAdd(U(0, 4) \o U(d, 4), 86400, s), 1000000, u)
                  ELSE Not(MulAdd(MulAdd(U(0, 4) \o U(-d - 1, 4), 86400, 86399 - s), 1000000, 999999 - u))
DecUs(b) == LET neg == b[1] >= 128 p == IF neg THEN Not(b) ELSE b us == Div(p, 1000000) sd == Div(us.q, 86400) k == UN(Last_(sd.q, 4)) IN
    IF neg THEN <<-k - 1, 86399 - sd.r, 999999 - us.r>> ELSE <<k, sd.r, us.r>>
\* dates: <<year, month, day>>, timestamps: <<year, month, day, second, microsecond>>, <<1>>: infinity, <<0>>: -infinity
EncDate(v) == IF v = <<1>> THEN <<127, 255, 255, 255>> ELSE IF v = <<0>> THEN <<128, 0, 0, 0>> ELSE S(DaysOf(v[1], v[2], v[3]), 4)
DecDate(b) == IF Len(b) # 4 THEN Bad ELSE IF b = <<127, 255, 255, 255>> THEN <<1>> ELSE IF b = <<128, 0, 0, 0>> THEN <<0>> ELSE DateOf(SN(b))
EncTs(v) == IF v = <<1>> THEN <<127>> \o [i \in 1 .. 7 |-> 255] ELSE IF v = <<0>> THEN <<128>> \o Zeros(7) ELSE EncUs(DaysOf(v[1], v[2], v[3]), v[4], v[5])
DecTs(b) == IF Len(b) # 8 THEN Bad ELSE IF b = <<127>> \o [i \in 1 .. 7 |-> 255] THEN <<1>> ELSE IF b = <<128>> \o Zeros(7) THEN <<0>>
    ELSE LET x == DecUs(b) IN DateOf(x[1]) \o <<x[2], x[3]>>
\* times: <<second, microsecond>>, with the offset of the zone, east being positive (the format has it the other way)
EncTime(v) == EncUs(0, v[1], v[2])
DecTime(b) == IF Len(b) # 8 THEN Bad ELSE LET x == DecUs(b) IN IF x[1] = 0 THEN <<x[2], x[3]>> ELSE IF x = <<1, 0, 0>> THEN <<86400, 0>> ELSE Bad
EncTz(v) == EncTime(v) \o S(-v[3], 4)
DecTz(b) == IF Len(b) # 12 THEN Bad ELSE LET x == DecTime(SubSeq(b, 1, 8)) IN IF x = Bad THEN Bad ELSE x \o <<-SN(SubSeq(b, 9, 12))>>
\* intervals: <<months, days, days of the time, seconds, microseconds>>
EncIv(v) == EncUs(v[3], v[4], v[5]) \o S(v[2], 4) \o S(v[1], 4)
DecIv(b) == IF Len(b) # 16 THEN Bad ELSE <<SN(SubSeq(b, 13, 16)), SN(SubSeq(b, 9, 12))>> \o DecUs(SubSeq(b, 1, 8))
RECURSIVE FracS(_, _)
FracS(u, w) == IF u % 10 = 0 THEN FracS(u \div 10, w - 1) ELSE PadN(u, w)
Frac(u) == IF u = 0 THEN "" ELSE "." \o FracS(u, 6)
DateText(v) == PadN(IF v[1] > 0 THEN v[1] ELSE 1 - v[1], 4) \o "-" \o PadN(v[2], 2) \o "-" \o PadN(v[3], 2)
TimeText(s, u) == PadN(s \div 3600, 2) \o ":" \o PadN((s \div 60) % 60, 2) \o ":" \o PadN(s % 60, 2) \o Frac(u)
Bc(v) == IF v[1] > 0 THEN "" ELSE " BC"
ZoneText(z) == LET a == IF z < 0 THEN -z ELSE z IN (IF z < 0 THEN "-" ELSE "+") \o PadN(a \div 3600, 2) \o (IF a % 3600 = 0 THEN "" ELSE ":" \o PadN((a \div 60) % 60, 2) \o (IF a % 60 = 0 THEN "" ELSE ":" \o PadN(a % 60, 2)))
Inf(v) == IF v = <<1>> THEN "infinity" ELSE "-infinity"

\* --- addresses: <<family (4 or 6), bits, address...>>
EncNet(t, v) == <<IF v[1] = 4 THEN 2 ELSE 3, v[2], IF t = "cidr" THEN 1 ELSE 0, Len(v) - 2>> \o SubSeq(v, 3, Len(v))
DecNet(b) == IF Len(b) < 4 THEN Bad ELSE LET n == IF b[1] = 2 THEN 4 ELSE 16 IN
    IF b[1] \notin {2, 3} \/ b[4] # n \/ Len(b) # 4 + n \/ b[2] > 8 * n THEN Bad ELSE <<IF b[1] = 2 THEN 4 ELSE 6, b[2]>> \o SubSeq(b, 5, Len(b))
NetText(t, v) == (IF v[1] = 4 THEN Join([i \in 1 .. 4 |-> ToString(v[i + 2])], ".") ELSE Join([i \in 1 .. 8 |-> Hex(v[2 * i + 1]) \o Hex(v[2 * i + 2])], ":")) \o "/" \o ToString(v[2])
\* --- bit strings: <<length, bits...>>
RECURSIVE PackBits(_)
PackBits(h) == IF h = << >> THEN << >> ELSE IF Len(h) < 8 THEN PackBits(h \o Zeros(8 - Len(h))) ELSE
    <<h[1] * 128 + h[2] * 64 + h[3] * 32 + h[4] * 16 + h[5] * 8 + h[6] * 4 + h[7] * 2 + h[8]>> \o PackBits(SubSeq(h, 9, Len(h)))
BitOf(x, i) == (x \div Pow(2, 7 - i)) % 2
EncBits(v) == U(v[1], 4) \o PackBits(Tail(v))
DecBits(b) == IF Len(b) < 4 THEN Bad ELSE LET n == SN(SubSeq(b, 1, 4)) IN IF n < 0 \/ Len(b) # 4 + (n + 7) \div 8 THEN Bad ELSE <<n>> \o [i \in 1 .. n |-> BitOf(b[5 + (i - 1) \div 8], (i - 1) % 8)]
Mac(v, s) == Join([i \in 1 .. 6 |-> Hex(v[i])], s)
Mac2(v, s) == Join([j \in 1 .. 2 |-> Hex(v[3 * j - 2]) \o Hex(v[3 * j - 1]) \o Hex(v[3 * j])], s)
Forms(v) == <<Mac(v, ":"), Mac(v, "-"), Mac2(v, ":"), Mac2(v, "-"), Join([j \in 1 .. 3 |-> Hex(v[2 * j - 1]) \o Hex(v[2 * j])], "."), Mac(v, "")>>
\* not addresses, whatever the digits
BadForms(v) == <<Mac(v, ":") \o ":00", Mac(v, "") \o "0", Mac(v, "") \o "00", Mac2(v, ":") \o "0", Mac(SubSeq(v, 1, 6), "-") \o "-00", Mac2(v, "-") \o "00", "", "1", Join([i \in 1 .. 5 |-> Hex(v[i])], ":"), Mac(v, ":") \o "g", "g" \o Mac(v, ":"), Mac(v, ";"),
    Join([j \in 1 .. 3 |-> Hex(v[2 * j - 1]) \o Hex(v[2 * j])], ".") \o "0">>

\* --- all types
RECURSIVE Encode(_, _)
Encode(t, v) ==
    CASE t \in DOMAIN IntSize -> EncInt(t, v)
      [] t = "numeric" -> EncNum(v)
      [] t = "float8" -> EncF8(v)
      [] t = "float4" -> EncF4(v)
      [] t \in DOMAIN Coords -> Cat([i \in 1 .. Coords[t] |-> EncF8(Part(v, i))])
      [] t = "date" -> EncDate(v)
      [] t \in {"timestamp", "timestamptz"} -> EncTs(v)
      [] t = "time" -> EncTime(v)
      [] t = "timetz" -> EncTz(v)
      [] t = "interval" -> EncIv(v)
      [] t \in {"inet", "cidr"} -> EncNet(t, v)
      [] t \in {"bit", "varbit"} -> EncBits(v)
      [] t = "jsonb" -> <<1>> \o v
      [] t = "bool" -> v
      [] OTHER -> v \* text, bytea, char, uuid, macaddr, tid: the bytes themselves
RECURSIVE Decode(_, _)
\* the elements of b from position p, n of them: <<length, element...>> each, length -1 for NULL
RECURSIVE Items(_, _, _)
Items(ts, b, p) ==
    IF ts = << >> THEN (IF p = Len(b) + 1 THEN << >> ELSE Bad)
    ELSE IF p + 3 > Len(b) THEN Bad
    ELSE LET n == SN(SubSeq(b, p, p + 3)) e == IF n = -1 THEN <<-1>> ELSE IF n < 0 \/ p + 3 + n > Len(b) THEN Bad ELSE LET d == Decode(Head(ts), SubSeq(b, p + 4, p + 3 + n)) IN IF d = Bad THEN Bad ELSE <<Len(d)>> \o d
             r == IF e = Bad THEN Bad ELSE Items(Tail(ts), b, p + 4 + (IF n > 0 THEN n ELSE 0)) IN
         IF e = Bad \/ r = Bad THEN Bad ELSE e \o r
\* the fields of a record: each with its type identifier
RECURSIVE Fields(_, _, _, _)
Fields(ts, os, b, p) ==
    IF ts = << >> THEN (IF p = Len(b) + 1 THEN << >> ELSE Bad)
    ELSE IF p + 7 > Len(b) THEN Bad
    ELSE LET n == SN(SubSeq(b, p + 4, p + 7)) e == IF n = -1 THEN <<-1>> ELSE IF n < 0 \/ p + 7 + n > Len(b) THEN Bad ELSE LET d == Decode(Head(ts), SubSeq(b, p + 8, p + 7 + n)) IN IF d = Bad THEN Bad ELSE <<Len(d)>> \o d
             r == IF e = Bad \/ SN(SubSeq(b, p, p + 3)) # Head(os) THEN Bad ELSE Fields(Tail(ts), Tail(os), b, p + 8 + (IF n > 0 THEN n ELSE 0)) IN
         IF e = Bad \/ r = Bad THEN Bad ELSE e \o r
RECURSIVE Product(_)
Product(s) == IF s = << >> THEN 1 ELSE Head(s) * Product(Tail(s))
DecArray(t, b) ==
    IF Len(b) < 12 THEN Bad ELSE
    LET nd == SN(SubSeq(b, 1, 4)) IN
    IF nd < 0 \/ nd > 6 \/ Len(b) < 12 + 8 * nd \/ SN(SubSeq(b, 9, 12)) # t.o[1] \/ SN(SubSeq(b, 5, 8)) \notin {0, 1} THEN Bad ELSE
    LET dim == [i \in 1 .. nd |-> SN(SubSeq(b, 5 + 8 * i, 8 + 8 * i))] lo == [i \in 1 .. nd |-> SN(SubSeq(b, 9 + 8 * i, 12 + 8 * i))]
        n == IF nd = 0 THEN 0 ELSE Product(dim)
        e == Items([i \in 1 .. n |-> t.a[1]], b, 13 + 8 * nd) IN
    IF e = Bad THEN Bad ELSE <<nd>> \o dim \o lo \o e
DecHstore(b) == IF Len(b) < 4 THEN Bad ELSE LET n == SN(SubSeq(b, 1, 4)) e == IF n < 0 THEN Bad ELSE Items([i \in 1 .. 2 * n |-> [k |-> "text", a |-> << >>, o |-> << >>]], b, 5) IN IF e = Bad THEN Bad ELSE <<n>> \o e
DecRecord(t, b) == IF Len(b) < 4 \/ SN(SubSeq(b, 1, 4)) # Len(t.a) THEN Bad ELSE LET f == Fields(t.a, t.o, b, 5) IN IF f = Bad THEN Bad ELSE <<Len(t.a)>> \o f
Decode(tt, b) == LET t == tt.k IN
    CASE t = "array" -> DecArray(tt, b)
      [] t = "record" -> DecRecord(tt, b)
      [] t = "hstore" -> DecHstore(b)
      [] t \in DOMAIN IntSize -> DecInt(t, b)
      [] t = "numeric" -> DecNum(b)
      [] t = "float8" -> DecF8(b)
      [] t = "float4" -> DecF4(b)
      [] t \in DOMAIN Coords -> IF Len(b) # 8 * Coords[t] THEN Bad ELSE Cat([i \in 1 .. Coords[t] |-> DecF8(SubSeq(b, 8 * i - 7, 8 * i))])
      [] t = "date" -> DecDate(b)
      [] t \in {"timestamp", "timestamptz"} -> DecTs(b)
      [] t = "time" -> DecTime(b)
      [] t = "timetz" -> DecTz(b)
      [] t = "interval" -> DecIv(b)
      [] t \in {"inet", "cidr"} -> DecNet(b)
      [] t \in {"bit", "varbit"} -> DecBits(b)
      [] t = "jsonb" -> IF b = << >> \/ b[1] # 1 THEN Bad ELSE Tail(b)
      [] t = "bool" -> IF b \in {<<0>>, <<1>>} THEN b ELSE Bad
      [] t = "uuid" -> IF Len(b) = 16 THEN b ELSE Bad
      [] t \in {"macaddr", "tid"} -> IF Len(b) = 6 THEN b ELSE Bad
      [] t = "char" -> IF Len(b) = 1 THEN b ELSE Bad
      [] OTHER -> b
\* "" where the text is the value (or numbers the server rounds)
Text(t, v) ==
    CASE t \in DOMAIN IntSize -> IntText(v)
      [] t = "numeric" -> NumText(v)
      [] t = "date" -> IF Len(v) = 1 THEN Inf(v) ELSE DateText(v) \o Bc(v)
      [] t = "timestamp" -> IF Len(v) = 1 THEN Inf(v) ELSE DateText(v) \o " " \o TimeText(v[4], v[5]) \o Bc(v)
      [] t = "timestamptz" -> IF Len(v) = 1 THEN Inf(v) ELSE DateText(v) \o " " \o TimeText(v[4], v[5]) \o "+00" \o Bc(v)
      [] t = "time" -> TimeText(v[1], v[2])
      [] t = "timetz" -> TimeText(v[1], v[2]) \o ZoneText(v[3])
      [] t = "interval" -> ToString(v[1]) \o " mons " \o ToString(v[2]) \o " days " \o ToString(24 * v[3]) \o " hours " \o ToString(v[4]) \o Frac(v[5]) \o " secs"
      [] t \in {"inet", "cidr"} -> NetText(t, v)
      [] t \in {"bit", "varbit"} -> CatS([i \in 1 .. v[1] |-> ToString(v[i + 1])])
      [] t = "macaddr" -> Mac(v, ":")
      [] t = "bool" -> IF v = <<1>> THEN "true" ELSE "false"
      [] t = "bytea" -> "\\x" \o CatS([i \in 1 .. Len(v) |-> Hex(v[i])])
      [] t = "uuid" -> LET h == [i \in 1 .. 16 |-> Hex(v[i])] IN CatS(SubSeq(h, 1, 4)) \o "-" \o CatS(SubSeq(h, 5, 6)) \o "-" \o CatS(SubSeq(h, 7, 8)) \o "-" \o CatS(SubSeq(h, 9, 10)) \o "-" \o CatS(SubSeq(h, 11, 16))
      [] t = "tid" -> "(" \o Dec(SubSeq(v, 1, 4)) \o "," \o Dec(SubSeq(v, 5, 6)) \o ")"
      [] OTHER -> ""
\* how the client's type takes it: "no": cannot represent it, "as": it is the client's infinity
Client(t, v) ==
    CASE t \in {"date", "timestamp", "timestamptz"} /\ Len(v) > 1 ->
             IF v[1] \notin 1 .. 9999 THEN "no"
             ELSE IF t = "date" /\ v \in {<<9999, 12, 31>>, <<1, 1, 1>>} THEN "as"
             ELSE IF t = "timestamp" /\ v \in {<<9999, 12, 31, 86399, 999999>>, <<1, 1, 1, 0, 0>>} THEN "as" ELSE "yes"
      [] t \in {"time", "timetz"} -> IF v[1] = 86400 THEN "no" ELSE "yes"
      [] t = "interval" -> IF v[1] # 0 THEN "rough" ELSE IF v[2] + v[3] \in -999999999 .. 999999999 THEN "yes" ELSE "no"
      [] OTHER -> "yes"

\* --- the values enumerated
Around == {0, 1, 127, 128, 254, 255}
IntsOf(t) == LET n == IntSize[t] IN {[i \in 1 .. 9 |-> IF i = p THEN x ELSE IF i = q THEN y ELSE f] : p \in 9 - n .. 9, q \in 9 - n .. 9, x \in Around, y \in Around, f \in {0, 255}}
Dg(i) == ((i * 3) % 9) + 1
NumsOf == {LET ds == Strip([i \in 1 .. n |-> IF i \in nz THEN Dg(i) ELSE 0]) IN <<IF ds = << >> THEN 0 ELSE sg, sc>> \o ds : sg \in {0, 1}, n \in {NumDigits}, nz \in SUBSET (1 .. NumDigits), sc \in 0 .. NumDigits + 1}
\* few digits, far from the point
NumsFar == {<<sg, sc>> \o ds \o Zeros(z) : sg \in {0, 1}, ds \in {<<1>>, <<9, 9, 9, 9>>, <<1, 0, 0, 0, 1>>, <<1, 2, 3, 4, 5, 6, 7, 8, 9>>}, z \in 0 .. 13, sc \in 0 .. 17} \cup {<<2, 0>>, <<3, 0>>, <<4, 0>>}
    \cup {<<sg, sc>> \o ds : sg \in {0, 1}, ds \in {<<1>>, <<5, 0, 0, 0, 0, 0, 0, 0, 1>>}, sc \in {40, 41, 42, 43, 200}}
Man8 == {<<0, 0, 0>>, <<0, 0, 1>>, <<1048575, 65535, 65535>>, <<524288, 0, 0>>, <<0, 1, 0>>, <<699050, 43690, 43690>>}
F8s == {<<s, 0, 0, 0, 0, 0>> : s \in {0, 1}} \cup {<<s, 3, 0, 0, 0, 0>> : s \in {0, 1}} \cup {<<0, 4, 0, 0, 0, 0>>}
    \cup {<<s, 1, 0>> \o m : s \in {0, 1}, m \in Man8 \ {<<0, 0, 0>>}} \cup {<<s, 2, e>> \o m : s \in {0, 1}, e \in {1, 2, 971, 1022, 1023, 1024, 1075, 1086, 2045, 2046}, m \in Man8}
Man4 == {<<0, 0>>, <<0, 1>>, <<127, 65535>>, <<64, 0>>, <<1, 0>>, <<85, 21845>>}
F4s == {<<s, 0, 0, 0, 0>> : s \in {0, 1}} \cup {<<s, 3, 0, 0, 0>> : s \in {0, 1}} \cup {<<0, 4, 0, 0, 0>>}
    \cup {<<s, 1, 0>> \o m : s \in {0, 1}, m \in Man4 \ {<<0, 0>>}} \cup {<<s, 2, e>> \o m : s \in {0, 1}, e \in {1, 2, 126, 127, 128, 150, 253, 254}, m \in Man4}
\* some numbers, ascending
Fx == <<<<1, 3, 0, 0, 0, 0>>, <<1, 2, 1024, 262144, 0, 1>>, <<0, 0, 0, 0, 0, 0>>, <<0, 2, 1023, 524288, 0, 0>>, <<0, 2, 2046, 1048575, 65535, 65535>>>>
Ix == 1 .. Len(Fx)
GeoOf(t) ==
    CASE t = "point" -> {Fx[a] \o Fx[b] : a \in Ix, b \in Ix}
      [] t = "lseg" -> {Fx[a] \o Fx[b] \o Fx[c] \o Fx[d] : a \in Ix, b \in Ix, c \in Ix, d \in Ix}
      [] t = "circle" -> {Fx[a] \o Fx[b] \o Fx[r] : a \in Ix, b \in Ix, r \in 3 .. 5}
Boxes == {Fx[p[1]] \o Fx[q[1]] \o Fx[p[2]] \o Fx[q[2]] : p \in {x \in Ix \X Ix : x[1] >= x[2]}, q \in {x \in Ix \X Ix : x[1] >= x[2]}}
Years == {-4711, -43, 0, 1, 4, 100, 400, 1582, 1900, 1969, 1970, 1999, 2000, 2001, 2004, 2024, 2100, 9999, 10000, 294275}
Dates == {<<y, m[1], m[2]>> : y \in Years, m \in {<<1, 1>>, <<1, 31>>, <<2, 28>>, <<3, 1>>, <<10, 15>>, <<12, 31>>}} \cup {<<y, 2, 29>> : y \in {x \in Years : Leap(x)}}
Secs == {0, 1, 59, 60, 3599, 3600, 43200, 86399}
Us == {0, 1, 10, 499999, 500000, 999999}
Times == {<<s, u>> : s \in Secs, u \in Us} \cup {<<86400, 0>>}
Zones == {0, 3600, -3600, 12600, -12600, 20700, 1, -1, 59, 61, -61, 57599, -57599}
Far == {-999999999, -1, 0, 1, 30, 999999999}
Ivs == {<<0, d, td, s, u>> : d \in Far, td \in {-1, 0, 1, 80000000}, s \in {0, 1, 43200, 86399}, u \in {0, 1, 999999}} \cup {<<m, 3, 0, 5, 0>> : m \in {-1, 1, 12, 25}} \cup {<<0, 2147483647, 0, 0, 0>>, <<0, -2147483647, 0, 0, 0>>}
Addr4 == {<<0, 0, 0, 0>>, <<10, 0, 0, 1>>, <<255, 255, 255, 255>>, <<1, 2, 3, 4>>, <<192, 168, 128, 0>>}
Addr6 == {Zeros(16), Zeros(15) \o <<1>>, [i \in 1 .. 16 |-> 255], <<254, 128>> \o Zeros(13) \o <<1>>, [i \in 1 .. 16 |-> i], Zeros(10) \o <<255, 255, 1, 2, 3, 4>>}
Inets == {<<4, n>> \o a : n \in 0 .. 32, a \in Addr4} \cup {<<6, n>> \o a : n \in {0, 1, 7, 8, 9, 32, 33, 63, 64, 127, 128}, a \in Addr6}
Masked(v) == <<v[1], v[2]>> \o [i \in 1 .. Len(v) - 2 |-> LET left == v[2] - 8 * (i - 1) k == IF left >= 8 THEN 8 ELSE IF left <= 0 THEN 0 ELSE left IN (v[i + 2] \div Pow(2, 8 - k)) * Pow(2, 8 - k)]
BitSeqs == UNION {[1 .. n -> {0, 1}] : n \in 0 .. Bits} \cup {[i \in 1 .. n |-> IF i % k = r THEN 1 ELSE 0] : n \in {15, 16, 17, 23, 24, 25, 31, 32, 33, 100}, k \in {1, 2, 3, 9}, r \in {0, 1}}
Macs == {[i \in 1 .. 6 |-> IF i = p THEN x ELSE IF i = q THEN y ELSE 8 * i] : p \in 1 .. 6, q \in 1 .. 6, x \in {0, 9, 16, 255}, y \in {0, 171}}
Sample16 == {[i \in 1 .. 16 |-> IF i = p THEN x ELSE f * i] : p \in 1 .. 16, x \in {0, 15, 240, 255}, f \in {0, 1, 15}}
Chunks == {<<97>>, <<32>>, <<39>>, <<34>>, <<92>>, <<10>>, <<123>>, <<44>>, <<195, 169>>, <<226, 130, 172>>, <<240, 159, 152, 128>>, <<78, 85, 76, 76>>, <<127>>, <<1>>}
Strings == {<< >>} \cup Chunks \cup {a \o b : a \in Chunks, b \in Chunks} \cup {a \o b \o a : a \in Chunks, b \in Chunks}
Blobs == {<< >>} \cup {<<a>> : a \in 0 .. 255} \cup {<<a, b, c>> : a \in {0, 39, 92, 120, 128, 255}, b \in {0, 39, 92, 255}, c \in {0, 92, 254}}
Tids == {[i \in 1 .. 6 |-> IF i = p THEN x ELSE f] : p \in 1 .. 6, x \in {0, 1, 127, 128, 255}, f \in {0, 1, 255}}
GroupTypes == [ints |-> DOMAIN IntSize, numeric |-> {"numeric"}, floats |-> {"float8", "float4"}, geometry |-> DOMAIN Coords,
    dates |-> {"date", "timestamp", "timestamptz"}, times |-> {"time", "timetz", "interval"}, network |-> {"inet", "cidr", "macaddr"}, bits |-> {"bit", "varbit"}, bytes |-> {"bool", "uuid", "text", "varchar", "bpchar", "bytea", "char", "tid"}]
Values(t) ==
    CASE t \in DOMAIN IntSize -> IntsOf(t)
      [] t = "numeric" -> NumsOf \cup NumsFar
      [] t = "float8" -> F8s
      [] t = "float4" -> F4s
      [] t = "box" -> Boxes
      [] t \in DOMAIN Coords -> GeoOf(t)
      [] t = "date" -> Dates \cup {<<0>>, <<1>>}
      [] t \in {"timestamp", "timestamptz"} -> {d \o m : d \in {x \in Dates : x[1] > -4711 /\ x[1] # 294275}, m \in {<<0, 0>>, <<0, 1>>, <<43200, 500000>>, <<86399, 999999>>, <<86399, 0>>}} \cup {<<294275, 12, 31, 86399, 999999>>, <<-4711, 1, 1, 0, 1>>, <<0>>, <<1>>}
      [] t = "time" -> Times
      [] t = "timetz" -> {x \o <<z>> : x \in Times, z \in Zones}
      [] t = "interval" -> Ivs
      [] t = "inet" -> Inets
      [] t = "cidr" -> {Masked(v) : v \in Inets}
      [] t = "macaddr" -> Macs
      [] t = "varbit" -> {<<Len(b)>> \o b : b \in BitSeqs}
      [] t = "bit" -> {<<Len(b)>> \o b : b \in {x \in BitSeqs : Len(x) \in 1 .. 9}}
      [] t = "bool" -> {<<0>>, <<1>>}
      [] t = "uuid" -> Sample16
      [] t = "bytea" -> Blobs
      [] t = "char" -> {<<a>> : a \in 0 .. 255}
      [] t = "tid" -> Tids
      [] OTHER -> Strings

None == [t |-> "none", v |-> << >>]
Init == cur = None /\ act = [op |-> "start"] /\ obs = [none |-> 0] /\ ei = 0
Next == \E g \in Groups : \E t \in GroupTypes[g] : \E v \in Values(t) :
    /\ cur = None /\ cur' = [t |-> t, v |-> v]
    /\ act' = [op |-> t, v |-> v]
    /\ obs' = [wire |-> Encode(t, v), text |-> Text(t, v), client |-> Client(t, v), forms |-> IF t = "macaddr" THEN Forms(v) ELSE << >>, wrong |-> IF t = "macaddr" /\ v[1] = 8 /\ v[6] = 171 THEN BadForms(v) ELSE << >>]
    /\ UNCHANGED ei
Spec == Init /\ [][Next]_vars
View == cur
\* representations are unambiguous
RoundTrip == cur.t # "none" => LET b == Encode(cur.t, cur.v) IN b = Refused \/ Decode([k |-> cur.t, a |-> << >>, o |-> << >>], b) = cur.v
\* only integers are beyond their types
Representable == cur.t # "none" => (Encode(cur.t, cur.v) = Refused => cur.t \in DOMAIN IntSize)
St == [n |-> IF cur.t = "none" THEN 0 ELSE 1]
Edge == CSVWrite("%1$s", <<ToJson(<<[n |-> 0], act', obs', [n |-> 1]>>)>>, IOEnv.EDGES)

\* --- judging recorded representations: the bytes packed by the client, or received by it from the server, and the value
Cases == JsonDeserialize(IOEnv.CASES)
Verdict(c) == LET d == Decode(c.t, c.b) IN IF d = c.v THEN "" ELSE "the bytes represent " \o ToString(d) \o ", the value is " \o ToString(c.v)
Out(k) == LET v == Verdict(Cases[k]) IN IF v = "" THEN TRUE ELSE CSVWrite("%1$s", <<ToString(k) \o " " \o v>>, IOEnv.VERDICTS)
EvalInit == ei = 0 /\ cur = None /\ act = [op |-> "start"] /\ obs = [none |-> 0]
EvalNext == /\ ei < Len(Cases) /\ Out(ei + 1) /\ ei' = ei + 1
            /\ (ei' = Len(Cases) => CSVWrite("%1$s", <<"done " \o ToString(ei')>>, IOEnv.VERDICTS))
            /\ UNCHANGED <<cur, act, obs>>
EvalSpec == EvalInit /\ [][EvalNext]_vars
=============================================================================
