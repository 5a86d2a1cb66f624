---------------------------------- MODULE Codec ----------------------------------
(* P02.  The layout of every message, what a body denotes, and what it does not.     *)
(* A message is a sequence of values, one for each part of the layout of its kind.    *)
(* Numbers are the bytes they are sent as; a value may be NULL: <<-1>>.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Kinds,               \* explored
          MaxCells,            \* values of a row
          Mutate,              \* bodies up to this length are damaged in every way
          BatchItems, MaxBatch \* names of the items of batches, their number
VARIABLES kind, val, body, act, obs
vars == <<kind, val, body, act, obs>>
View == <<kind, val, body>>
St == [kind |-> kind]

Null == <<-1>>
U16(n) == <<(n \div 256) % 256, n % 256>>
U32(n) == <<(n \div 16777216) % 256, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
N16(s) == s[1] * 256 + s[2]
N32(s) == IF s[1] >= 64 THEN 1073741824 ELSE ((s[1] * 256 + s[2]) * 256 + s[3]) * 256 + s[4]  \* (more than there can be)
Nulls == <<255, 255, 255, 255>>

Layout == [
  Notify |-> <<"u32", "str", "str">>, ShowOption |-> <<"str", "str">>, Complete |-> <<"str">>,
  Null |-> << >>, NoData |-> << >>, ParseComplete |-> << >>, BindComplete |-> << >>, CloseComplete |-> << >>, Suspension |-> << >>,
  Ready |-> <<"state">>, Notice |-> <<"fields">>, Error |-> <<"fields">>, FunctionResult |-> <<"sized">>,
  AttributeTypes |-> <<"oids">>, TupleDescriptor |-> <<"attrs">>, Tuple |-> <<"cells">>,
  KillInformation |-> <<"u32", "u32">>, CancelRequest |-> <<"cancel", "u32", "u32">>, NegotiateSSL |-> <<"ssl">>,
  Startup |-> <<"v3", "pairs">>, Authentication |-> <<"u32", "rest">>,
  Password |-> <<"str">>, Disconnect |-> << >>, Flush |-> << >>, Synchronize |-> << >>, Query |-> <<"str">>,
  Parse |-> <<"str", "str", "oids">>, Bind |-> <<"str", "str", "fmts", "cells", "fmts">>, Execute |-> <<"str", "u32">>,
  DescribeStatement |-> <<"S", "str">>, DescribePortal |-> <<"P", "str">>, CloseStatement |-> <<"S", "str">>, ClosePortal |-> <<"P", "str">>,
  Function |-> <<"u32", "fmts", "cells", "fmt">>, CopyToBegin |-> <<"u8", "fmts">>, CopyFromBegin |-> <<"u8", "fmts">>,
  CopyData |-> <<"rest">>, CopyFail |-> <<"str">>, CopyDone |-> << >>]
\* the first byte on the wire
Type == [
  Notify |-> <<65>>, ShowOption |-> <<83>>, Complete |-> <<67>>, Null |-> <<73>>, NoData |-> <<110>>, ParseComplete |-> <<49>>, BindComplete |-> <<50>>,
  CloseComplete |-> <<51>>, Suspension |-> <<115>>, Ready |-> <<90>>, Notice |-> <<78>>, Error |-> <<69>>, FunctionResult |-> <<86>>,
  AttributeTypes |-> <<116>>, TupleDescriptor |-> <<84>>, Tuple |-> <<68>>, KillInformation |-> <<75>>, CancelRequest |-> << >>, NegotiateSSL |-> << >>,
  Startup |-> << >>, Authentication |-> <<82>>, Password |-> <<112>>, Disconnect |-> <<88>>, Flush |-> <<72>>, Synchronize |-> <<83>>, Query |-> <<81>>,
  Parse |-> <<80>>, Bind |-> <<66>>, Execute |-> <<69>>, DescribeStatement |-> <<68>>, DescribePortal |-> <<68>>, CloseStatement |-> <<67>>, ClosePortal |-> <<67>>,
  Function |-> <<70>>, CopyToBegin |-> <<72>>, CopyFromBegin |-> <<71>>, CopyData |-> <<100>>, CopyFail |-> <<102>>, CopyDone |-> <<99>>]
Fixed == [u8 |-> 1, i16 |-> 2, u16 |-> 2, fmt |-> 2, u32 |-> 4, i32 |-> 4]
\* parts that are always the same
Const == [cancel |-> <<4, 210, 22, 46>>, ssl |-> <<4, 210, 22, 47>>, v3 |-> <<0, 3, 0, 0>>, S |-> <<83>>, P |-> <<80>>]
\* lists, preceded by their number, and what their elements are made of
Lists == [oids |-> <<"u32">>, fmts |-> <<"u16">>, cells |-> <<"sized">>, attrs |-> <<"str", "u32", "i16", "u32", "i16", "i32", "i16">>]

\* --- laying out
RECURSIVE Enc(_, _), Flat(_)
Flat(ss) == IF ss = << >> THEN << >> ELSE ss[1] \o Flat(Tail(ss))
EncAll(parts, vs) == Flat([i \in 1 .. Len(parts) |-> Enc(parts[i], vs[i])])
Enc(p, v) == CASE p \in DOMAIN Fixed -> v
               [] p \in DOMAIN Const -> Const[p]
               [] p = "str" -> v \o <<0>>
               [] p \in {"rest", "state"} -> v
               [] p = "sized" -> IF v = Null THEN Nulls ELSE U32(Len(v)) \o v
               [] p = "fields" -> Flat([i \in 1 .. Len(v) |-> <<v[i][1]>> \o v[i][2] \o <<0>>]) \o <<0>>
               [] p = "pairs" -> Flat([i \in 1 .. Len(v) |-> v[i][1] \o <<0>> \o v[i][2] \o <<0>>]) \o <<0>>
               [] p \in DOMAIN Lists -> U16(Len(v)) \o Flat([i \in 1 .. Len(v) |-> IF Len(Lists[p]) = 1 THEN Enc(Lists[p][1], v[i]) ELSE EncAll(Lists[p], v[i])])
Framed(k, b) == Type[k] \o U32(Len(b) + 4) \o b

\* --- reading: <<>> if it cannot be, else <<value, rest>>
Drop(s, n) == SubSeq(s, n + 1, Len(s))
RECURSIVE Dec(_, _), DecN(_, _, _), DecAll(_, _), DecFields(_), DecPairs(_)
Zero(s) == CHOOSE i \in 1 .. Len(s) : s[i] = 0 /\ \A j \in 1 .. i - 1 : s[j] # 0
Terminated(s) == \E i \in 1 .. Len(s) : s[i] = 0
DecStr(s) == IF ~Terminated(s) THEN << >> ELSE <<SubSeq(s, 1, Zero(s) - 1), Drop(s, Zero(s))>>
DecN(parts, n, s) == IF n = 0 THEN << << >>, s>> ELSE
                     LET a == IF Len(parts) = 1 THEN Dec(parts[1], s) ELSE DecAll(parts, s) IN
                     IF a = << >> THEN << >> ELSE LET b == DecN(parts, n - 1, a[2]) IN IF b = << >> THEN << >> ELSE << <<a[1]>> \o b[1], b[2]>>
DecAll(parts, s) == IF parts = << >> THEN << << >>, s>> ELSE
                    LET a == Dec(parts[1], s) IN IF a = << >> THEN << >> ELSE
                    LET b == DecAll(Tail(parts), a[2]) IN IF b = << >> THEN << >> ELSE << <<a[1]>> \o b[1], b[2]>>
DecFields(s) == IF s = << >> THEN << >> ELSE IF s[1] = 0 THEN << << >>, Tail(s)>> ELSE
                LET a == DecStr(Tail(s)) IN IF a = << >> THEN << >> ELSE
                LET b == DecFields(a[2]) IN IF b = << >> THEN << >> ELSE << << <<s[1], a[1]>> >> \o b[1], b[2]>>
DecPairs(s) == IF s = << >> THEN << >> ELSE IF s[1] = 0 THEN << << >>, Tail(s)>> ELSE
               LET a == DecStr(s) IN IF a = << >> THEN << >> ELSE
               LET c == DecStr(a[2]) IN IF c = << >> THEN << >> ELSE
               LET b == DecPairs(c[2]) IN IF b = << >> THEN << >> ELSE << << <<a[1], c[1]>> >> \o b[1], b[2]>>
Dec(p, s) == CASE p \in DOMAIN Fixed -> IF Len(s) < Fixed[p] THEN << >> ELSE <<SubSeq(s, 1, Fixed[p]), Drop(s, Fixed[p])>>
               [] p \in DOMAIN Const -> IF Len(s) < Len(Const[p]) \/ SubSeq(s, 1, Len(Const[p])) # Const[p] THEN << >> ELSE <<Const[p], Drop(s, Len(Const[p]))>>
               [] p = "str" -> DecStr(s)
               [] p = "rest" -> <<s, << >>>>
               [] p = "state" -> IF s = << >> \/ s[1] \notin {73, 84, 69} THEN << >> ELSE << <<s[1]>>, Tail(s)>>
               [] p = "sized" -> IF Len(s) < 4 THEN << >> ELSE IF SubSeq(s, 1, 4) = Nulls THEN <<Null, Drop(s, 4)>>
                                 ELSE IF Len(s) - 4 < N32(s) THEN << >> ELSE <<SubSeq(s, 5, 4 + N32(s)), Drop(s, 4 + N32(s))>>
               [] p = "fields" -> DecFields(s)
               [] p = "pairs" -> DecPairs(s)
               [] p \in DOMAIN Lists -> IF Len(s) < 2 \/ N16(s) > Len(s) THEN << >> ELSE DecN(Lists[p], N16(s), Drop(s, 2))
\* a body denotes a message if it is one, and nothing more
Denotes(k, s) == LET d == DecAll(Layout[k], s) IN d # << >> /\ d[2] = << >>
\* (a message and something more)
Begins(k, s) == LET d == DecAll(Layout[k], s) IN d # << >> /\ d[2] # << >>
\* (complete fields whose list is not closed, or has gaps)
RECURSIVE Fields(_)
Fields(s) == IF s = << >> THEN << >> ELSE IF s[1] = 0 THEN Fields(Tail(s)) ELSE
             LET a == DecStr(Tail(s)) IN << <<s[1], a[1]>> >> \o Fields(a[2])
Loose(k, s) == k \in {"Notice", "Error"} /\ s # << >> /\ s[Len(s)] = 0
Value(k, s) == DecAll(Layout[k], s)[1]

\* --- values to try
Strs == {<< >>, <<97>>, <<195, 169, 32>>}
Sized == {Null, << >>, <<0>>, <<255, 1>>}
UpTo(n, S) == UNION {[1 .. m -> S] : m \in 0 .. n}
W32 == {<<0, 0, 0, 0>>, <<255, 255, 255, 255>>, <<1, 2, 3, 4>>, <<128, 0, 0, 0>>, <<0, 0, 255, 254>>}
W16 == {<<0, 0>>, <<255, 255>>, <<128, 0>>, <<1, 2>>}
Attr1 == {<<n, r, c, t, l, m, f>> : n \in Strs, r \in {<<0, 0, 0, 0>>, <<128, 0, 0, 1>>}, c \in {<<0, 0>>, <<128, 1>>}, t \in {<<0, 0, 0, 25>>, <<255, 255, 255, 254>>}, l \in {<<255, 255>>, <<0, 4>>},
                                  m \in {<<255, 255, 255, 255>>, <<0, 1, 0, 4>>}, f \in {<<0, 0>>, <<0, 1>>}}
Letters == {77, 67, 115}
Vals(p) == CASE p = "u32" -> W32 [] p = "u8" -> {<<0>>, <<1>>, <<255>>} [] p \in {"u16", "i16", "fmt"} -> W16 [] p = "str" -> Strs
             [] p = "rest" -> {<< >>, <<0>>, <<100, 0, 255>>, <<1, 2, 3, 4>>} [] p = "state" -> {<<73>>, <<84>>, <<69>>} [] p = "sized" -> Sized
             [] p \in DOMAIN Const -> {Const[p]}
             [] p = "fields" -> {f \in UpTo(2, {<<l, s>> : l \in Letters, s \in Strs}) : \A i, j \in DOMAIN f : i # j => f[i][1] # f[j][1]}
             [] p = "pairs" -> {f \in UpTo(2, {<<k, s>> : k \in {<<97>>, <<98, 99>>}, s \in Strs}) : \A i, j \in DOMAIN f : i # j => f[i][1] # f[j][1]}
             [] p = "oids" -> UpTo(2, W32) [] p = "fmts" -> UpTo(2, {<<0, 0>>, <<0, 1>>}) [] p = "cells" -> UpTo(MaxCells, Sized)
             [] p = "attrs" -> UpTo(1, Attr1) \cup {<<a, b>> : a, b \in {<<s, <<0, 0, 0, 1>>, <<0, 2>>, <<0, 0, 0, 23>>, <<0, 4>>, <<255, 255, 255, 255>>, <<0, 1>>>> : s \in Strs}}
RECURSIVE Combine(_)
Combine(parts) == IF parts = << >> THEN {<< >>} ELSE {<<x>> \o r : x \in Vals(parts[1]), r \in Combine(Tail(parts))}
\* arguments come with a format each
Matched(k, v) == CASE k = "Bind" -> Len(v[3]) = Len(v[4]) /\ Len(v[1]) + Len(v[2]) <= 4 [] k = "Function" -> Len(v[2]) = Len(v[3]) [] OTHER -> TRUE
Values(k) == {v \in Combine(Layout[k]) : Matched(k, v)}

Edge == CSVWrite("%1$s", <<ToJson(<<St, act', obs', St'>>)>>, IOEnv.EDGES)
Init == kind = "" /\ val = << >> /\ body = << >> /\ act = [op |-> "start"] /\ obs = [none |-> 0]
Build == kind = "" /\ \E k \in Kinds : \E v \in Values(k) :
           /\ kind' = k /\ val' = v /\ body' = EncAll(Layout[k], v)
           /\ act' = [op |-> "build", kind |-> k] /\ obs' = [value |-> v, body |-> body', wire |-> Framed(k, body')]
\* the library reads bodies: damaged ones are refused
Judge(b) == /\ b # body /\ UNCHANGED <<kind, val, body>> /\ act' = [op |-> "damage", kind |-> kind]
            /\ obs' = [body |-> b, ok |-> Denotes(kind, b), more |-> Begins(kind, b), loose |-> IF Loose(kind, b) THEN << <<Fields(b)>> >> ELSE << >>, value |-> IF Denotes(kind, b) \/ Begins(kind, b) THEN Value(kind, b) ELSE << >>]
Damage == /\ kind # "" /\ Len(body) <= Mutate
          /\ \/ \E n \in 0 .. Len(body) - 1 : Judge(SubSeq(body, 1, n))
             \/ \E x \in {0, 1, 255} : Judge(Append(body, x))
             \/ \E n \in 2 .. Len(body) : Judge(Drop(body, n - 1))
             \/ \E i \in 1 .. Len(body) : \E x \in {0, 1, 2, 255, (body[i] + 255) % 256, (body[i] + 1) % 256} : Judge([body EXCEPT ![i] = x])
Spec == Init /\ [][Build \/ Damage]_vars
\* what was laid out is read back, whole
Exact == kind # "" => Denotes(kind, body) /\ Value(kind, body) = val
\* no body of one message begins another of its kind, except for what extends to the end
Prefix == (kind # "" /\ act.op = "damage" /\ Len(obs.body) < Len(body) /\ obs.body = SubSeq(body, 1, Len(obs.body)) /\ kind \notin {"Authentication", "CopyData"}) => ~obs.ok

\* --- batches: what goes to the wire is each item's own form, one after the other
\* rows and copy data may be given bare
Item == [d0 |-> << >>, d1 |-> <<100>>, d2 |-> <<0, 255>>, t0 |-> << >>, t1 |-> <<Null>>, t2 |-> << << >>, <<1>>>>, t3 |-> << <<0, 0>>, Null, <<255>>>>]
Wire(n) == CASE n \in {"d0", "d1", "d2"} -> Framed("CopyData", Item[n])
             [] n \in {"t0", "t1", "t2", "t3"} -> Framed("Tuple", EncAll(<<"cells">>, <<Item[n]>>))
             [] n = "sync" -> Framed("Synchronize", << >>) [] n = "done" -> Framed("CopyDone", << >>)
             [] n = "query" -> Framed("Query", <<97, 0>>) [] n = "tuple" -> Framed("Tuple", EncAll(<<"cells">>, << <<Null, <<7>>>> >>))
             [] n = "startup" -> Framed("Startup", EncAll(Layout["Startup"], << << >>, << << <<97>>, <<98>>>> >> >>))
             [] n = "cancel" -> Framed("CancelRequest", EncAll(Layout["CancelRequest"], << << >>, U32(1), U32(2)>>))
             [] OTHER -> << >>
BSpec == Init /\ [][kind = "" /\ \E b \in UpTo(MaxBatch, BatchItems) :
           /\ kind' = "batch" /\ val' = b /\ body' = << >> /\ act' = [op |-> "batch", items |-> b]
           /\ obs' = [ok |-> \A i \in DOMAIN b : b[i] \notin {"badrow", "badobject"}, wire |-> Flat([i \in 1 .. Len(b) |-> Wire(b[i])]),
                      \* the rows at the beginning of what is received
                      rows |-> [i \in 1 .. (CHOOSE n \in 0 .. Len(b) : (\A j \in 1 .. n : b[j] \in {"t0", "t1", "t2", "t3"}) /\ (n < Len(b) => b[n + 1] \notin {"t0", "t1", "t2", "t3"})) |-> Item[b[i]]]]]_vars
\* --- many values: [head, unit, n] stands for the head followed by n units
Wide == Init /\ [][kind = "" /\ \E k \in {"Tuple", "AttributeTypes", "Parse", "Bind", "Function", "CopyToBegin"} : \E n \in {255, 256, 32767, 32768, 65535, 65536} :
           /\ kind' = k /\ val' = <<n>> /\ body' = << >> /\ act' = [op |-> "wide", kind |-> k, n |-> n]
           /\ obs' = [ok |-> n < 65536, count |-> U16(n), n |-> n]]_vars
==================================================================================
