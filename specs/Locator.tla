-------------------------------- MODULE Locator --------------------------------
(* P20.  Connection locators: which parameters a text denotes.                     *)
(* Characters are given as strings; "x" stands for a letter beyond ASCII.           *)
EXTENDS Sequences, SequencesExt, Integers, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Chars, MaxLen, Contexts
VARIABLES comp, ctx, val, raw, act, obs, ei
vars == <<comp, ctx, val, raw, act, obs, ei>>
View == <<comp, ctx, val, raw>>
St == [n |-> Len(val)]

Comps == {"user", "password", "host", "port", "database", "path", "driver", "key", "value", "schema", "unix"}
\* --- escapes: hexadecimal digits of the escaped characters
Esc == [c \in {":", "@", "/", "?", "#", "[", "]", "%", "&", "=", ",", " ", "a", "\\", "+"} |->
        CASE c = ":" -> <<"3", "A">> [] c = "@" -> <<"4", "0">> [] c = "/" -> <<"2", "F">> [] c = "?" -> <<"3", "F">> [] c = "#" -> <<"2", "3">>
          [] c = "[" -> <<"5", "B">> [] c = "]" -> <<"5", "D">> [] c = "%" -> <<"2", "5">> [] c = "&" -> <<"2", "6">> [] c = "=" -> <<"3", "D">>
          [] c = "," -> <<"2", "C">> [] c = " " -> <<"2", "0">> [] c = "a" -> <<"6", "1">> [] c = "\\" -> <<"5", "C">> [] c = "+" -> <<"2", "B">>]
Lower(h) == CASE h = "A" -> "a" [] h = "B" -> "b" [] h = "C" -> "c" [] h = "D" -> "d" [] h = "E" -> "e" [] h = "F" -> "f" [] OTHER -> h
Hex(h) == {h, Lower(h)}
\* what has to be escaped
Special(cp) == CASE cp = "user" -> {":", "@", "/", "?", "#", "%"}
                 [] cp = "password" -> {"@", "/", "?", "#", "%"}
                 [] cp \in {"host", "port"} -> {":", "@", "/", "?", "#", "%", "[", "]"}
                 [] cp = "unix" -> {":", "@", "?", "#", "%", "[", "]"}
                 [] cp \in {"database", "path"} -> {"/", "?", "#", "%"}
                 [] cp \in {"driver", "key"} -> {"&", "=", "#", "%", "[", "]"}
                 [] cp = "value" -> {"&", "#", "%"}
                 [] cp = "schema" -> {",", "%"}
\* an address in brackets may have colons
Bare(cp) == IF cp = "host" /\ "brackets" \in ctx THEN Special(cp) \ {":"} ELSE Special(cp)
\* the ways to write a character of a component ("x" escaped is mapped outside of here)
Forms(cp, c) == (IF c \in Bare(cp) THEN {} ELSE IF cp = "unix" /\ c = "/" THEN {<<":">>} ELSE {<<c>>})
                \cup (IF c \in DOMAIN Esc /\ ~(cp = "unix" /\ c = "/") THEN {<<"%", Esc[c][1], Esc[c][2]>>, <<"%", Lower(Esc[c][1]), Lower(Esc[c][2])>>} ELSE {})
                \cup (IF c = "x" THEN {<<"%x">>} ELSE {})

\* --- the text around: ctx is the set of other components that are present
Other(cp) == CASE cp = "user" -> <<"u">> [] cp = "password" -> <<"p">> [] cp = "host" -> <<"h">> [] cp = "port" -> <<"1">> [] cp = "database" -> <<"d">> [] cp = "path" -> <<"t">>
               [] cp = "driver" -> <<"v">> [] cp = "key" -> <<"k">> [] cp = "value" -> <<"w">> [] cp = "schema" -> <<"s">> [] cp = "unix" -> <<"z">>
There == (ctx \ {"brackets"}) \cup {comp}
Text(cp) == IF cp = comp THEN raw ELSE Other(cp)
If(b, s) == IF b THEN s ELSE << >>
Queries == LET d == If("driver" \in There, <<"[", "i", "p", "v", "]", "=">> \o Text("driver"))
               k == If("key" \in There \/ "value" \in There, Text("key") \o <<"=">> \o Text("value")) IN
           IF d # << >> /\ k # << >> THEN d \o <<"&">> \o k ELSE d \o k
Whole == <<"p", "q", ":", "/", "/">>
         \o If({"user", "password"} \cap There # {}, Text("user") \o If("password" \in There, <<":">> \o Text("password")) \o <<"@">>)
         \o (IF "unix" \in There THEN <<"[", "u", "n", "i", "x", ":">> \o Text("unix") \o <<"]">>
             ELSE If({"host", "port"} \cap There # {}, (IF "brackets" \in ctx THEN <<"[">> \o Text("host") \o <<"]">> ELSE Text("host")) \o If("port" \in There, <<":">> \o Text("port"))))
         \o If({"database", "path"} \cap There # {}, <<"/">> \o If("database" \in There, Text("database")) \o If("path" \in There, <<"/">> \o Text("path")))
         \o If(Queries # << >>, <<"?">> \o Queries)
         \o If("schema" \in There, <<"#">> \o Text("schema"))
Means(cp) == IF cp = comp THEN val ELSE Other(cp)
Params == [cp \in There \cup (IF "password" \in There THEN {"user"} ELSE {}) \cup (IF "port" \in There THEN {"host"} ELSE {}) \cup (IF "key" \in There \/ "value" \in There THEN {"key", "value"} ELSE {}) |-> Means(cp)]

Init == /\ comp \in Comps /\ ctx \in {c \in Contexts : comp \notin c /\ ("unix" \in c \cup {comp} => {"host", "port"} \cap (c \cup {comp}) = {})}
        /\ val = << >> /\ raw = << >> /\ act = [op |-> "start"] /\ obs = [none |-> 0] /\ ei = 0
Add(c, f) == /\ Len(val) < MaxLen /\ val' = Append(val, c) /\ raw' = raw \o f /\ UNCHANGED <<comp, ctx, ei>>
             /\ act' = [op |-> "char"]
Next == (\E c \in Chars : \E f \in Forms(comp, c) : Add(c, f)) /\ obs' = [comp |-> comp, ctx |-> ctx, text |-> Whole', params |-> Params']
Spec == Init /\ [][Next]_vars
Edge == CSVWrite("%1$s", <<ToJson(<<St, act', obs', St'>>)>>, IOEnv.EDGES)

\* --- reading a text
Index(s, c) == LET is == {i \in 1 .. Len(s) : s[i] = c} IN IF is = {} THEN 0 ELSE CHOOSE i \in is : \A j \in is : i <= j
Before(s, cs) == LET is == {i \in 1 .. Len(s) : s[i] \in cs} IN IF is = {} THEN s ELSE SubSeq(s, 1, (CHOOSE i \in is : \A j \in is : i <= j) - 1)
After(s, c) == SubSeq(s, Index(s, c) + 1, Len(s))
RECURSIVE Split(_, _)
Split(s, c) == IF Index(s, c) = 0 THEN <<s>> ELSE <<SubSeq(s, 1, Index(s, c) - 1)>> \o Split(After(s, c), c)
HexDigits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "D", "E", "F", "a", "b", "c", "d", "e", "f"}
Decoded1(h, l) == LET is == {c \in DOMAIN Esc : h \in Hex(Esc[c][1]) /\ l \in Hex(Esc[c][2])} IN IF is = {} THEN "?" ELSE CHOOSE c \in is : TRUE
RECURSIVE Decoded(_)
Decoded(s) == IF s = << >> THEN << >>
              ELSE IF Head(s) = "%" /\ Len(s) > 2 /\ s[2] \in HexDigits /\ s[3] \in HexDigits THEN <<Decoded1(s[2], s[3])>> \o Decoded(SubSeq(s, 4, Len(s)))
              ELSE IF Head(s) = "%x" THEN <<"x">> \o Decoded(Tail(s))
              ELSE <<Head(s)>> \o Decoded(Tail(s))
Has(s, c) == Index(s, c) # 0
InBrackets(s) == Len(s) > 1 /\ s[1] = "[" /\ Last(s) = "]"
None == [x \in {} |-> 0]
Read(t) ==
    LET s == SubSeq(t, 6, Len(t))  \* after pq://
        main == Before(s, {"#"})
        net == Before(main, {"/", "?"})
        rest == SubSeq(main, Len(net) + 1, Len(main))
        pth == IF rest # << >> /\ Head(rest) = "/" THEN Split(Before(Tail(rest), {"?"}), "/") ELSE << >>
        qry == IF Has(rest, "?") THEN Split(After(rest, "?"), "&") ELSE << >>
        usr == IF Has(net, "@") THEN Before(net, {"@"}) ELSE << >>
        adr == IF Has(net, "@") THEN After(net, "@") ELSE net
        br == adr # << >> /\ adr[1] = "["
        hst == IF br THEN SubSeq(adr, 2, Index(adr, "]") - 1) ELSE Before(adr, {":"})
        prt == IF br THEN After(adr, "]") ELSE SubSeq(adr, Len(hst) + 1, Len(adr))
        unx == br /\ Len(hst) > 5 /\ SubSeq(hst, 1, 5) = <<"u", "n", "i", "x", ":">>
        drv == SelectSeq(qry, LAMBDA q : InBrackets(Before(q, {"="})))
        set == SelectSeq(qry, LAMBDA q : q # << >> /\ ~InBrackets(Before(q, {"="}))) IN
    (IF Has(net, "@") THEN "user" :> Decoded(Before(usr, {":"})) ELSE None)
    @@ (IF Has(net, "@") /\ Has(usr, ":") THEN "password" :> Decoded(After(usr, ":")) ELSE None)
    @@ (IF unx THEN "unix" :> Decoded([i \in 1 .. Len(hst) - 5 |-> IF hst[i + 5] = ":" THEN "/" ELSE hst[i + 5]]) ELSE IF adr # << >> THEN "host" :> Decoded(hst) ELSE None)
    @@ (IF prt # << >> THEN "port" :> Decoded(Tail(prt)) ELSE None)
    @@ (IF pth # << >> /\ pth[1] # << >> THEN "database" :> Decoded(pth[1]) ELSE None)
    @@ (IF Len(pth) > 1 THEN "path" :> Decoded(pth[2]) ELSE None)
    @@ (IF drv # << >> THEN "driver" :> Decoded(After(drv[1], "=")) ELSE None)
    @@ (IF set # << >> THEN "key" :> Decoded(Before(set[1], {"="})) @@ "value" :> Decoded(After(set[1], "=")) ELSE None)
    @@ (IF Has(s, "#") THEN "schema" :> Decoded(After(s, "#")) ELSE None)
\* every text denotes the parameters it was made of
Denotes == val # << >> => Read(Whole) = Params

\* --- judging recorded serializations
Cases == JsonDeserialize(IOEnv.CASES)
Verdict(c) == IF Read(c.text) = c.params THEN "" ELSE "the text denotes " \o ToString(Read(c.text)) \o ", not " \o ToString(c.params)
Out(k) == LET v == Verdict(Cases[k]) IN IF v = "" THEN TRUE ELSE CSVWrite("%1$s", <<ToString(k) \o " " \o v>>, IOEnv.VERDICTS)
EvalInit == ei = 0 /\ comp = "user" /\ ctx = {} /\ val = << >> /\ raw = << >> /\ act = [op |-> "start"] /\ obs = [none |-> 0]
EvalNext == /\ ei < Len(Cases) /\ Out(ei + 1) /\ ei' = ei + 1
            /\ (ei' = Len(Cases) => CSVWrite("%1$s", <<"done " \o ToString(ei')>>, IOEnv.VERDICTS))
            /\ UNCHANGED <<comp, ctx, val, raw, act, obs>>
EvalSpec == EvalInit /\ [][EvalNext]_vars
=================================================================================
