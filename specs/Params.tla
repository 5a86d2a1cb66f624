--------------------------------- MODULE Params ---------------------------------
(* P20.  Where connection parameters come from, and which of them wins.           *)
(* A configuration is built one definition at a time; the expected parameters are  *)
(* the latest definition in order of precedence: defaults, given parameters,       *)
(* environment variables, the service, options (in order); and with open():        *)
(* the locator, then keywords.                                                    *)
EXTENDS Sequences, SequencesExt, Integers, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Keys,      \* parameters
          N,         \* definitions
          Modes,
          Lines, LineSet, LineAt, \* lines of the password file, added to configurations of at most LineAt definitions
          Sources    \* which sources are explored
VARIABLES mode, places, defs, n, lines, act, obs
vars == <<mode, places, defs, n, lines, act, obs>>
View == <<mode, places, defs, n, lines>>
St == [n |-> n]

\* defs: the definitions made, a sequence of [src, key, val]; the order matters only within a service section and among options
Addr == {"host", "port", "unix"}
EnvOnly == {"hostaddr", "requiressl", "notssl"}
Plain == Keys \ {"unix"}
May(src, key) ==
    CASE src = "params" -> key \in Plain
      [] src = "env" -> key \in (Plain \ {"setting"}) \cup {"hostaddr", "requiressl", "notssl"}
      [] src \in {"over", "user", "sys"} -> key \in (Plain \ {"passfile", "timeout"}) \cup {"hostaddr"} \cup (IF "timeout" \in Keys THEN {"timeout"} ELSE {})
      [] src = "opt" -> key \in Keys \ {"passfile", "timeout", "password"}
      [] src = "iriopt" -> key \in Keys \ {"passfile"}
      [] src = "iri" -> key \in Keys
      [] src = "kw" -> key \in Keys
Ordered(src) == src \in {"over", "user", "sys", "opt", "iriopt"}
SrcRank(src) == CASE src = "params" -> 1 [] src = "env" -> 2 [] src = "over" -> 3 [] src = "user" -> 4 [] src = "sys" -> 5 [] src \in {"opt", "iriopt"} -> 6 [] src = "iri" -> 7 [] src = "kw" -> 8
KeyOrder == <<"user", "host", "hostaddr", "port", "unix", "database", "password", "sslmode", "requiressl", "notssl", "timeout", "tz", "setting", "passfile">>
KeyRank(key) == CHOOSE i \in 1 .. Len(KeyOrder) : KeyOrder[i] = key
\* the parameter a definition is for
Names(key) == CASE key = "hostaddr" -> "host" [] key \in {"requiressl"} -> "sslmode" [] OTHER -> key

Of(src) == SelectSeq(defs, LAMBDA d : d.src = src)
OfEnv == LET es == Of("env") IN
         SelectSeq(es, LAMBDA d : d.key = "requiressl") \o SelectSeq(es, LAMBDA d : d.key \notin EnvOnly) \o SelectSeq(es, LAMBDA d : d.key = "hostaddr")
\* the service is looked for in the overriding file, or else the user's, and then the one of the installation
Service == IF places = {} THEN << >>
           ELSE IF "over" \in places THEN Of("over")
           ELSE IF "user" \in places THEN Of("user") ELSE Of("sys")
Options == SelectSeq(defs, LAMBDA d : d.src \in {"opt", "iriopt"})
Defaults == IF mode = "nodefaults" THEN << >>
            ELSE << [src |-> "default", key |-> "user", val |-> 0], [src |-> "default", key |-> "host", val |-> 0], [src |-> "default", key |-> "port", val |-> 0] >>
                 \o (IF lines = << >> THEN << >> ELSE << [src |-> "default", key |-> "passfile", val |-> 0] >>)
Chain == Defaults \o Of("params") \o OfEnv \o Service
Value(s, key) == LET ds == SelectSeq(s, LAMBDA d : Names(d.key) = key) IN IF ds = << >> THEN -1 ELSE ds[Len(ds)].val
Has(s, key) == \E i \in 1 .. Len(s) : Names(s[i].key) = key
WithoutAddr(s) == SelectSeq(s, LAMBDA d : Names(d.key) \notin {"host", "port"})
Merged == IF mode = "open" THEN (IF Has(Of("iri") \o Of("kw"), "unix") THEN WithoutAddr(Chain) ELSE Chain) \o Of("iri") \o Of("kw")
          ELSE IF Has(Options, "unix") THEN WithoutAddr(Chain) \o Options
          ELSE Chain \o Options
AllKeys == {"user", "host", "port", "database", "password", "sslmode", "timeout", "tz", "setting", "unix", "passfile"}
Result == [k \in AllKeys |-> Value(Merged, k)]

\* --- the password file: the first line whose fields all match
Matches(l, r) == \A f \in {"host", "port", "database", "user"} : l[f] # "other"
Looked == LET ms == SelectSeq(lines, LAMBDA l : Matches(l, Result)) IN IF ms = << >> THEN -1 ELSE ms[1].pw
\* the given password; or else the one found by the password file
Password == IF Result["password"] # -1 THEN [given |-> Result["password"], line |-> -1] ELSE [given |-> -1, line |-> Looked]

Obs == [mode |-> mode, places |-> places, defs |-> defs, lines |-> lines, want |-> Result, password |-> Password]
Init == /\ mode \in Modes /\ places \in (IF "svc" \in Sources THEN SUBSET {"over", "user", "sys"} ELSE {{}})
        /\ (mode = "open" => places \in {{}, {"user"}, {"over"}})
        /\ defs = << >> /\ n = 0 /\ lines = << >> /\ act = [op |-> "start"] /\ obs = [none |-> 0]
Given == {"opt", "iriopt", "iri", "kw"}
Define(src, key) ==
    /\ n < N /\ lines = << >> /\ May(src, key)
    /\ (src \in {"over", "user", "sys"} => src \in places)
    /\ (src \in {"opt", "iriopt"} => mode # "open") /\ (src \in {"iri", "kw"} => mode = "open") /\ (src = "params" => mode # "open")
    \* definitions are made in the order of precedence, those of unordered sources in one order
    /\ (defs # << >> => LET d == Last(defs) IN
           \/ SrcRank(src) > SrcRank(d.src)
           \/ SrcRank(src) = SrcRank(d.src) /\ (Ordered(src) \/ KeyRank(key) > KeyRank(d.key)))
    /\ \A i \in 1 .. Len(defs) : defs[i].src = src => (defs[i].key # key \/ src \in {"opt", "iriopt"})
    /\ (key \in {"host", "hostaddr"} /\ src \in {"over", "user", "sys"} => ~\E i \in 1 .. Len(defs) : defs[i].src = src /\ Names(defs[i].key) = "host")
    /\ (key = "notssl" => ~\E i \in 1 .. Len(defs) : defs[i].key = "requiressl")
    \* explicit addresses do not conflict
    /\ (key = "unix" => ~\E i \in 1 .. Len(defs) : defs[i].src \in Given /\ defs[i].key \in {"host", "port"})
    /\ (key \in {"host", "port"} /\ src \in Given => ~\E i \in 1 .. Len(defs) : defs[i].src \in Given /\ defs[i].key = "unix")
    /\ n' = n + 1 /\ defs' = Append(defs, [src |-> src, key |-> key, val |-> n + 1])
    /\ act' = [op |-> "define", src |-> src, key |-> key]
    /\ UNCHANGED <<mode, places, lines>>
AddLine(l) == /\ n <= LineAt /\ Len(lines) < Lines /\ lines' = Append(lines, [host |-> l[1], port |-> l[2], database |-> l[3], user |-> l[4], pw |-> Len(lines) + 1])
              /\ mode # "nodefaults" /\ places = {}
              /\ act' = [op |-> "line"] /\ UNCHANGED <<mode, places, defs, n>>
Next == /\ \/ \E src \in {"params", "env", "over", "user", "sys", "opt", "iriopt", "iri", "kw"} \cap (Sources \cup (IF "svc" \in Sources THEN {"over", "user", "sys"} ELSE {})) : \E key \in Keys \cup EnvOnly : Define(src, key)
           \/ \E l \in LineSet : AddLine(l)
        /\ obs' = Obs'
        /\ TRUE
Spec == Init /\ [][Next]_vars
Edge == CSVWrite("%1$s", <<ToJson(<<St, act', obs', St'>>)>>, IOEnv.EDGES)

\* an option always wins, a default never does
Wins == /\ \A k \in AllKeys : Has(Options, k) /\ mode # "open" => \E i \in 1 .. Len(Options) : Options[i].val = Result[k]
        /\ \A k \in AllKeys : Result[k] = 0 => ~Has(Of("params") \o OfEnv \o Service \o Options \o Of("kw") \o Of("iri"), k)
        /\ ~(Result["unix"] # -1 /\ Result["host"] # -1 /\ (mode = "open" \/ Has(Options, "unix")))
        /\ (\A i \in 1 .. Len(lines) : ~Matches(lines[i], Result)) => Looked = -1
=================================================================================
