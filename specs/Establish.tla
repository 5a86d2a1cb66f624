------------------------------ MODULE Establish ------------------------------
(* P05.  Establishing a connection: the client's attempts over NAddr           *)
(* addresses under a security mode, against servers that answer anything at     *)
(* every step.  An attempt is [addr, req]: req = "none" (plain), "try" (ask for  *)
(* encryption, go on without if the server declines), "must".                    *)
(* Each step is one answer of the network or of the server (act) and what the    *)
(* client must do next (obs): the next thing it sends, and over which channel,   *)
(* or failing the attempt, or being connected.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Modes, MaxAddr
VARIABLES mode, naddr, i, phase, enc, asked, act, obs
vars == <<mode, naddr, i, phase, enc, asked, act, obs>>
View == <<mode, naddr, i, phase, enc, asked>>
St == [mode |-> mode, naddr |-> naddr, i |-> i, phase |-> phase, enc |-> enc, asked |-> asked]

\* documented order: disable, require: one attempt per address; allow: without, then with; prefer: with, then without
PerAddr(m) == CASE m = "disable" -> <<"none">> [] m = "require" -> <<"must">> [] m = "allow" -> <<"none", "must">> [] m = "prefer" -> <<"try", "none">>
NAtt == naddr * Len(PerAddr(mode))
Req(k) == PerAddr(mode)[((k - 1) % Len(PerAddr(mode))) + 1]
AddrOf(k) == ((k - 1) \div Len(PerAddr(mode))) + 1
First(k) == Len(PerAddr(mode)) = 2 /\ k % 2 = 1

Init == /\ mode \in Modes /\ naddr \in 1 .. MaxAddr /\ i = 1 /\ phase = "connect" /\ enc = FALSE /\ asked = "no"
        /\ act = [op |-> "start"] /\ obs = [send |-> "nothing"]
Go(p, e, a) == phase' = p /\ enc' = e /\ asked' = a /\ UNCHANGED <<mode, naddr, i>>
Say(what) == [send |-> what, enc |-> enc', i |-> i, addr |-> AddrOf(i)]
\* the attempt failed.  A second attempt on the same address is pointless if the address itself cannot be reached or if
\* the first one already went on without encryption
FailAttempt(code, pointless) ==
    LET nxt == i + (IF pointless /\ First(i) THEN 2 ELSE 1) IN
    /\ UNCHANGED <<mode, naddr>> /\ enc' = FALSE /\ asked' = "no"
    /\ i' = (IF nxt > NAtt THEN NAtt + 1 ELSE nxt)
    /\ phase' = (IF nxt > NAtt THEN "failed" ELSE "connect")
    /\ obs' = [send |-> "fail", code |-> code, i |-> i, addr |-> AddrOf(i), enc |-> enc, over |-> phase' = "failed"]
Plain == asked = "declined"
Connect(a) == /\ phase = "connect" /\ act' = [op |-> "connect", a |-> a, req |-> Req(i)]
    /\ \/ a = "ok" /\ Go(IF Req(i) = "none" THEN "auth" ELSE "ssl", FALSE, "no") /\ obs' = Say(IF Req(i) = "none" THEN "startup" ELSE "sslrequest")
       \/ a # "ok" /\ FailAttempt("connect", TRUE)
SSLAnswer(a) == /\ phase = "ssl" /\ act' = [op |-> "ssl", a |-> a]
    /\ \/ a \in {"S", "Sjunk"} /\ Go("tls", FALSE, "yes") /\ obs' = Say("handshake")
       \/ a = "N" /\ Req(i) = "try" /\ Go("auth", FALSE, "declined") /\ obs' = Say("startup")
       \/ a = "N" /\ Req(i) = "must" /\ FailAttempt("--SEC", FALSE)
       \/ a \in {"E", "junk", "eof", "reset", "resetsend"} /\ FailAttempt("08", FALSE)
TLS(a) == /\ phase = "tls" /\ act' = [op |-> "tls", a |-> a]
    /\ \/ a = "ok" /\ Go("auth", TRUE, "yes") /\ obs' = Say("startup")
       \/ a \in {"fail", "oserror"} /\ FailAttempt("--SEC", FALSE)
Lost == {"eof", "reset", "resetsend"}
Auth(a) == /\ phase = "auth" /\ act' = [op |-> "auth", a |-> a]
    /\ \/ a = "ok" /\ Go("params", enc, asked) /\ obs' = Say("nothing")
       \/ a \in {"cleartext", "md5", "crypt"} /\ Go("password", enc, asked) /\ obs' = Say("pw-" \o a)
       \/ a \in {"kerberos4", "kerberos5", "scm", "gss", "sspi", "sasl", "unknown"} /\ FailAttempt("--AUT", Plain)
       \/ a = "error" /\ FailAttempt("28000", Plain)
       \/ a = "weird" /\ FailAttempt("08P01", Plain)
       \/ a \in Lost /\ FailAttempt("08", Plain)
Password(a) == /\ phase = "password" /\ act' = [op |-> "password", a |-> a]
    /\ \/ a = "ok" /\ Go("params", enc, asked) /\ obs' = Say("nothing")
       \/ a = "error" /\ FailAttempt("28P01", Plain)
       \/ a \in {"again", "weird"} /\ FailAttempt("08P01", Plain)
       \/ a \in Lost /\ FailAttempt("08", Plain)
Params(a) == /\ phase = "params" /\ act' = [op |-> "params", a |-> a]
    /\ \/ a = "notice" /\ asked # "noticed" /\ asked # "declinednoticed" /\ UNCHANGED <<mode, naddr, i, phase, enc>> /\ asked' = (IF Plain THEN "declinednoticed" ELSE "noticed") /\ obs' = Say("nothing")
       \/ a = "ready" /\ Go("session", enc, asked) /\ obs' = Say("query")
       \/ a = "error" /\ FailAttempt("3D000", asked \in {"declined", "declinednoticed"})
       \/ a \in {"nokey", "noready", "weird"} /\ FailAttempt("08P01", asked \in {"declined", "declinednoticed"})
       \/ a \in Lost /\ FailAttempt("08", asked \in {"declined", "declinednoticed"})
\* the first attempt that succeeds is used; losing it while the session is initialized is the outcome
Session(a) == /\ phase = "session" /\ act' = [op |-> "session", a |-> a] /\ UNCHANGED <<mode, naddr, i, enc, asked>>
    /\ phase' = (IF a \in {"ok", "nonconforming"} THEN "up" ELSE "broken")
    /\ obs' = [send |-> IF a \in {"ok", "nonconforming"} THEN "connected" ELSE "broken", enc |-> enc, i |-> i, addr |-> AddrOf(i)]
Next == \/ \E a \in {"ok", "refused", "timeout", "unreachable"} : Connect(a)
        \/ \E a \in {"S", "Sjunk", "N", "E", "junk", "eof", "reset", "resetsend"} : SSLAnswer(a)
        \/ \E a \in {"ok", "fail", "oserror"} : TLS(a)
        \/ \E a \in {"ok", "cleartext", "md5", "crypt", "kerberos4", "kerberos5", "scm", "gss", "sspi", "sasl", "unknown", "error", "weird"} \cup Lost : Auth(a)
        \/ \E a \in {"ok", "error", "again", "weird"} \cup Lost : Password(a)
        \/ \E a \in {"notice", "ready", "error", "nokey", "noready", "weird", "eof", "reset"} : Params(a)
        \/ \E a \in {"ok", "nonconforming", "error", "eof"} : Session(a)
Spec == Init /\ [][Next]_vars
Secret == obs.send \in {"startup", "query", "pw-cleartext", "pw-md5", "pw-crypt"}
\* security required: nothing but the request for encryption goes over a plain channel
NoPlainSecrets == (mode = "require" /\ Secret) => obs.enc
NeverAsked == (mode = "disable") => obs.send \notin {"sslrequest", "handshake"}
PlainConnected == (mode = "require" /\ phase = "up") => enc
EveryAddress == phase = "failed" => i = NAtt + 1
Edge == CSVWrite("%1$s", <<ToJson(<<St, act', obs', St'>>)>>, IOEnv.EDGES)
=============================================================================
