------------------------------- MODULE Config -------------------------------
(* C27 (and the configurations of C24): which configurations construction     *)
(* accepts, which addresses the accepted ones contact, and when. A duration   *)
(* is parsed here by its own grammar; the request schedule of the background   *)
(* updaters is a transition system whose periods come from the configuration   *)
(* (an empty one: the documented default).                                     *)
EXTENDS Strings, Integers
CONSTANTS Fam, MaxLen, NRandom
VARIABLES c, now, pk, jw, pol, log
vars == <<c, now, pk, jw, pol, log>>
R1(S) == RandomElement(S)
\* ---------------------------------------------------------------- durations
DurAtoms == {"-", "+", "0", "1", "5", ".", "h", "m", "s", "u", "n", "d", " ", "H"}
Digits == {"0", "1", "5"}
\* a duration: an optional sign, then "0" or one or more of number and unit
RECURSIVE NDig(_, _), NUnit(_, _)
NDig(s, i) == IF i <= Len(s) /\ s[i] \in Digits THEN 1 + NDig(s, i + 1) ELSE 0
NUnit(s, i) == IF i <= Len(s) /\ s[i] \notin Digits \cup {"."} THEN 1 + NUnit(s, i + 1) ELSE 0
Units == { <<"h">>, <<"m">>, <<"s">>, <<"m", "s">>, <<"u", "s">>, <<"n", "s">> }
NonZero(s, i, n) == \E j \in i..(i + n - 1) : s[j] # "0"
\* groups from position i: [ok, pos] where pos says that the value is at least a nanosecond
RECURSIVE Groups(_, _)
Groups(s, i) == IF i > Len(s) THEN [ ok |-> TRUE, pos |-> FALSE ]
                ELSE LET a == NDig(s, i)
                         dot == i + a <= Len(s) /\ s[i + a] = "."
                         b == IF dot THEN NDig(s, i + a + 1) ELSE 0
                         j == i + a + (IF dot THEN 1 + b ELSE 0)
                         u == NUnit(s, j)
                         un == SubSeq(s, j, j + u - 1)
                         rest == Groups(s, j + u) IN
                     IF a + b = 0 \/ u = 0 \/ un \notin Units \/ ~rest.ok THEN [ ok |-> FALSE, pos |-> FALSE ]
                     ELSE [ ok |-> TRUE, pos |-> rest.pos \/ NonZero(s, i, a) \/ (dot /\ un # <<"n", "s">> /\ NonZero(s, i + a + 1, b)) ]
Bare(s) == IF s # <<>> /\ s[1] \in {"-", "+"} THEN Tail(s) ELSE s
ParseDur(s) == IF Bare(s) = <<"0">> THEN [ ok |-> TRUE, pos |-> FALSE ]
               ELSE IF Bare(s) = <<>> THEN [ ok |-> FALSE, pos |-> FALSE ]
               ELSE LET g == Groups(Bare(s), 1) IN [ ok |-> g.ok, pos |-> g.ok /\ g.pos /\ s[1] # "-" ]
Periods == {"pubkeyRefresh", "etagPurge", "policyRefresh", "policyPurge", "jwkRefresh"}
Delays == {"pubkeyRetry", "etagExpiry", "policyMargin", "policyRetry", "jwkRetry", "certBack", "certOffset"}
\* a period that is not positive cannot be honoured: refusing it is left to the construction
DurOutcome(o, s) == IF s = <<>> THEN "accept" ELSE IF ~ParseDur(s).ok THEN "refuse" ELSE IF o \in Periods /\ ~ParseDur(s).pos THEN "any" ELSE "accept"
\* ---------------------------------------------------------------- addresses
UrlAtoms == {"http://", "https://", "ftp://", "x-y.z://", "h+1://", "httpss://", "athenz", "athenz.io", ":4443", "/zts/v1", "/"}
SchemeAtoms == {"http://", "https://", "ftp://", "x-y.z://", "h+1://", "httpss://"}
Trimmed(u) == IF u # <<>> /\ u[1] \in {"http://", "https://"} THEN Tail(u) ELSE u
\* a scheme may be glued to the letters, digits, '+', '-' and '.' before it
RECURSIVE HasScheme(_)
HasScheme(u) == IF u = <<>> THEN FALSE ELSE IF u[1] \in SchemeAtoms THEN TRUE ELSE u[1] \in {"athenz", "athenz.io"} /\ HasScheme(Tail(u))
WellFormed(u) == \/ u \in { <<"athenz">>, <<"athenz.io">>, <<"athenz.io", ":4443">>, <<"athenz", ":4443">> }
                 \/ u # <<>> /\ u[1] \in {"athenz", "athenz.io"} /\ \A i \in 2..Len(u) : u[i] \in {"/zts/v1", "/"} \/ (i = 2 /\ u[2] = ":4443")
Join(u) == u
Targets == [ good1 |-> "https://keys.example/jwks", good2 |-> "http://keys2.example:8080/a?b=c", same |-> "SAME", empty |-> "", rel |-> "keys.example/jwks", path |-> "/jwks",
             ftp |-> "ftp://keys.example/jwks", pct |-> "https://keys.example/%zz", port |-> "https://keys.example:x/", ctl |-> "https://keys.example/CTL", only |-> "://x", mailto |-> "mailto:x@y" ]
GoodTargets == {"good1", "good2", "same"}
\* "file" cases: an address, the sub-package or the facade that is given it, domains, system domain, extra key sets, what is disabled
Addr(u, via, sys, doms, extra, off) == [ url |-> u, via |-> via, sys |-> sys, doms |-> doms, extra |-> extra, off |-> off ]
NoRoute(off) == {"at", "rt", "rc"} \subseteq off
UsesJwk(x) == IF x.via = "facade" THEN "jwkd" \notin x.off ELSE x.via = "jwk"
UsesPk(x) == IF x.via = "facade" THEN "pubkeyd" \notin x.off ELSE x.via = "pubkey"
UsesPol(x) == IF x.via = "facade" THEN "policyd" \notin x.off ELSE x.via = "policy"
AddrOutcome(x) == LET u == Trimmed(x.url) IN
    IF HasScheme(u) THEN "refuse"
    ELSE IF UsesJwk(x) /\ \E i \in DOMAIN x.extra : x.extra[i] \notin GoodTargets THEN "refuse"
    ELSE IF x.via = "facade" /\ NoRoute(x.off) THEN "refuse"
    ELSE IF WellFormed(u) THEN "accept" ELSE "any"
Sys(x) == IF x.sys = "" THEN "sys.auth" ELSE x.sys
\* what one initialization contacts: pairs of a base and a path ("" base: the configured address)
Contacted(x) == (IF UsesPk(x) THEN { [ base |-> "", path |-> "/domain/" \o Sys(x) \o "/service/zts" ], [ base |-> "", path |-> "/domain/" \o Sys(x) \o "/service/zms" ] } ELSE {})
           \cup (IF UsesPol(x) THEN { [ base |-> "", path |-> "/domain/" \o x.doms[i] \o "/signed_policy_data" ] : i \in DOMAIN x.doms } ELSE {})
           \cup (IF UsesJwk(x) THEN { [ base |-> "", path |-> "/oauth2/keys?rfc=true" ] } \cup { [ base |-> Targets[x.extra[i]], path |-> "" ] : i \in { k \in DOMAIN x.extra : x.extra[k] # "same" } } ELSE {})
Offs == {"pubkeyd", "policyd", "jwkd", "at", "rt", "rc"}
AddrCases == { Addr(u, via, "", <<"dom">>, <<>>, {}) : u \in SeqsUpTo(UrlAtoms, 3), via \in {"facade", "pubkey", "policy", "jwk"} }
        \cup { Addr(u, via, sys, doms, extra, off) : u \in { <<"athenz">>, <<"https://", "athenz.io", ":4443", "/zts/v1">> }, via \in {"facade", "pubkey", "policy", "jwk"}, sys \in {"", "sys.x"},
               doms \in { <<>>, <<"dom">>, <<"d1", "d2">>, <<"d1", "d1">>, <<"d2", "a.b.c", "d1">> },
               extra \in { <<>> } \cup { <<k>> : k \in DOMAIN Targets } \cup { <<"good1", k>> : k \in DOMAIN Targets } \cup { <<k, "good2">> : k \in DOMAIN Targets }, off \in { {} } }
        \cup { Addr(<<"http://", "athenz">>, "facade", "", <<"d1", "d2">>, <<"good2">>, off) : off \in SUBSET Offs }
\* ---------------------------------------------------------------- the schedule of requests, in minutes
Mins(s, def) == CASE s = "" -> def [] s = "0s" -> 0 [] s = "3m" -> 3 [] s = "5m" -> 5 [] s = "7m" -> 7 [] s = "11m" -> 11 [] s = "25m" -> 25 [] s = "1h" -> 60 [] s = "10h" -> 600 [] s = "13h" -> 780
                 [] s = "25h" -> 1500 [] s = "50h" -> 3000 [] s = "1000h" -> 60000
PkR == Mins(c.pkR, 1440)      PkD == Mins(c.pkD, 1)      EtE == Mins(c.etE, 10080)
PolR == Mins(c.polR, 30)      PolM == Mins(c.polM, 180)  PolP == Mins(c.polP, 60)     PolD == Mins(c.polD, 1)
PolA == IF c.polA = 0 THEN 2 ELSE c.polA
JwkR == Mins(c.jwkR, 1440)    JwkD == Mins(c.jwkD, 1)
Dflt == [ pkR |-> "", pkD |-> "", etE |-> "", polR |-> "", polM |-> "", polP |-> "", polA |-> 0, polD |-> "", jwkR |-> "", jwkD |-> "", life |-> 60000, fail |-> FALSE, span |-> 1200, on |-> {} ]
SchedCases == { [ Dflt EXCEPT !.pkR = a, !.pkD = b, !.etE = e, !.jwkR = d, !.jwkD = f, !.fail = g, !.span = 16000, !.on = {"pk", "jwk"} ] : a \in {"", "50h", "10h"}, b \in {"", "7m"}, e \in {"", "25h"}, d \in {"", "13h"}, f \in {"", "5m"}, g \in BOOLEAN }
         \cup { [ Dflt EXCEPT !.polR = a, !.polM = b, !.polP = e, !.polA = d, !.polD = f, !.life = l, !.fail = g, !.on = {"pol"} ] :
                a \in {"", "11m", "1000h"}, b \in {"", "0s", "1h"}, e \in {"", "25m"}, d \in {0, 1, 4}, f \in {"", "3m"}, l \in {47, 203, 407}, g \in BOOLEAN }
Ev(ep, cond) == [ ep |-> ep, at |-> now, cond |-> cond ]
NextMul(p, t) == (t \div p + 1) * p
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
\* the first initialization
SchedInit == /\ now = 0
             /\ pk = [ at |-> PkR, tag |-> 0, failed |-> FALSE ] /\ jw = [ at |-> JwkR, failed |-> FALSE ]
             /\ pol = [ exp |-> c.life, upd |-> 0, tries |-> 0, at |-> 0 ]
             /\ log = [ k \in c.on |-> << [ at |-> 0, cond |-> FALSE ] >> ]
\* when the policies are requested next: a refresh tick, or the purge that finds them expired, or the next attempt of a failing fetch
Purge(p) == p.upd + ((p.exp - p.upd + PolP - 1) \div PolP) * PolP
PolNext == IF pol.tries > 0 THEN pol.at ELSE MinOf({ NextMul(PolR, now), Purge(pol) })
Due == (IF "pk" \in c.on THEN { pk.at } ELSE {}) \cup (IF "jwk" \in c.on THEN { jw.at } ELSE {}) \cup (IF "pol" \in c.on THEN { pol.at } ELSE {})
Log(k, cond) == log' = [ log EXCEPT ![k] = Append(@, [ at |-> now, cond |-> cond ]) ]
Tick == /\ now \notin Due /\ now' = MinOf(Due) /\ now' <= c.span /\ UNCHANGED <<c, pk, jw, pol, log>>
\* a tag is used until its lifetime ends; the server answers 304 while the tag is sent
PkReq == /\ "pk" \in c.on /\ now = pk.at
         /\ LET cond == now - pk.tag < EtE
                bad == c.fail /\ now = PkR IN
            /\ Log("pk", cond)
            /\ pk' = [ at |-> IF bad THEN now + PkD ELSE NextMul(PkR, now), tag |-> IF bad \/ cond THEN pk.tag ELSE now, failed |-> bad ]
         /\ UNCHANGED <<c, now, jw, pol>>
JwkReq == /\ "jwk" \in c.on /\ now = jw.at
          /\ LET bad == c.fail /\ now = JwkR IN Log("jwk", FALSE) /\ jw' = [ at |-> IF bad THEN now + JwkD ELSE NextMul(JwkR, now), failed |-> bad ]
          /\ UNCHANGED <<c, now, pk, pol>>
\* the failing fetch: the first refresh, all its attempts
PolBad == c.fail /\ now >= PolR /\ now < 2 * PolR
PolAfter(p) == IF p.tries > 0 THEN p ELSE [ p EXCEPT !.at = MinOf({ NextMul(PolR, now), Purge(p) }) ]
PolReq == /\ "pol" \in c.on /\ now = pol.at
          /\ LET cond == now < pol.exp - PolM IN
             /\ Log("pol", cond)
             /\ pol' = IF PolBad /\ pol.tries < PolA THEN [ pol EXCEPT !.tries = @ + 1, !.at = now + PolD ]
                       \* the last attempt failed too: the policies in use stay (and are installed again) after one more delay
                       ELSE IF PolBad THEN PolAfter([ pol EXCEPT !.tries = 0, !.upd = now + PolD ])
                       ELSE PolAfter([ pol EXCEPT !.tries = 0, !.upd = now, !.exp = IF cond THEN @ ELSE now + c.life ])
          /\ UNCHANGED <<c, now, pk, jw>>
\* moments at which two things happen at once are not compared: such configurations are left out
Tie == \/ "pol" \in c.on /\ (\/ pol.tries = 0 /\ NextMul(PolR, now) = Purge(pol)
                             \/ now = pol.at /\ pol.exp - PolM = now
                             \/ pol.exp = now \/ Purge(pol) = pol.exp
                             \/ c.fail /\ (PolA + 1) * PolD >= PolR
                             \/ c.fail /\ Purge(pol) <= 2 * PolR + PolR)
       \/ "pk" \in c.on /\ now = pk.at /\ now - pk.tag = EtE
SchedEnd == now \notin Due /\ MinOf(Due) > c.span
Empty == [ x \in {} |-> 0 ]
\* ---------------------------------------------------------------- hostile configurations (C24): whatever is accepted must not crash
Odd == {"", "0s", "-1s", "1ns", "1ms", "-1ns", "2562047h47m16.854775807s", "-2562047h47m16.854775808s", "9223372036854775807ns", "24h", "x", "1", ".s"}
OddNeg == { "retry-neg", "retry-min", "retry-zero", "cache-zero", "cache-neg", "cache-one", "cache-max", "nil-client", "nil-translator", "nil-doms", "empty-dom", "dup-dom", "slash-dom", "pct-dom", "no-pubkeyd", "no-policyd", "no-jwkd",
            "no-at", "no-rt", "no-rc", "empty-header", "odd-header", "empty-prefix", "odd-prefix", "res-prefix", "zero-param", "nil-clients", "empty-url", "pct-url", "space-url", "nil-urls", "dup-urls", "bare-rules", "empty-rules", "pkg-nil-client", "pkg-bare" }
HostCases == { [ durs |-> << [ o |-> o, v |-> v ] >>, odd |-> {x} ] : o \in Periods \cup Delays, v \in Odd, x \in {"none"} }
        \cup { [ durs |-> <<>>, odd |-> {x, y} ] : x \in OddNeg, y \in OddNeg }
HostRnd == { [ durs |-> [ i \in 1..R1(0..4) |-> [ o |-> R1(Periods \cup Delays), v |-> R1(Odd) ] ], odd |-> { R1(OddNeg) : j \in 1..R1(1..6) } ] : k \in 1..NRandom }
\* ---------------------------------------------------------------- the lifetime of a granted decision, in seconds ("": the default)
CacheCases == { [ exp |-> e, ttl |-> IF e = 0 THEN 60 ELSE e, probe |-> p ] : e \in {0, 30, 60, 150}, p \in {-20, -5, 5, 20} }
CacheOut == IF c.probe < 0 THEN "granted" ELSE "denied"
\* ---------------------------------------------------------------- nothing given: the documented defaults decide
AT == INSTANCE AccessToken WITH Fam <- "none", NRandom <- 0, case <- 0
DefAT == [ bind |-> TRUE, backdate |-> 3600, offset |-> 3600, verifyID |-> FALSE, ids |-> [ x \in {} |-> {} ] ]
\* what may be given instead: "at1" other durations, "at2" no binding but client ids, "at0" no access tokens at all
GivenAT(g) == IF "at1" \in g THEN [ DefAT EXCEPT !.backdate = 1800, !.offset = 1200 ] ELSE IF "at2" \in g THEN [ DefAT EXCEPT !.bind = FALSE, !.verifyID = TRUE, !.ids = [ x \in {"svc"} |-> {"id1"} ] ] ELSE DefAT
HdrOf(g) == IF "hdr" \in g THEN "X-Role" ELSE "Athenz-Role-Auth"
PreOf(g) == IF "pre" \in g THEN "x://y/" ELSE "athenz://role/"
BaseOf(g) == IF "url" \in g THEN "https://given.example/x" ELSE "https://athenz.io/zts/v1"
Givens == { g \in SUBSET {"url", "at0", "at1", "at2", "hdr", "pre", "nort", "norc"} : Cardinality(g \cap {"at0", "at1", "at2"}) <= 1 /\ ~({"at0", "nort", "norc"} \subseteq g) }
P0 == [ kind |-> "at", thumb |-> "raw1", none |-> FALSE, cn |-> "svc", client |-> "svc", nb |-> 0, name |-> "", secs |-> 0 ]
Probes == { [ P0 EXCEPT !.thumb = th, !.none = no, !.cn = n, !.client = cl, !.nb = b ] : th \in {"raw1", "raw9"}, no \in BOOLEAN, n \in {"svc", "svc2"}, cl \in {"svc", "id1"}, b \in {0-3601, 0-3600, 0-1801, 0-1800, 0-600, 0-599, 0, 1} }
     \cup { [ P0 EXCEPT !.kind = "rt", !.name = n ] : n \in {"Athenz-Role-Auth", "athenz-role-auth", "X-Role", "Yahoo-Role-Auth", "Athenz-Principal-Auth"} }
     \cup { [ P0 EXCEPT !.kind = "rc", !.name = n ] : n \in {"athenz://role/", "x://y/", "athenz://Role/", "athenz://group/"} }
     \cup { [ P0 EXCEPT !.kind = "slow", !.name = k, !.secs = s ] : k \in {"zts", "zms", "pol", "jwk"}, s \in {0, 29, 31} }
DefCases == { [ given |-> g, probe |-> p ] : g \in { x \in Givens : Cardinality(x) <= 1 } \cup { {"url", "at1", "hdr", "pre"}, {"at0", "nort"}, {"at0", "norc"}, {"nort", "norc"}, {"url", "at2", "norc"} }, p \in Probes }
DefOut(x) == LET p == x.probe  g == x.given IN
    CASE p.kind = "at" -> /\ "at0" \notin g
                          /\ LET t == [ AT!Tok0 EXCEPT !.thumb = p.thumb, !.client = p.client ]  crt == [ AT!Cert0 EXCEPT !.none = p.none, !.cn = p.cn, !.nb = p.nb ] IN AT!Accept(GivenAT(g), t, crt)
      [] p.kind = "rt" -> "nort" \notin g /\ (p.name = HdrOf(g) \/ (p.name = "athenz-role-auth" /\ "hdr" \notin g))
      [] p.kind = "rc" -> p.name = PreOf(g)  \* asked directly: the route for requests is documented as not implemented
      [] OTHER -> p.secs < 30
\* ----------------------------------------------------------------
Idle == now = 0 /\ pk = Empty /\ jw = Empty /\ pol = Empty /\ log = Empty
Init == CASE Fam = "durs" -> c \in { [ o |-> o, s |-> s ] : o \in Periods \cup Delays, s \in SeqsUpTo(DurAtoms, MaxLen) } /\ Idle
          [] Fam = "durrnd" -> c \in { [ o |-> R1(Periods \cup Delays), s |-> [ i \in 1..R1(MaxLen..(2 * MaxLen)) |-> R1({"0", "1", "5", ".", "h", "m", "s", "u", "n", "1", "s"}) ] ] : k \in 1..NRandom } /\ Idle
          [] Fam = "addr" -> c \in AddrCases /\ Idle
          [] Fam = "cache" -> c \in CacheCases /\ Idle
          [] Fam = "defs" -> c \in DefCases /\ Idle
          [] Fam = "host" -> c \in HostCases \cup HostRnd /\ Idle
          [] OTHER -> c \in SchedCases /\ now = 0 /\ pk = [ at |-> PkR, tag |-> 0, failed |-> FALSE ] /\ jw = [ at |-> JwkR, failed |-> FALSE ]
                      /\ pol = PolAfter([ exp |-> c.life, upd |-> 0, tries |-> 0, at |-> 0 ]) /\ log = [ k \in c.on |-> << [ at |-> 0, cond |-> FALSE ] >> ]
Next == Fam = "sched" /\ ~Tie /\ ~SchedEnd /\ (Tick \/ PkReq \/ JwkReq \/ PolReq)
\* laws
Laws == CASE Fam \in {"durs", "durrnd"} -> /\ ParseDur(c.s).pos => ParseDur(c.s).ok
                                           /\ (c.s # <<>> /\ c.s[1] \notin {"-", "+"}) => ParseDur(<<"-">> \o c.s).ok = ParseDur(c.s).ok
          [] Fam = "addr" -> AddrOutcome(c) = "accept" => Contacted(c) # {} \/ c.off \cap {"pubkeyd", "policyd", "jwkd"} # {} \/ c.doms = <<>>
          [] Fam = "sched" -> \A k \in DOMAIN log : /\ \A i \in 2..Len(log[k]) : log[k][i].at > log[k][i - 1].at
                                                   \* never longer than the refresh period between two requests
                                                   /\ \A i \in 2..Len(log[k]) : log[k][i].at - log[k][i - 1].at <= (CASE k = "pk" -> PkR [] k = "jwk" -> JwkR [] OTHER -> PolR)
          [] OTHER -> TRUE
Out == CASE Fam \in {"durs", "durrnd"} -> Emit("TR", [ fam |-> "durs", o |-> c.o, s |-> c.s, out |-> DurOutcome(c.o, c.s) ])
         [] Fam = "addr" -> Emit("TR", [ fam |-> "addr", x |-> c, extra |-> [ i \in DOMAIN c.extra |-> Targets[c.extra[i]] ], base |-> Trimmed(c.url), out |-> AddrOutcome(c),
                                         exact |-> WellFormed(Trimmed(c.url)), urls |-> IF AddrOutcome(c) = "refuse" THEN {} ELSE Contacted(c) ])
         [] Fam = "cache" -> Emit("TR", [ fam |-> "cache", exp |-> c.exp, at |-> c.ttl + c.probe, out |-> CacheOut ])
         [] Fam = "defs" -> Emit("TR", [ fam |-> "defs", given |-> c.given, probe |-> c.probe, ok |-> DefOut(c), url |-> BaseOf(c.given) ])
         [] Fam = "host" -> Emit("TR", [ fam |-> "host", h |-> c ])
         [] OTHER -> (Tie \/ ~SchedEnd) \/ Emit("TR", [ fam |-> "sched", cfg |-> c, log |-> log ])
=============================================================================
