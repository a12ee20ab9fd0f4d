---------------------------- MODULE AccessToken ----------------------------
(* C09 signature, key selection and time claims of access tokens,             *)
(* C10 certificate binding, C11 client ids.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Fam, NRandom
VARIABLE case

\* ---- the world: key sets per URL, [kid -> [key, typ]]
K(k, t) == [ key |-> k, typ |-> t ]
Athenz == "ATHENZ"
Sets == [ x \in {Athenz, "EXTRA", "EXTRA2"} |->
   CASE x = Athenz -> [ k1 |-> K("a1", "EC"), k2 |-> K("a2", "EC"), kr |-> K("ra", "RSA") ]
     [] x = "EXTRA" -> [ k1 |-> K("e1", "EC"), k3 |-> K("e3", "EC"), kr |-> K("re", "RSA") ]
     [] x = "EXTRA2" -> [ k4 |-> K("f4", "EC"), k9 |-> K("f9", "EC") ] ]
\* "none": no jku header. The others are not strings or not configured
UrlOf(jku) == IF jku \in {"none", "EMPTY"} THEN Athenz ELSE jku
\* the key the header selects; {} if none
KeyFor(t) == IF t.kid \in {"none", "", "NUM", "NULL", "LIST"} \/ t.jku \in {"NUM", "NULL", "LIST", "OBJ", "TRUE"} THEN {}
             ELSE IF UrlOf(t.jku) \notin DOMAIN Sets THEN {}
             ELSE IF t.kid \notin DOMAIN Sets[UrlOf(t.jku)] THEN {} ELSE { Sets[UrlOf(t.jku)][t.kid] }
AlgFor(typ) == IF typ = "EC" THEN {"ES256"} ELSE {"RS256", "PS256"}
Signature(t) == /\ t.tamper = ""
                /\ \E k \in KeyFor(t) : k.key = t.key /\ t.alg \in AlgFor(k.typ)
\* times: none / zero / past / one second ago / now / in one second / future
IsFuture(x) == x \in {"N1", "F", "FAR"}
Times(t) == /\ IsFuture(t.exp)
            /\ ~IsFuture(t.nbf) /\ ~IsFuture(t.iat)

\* ---- certificates: [none, cn, raw, nb (seconds after the token's issue time), uris]
Bound(c, t, crt) ==
  \/ ~c.bind
  \/ /\ ~crt.none
     /\ \/ t.thumb = crt.raw
        \/ /\ t.thumb \notin {"none", "NUM"}
           /\ c.offset # 0
           /\ crt.cn # "" /\ crt.cn = t.client
           /\ crt.nb + c.backdate >= 0 /\ crt.nb + c.backdate <= c.offset
        \/ \E u \in crt.uris : t.proxyOK /\ u \in t.proxy
Listed(c, t, crt) == ~c.verifyID \/ (~crt.none /\ crt.cn \in DOMAIN c.ids /\ t.client \in c.ids[crt.cn])
Accept(c, t, crt) == Signature(t) /\ Times(t) /\ Bound(c, t, crt) /\ Listed(c, t, crt)

\* ---- cases
Tok0 == [ alg |-> "ES256", kid |-> "k1", jku |-> "none", key |-> "a1", tamper |-> "", exp |-> "F", nbf |-> "none", iat |-> "P",
          client |-> "svc", thumb |-> "raw1", proxy |-> {}, proxyOK |-> TRUE ]
Cert0 == [ none |-> FALSE, cn |-> "svc", raw |-> "raw1", nb |-> 0, uris |-> {} ]
NoCert == [ Cert0 EXCEPT !.none = TRUE ]
Ids == [ svc |-> {"id1", "id2"}, svc2 |-> {"id3"}, Svc |-> {"id4"} ]
IdsE == [ x \in {"svc", "svc2", "Svc", ""} |-> IF x = "" THEN {"id0"} ELSE Ids[x] ]
Cfg0 == [ bind |-> FALSE, backdate |-> 0, offset |-> 0, verifyID |-> FALSE, ids |-> IdsE ]

Keys == {"a1", "a2", "ra", "e1", "e3", "re", "f4", "stranger", "rstranger"}
IsRSA(k) == k \in {"ra", "re", "rstranger"}
Algs == {"ES256", "RS256", "PS256", "none", "HS256", "HS256der", "HS256xy", "HS256jwk", "missing", "es256", "NONE", "ES384", "ES512", "HS512", "NULL", "NUM", ""}
Natural(t) == (t.alg \in {"RS256", "PS256"}) = IsRSA(t.key)
C09 == { [ c |-> Cfg0, t |-> [ Tok0 EXCEPT !.alg = a, !.kid = k, !.jku = j, !.key = s ], crt |-> NoCert ] :
           a \in {"ES256", "RS256", "PS256"}, k \in {"k1", "k2", "k3", "k4", "kr", "kx", "K1", "", "none"}, j \in {"none", Athenz, "EXTRA", "EXTRA2", "UNCONF", "ATHENZ/", "HTTPATHENZ", "EXTRA?", "EXTRA?x=1", "EXTRA#f", "EXTRA/", " EXTRA", "EXTRA ", "CASE EXTRA", "CASE ATHENZ", "NOQ ATHENZ", "QATHENZ", "HOST EXTRA", "REL", "EMPTY"}, s \in Keys }
       \cup { [ c |-> Cfg0, t |-> [ Tok0 EXCEPT !.kid = k, !.jku = j, !.alg = a ], crt |-> NoCert ] :
           k \in {"k1", "none", "", "NUM", "NULL", "LIST"}, j \in {"none", "NUM", "NULL", "LIST", "OBJ", "TRUE"}, a \in Algs }
       \cup { [ c |-> Cfg0, t |-> [ Tok0 EXCEPT !.alg = a, !.kid = k, !.key = IF k = "kr" THEN "ra" ELSE "a1" ], crt |-> NoCert ] : a \in Algs, k \in {"k1", "kr"} }
       \cup { [ c |-> Cfg0, t |-> [ Tok0 EXCEPT !.tamper = x ], crt |-> NoCert ] :
           x \in {"claims", "header", "sig", "sigtrunc", "sigempty", "nosig", "four", "swap", "garbage", "empty", "one", "space", "pad", "dup", "quoted", "jsonform"} }
       \cup { [ c |-> Cfg0, t |-> [ Tok0 EXCEPT !.exp = e, !.nbf = n, !.iat = i ], crt |-> NoCert ] :
           e \in {"none", "ZERO", "P", "P1", "N0", "N1", "F", "FAR"}, n \in {"none", "P", "N0", "N1", "F"}, i \in {"none", "P", "N0", "N1", "F"} }
Cfgs10 == [ bind : {TRUE}, backdate : {0, 5}, offset : {0, 10}, verifyID : {FALSE}, ids : {IdsE} ]
C10 == { [ c |-> c, t |-> [ Tok0 EXCEPT !.client = cl, !.thumb = th, !.iat = "P" ], crt |-> [ Cert0 EXCEPT !.cn = cn, !.raw = raw, !.nb = nb ] ] :
           c \in Cfgs10, cl \in {"svc", "svc2", ""}, th \in {"raw1", "none", "NUM", ""}, cn \in {"svc", "svc2", ""}, raw \in {"raw1", "raw2"},
           nb \in {0-3600, 0-11, 0-10, 0-6, 0-5, 0-4, 0-1, 0, 1, 4, 5, 6, 9, 10, 11, 16, 3600} }
       \cup { [ c |-> c, t |-> [ Tok0 EXCEPT !.thumb = th, !.proxy = p, !.proxyOK = ok ], crt |-> [ Cert0 EXCEPT !.raw = "raw2", !.cn = "svc2", !.uris = u, !.none = no ] ] :
           c \in { x \in Cfgs10 : x.backdate = 0 }, th \in {"raw1", "raw2", "none", "NUM"}, p \in SUBSET {"u1", "u2"}, u \in SUBSET {"u1", "u2", "u3", "EMPTY"}, ok \in BOOLEAN, no \in BOOLEAN }
       \* binding disabled: the certificate plays no role
       \cup { [ c |-> [ x EXCEPT !.bind = FALSE ], t |-> [ Tok0 EXCEPT !.thumb = th ], crt |-> [ Cert0 EXCEPT !.raw = "raw2", !.none = no ] ] : x \in Cfgs10, th \in {"raw1", "raw2", "none"}, no \in BOOLEAN }
       \* the binding never replaces the signature or the times
       \cup { [ c |-> c, t |-> [ Tok0 EXCEPT !.key = k, !.exp = e, !.thumb = th ], crt |-> [ Cert0 EXCEPT !.nb = 1 ] ] : c \in Cfgs10, k \in {"a1", "a2"}, e \in {"F", "P"}, th \in {"raw1", "raw9"} }
\* long lists: only one element of each matters
Many(p, n) == { p \o ToString(i) : i \in 1..n }
Big10 == { [ c |-> [ Cfg0 EXCEPT !.bind = TRUE ], t |-> [ Tok0 EXCEPT !.thumb = "raw9", !.proxy = Many("p", np) \cup x ], crt |-> [ Cert0 EXCEPT !.raw = "raw2", !.cn = "svc2", !.uris = Many("q", nq) \cup y ] ] :
           np \in {1, 9, 40, 300}, nq \in {0, 3, 20, 80}, x \in {{}, {"zz"}, {"aa"}}, y \in {{}, {"zz"}, {"p1"}, {"p9"}} }
Big11 == { [ c |-> [ Cfg0 EXCEPT !.verifyID = TRUE, !.ids = [ n \in Many("svc", 40) \cup {"svc"} |-> IF n = "svc" THEN Many("id", k) ELSE {n \o "id"} ] ], t |-> [ Tok0 EXCEPT !.client = cl ], crt |-> [ Cert0 EXCEPT !.cn = cn ] ] :
           k \in {1, 12, 70, 300}, cl \in {"id1", "id7", "id64", "id70", "id300", "id301", "svc7id", "svc40id", "svc"}, cn \in {"svc", "svc1", "svc7", "svc40", "svc41"} }
C11 == { [ c |-> [ Cfg0 EXCEPT !.verifyID = v, !.bind = b, !.ids = i ], t |-> [ Tok0 EXCEPT !.client = cl, !.key = k, !.exp = e, !.thumb = th ], crt |-> [ Cert0 EXCEPT !.cn = cn, !.none = no ] ] :
           v \in BOOLEAN, b \in BOOLEAN, i \in {Ids, IdsE}, cl \in {"id0", "id1", "id2", "id3", "id4", "", "svc", "ID1", "id", "id1,id2"}, k \in {"a1", "a2"}, e \in {"F", "P"}, th \in {"raw1", "raw2"},
           cn \in {"svc", "svc2", "Svc", "", "SVC", "other"}, no \in BOOLEAN }
\* random: everything together
RE(S) == RandomElement(S)
Mostly(good, other) == IF RE(1..10) > 1 THEN good ELSE other
RandCase(k) == LET cl == RE({"svc", "svc", "id1", "id3", "svc2", "", "id4"}) IN
  [ c |-> [ bind |-> RE(BOOLEAN), backdate |-> RE({0, 5}), offset |-> RE({0, 10, 3600}), verifyID |-> RE({TRUE, FALSE, FALSE}), ids |-> [ IdsE EXCEPT !.svc = @ \cup {"svc"} ] ],
    t |-> LET kj == Mostly(RE({ <<"k1", "none", "a1">>, <<"k1", Athenz, "a1">>, <<"k1", "EXTRA", "e1">>, <<"k3", "EXTRA", "e3">>, <<"kr", "none", "ra">>, <<"k4", "EXTRA2", "f4">> }), RE({ <<"k1", "none", "e1">>, <<"k3", "none", "e3">>, <<"k1", "EXTRA", "a1">> })) IN
          [ alg |-> IF IsRSA(kj[3]) THEN "RS256" ELSE "ES256", kid |-> kj[1], jku |-> kj[2], key |-> kj[3], tamper |-> Mostly("", RE({"claims", "sig"})),
            exp |-> Mostly(RE({"F", "FAR", "N1"}), RE({"P1", "N0", "none"})), nbf |-> Mostly(RE({"none", "N0", "P"}), "N1"), iat |-> Mostly(RE({"P", "N0"}), RE({"N1", "none"})), client |-> cl,
            thumb |-> RE({"raw1", "raw2", "none", "NUM", "raw1"}), proxy |-> RE(SUBSET {"u1", "u2"}), proxyOK |-> RE({TRUE, TRUE, FALSE}) ],
    crt |-> [ none |-> Mostly(FALSE, TRUE), cn |-> Mostly(IF cl = "" THEN "svc" ELSE cl, RE({"svc", "svc2", "", "Svc"})), raw |-> RE({"raw1", "raw1", "raw2"}), nb |-> RE({0-6, 0-5, 0-1, 0, 1, 5, 6, 10, 11}), uris |-> RE(SUBSET {"u1", "u3"}) ] ]
Cases == CASE Fam = "C09" -> C09 [] Fam = "C10" -> C10 \cup Big10 [] Fam = "C11" -> C11 \cup Big11 [] OTHER -> {}
Init == \/ case \in { x \in Cases : x.t.alg \notin {"ES256", "RS256", "PS256"} \/ Natural(x.t) }
        \/ \E k \in 1..NRandom : case \in { RandCase(k) }
Next == FALSE /\ UNCHANGED case
A(x) == Accept(x.c, x.t, x.crt)
\* laws
NeedsKey == A(case) => KeyFor(case.t) # {} /\ case.t.tamper = ""
BindLaw == A(case) /\ case.c.bind => ~case.crt.none
CertIrrelevant == ~case.c.bind /\ ~case.c.verifyID => (A(case) <=> Accept(case.c, case.t, [ case.crt EXCEPT !.none = ~@, !.cn = "zzz" ]))
NeverInstead == A(case) => Accept(Cfg0, case.t, NoCert)
SetSeq(S) == SetToSeq(S)
Out == PrintT("TR " \o ToJson([ c |-> [ bind |-> case.c.bind, backdate |-> case.c.backdate, offset |-> case.c.offset, verifyID |-> case.c.verifyID, ids |-> [ x \in DOMAIN case.c.ids |-> SetSeq(case.c.ids[x]) ] ],
   t |-> [ case.t EXCEPT !.proxy = SetSeq(case.t.proxy) ], crt |-> [ case.crt EXCEPT !.uris = SetSeq(case.crt.uris) ], ok |-> A(case) ]))
=============================================================================
