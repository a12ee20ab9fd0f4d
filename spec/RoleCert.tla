------------------------------ MODULE RoleCert ------------------------------
(* C23: which role certificates are accepted. Texts are sequences of atoms.    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS NRandom, Full
VARIABLE case
IsPre(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Pos(s, a) == IF \E i \in DOMAIN s : s[i] = a THEN CHOOSE i \in DOMAIN s : s[i] = a /\ \A j \in 1..(i - 1) : s[j] # a ELSE 0
Split(s, a) == LET i == Pos(s, a) IN IF i = 0 THEN {} ELSE { << SubSeq(s, 1, i - 1), SubSeq(s, i + 1, Len(s)) >> }
\* the roles a certificate names: domain:role.name in the common name, prefix domain/role in the URIs
Named(c, pre) == Split(c.cn, ":role.") \cup UNION { IF IsPre(pre, c.uris[i]) THEN Split(SubSeq(c.uris[i], Len(pre) + 1, Len(c.uris[i])), "/") ELSE {} : i \in DOMAIN c.uris }
AllNamed(cs, pre) == UNION { Named(cs[i], pre) : i \in DOMAIN cs }
\* eff: the effects the policies have for the request's action and resource, per named role: a set of <<domain, role, effect>>
Accept(cs, pre, eff, on) == \/ ~on
                            \/ \E d \in { n[1] : n \in AllNamed(cs, pre) } :
                                 /\ \E n \in AllNamed(cs, pre) : n[1] = d /\ <<n[1], n[2], "allow">> \in eff
                                 /\ ~\E n \in AllNamed(cs, pre) : n[1] = d /\ <<n[1], n[2], "deny">> \in eff
\* ---- the universe
Names == << << <<"d">>, <<"x">> >>, << <<"d">>, <<"y">> >>, << <<"d">>, <<"y", "/", "x">> >>, << <<"e">>, <<"x">> >>, << <<"d", "p">>, <<"q">> >>, << <<"d">>, <<"p", "q">> >>,
            << <<"d">>, <<"x", ",", "y">> >>, << <<"d">>, <<"x", ":role.", "y">> >>, << <<"sub">>, <<"d", "/", "x">> >>, << <<"d">>, <<>> >>, << <<"d">>, <<"/", "x">> >>, << <<"e">>, <<"y">> >>, << <<"d", "p">>, <<"x">> >> >>
Pre == << <<"athenz://role/">>, <<"athenz://role/", "sub", "/">>, <<"custom://h/">> >>
Cns == { <<>>, <<"d">>, <<"d", ":role.", "x">>, <<"d", ":role.", "y">>, <<"e", ":role.", "x">>, <<"d", "p", ":role.", "q">>, <<"d", ":role.", "p", "q">>, <<"d", ":role.", "x", ":role.", "y">>,
         <<":role.", "x">>, <<"d", ":role.">>, <<"D", ":role.", "x">>, <<"d", ":role.", "X">>, <<"d", ".role.", "x">>, <<"d", ":Role.", "x">>, <<"d", ":role.", "x", ",", "y">>, <<" ", "d", ":role.", "x">>, <<"d", ":role.", "y", "/", "x">>,
         <<"athenz://role/", "d", "/", "x">>, <<"d", ":", "x">> }
Uris == { Pre[i] \o t : i \in 1..3, t \in { <<"d", "/", "x">>, <<"d", "/", "y">>, <<"e", "/", "x">>, <<"d", "p", "/", "q">>, <<"d", "/", "p", "q">>, <<"d", "/", "y", "/", "x">>, <<"d", "/", "/", "x">>, <<"d", "/">>, <<"/", "x">>, <<"d">>, <<>>, <<"D", "/", "x">>, <<"d", "/", "x", "/">>, <<"d", "/", "x", ",", "y">> } }
        \cup { << p, "d", "/", "x" >> : p \in {"athenz://roles/", "athenz://instanceid/", "spiffe://athenz/", "xathenz://role/", "athenz://Role/", "athenz:role/", "https://athenz.example/athenz://role/"} }
        \cup { <<"athenz://role", "/", "d", ":role.", "x">> }
        \* no prefix at all
        \cup { <<"d", "/", "x">>, <<"d", "/", "y">>, <<"/", "d", "/", "x">>, <<"//", "d", "/", "x">>, <<"role/", "d", "/", "x">>, <<"d", ":role.", "x">> }
        \* what a URI consists of beside host and path is part of its text
        \cup { Pre[1] \o t : t \in { <<"d", "/", "x", "?y">>, <<"d", "/", "x", "?">>, <<"d", "/", "x", "#y">>, <<"d", "?", "/", "x">>, <<"d", "/", "%78">>, <<"d", "%2F", "x">>, <<"%64", "/", "x">>, <<"d", "/", "x", ";y">>, <<"d", "/", ".", "/", "x">>, <<"d", "/", "..", "/", "d", "/", "x">> } }
        \cup { << p, "d", "/", "x" >> : p \in {"athenz://u@role/", "athenz://role:80/", "athenz://u:p@role/", "athenz:///role/", "//role/", "athenz://role//"} }
Cert(cn, us) == [ cn |-> cn, uris |-> us ]
R1(S) == RandomElement(S)
Named1 == { <<"d", ":role.", "x">>, <<"d", ":role.", "y">>, <<"e", ":role.", "x">>, <<"d", "p", ":role.", "q">>, <<"d", ":role.", "p", "q">> }
Uri1 == { Pre[1] \o t : t \in { <<"d", "/", "x">>, <<"d", "/", "y">>, <<"e", "/", "x">>, <<"d", "p", "/", "q">>, <<"d", "/", "p", "q">>, <<"d", "/", "y", "/", "x">>, <<"e", "/", "y">>, <<"d", "p", "/", "x">> } }
\* the effects: a function from names to "none", "allow", "deny", "both"
EffSet(f) == UNION { {<<Names[i][1], Names[i][2], e>> : e \in (CASE f[i] = "none" -> {} [] f[i] = "both" -> {"allow", "deny"} [] OTHER -> {f[i]}) } : i \in DOMAIN Names }
Effs == { [ i \in DOMAIN Names |-> CASE i = k -> e [] OTHER -> o ] : k \in DOMAIN Names, e \in {"allow", "deny", "none"}, o \in {"allow", "none", "deny"} }
Main == { [ i \in DOMAIN Names |-> "allow" ], [ i \in DOMAIN Names |-> IF i = 2 THEN "deny" ELSE "allow" ], [ i \in DOMAIN Names |-> IF i = 1 THEN "allow" ELSE "none" ], [ i \in DOMAIN Names |-> IF i = 4 THEN "both" ELSE "allow" ],
          [ i \in DOMAIN Names |-> IF i = 6 THEN "deny" ELSE "allow" ], [ i \in DOMAIN Names |-> IF i = 5 THEN "deny" ELSE "allow" ], [ i \in DOMAIN Names |-> IF i \in {5, 4} THEN "allow" ELSE "deny" ] }
RndCerts(k) == [ i \in 1..R1({1, 1, 2, 2, 3, 4}) |-> Cert(IF R1({0, 1, 2}) = 0 THEN R1(Cns) ELSE IF R1({0, 1}) = 0 THEN <<>> ELSE R1(Named1),
                                             [ j \in 1..R1({0, 1, 2, 3}) |-> IF R1({0, 1, 2, 3}) = 0 THEN R1(Uris) ELSE R1(Uri1) ]) ]
\* many roles and certificates; only the last ones are known to the policies
RECURSIVE Zs(_, _)
Zs(i, n) == IF i > n THEN <<>> ELSE << Pre[1] \o <<"d", "/", "z", ToString(i)>> >> \o Zs(i + 1, n)
Big == { <<Cert(<<>>, Zs(1, n) \o <<u>>)>> : n \in {7, 20, 40, 130}, u \in Uri1 } \cup { [ i \in 1..(n + 2) |-> IF i <= n THEN Cert(<<"d", ":role.", "z", ToString(i)>>, <<>>) ELSE Cert(<<>>, <<IF i = n + 1 THEN u ELSE v>>) ] : n \in {7, 20, 70}, u, v \in Uri1 }
C(cs, pre, f, on) == [ cs |-> cs, pre |-> pre, f |-> f, on |-> on ]
Init ==
  \* one name
  \/ \E n \in Cns, f \in Main : case = C(<<Cert(n, <<>>)>>, 1, f, TRUE)
  \/ \E u \in Uris, f \in Main, p \in 1..3 : case = C(<<Cert(<<>>, <<u>>)>>, p, f, TRUE)
  \/ \E f \in Main, on \in BOOLEAN, cs \in { <<>>, <<Cert(<<>>, <<>>)>>, <<Cert(<<>>, <<>>), Cert(<<"d", ":role.", "x">>, <<>>)>> } : case = C(cs, 1, f, on)
  \* two names: in one certificate, in two, the same name twice
  \/ \E n \in Named1, u \in Uri1, f \in Main : case \in { C(<<Cert(n, <<u>>)>>, 1, f, TRUE), C(<<Cert(<<>>, <<u>>), Cert(n, <<>>)>>, 1, f, TRUE) }
  \/ \E u, v \in Uri1, f \in Main : case \in { C(<<Cert(<<>>, <<u, v>>)>>, 1, f, TRUE), C(<<Cert(<<"x">>, <<u>>), Cert(<<"x">>, <<v>>)>>, 1, f, TRUE) }
  \* a certificate presented again among others
  \/ \E c \in { Cert(<<"d", ":role.", "x">>, <<>>), Cert(<<>>, <<Pre[1] \o <<"e", "/", "x">>>>), Cert(<<"x">>, <<>>) }, u \in Uri1, f \in Main : \E d \in {Cert(<<>>, <<u>>)} :
        case \in { C(<<c, c, d>>, 1, f, TRUE), C(<<c, d, c>>, 1, f, TRUE), C(<<d, c, c>>, 1, f, TRUE), C(<<c, d, d, c>>, 1, f, TRUE) }
  \/ \E cs \in Big, f \in { [ i \in DOMAIN Names |-> IF i = 2 THEN "deny" ELSE "allow" ], [ i \in DOMAIN Names |-> IF i = 1 THEN "allow" ELSE "none" ] } : case = C(cs, 1, f, TRUE)
  \/ Full /\ \E u, v \in Uri1, f \in Effs : case = C(<<Cert(<<>>, <<u, v>>)>>, 1, f, TRUE)
  \/ \E k \in 1..NRandom : \E f \in { R1(Effs), R1(Main) } : \E cs \in { RndCerts(k) } : case = C(cs, R1({1, 1, 1, 2, 3}), f, TRUE)
Next == FALSE /\ UNCHANGED case
Ok == Accept(case.cs, Pre[case.pre], EffSet(case.f), case.on)
\* laws
NoRoleNoAccess == case.on /\ AllNamed(case.cs, Pre[case.pre]) = {} => ~Ok
DenyBlocksDomain == \A d \in { n[1] : n \in AllNamed(case.cs, Pre[case.pre]) } :
   (\A n \in AllNamed(case.cs, Pre[case.pre]) : n[1] = d) /\ (\E n \in AllNamed(case.cs, Pre[case.pre]) : <<n[1], n[2], "deny">> \in EffSet(case.f)) => ~Ok \/ ~case.on
OrderIrrelevant == LET r == [ i \in DOMAIN case.cs |-> case.cs[Len(case.cs) + 1 - i] ] IN Ok = Accept(r, Pre[case.pre], EffSet(case.f), case.on)
Out == PrintT("TR " \o ToJson([ cs |-> case.cs, pre |-> Pre[case.pre], eff |-> [ i \in DOMAIN Names |-> [ d |-> Names[i][1], r |-> Names[i][2], e |-> case.f[i] ] ], on |-> case.on, ok |-> Ok ]))
=============================================================================
