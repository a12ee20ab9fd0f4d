----------------------------- MODULE PolicyCases -----------------------------
(* Policy documents and requests for conformance; the document's own domain   *)
(* is the character "DOM", another (unknown) domain is "OTH".                 *)
EXTENDS PolicyDecision, Randomization
CONSTANTS Delims, NRandom, Pairs, Bigs
VARIABLE case

\* ("DOMU" is the own domain in upper case)
A(role, act, rdom, res, eff) == [ rod |-> <<"DOM">>, role |-> role, act |-> act, rdom |-> rdom, res |-> res, eff |-> eff ]

Roles  == { <<"r">>, <<"s">> }
Uni == { A(r, a, d, x, e) : r \in Roles, a \in {<<"a">>, <<"*">>}, d \in {<<"DOM">>, <<"OTH">>},
                            x \in {<<"x">>, <<"*">>}, e \in {"allow", "deny"} }
\* requests: [dom, roles, act, res]
Q(d, rs, a, x) == [ dom |-> d, roles |-> rs, act |-> a, res |-> x ]
r == <<"r">>  s == <<"s">>  t == <<"t">>
RoleLists == { <<>>, <<r>>, <<s>>, <<t>>, <<r, s>>, <<s, r>>, <<r, r>>, <<t, r>>, <<r, t, s>> }
ReqsMain == SetToSeq({ Q(<<"DOM">>, rs, a, x) : rs \in RoleLists, a \in {<<"a">>, <<"A">>, <<"b">>}, x \in {<<"x">>, <<"y">>} }
             \cup { Q(d, <<r, s>>, <<"a">>, <<"x">>) : d \in { <<"OTH">>, <<"*">>, <<>>, <<"DOMU">> } }
             \cup { Q(<<"DOM">>, <<<<"*">>>>, <<"a">>, <<"x">>), Q(<<"DOM">>, <<<<"R">>, <<"?">>>>, <<"a">>, <<"x">>) })

Doc(ps) == ps
Res(doc, reqs) == [ k \in 1..Len(reqs) |->
   LET d == Decide(doc, reqs[k].dom, reqs[k].roles, reqs[k].act, reqs[k].res) IN SetToSeq(d) ]
\* rq names a request universe printed once, or is "inline"
Case(doc, reqs, rq) == [ doc |-> doc, reqs |-> reqs, rq |-> rq, exp |-> Res(doc, reqs) ]

\* random documents over a wider universe
WRole == {<<"r">>, <<"s">>, <<"*">>, <<"R">>, <<"r", ":", "s">>}
WAct == {<<"a">>, <<"*">>, <<"A">>, <<"b">>, <<"a", "*">>, <<"?">>}
WRes == {<<"x">>, <<"*">>, <<"X">>, <<"y">>, <<"*", "y">>, <<"x", ":", "y">>, <<>>}
WEff == {"allow", "deny", "DENY", "Deny", "ALLOW", ""}
RA(i) == A(RandomElement(WRole), RandomElement(WAct), RandomElement({<<"DOM">>, <<"DOM">>, <<"DOM">>, <<"DOMU">>, <<"OTH">>}), RandomElement(WRes), RandomElement(WEff))
RandPol(k) == [ i \in 1..k |-> RA(i) ]
RandDoc(k) == [ i \in 1..(1 + (k % 4)) |-> RandPol(RandomElement({((k + i) % 5), i})) ]
ReqsWide == SetToSeq({ Q(<<"DOM">>, rs, a, x) :
              rs \in { <<r>>, <<s>>, <<r, s>>, <<s, r>>, <<<<"R">>, r>>, <<<<"*">>, s>>, <<<<"r", ":", "s">>>>, <<r, s, <<"*">>, t>> },
              a \in {<<"a">>, <<"A", "b">>}, x \in {<<"x">>, <<"X", ":", "Y">>, <<>>} }
             \cup { Q(<<"OTH">>, <<r, s>>, <<"a">>, <<"x">>) })

\* documents whose names collide when joined with a delimiter
Cat(c, x, y) == IF c = "" THEN x \o y ELSE x \o <<c>> \o y
DelimUni(c) == { A(ro, ac, <<"DOM">>, <<"x">>, e) : ro \in {<<"r">>, Cat(c, <<"r">>, <<"a">>)}, ac \in {<<"b">>, Cat(c, <<"a">>, <<"b">>)}, e \in {"allow", "deny"} }
DelimReqs(c) == SetToSeq({ Q(<<"DOM">>, rs, a, <<"x">>) : rs \in { <<<<"r">>>>, <<Cat(c, <<"r">>, <<"a">>)>> }, a \in {<<"b">>, Cat(c, <<"a">>, <<"b">>)} })
DR(c) == Cat(c, <<"y">>, <<"DOM", ":", "x">>)
DelimUni2(c) == { A(<<"r">>, ac, <<"DOM">>, re, e) : ac \in {<<"a">>, Cat(c, <<"a">>, <<"DOM", ":", "y">>)}, re \in {<<"x">>, DR(c)}, e \in {"allow", "deny"} }
DelimReqs2(c) == SetToSeq({ Q(<<"DOM">>, <<<<"r">>>>, a, x) : a \in {<<"a">>, Cat(c, <<"a">>, <<"DOM", ":", "y">>)}, x \in {<<"x">>, DR(c)} })

\* large documents: shape <<policies, assertions of each, roles, actions and resources, roles of a request>>
Shapes == << <<1, 300, 70, 6, 64>>, <<130, 2, 40, 4, 30>>, <<20, 15, 5, 8, 5>>, <<1, 1500, 1, 300, 2>>, <<3, 40, 200, 1, 130>>, <<2, 100, 2, 70, 2>>, <<260, 1, 20, 3, 17>> >>
Nm(c, i) == << c \o ToString(i) >>
RE(S) == RandomElement(S)
BigAct(i, n) == IF RE(1..25) = 1 THEN <<"*">> ELSE Nm("a", RE(IF i > 0 THEN 1..n ELSE {}))
BigRes(i, n) == IF RE(1..25) = 1 THEN <<"*">> ELSE Nm("x", RE(IF i > 0 THEN 1..n ELSE {}))
BigAss(i, sh) == A(Nm("r", RE(1..sh[3])), BigAct(i, sh[4]), IF RE(1..12) = 1 THEN <<"OTH">> ELSE <<"DOM">>, BigRes(i, sh[4]), IF RE(1..(5 * sh[3])) = 1 THEN "deny" ELSE "allow")
BigDoc(k, sh) == [ i \in 1..sh[1] |-> [ j \in 1..sh[2] |-> BigAss(i + j, sh) ] ]
\* requests: most about something an assertion mentions; the roles of the assertion last or first
BigReq(i, doc, sh) == LET a == RE(ToSet(doc[RE(1..Len(doc))]))
                          others == [ j \in 1..RE(0..sh[5]) |-> Nm("r", RE(1..(sh[3] + 3))) ] IN
   Q(<<"DOM">>, IF i % 3 = 0 THEN others ELSE IF i % 3 = 1 THEN others \o <<a.role>> ELSE <<a.role>> \o others, IF a.act = <<"*">> THEN Nm("a", 1) ELSE a.act, IF a.res = <<"*">> THEN Nm("x", 1) ELSE a.res)
BigReqs(doc, sh) == [ i \in 1..10 |-> BigReq(i, doc, sh) ]
Init ==
  \/ \E k \in 1..Bigs : \E d \in { BigDoc(k, Shapes[1 + (k % Len(Shapes))]) } : \E rq \in { BigReqs(d, Shapes[1 + (k % Len(Shapes))]) } : case = Case(d, rq, "inline")
  \/ \E a \in Uni : case = Case(<<<<a>>>>, ReqsMain, "main")
  \/ case = Case(<<>>, ReqsMain, "main")
  \/ case = Case(<<<<>>>>, ReqsMain, "main")
  \/ /\ Pairs
     /\ \E a, b \in Uni : case = Case(<<<<a, b>>>>, ReqsMain, "main") \/ (a.eff # b.eff /\ case = Case(<<<<a>>, <<b>>>>, ReqsMain, "main"))
  \/ \E c \in Delims : \E a, b \in DelimUni(c) : case = Case(<<<<a, b>>>>, DelimReqs(c), "inline") \/ case = Case(<<<<a>>, <<b>>>>, DelimReqs(c), "inline")
  \/ \E c \in Delims : \E a, b \in DelimUni2(c) : case = Case(<<<<a, b>>>>, DelimReqs2(c), "inline")
  \/ \E k \in 1..NRandom : \E d \in {RandDoc(k)} : case = Case(d, ReqsWide, "wide")
Next == FALSE /\ UNCHANGED case

\* laws of the property: permuting/merging policies and roles, duplicates, monotonicity of deny
Swap(doc) == [ i \in 1..Len(doc) |-> LET p == doc[Len(doc) + 1 - i] IN [ j \in 1..Len(p) |-> p[Len(p) + 1 - j] ] ]
Dec(doc, q) == Decide(doc, q.dom, q.roles, q.act, q.res)
Laws ==
  \A k \in { i \in 1..Len(case.reqs) : i % 11 = 0 \/ case.reqs[i].dom # <<"DOM">> } : LET q == case.reqs[k] IN
    /\ Dec(case.doc, q) = Dec(Swap(case.doc), q)
    /\ Dec(case.doc, q) = Dec(<<Flat(case.doc)>>, q)
    /\ Dec(case.doc, q) = Dec(case.doc \o case.doc, q)
    /\ Dec(case.doc, q) = Decide(case.doc, q.dom, Reverse(q.roles), q.act, q.res)
    /\ Dec(case.doc, q) \subseteq Range(q.roles)
    /\ LET noDeny == << SelectSeq(Flat(case.doc), LAMBDA a : ~IsDeny(a)) >> IN Dec(case.doc, q) \subseteq Dec(noDeny, q)
    /\ q.dom # <<"DOM">> => Dec(case.doc, q) = {}
ASSUME Emit("TR", [ rq |-> "main", def |-> ReqsMain ])
ASSUME Emit("TR", [ rq |-> "wide", def |-> ReqsWide ])
Out == Emit("TR", IF case.rq = "inline" THEN case ELSE [ doc |-> case.doc, rq |-> case.rq, exp |-> case.exp ])
=============================================================================
