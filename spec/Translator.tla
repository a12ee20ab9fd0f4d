----------------------------- MODULE Translator -----------------------------
(* C17 translation of a request by the mapping rules; C27 which rule sets are *)
(* valid. Templates are structured (literals and placeholders), their text is *)
(* only produced for the driver, so the result of a substitution is a plain   *)
(* concatenation and nothing in a value can be taken for a placeholder.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Fam, NRandom
VARIABLE case

\* an item of a path or the value of a query parameter of a rule
L(s) == [ ph |-> FALSE, s |-> s ]
P(s) == [ ph |-> TRUE, s |-> s ]
\* rule: [m method, segs <<items>>, q [param name -> item] as a sequence <<[k, it]>>, act, res <<items>>, hasq]
\* request: [d domain, m method, segs <<strings>>, q <<[kr, k, vr, v]>>, bad raw text of a malformed query, or ""]
LowM(m) == CASE m = "GET" -> "get" [] m = "Get" -> "get" [] m = "get" -> "get" [] m = "POST" -> "post" [] m = "Post" -> "post" [] OTHER -> m
Join(ss, d) == IF ss = <<>> THEN "" ELSE FoldLeft(LAMBDA a, x : a \o d \o x, ss[1], Tail(ss))
Txt(it) == it.s
PathText(r) == Join([ i \in DOMAIN r.segs |-> Txt(r.segs[i]) ], "/") \o
   (IF r.hasq THEN "?" \o Join([ i \in DOMAIN r.q |-> r.q[i].k \o "=" \o Txt(r.q[i].it) ], "&") ELSE "")
ResText(r) == Join([ i \in DOMAIN r.res |-> Txt(r.res[i]) ], "")

\* ---- validity (C27)
PhNames(r) == [ i \in DOMAIN r.segs |-> r.segs[i] ] \o [ i \in DOMAIN r.q |-> r.q[i].it ]
ValidRule(r) == /\ r.m # "" /\ r.act # "" /\ ResText(r) # ""
                /\ (PathText(r) = "" \/ (r.segs[1].s = "" /\ Len(r.segs) > 1))
                /\ LET n == PhNames(r) IN \A i, j \in DOMAIN n : (n[i].ph => n[i].s # "{}") /\ (n[i].ph /\ n[j].ph /\ i # j => n[i].s # n[j].s)
                /\ \A i, j \in DOMAIN r.q : r.q[i].k = r.q[j].k => i = j
Valid(c) == \A i \in DOMAIN c.rules : c.rules[i].d # "" /\ ~c.rules[i].null /\ \A k \in DOMAIN c.rules[i].l : ValidRule(c.rules[i].l[k])

\* ---- translation (C17)
Candidate(r, x) == LowM(r.m) = LowM(x.m) /\ Len(r.segs) = Len(x.segs)
Single(x) == \A i, j \in DOMAIN x.q : x.q[i].k = x.q[j].k => i = j
ItemOK(it, v) == it.ph \/ it.s = v
Matches(r, x) == /\ Candidate(r, x) /\ x.bad = ""
                 /\ \A i \in DOMAIN r.segs : ItemOK(r.segs[i], x.segs[i])
                 /\ Single(x) /\ Len(x.q) = Len(r.q)
                 /\ \A i \in DOMAIN x.q : \E j \in DOMAIN r.q : r.q[j].k = x.q[i].k /\ ItemOK(r.q[j].it, x.q[i].v)
\* the text a placeholder stands for
Value(r, x, p) == IF \E i \in DOMAIN r.segs : r.segs[i] = P(p) THEN x.segs[CHOOSE i \in DOMAIN r.segs : r.segs[i] = P(p)]
                  ELSE x.q[CHOOSE i \in DOMAIN x.q : \E j \in DOMAIN r.q : r.q[j].k = x.q[i].k /\ r.q[j].it = P(p)].v
Known(r, p) == \E i \in DOMAIN PhNames(r) : PhNames(r)[i] = P(p)
Subst(r, x) == Join([ i \in DOMAIN r.res |-> IF r.res[i].ph /\ Known(r, r.res[i].s) THEN Value(r, x, r.res[i].s) ELSE r.res[i].s ], "")
RulesOf(c, d) == IF \E i \in DOMAIN c.rules : c.rules[i].d = d THEN c.rules[CHOOSE i \in DOMAIN c.rules : c.rules[i].d = d].l ELSE <<>>
Translate(rs, x) ==
  LET m == { i \in DOMAIN rs : Matches(rs[i], x) }
      un == [ act |-> x.m, res |-> Join(x.segs, "/") ]
  IN IF x.bad # "" THEN (IF \E i \in DOMAIN rs : Candidate(rs[i], x) THEN [ o |-> "error" ] @@ un ELSE [ o |-> "error?" ] @@ un)
     ELSE IF m = {} THEN [ o |-> "ok" ] @@ un
     ELSE LET i == CHOOSE i \in m : \A j \in m : i <= j IN [ o |-> "ok", act |-> rs[i].act, res |-> Subst(rs[i], x) ]

\* ---- cases
R(m, segs, q, act, res) == [ m |-> m, segs |-> <<L("")>> \o segs, q |-> q, act |-> act, res |-> res, hasq |-> q # <<>> ]
Q(k, it) == [ k |-> k, it |-> it ]
x1 == P("{x}")
y1 == P("{y}")
z1 == P("{z}")
\* overlapping rules, placeholders everywhere
Pool == << R("GET", <<L("a")>>, <<>>, "act0", <<L("lit")>>),
           R("get", <<x1>>, <<>>, "act1", <<L("one."), x1>>),
           R("GET", <<L("a"), L("b")>>, <<>>, "act2", <<L("ab")>>),
           R("GET", <<x1, L("b")>>, <<>>, "act3", <<x1, L("-"), x1>>),
           R("GET", <<L("a"), y1>>, <<>>, "act4", <<L("{x}"), y1>>),
           R("GET", <<x1, y1>>, <<>>, "act5", <<y1, L("/"), x1, L("/{z}")>>),
           R("Get", <<y1, x1>>, <<>>, "act6", <<y1, L("."), x1>>),
           R("GET", <<x1>>, <<Q("q", y1)>>, "act7", <<x1, y1>>),
           R("GET", <<y1>>, <<Q("q", x1)>>, "act8", <<x1, L("="), y1>>),
           R("GET", <<L("a")>>, <<Q("q", L("b"))>>, "act9", <<L("qb")>>),
           R("GET", <<L("a")>>, <<Q("q", x1), Q("k", y1)>>, "act10", <<y1, L(":"), x1>>),
           R("GET", <<L("a")>>, <<Q("k", L("a")), Q("q", x1)>>, "act11", <<L("k"), x1>>),
           R("POST", <<x1>>, <<>>, "act12", <<L("post"), x1>>),
           R("GET", <<L("")>>, <<>>, "act13", <<L("slash")>>),
           R("GET", <<L("a"), L("")>>, <<>>, "act14", <<L("trail")>>),
           R("GET", <<L("A")>>, <<>>, "act15", <<L("upper")>>),
           R("GET", <<L("{x"), x1>>, <<>>, "act16", <<L("{"), x1, L("}")>>),
           [ R("GET", <<>>, <<>>, "act17", <<L("empty")>>) EXCEPT !.segs = <<L("")>> ],
           R("GET", <<x1, y1, z1>>, <<>>, "act18", <<z1, y1, x1>>),
           R("GET", <<x1>>, <<Q("q", z1), Q("k", y1)>>, "act19", <<x1, L(","), y1, L(","), z1, L(","), x1>>) >>
SegVals == << "a", "b", "{x}", "{y}", "", "A", "%61", "{x}{y}" >>
V(r, v) == [ vr |-> r, v |-> v ]
QVals == << V("a", "a"), V("b", "b"), V("{x}", "{x}"), V("%7By%7D", "{y}"), V("%61", "a"), V("", ""), V("a+b", "a b"), V("%7Bx%7D%7Bz%7D", "{x}{z}"), V("B", "B"), V("a=b", "a=b"), V("%2B", "+") >>
QP(kr, k, v) == [ kr |-> kr, k |-> k, vr |-> v.vr, v |-> v.v ]
X(m, segs, q, bad) == [ d |-> "d", m |-> m, segs |-> segs, q |-> q, bad |-> bad ]
BadQ == << "%zz", "q=%4", "q=a;k=b", "%", "q=%7B%" >>
Reqs == { X("GET", <<"", s>>, <<>>, "") : s \in ToSet(SegVals) } \cup { X(m, <<"", "a">>, <<>>, "") : m \in {"get", "Post", "PUT", "GET ", ""} }
   \cup { X("GET", <<"", s, t>>, <<>>, "") : s, t \in {"a", "b", "{x}", "{y}", "", "{x"} }
   \cup { X("GET", <<"", s>>, <<QP("q", "q", v)>>, "") : s \in {"a", "{y}"}, v \in ToSet(QVals) }
   \cup { X("GET", <<"", "a">>, <<QP(k[1], k[2], QVals[1])>>, "") : k \in { <<"k", "k">>, <<"Q", "Q">>, <<"%71", "q">>, <<"q+", "q ">> } }
   \cup { X("GET", <<"", s>>, <<QP("q", "q", v), QP("k", "k", w)>>, "") : s \in {"a", "{z}"}, v, w \in { QVals[1], QVals[2], QVals[3], QVals[4], QVals[8] } }
   \cup { X("GET", <<"", "a">>, <<QP("q", "q", v), QP("q", "q", w)>>, "") : v, w \in { QVals[1], QVals[2] } }
   \cup { X("GET", <<"", "a">>, <<QP("q", "q", QVals[1]), QP("q", "q", QVals[2]), QP("k", "k", QVals[1])>>, "") }
   \cup { X(m, <<"", "a">>, <<>>, b) : m \in {"GET", "POST", "PUT"}, b \in ToSet(BadQ) }
   \cup { X("GET", s, <<>>, "") : s \in { <<"">>, <<"a">>, <<"a", "b">>, <<"", "a", "b", "c">>, <<"", "", "a">>, <<"", "{y}", "{z}", "{x}">>, <<"", "a", "b", "">> } }
   \cup { [ X("GET", <<"", "a">>, <<>>, "") EXCEPT !.d = d ] : d \in {"e", "D", "", "none"} }
One(l, s) == [ rules |-> << [ d |-> "d", null |-> FALSE, l |-> l ], [ d |-> "e", null |-> FALSE, l |-> << R("GET", <<x1>>, <<>>, "acte", <<L("e:"), x1>>) >> ] >>, reqs |-> s ]
NP == Len(Pool)
C17(i, j) == One(IF i = j THEN << Pool[i] >> ELSE << Pool[i], Pool[j] >>, SetToSeq(Reqs))

\* random rule sets; requests derived from their rules (seeds are drawn once, the rest is a function of them)
RE(S) == RandomElement(S)
RSeed(n) == [ np |-> RE(0..3), nq |-> RE({0, 0, 0, 1, 2}), perm |-> RE({<<"{x}", "{y}", "{z}", "{xy}", "{}x}", "{w}">>, <<"{xy}", "{x}", "{w}", "{z}", "{}x}", "{y}">>}), a |-> RE([1..5 -> BOOLEAN]),
              ls |-> RE([1..3 -> {"a", "b", "", "{x", "x}", "a{x}", "*"}]), ql |-> RE([1..2 -> {"a", "b", "c", ""}]), tl |-> RE([1..4 -> {"", ".", "/", "{v}", "{", "}", "{v", "v}", "$1", "a"}]),
              tp |-> RE([1..3 -> 1..6]), m |-> RE({"GET", "GET", "get", "Post"}) ]
MkRule(z) == [ m |-> z.m, segs |-> <<L("")>> \o [ i \in 1..z.np |-> IF z.a[i] THEN P(z.perm[i]) ELSE L(z.ls[i]) ] \o (IF z.np = 0 THEN <<L("a")>> ELSE <<>>),
               q |-> [ i \in 1..z.nq |-> Q(<<"q", "k">>[i], IF z.a[3+i] THEN P(z.perm[3+i]) ELSE L(z.ql[i])) ],
               act |-> "act" \o ToString(z.tp[1]), hasq |-> z.nq > 0,
               res |-> << L("r" \o z.tl[1]), P(z.perm[z.tp[1]]), L(z.tl[2]), P(z.perm[z.tp[2]]), L(z.tl[3]), P(z.perm[z.tp[3]]), L(z.tl[4]) >> ]
XSeed(n) == [ i |-> RE(1..3), mut |-> RE({"none", "none1", "none2", "none3", "m", "seg", "addseg", "dropq", "dupq", "addq", "bad", "d"}), sv |-> RE([1..4 -> ToSet(SegVals) \cup {"{z}", "{xy}", "{w}", "$1", "\\", "a b", "*"}]),
              qv |-> RE([1..3 -> ToSet(QVals)]), m |-> RE({"GET", "get", "Get", "POST", "Post"}), b |-> RE(ToSet(BadQ)), rev |-> RE(BOOLEAN) ]
MkReq(rs, z) ==
    LET r == rs[z.i]
        sg == [ k \in 1..Len(r.segs) |-> IF k = 1 THEN "" ELSE IF r.segs[k].ph \/ (z.mut = "seg" /\ k = Len(r.segs)) THEN z.sv[k-1] ELSE r.segs[k].s ] \o (IF z.mut = "addseg" THEN <<"a">> ELSE <<>>)
        q0 == [ k \in 1..Len(r.q) |-> IF r.q[k].it.ph THEN QP(r.q[k].k, r.q[k].k, z.qv[k]) ELSE QP(r.q[k].k, r.q[k].k, V(r.q[k].it.s, r.q[k].it.s)) ]
        q1 == IF z.mut = "dropq" /\ q0 # <<>> THEN Tail(q0) ELSE IF z.mut = "dupq" /\ q0 # <<>> THEN <<QP("q", "q", z.qv[3])>> \o q0 ELSE IF z.mut = "addq" THEN q0 \o <<QP("n", "n", z.qv[3])>> ELSE q0
    IN [ d |-> IF z.mut = "d" THEN "e" ELSE "d", m |-> IF z.mut = "m" THEN z.m ELSE IF LowM(r.m) = "get" THEN (IF z.m \in {"GET", "get", "Get"} THEN z.m ELSE "GET") ELSE "POST",
         segs |-> sg, q |-> IF z.mut = "bad" THEN <<>> ELSE IF z.rev THEN Reverse(q1) ELSE q1, bad |-> IF z.mut = "bad" THEN z.b ELSE "" ]

\* many rules with many segments and parameters; the values look like placeholders of the rule
Ph(i) == "{p" \o ToString(i) \o "}"
BigRule(k, i) == LET np == 3 + (i % 9) nq == i % 5 IN
   [ m |-> IF i % 7 = 0 THEN "POST" ELSE "GET", hasq |-> nq > 0, act |-> "act" \o ToString(i),
     segs |-> <<L("")>> \o [ j \in 1..np |-> IF (i * k + j * j) % 3 = 0 THEN P(Ph(j)) ELSE L("s" \o ToString(IF j % 4 = 0 THEN i ELSE j)) ],
     q |-> [ j \in 1..nq |-> Q("q" \o ToString(j), IF (i + j + k) % 3 # 0 THEN P(Ph(np + j)) ELSE L("v" \o ToString(j))) ],
     res |-> <<L("r" \o ToString(i))>> \o [ j \in 1..(2 * (np + nq)) |-> IF j % 2 = 0 THEN L(IF j % 3 = 0 THEN "/" ELSE IF j % 7 = 0 THEN "{" ELSE "") ELSE P(Ph(1 + ((j * 5 + k) % (np + nq)))) ] ]
BigReq(rs, i, k, mut) == LET r == rs[i] v == [ j \in 1..20 |-> IF (j + k) % 3 = 0 THEN Ph(1 + (j % 12)) ELSE IF (j + k) % 3 = 1 THEN "w" \o ToString(j) ELSE "$1" ]
      sg == [ j \in DOMAIN r.segs |-> IF r.segs[j].ph THEN v[j] ELSE r.segs[j].s ]
      qs == [ j \in DOMAIN r.q |-> LET x == IF r.q[j].it.ph THEN "z" \o ToString(j + k) ELSE r.q[j].it.s IN QP(r.q[j].k, r.q[j].k, V(x, x)) ]
   IN [ d |-> "d", m |-> r.m, bad |-> "", segs |-> CASE mut = 1 -> [ sg EXCEPT ![Len(sg)] = "other" ] [] mut = 2 -> sg \o <<"x">> [] OTHER -> sg,
        q |-> CASE mut = 3 /\ qs # <<>> -> Tail(qs) [] mut = 4 /\ qs # <<>> -> Reverse(qs) [] mut = 5 /\ qs # <<>> -> [ qs EXCEPT ![Len(qs)].v = "other", ![Len(qs)].vr = "other" ] [] OTHER -> qs ]
BigCase(k) == LET rs == TLCEval([ i \in 1..(10 + k) |-> BigRule(k, i) ]) IN One(rs, [ n \in 1..Len(rs) |-> BigReq(rs, n, k, n % 6) ] \o [ n \in 1..Len(rs) |-> BigReq(rs, n, k + 1, 0) ])

\* ---- invalid rule sets (C27)
Base == R("GET", <<L("a"), x1>>, <<Q("q", y1)>>, "act", <<x1>>)
Mut == { Base, [ Base EXCEPT !.m = "" ], [ Base EXCEPT !.act = "" ], [ Base EXCEPT !.res = <<>> ], [ Base EXCEPT !.segs = <<L("a"), x1>> ], [ Base EXCEPT !.segs = <<L("{a}")>> ],
         [ Base EXCEPT !.segs = <<x1>> ], [ Base EXCEPT !.segs = <<L("")>> ], [ Base EXCEPT !.segs = <<L(""), L("")>> ],
         [ Base EXCEPT !.segs = <<L(""), P("{}")>> ], [ Base EXCEPT !.segs = <<L(""), x1, x1>> ], [ Base EXCEPT !.segs = <<L(""), x1, L("a"), x1>> ], [ Base EXCEPT !.segs = <<L(""), y1>> ],
         [ Base EXCEPT !.q = <<Q("q", P("{}"))>> ], [ Base EXCEPT !.q = <<Q("q", y1), Q("q", z1)>> ], [ Base EXCEPT !.q = <<Q("q", L("a")), Q("q", L("a"))>> ], [ Base EXCEPT !.q = <<Q("q", y1), Q("k", y1)>> ],
         [ Base EXCEPT !.q = <<Q("q", x1)>> ], [ Base EXCEPT !.q = <<Q("q", z1), Q("k", y1)>> ], [ Base EXCEPT !.q = <<>>, !.hasq = FALSE ], [ Base EXCEPT !.q = <<>>, !.hasq = TRUE ],
         [ Base EXCEPT !.q = <<Q("q", L("a")), Q("k", y1), Q("q", L("b"))>> ], [ Base EXCEPT !.segs = <<L("")>>, !.q = <<>>, !.hasq = FALSE ], [ Base EXCEPT !.segs = <<L(""), L("{"), L("}"), L("{}a"), x1>> ],
         [ Base EXCEPT !.segs = <<L(""), L("a{}"), x1>> ], [ Base EXCEPT !.segs = <<L("\\"), x1>> ], [ Base EXCEPT !.segs = <<L(" "), x1>> ], [ Base EXCEPT !.segs = <<L(""), P("{ }"), x1>> ] }
D(d, l) == [ d |-> d, null |-> FALSE, l |-> l ]
Sets27 == { << D("d", <<r>>) >> : r \in Mut } \cup { << D("d", <<Base, r>>) >> : r \in Mut } \cup { << D("d", <<r, Base>>) >> : r \in Mut } \cup { << D("d", <<Base>>), D("e", <<r>>) >> : r \in Mut }
          \cup { << D("", <<Base>>) >>, << D("", <<>>) >>, << D("d", <<>>) >>, << [ d |-> "d", null |-> TRUE, l |-> <<>> ] >>, <<>>, << D("d", <<Base>>), [ d |-> "e", null |-> TRUE, l |-> <<>> ] >>, << D("d", <<Base>>), D("", <<Base>>) >> }

\* every small rule: placeholders anywhere in the path and in the query
Segs27 == UNION { [ 1..n -> { P("{x}"), P("{y}"), P("{}"), L("a"), L("") } ] : n \in 0..3 }
Qs27 == UNION { [ 1..n -> { Q(k, i) : k \in {"q", "k"}, i \in { P("{x}"), P("{z}"), P("{}"), L("a"), L("{x") } } ] : n \in 0..2 }

Init == \/ Fam = "small" /\ \E s \in Segs27, qq \in Qs27 : case = [ rules |-> << D("d", << [ Base EXCEPT !.segs = <<L("")>> \o s, !.q = qq, !.hasq = qq # <<>> ] >>) >>, reqs |-> <<>> ]
        \/ Fam = "pairs" /\ \E i, j \in 1..NP : case = C17(i, j)
        \/ Fam = "big" /\ \E k \in 1..NRandom : case = BigCase(k)
        \/ Fam = "rules" /\ \E s \in Sets27 : case = [ rules |-> s, reqs |-> << X("GET", <<"", "a", "v">>, <<QP("q", "q", V("w", "w"))>>, "") >> ]
        \/ Fam = "rnd" /\ \E k \in 1..NRandom : \E s1 \in {RSeed(k)}, s2 \in {RSeed(k)}, s3 \in {RSeed(k)}, x1r \in {XSeed(k)}, x2r \in {XSeed(k)}, x3r \in {XSeed(k)}, x4r \in {XSeed(k)}, x5r \in {XSeed(k)} :
             \E rs \in { <<MkRule(s1), MkRule(s2), MkRule(s3)>> } :
               case = One(rs, << MkReq(rs, x1r), MkReq(rs, x2r), MkReq(rs, x3r), MkReq(rs, x4r), MkReq(rs, x5r) >>)
Next == FALSE /\ UNCHANGED case
Laws == Valid(case) => \A i \in DOMAIN case.reqs : LET x == case.reqs[i] rs == RulesOf(case, x.d) t == Translate(rs, x) IN
           t.o = "ok" /\ t.act = x.m /\ rs # <<>> => \/ t.res = Join(x.segs, "/") \/ \E k \in DOMAIN rs : Matches(rs[k], x)
Out == PrintT("TR " \o ToJson([ ok |-> Valid(case),
   rules |-> [ i \in DOMAIN case.rules |-> [ d |-> case.rules[i].d, null |-> case.rules[i].null, l |-> [ k \in DOMAIN case.rules[i].l |-> LET r == case.rules[i].l[k] IN [ m |-> r.m, path |-> PathText(r), act |-> r.act, res |-> ResText(r) ] ] ] ],
   reqs |-> [ i \in DOMAIN case.reqs |-> LET x == case.reqs[i] IN [ d |-> x.d, m |-> x.m, path |-> Join(x.segs, "/"),
        query |-> IF x.bad # "" THEN x.bad ELSE Join([ k \in DOMAIN x.q |-> x.q[k].kr \o "=" \o x.q[k].vr ], "&"), want |-> IF Valid(case) THEN Translate(RulesOf(case, x.d), x) ELSE [ o |-> "none", act |-> "", res |-> "" ] ] ] ]))
=============================================================================
