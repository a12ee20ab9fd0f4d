----------------------------- MODULE CacheKeys -----------------------------
(* C12: the success cache is transparent. With a fixed world (keys, policies, *)
(* time) every request must get the answer of its own full evaluation, however *)
(* many requests with similar-looking fields were asked before. The universe   *)
(* consists of requests whose fields are the pieces of one text cut at         *)
(* different delimiters, so that any way of joining fields makes some collide.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt
CONSTANTS Delims, Vals, MaxL, NRandom, Binds
VARIABLES todo, cache, hist, case
vars == <<todo, cache, hist, case>>

RECURSIVE Join(_, _, _, _)
Join(segs, d, i, j) == IF i = j THEN segs[i] ELSE segs[i] \o d \o Join(segs, d, i + 1, j)
\* all ways to cut segs into m consecutive fields joined with d
Cuts(segs, d, m) ==
  { [ k \in 1..m |-> Join(segs, d, (IF k = 1 THEN 1 ELSE c[k-1] + 1), (IF k = m THEN Len(segs) ELSE c[k])) ] :
      c \in { SetToSortSeq(S, <) : S \in { S \in SUBSET (1..(Len(segs) - 1)) : Cardinality(S) = m - 1 } } }
\* kind: presented as role ("rt") or access ("at") token; tok: which token; tail: text appended to the token
Rq(kind, tok, tail, cert, act, res, q) == [ kind |-> kind, tok |-> tok, tail |-> tail, cert |-> cert, act |-> act, res |-> res, q |-> q ]
NoCert == <<>>
Crt(i, s, n) == <<i, s, n>>
Reqs(segs, d, trans) ==
  LET U(k, t, m) == Cuts(segs, d, m) IN
  UNION { { Rq(k, k \o "1", "", NoCert, f[1], f[2], "") : f \in Cuts(segs, d, 2) } : k \in {"rt", "at"} }
  \cup { Rq("at", "at2", "", NoCert, f[1], f[2], "") : f \in Cuts(segs, d, 2) }
  \cup (IF trans THEN { Rq(k, k \o "1", "", NoCert, f[1], f[2], f[3]) : k \in {"rt", "at"}, f \in Cuts(segs, d, 3) } ELSE {})
  \cup { Rq("at", "at1", "", Crt(f[1], f[2], n), f[3], f[4], "") : n \in 1..2, f \in Cuts(segs, d, 4) }
  \cup { Rq("at", "at2", "", Crt(f[1], f[2], 1), f[3], f[4], "") : f \in Cuts(segs, d, 4) }
  \cup (IF trans THEN { Rq("at", "at1", "", Crt(f[1], f[2], 1), f[3], f[4], f[5]) : f \in Cuts(segs, d, 5) } ELSE {})
  \* requests that differ in one field only
  \cup (IF trans /\ Len(segs) >= 3 THEN { Rq(k, k \o "1", "", NoCert, segs[1], segs[2], q) : k \in {"rt", "at"}, q \in {"", segs[3], "k=" \o segs[3], segs[3] \o "=1&b=2"} } ELSE {})
  \cup (IF trans /\ Len(segs) >= 3 THEN { Rq("at", "at1", "", Crt("ca", "svc", n), segs[1], segs[2], q) : n \in 1..2, q \in {"", segs[3], "k=" \o segs[3]} } ELSE {})
  \cup (IF Len(segs) >= 3 THEN { Rq("at", t, "", Crt(i, su, n), a, re, "") : t \in {"at1", "at2"}, i \in {segs[1], "ca"}, su \in {segs[2], "svc"}, n \in 1..2, a \in {segs[3], "z"}, re \in {segs[1]} } ELSE {})
  \* an issuer or subject that is empty
  \cup { Rq("at", "at1", "", Crt("", f[1], 1), f[2], f[3], "") : f \in Cuts(segs, d, 3) }
  \cup { Rq("at", "at1", "", Crt(f[1], "", 1), f[2], f[3], "") : f \in Cuts(segs, d, 3) }
  \cup { Rq("at", "at1", "", Crt("", "", 1), f[1], f[2], "") : f \in Cuts(segs, d, 2) }
  \* the token text continues into the next field (such tokens are not validly signed,
  \* except that the signature encoding of role tokens tolerates more characters of its own alphabet at the end)
  \cup { Rq(k, k \o "1", d \o f[1], NoCert, f[2], f[3], "") : k \in (IF d \in {"", "_", ".", "-"} THEN {"at"} ELSE {"rt", "at"}), f \in Cuts(segs, d, 3) }
  \* a token of the other kind
  \cup { Rq("rt", "at1", "", NoCert, f[1], f[2], "") : f \in Cuts(segs, d, 2) }
  \cup { Rq("at", "rt1", "", NoCert, f[1], f[2], "") : f \in Cuts(segs, d, 2) }
  \* letters in the other case, surrounding blanks
  \cup { Rq("rt", "rt1", "CASE", NoCert, f[1], f[2], "") : f \in Cuts(segs, d, 2) }
  \cup { Rq("at", "at1", "CASE", NoCert, f[1], f[2], "") : f \in Cuts(segs, d, 2) }
  \cup { Rq(k, k \o "1", t, NoCert, f[1], f[2], "") : k \in {"rt", "at"}, t \in {" ", "HEAD ", "HEADTAB", "TAB", "HEAD\"", "HEADBearer "}, f \in Cuts(segs, d, 2) }
  \cup { Rq("rt", "rt1", "", NoCert, f[1] \o " ", f[2], "") : f \in Cuts(segs, d, 2) }
  \cup { Rq("rt", "rt1", "", NoCert, f[1], " " \o f[2], "") : f \in Cuts(segs, d, 2) }
  \cup { Rq("rt", "rt1", "", NoCert, f[1], "", "") : f \in Cuts(segs, d, 2) }
  \cup { Rq("rt", "rt1", "", NoCert, "", f[2], "") : f \in Cuts(segs, d, 2) }

RECURSIVE RandomSubset2(_)
RandomSubset2(S) == IF S = {} THEN {} ELSE LET x == CHOOSE x \in S : TRUE IN (IF RandomElement({0, 1}) = 0 THEN {} ELSE {x}) \cup RandomSubset2(S \ {x})

Triple(r) == <<r.act, r.res, r.q>>
\* (without a translator letter case does not matter to the policy, so no "A")
\* a case: the delimiter, the requests, what policy allows, which certificates the access tokens are bound to
MkCase(d, segs, trans, bind) ==
  [ reqs |-> Reqs(segs, d, trans), trans |-> trans, bind |-> bind,
    allow |-> RandomSubset2({ Triple(r) : r \in Reqs(segs, d, trans) }), certs |-> RandomSubset2({ r.cert : r \in Reqs(segs, d, trans) }) ]
RandSegs(L, v) == [ i \in 1..L |-> RandomElement(IF i >= 0 THEN v ELSE v) ]
Init == /\ \E d \in Delims, k \in 1..NRandom, b \in Binds, t \in BOOLEAN :
             \E L \in { RandomElement(IF k > 0 THEN 2..MaxL ELSE {}) } : \E sg \in { RandSegs(L, Vals) } : case \in { MkCase(d, IF t THEN sg ELSE [ i \in 1..L |-> IF sg[i] = "A" THEN "w" ELSE sg[i] ], t, b) }
        /\ todo = {} /\ cache = {} /\ hist = <<>>

Sound(r) == r.tail = "" /\ r.tok \in { r.kind \o "1", r.kind \o "2" }
Eval(c, r) == /\ r.act # "" /\ r.res # "" /\ Sound(r)
              /\ (c.bind /\ r.kind = "at") => (r.cert # NoCert /\ r.cert \in c.certs)
              /\ Triple(r) \in c.allow
\* asking everything: first what is allowed, then the rest, then again in another order
Good(c) == { r \in c.reqs : Eval(c, r) }
Start == hist = <<>> /\ case.reqs # {} /\ todo' = Good(case) /\ hist' = <<0>> /\ UNCHANGED <<cache, case>>
Script(c) == LET g == SetToSeq(Good(c))  b == SetToSeq(c.reqs \ Good(c)) IN g \o b \o Reverse(g) \o Reverse(b)
\* the identity under which an answer may be reused
Reuse(r) == r \in cache
Ask(r) == cache' = (IF Eval(case, r) THEN cache \cup {r} ELSE cache)
Run == /\ hist # <<>> /\ todo # {}
       /\ LET r == CHOOSE r \in todo : TRUE IN Ask(r) /\ todo' = todo \ {r}
       /\ UNCHANGED <<hist, case>>
Next == Start \/ Run
Transparent == \A r \in cache : Eval(case, r)
Out == (TLCGet("level") = 1) =>
  LET s == Script(case) IN PrintT("TR " \o ToJson([ trans |-> case.trans, bind |-> case.bind, allow |-> SetToSeq(case.allow), certs |-> SetToSeq(case.certs \ {NoCert}),
     script |-> [ i \in 1..Len(s) |-> [ r |-> s[i], ok |-> Eval(case, s[i]) ] ] ]))
=============================================================================
