----------------------------- MODULE Authorizer -----------------------------
(* The authorizer as a state machine: credentials, keys, policy versions, time *)
(* and the success cache (properties C12, C13, C14, C16).                      *)
(* A request may always be evaluated in full; it may be answered from the      *)
(* cache only with a principal produced by a full evaluation of the identical  *)
(* request at most TTL ago. Allowed(r) is the set of answers the specification *)
(* permits now.                                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Uni,        \* which request universe
          TTL, MaxT, MaxGen, MaxSteps,
          PolicyOn, Bind, Translate, Prefix, Pick
VARIABLES now, pol, gen, cache, hist
vars == <<now, pol, gen, cache, hist>>

\* ---- credentials (gen: the key generation that signed it; exp in half ticks, between ticks)
Tok == [ r1 |-> [ kind |-> "rt", dom |-> "a", roles |-> <<"x", "y">>, exp |-> 99, gen |-> 1, bound |-> "" ],
         r2 |-> [ kind |-> "rt", dom |-> "a", roles |-> <<"x">>,      exp |-> 5,  gen |-> 1, bound |-> "" ],
         r3 |-> [ kind |-> "rt", dom |-> "b", roles |-> <<"x", "z">>, exp |-> 99, gen |-> 2, bound |-> "" ],
         rbad |-> [ kind |-> "rt", dom |-> "a", roles |-> <<"x", "y">>, exp |-> 99, gen |-> 0, bound |-> "" ],
         a1 |-> [ kind |-> "at", dom |-> "a", roles |-> <<"x", "y">>, exp |-> 99, gen |-> 1, bound |-> "c1" ],
         a2 |-> [ kind |-> "at", dom |-> "a", roles |-> <<"y">>,      exp |-> 5,  gen |-> 1, bound |-> "c2" ],
         a3 |-> [ kind |-> "at", dom |-> "b", roles |-> <<"z">>,      exp |-> 99, gen |-> 2, bound |-> "c1" ],
         abad |-> [ kind |-> "at", dom |-> "a", roles |-> <<"x", "y">>, exp |-> 99, gen |-> 0, bound |-> "c1" ] ]
R(t, c, a, s, q) == [ tok |-> t, cert |-> c, act |-> a, res |-> s, q |-> q ]

\* ---- policy versions: what (domain, role) may do (after translation and prefixing) or may not
P(d, ro, a, s) == [ dom |-> d, role |-> ro, act |-> a, res |-> s ]
Final(r) == LET a == IF Translate THEN r.act \o "." \o r.q ELSE r.act
                s == IF Translate THEN "t." \o r.res ELSE r.res IN [ act |-> a, res |-> Prefix \o s ]
F(a, s) == Final(R("r1", "", a, s, ""))
FQ(a, s, q) == Final(R("r1", "", a, s, q))
Allow == << { P("a", "x", F("get", "u").act, F("get", "u").res), P("b", "z", F("get", "u").act, F("get", "u").res), P("a", "y", F("get", "v").act, F("get", "v").res),
             P("a", "x", F("", "u").act, F("", "u").res), P("a", "y", F("get", "").act, F("get", "").res), \* would allow an empty action or resource
             P("a", "x", FQ("get", "u", "k=1").act, FQ("get", "u", "k=1").res) },
           { P("a", "x", F("get", "u").act, F("get", "u").res), P("a", "y", F("get", "u").act, F("get", "u").res), P("b", "x", F("put", "u").act, F("put", "u").res) },
           { P("a", "x", F("", "").act, F("", "").res), P("a", "x", F("put", "v").act, F("put", "v").res), P("a", "y", F("get", "v").act, F("get", "v").res) } >>
Deny  == << {}, {P("b", "z", F("get", "u").act, F("get", "u").res)}, { P("a", "x", F("get", "v").act, F("get", "v").res) } >>
MaxP == Len(Allow)

Full == { R(t, c, a, s, q) : t \in DOMAIN Tok, c \in {"", "c1", "c2", "c1'"}, a \in {"get", "put", ""}, s \in {"u", "v", ""}, q \in {"", "k=1", "bad"} }
Sane(r) == /\ Tok[r.tok].kind = "rt" => r.cert = ""
           /\ r.q # "" => Translate
Reqs == CASE Uni = "small" -> { R("r1", "", "get", "u", ""), R("r1", "", "get", "v", ""), R("r2", "", "get", "u", ""), R("rbad", "", "get", "u", ""),
                                R("a1", "c1", "get", "u", ""), R("a1", "c2", "get", "u", ""), R("a1", "", "get", "u", ""), R("r1", "", "", "u", ""), R("a2", "c2", "get", "v", "") }
          [] Uni = "hit" -> { R("r1", "", "get", "u", ""), R("a1", "c1", "get", "u", "") }
          [] Uni = "empty" -> { r \in Full : Sane(r) /\ r.tok \in {"r1", "a1"} /\ r.cert \in {"", "c1"} /\ r.q = "" /\ r.act # "put" }
          [] Uni = "full" -> { r \in Full : Sane(r) }

Init == now = 0 /\ pol = 1 /\ gen = 1 /\ cache = << >> /\ hist = <<>>

\* ---- full evaluation of a request; {} = rejected, otherwise a set with the principal
TokenOK(r) == LET t == Tok[r.tok] IN 2 * now < t.exp /\ t.gen = gen
BindOK(r) == (Bind /\ Tok[r.tok].kind = "at") => r.cert = Tok[r.tok].bound
Range2(s) == { s[i] : i \in 1..Len(s) }
Authorized(r) == LET t == Tok[r.tok]  f == Final(r)
                     M(S, ro) == P(t.dom, ro, f.act, f.res) \in S IN
                 IF \E ro \in Range2(t.roles) : M(Deny[pol], ro) THEN {} ELSE { ro \in Range2(t.roles) : M(Allow[pol], ro) }
Eval(r) == IF PolicyOn /\ (r.act = "" \/ r.res = "") THEN {}
           ELSE IF ~TokenOK(r) \/ ~BindOK(r) THEN {}
           ELSE IF ~PolicyOn THEN { [ tok |-> r.tok, auth |-> {} ] }
           ELSE IF Translate /\ r.q = "bad" THEN {}
           ELSE IF Authorized(r) = {} THEN {} ELSE { [ tok |-> r.tok, auth |-> Authorized(r) ] }

\* ---- the cache: identity of a request -> principals with the time until which they may be reused
Id(r) == IF PolicyOn THEN r ELSE [ r EXCEPT !.act = "", !.res = "", !.q = "" ]
Live(r) == IF Id(r) \in DOMAIN cache THEN { e.p : e \in { e \in cache[Id(r)] : 2 * now < e.till } } ELSE {}
Allowed(r) == Eval(r) \cup Live(r)
Record(r) == IF Eval(r) = {} THEN cache
             ELSE LET p == CHOOSE p \in Eval(r) : TRUE
                      old == IF Id(r) \in DOMAIN cache THEN { e \in cache[Id(r)] : e.p # p /\ 2 * now < e.till } ELSE {} IN
                  (Id(r) :> (old \cup { [ p |-> p, till |-> 2 * (now + TTL) - 1 ] })) @@ cache

Obs(x) == hist' = Append(hist, x @@ [ t |-> now ])
Request(r) == /\ cache' = Record(r) /\ UNCHANGED <<now, pol, gen>>
              /\ Obs([ a |-> "req", r |-> r, ok |-> [ p \in {1} |-> SetToSeq({ [ tok |-> e.tok, auth |-> SetToSeq(e.auth) ] : e \in Allowed(r) }) ][1],
                       rej |-> Eval(r) = {}, fresh |-> Eval(r) # {}, had |-> Id(r) \in DOMAIN cache ])
Tick == now < MaxT /\ now' = now + 1 /\ UNCHANGED <<pol, gen, cache>> /\ Obs([ a |-> "tick" ])
Policy(v) == PolicyOn /\ v # pol /\ pol' = v /\ UNCHANGED <<now, gen, cache>> /\ Obs([ a |-> "pol", v |-> v ])
Rotate == gen < MaxGen /\ gen' = gen + 1 /\ UNCHANGED <<now, pol, cache>> /\ Obs([ a |-> "rot", v |-> gen + 1 ])
Next == /\ Len(hist) < MaxSteps
        /\ \/ \E r \in (IF Pick = 0 THEN Reqs ELSE { RandomElement({ x \in Reqs : now >= 0 }) : i \in 1..Pick }) : Request(r)
           \/ Tick
           \/ \E v \in 1..MaxP : Policy(v)
           \/ Rotate
           \* repeat an earlier request (the interesting case for the cache)
           \/ Pick # 0 /\ \E i \in 1..Len(hist) : hist[i].a = "req" /\ Request(hist[i].r)
Spec == Init /\ [][Next]_vars
View == <<now, pol, gen, cache, IF Uni = "hit" THEN hist ELSE Len(hist)>>
\* one credential, asked again and again while time passes, policies change and keys rotate: every order
Lively == Uni = "hit" =>
  /\ \A i, j \in 1..Len(hist) : hist[i].a = "req" /\ hist[j].a = "req" => hist[i].r = hist[j].r
  /\ \A i \in 1..Len(hist) : hist[i].a = "pol" => hist[i].v \in {1, 3} /\ (i > 1 => hist[i - 1].a # "pol")
  /\ Len(hist) > 0 => hist[1].a = "req"
  /\ Len(hist) > 1 => hist[2].a # "req" 
\* ---- what the properties say, on the model
\* nothing outlives its validation by TTL; only validated principals are reused
CacheBounded == \A k \in DOMAIN cache : \A e \in cache[k] : e.till <= 2 * (now + TTL) - 1 /\ e.p.tok = k.tok
EmptyNeverCached == PolicyOn => \A k \in DOMAIN cache : k.act # "" /\ k.res # ""
BoundCert == Bind => \A k \in DOMAIN cache : Tok[k.tok].kind = "at" => k.cert = Tok[k.tok].bound
ForgedNever == \A k \in DOMAIN cache : Tok[k.tok].gen # 0
EmitNow == PrintT("TR " \o ToJson([ policy |-> PolicyOn, bind |-> Bind, trans |-> Translate, prefix |-> Prefix, ttl |-> TTL, steps |-> hist' ]))
EmitReq == hist'[Len(hist')].a # "req" \/ EmitNow
EmitEnd == Len(hist') < MaxSteps \/ EmitNow
ASSUME PrintT("TR " \o ToJson([ toks |-> Tok, allow |-> [ i \in 1..MaxP |-> SetToSeq(Allow[i]) ], deny |-> [ i \in 1..MaxP |-> SetToSeq(Deny[i]) ] ]))
=============================================================================
