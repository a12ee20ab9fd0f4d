----------------------------- MODULE HttpCreds -----------------------------
(* C15: which credential of an HTTP request counts. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Binds
VARIABLES cfg, req
vars == <<cfg, req>>
Kinds == {"at", "rt", "rc"}
DefaultHeader == "Athenz-Role-Auth"
Headers == {DefaultHeader, "X-Role"}
Cfgs == [ on : SUBSET Kinds, header : Headers, bind : Binds ]
\* what the Authorization header carries: a scheme and a credential
Auths == { <<"", "none">>, <<"Bearer ", "a1">>, <<"bearer ", "a1">>, <<"Bearer ", "abad">>, <<"Bearer ", "aexp">>, <<"Bearer ", "r1">>, <<"Basic ", "a1">> }
RtHdr == {"none", "r1", "rbad", "rexp", "a1"}
Others == {"none", "r1"}                     \* the other header (not the configured one)
\* the peer certificates of the TLS connection; "notls": no TLS connection
Tls == {<<"notls">>, <<>>, <<"c1">>, <<"c2">>, <<"c2", "c1">>, <<"c1", "c2">>}
Acts == {"both", "at", "rt", "no"}           \* which tokens' roles policy allows
Reqs == [ via : {"http"}, auth : Auths, rt : RtHdr, other : Others, tls : Tls, act : Acts ]
        \cup [ via : {"direct-at"}, auth : { <<"", "a1">>, <<"", "abad">>, <<"", "r1">> }, rt : {"none"}, other : {"none"}, tls : {<<>>, <<"c1">>}, act : Acts ]
        \cup [ via : {"direct-rt"}, auth : { <<"", "none">> }, rt : RtHdr \ {"none"}, other : {"none"}, tls : {<<>>}, act : Acts ]

Leaf(r) == IF r.tls \in { <<>>, <<"notls">> } THEN "none" ELSE r.tls[1]
\* does the access token / role token the request carries succeed on its own
AtOK(c, r) == /\ "at" \in c.on
              /\ r.via \in {"http", "direct-at"}
              /\ r.auth[2] = "a1" /\ r.auth[1] # "Basic "
              /\ c.bind => Leaf(r) = "c1"
              /\ r.act \in {"both", "at"}
RtOK(c, r) == "rt" \in c.on /\ r.via \in {"http", "direct-rt"} /\ r.rt = "r1" /\ r.act \in {"both", "rt"}
\* fixed order: access token before role token
Answer(c, r) == IF AtOK(c, r) THEN "a1" ELSE IF RtOK(c, r) THEN "r1" ELSE "invalid"
Init == cfg \in Cfgs /\ req \in (IF cfg.on = {} THEN { CHOOSE r \in Reqs : TRUE } ELSE Reqs)
Next == FALSE /\ UNCHANGED vars
\* laws
OnlyEnabled == /\ cfg.on \subseteq {"rc"} => Answer(cfg, req) = "invalid"
               /\ (Answer(cfg, req) = "a1" => "at" \in cfg.on) /\ (Answer(cfg, req) = "r1" => "rt" \in cfg.on)
WrongHeader == req.rt # "r1" => Answer(cfg, req) # "r1"
AnySuffices == (AtOK(cfg, req) \/ RtOK(cfg, req)) <=> Answer(cfg, req) # "invalid"
Out == PrintT("TR " \o ToJson([ cfg |-> [ cfg EXCEPT !.on = [ at |-> "at" \in cfg.on, rt |-> "rt" \in cfg.on, rc |-> "rc" \in cfg.on ] ], req |-> req, ans |-> Answer(cfg, req), valid |-> cfg.on # {} ]))
=============================================================================
