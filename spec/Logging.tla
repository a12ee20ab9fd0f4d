------------------------------- MODULE Logging -------------------------------
(* C28: what the authorizer writes about a credential. A credential is what is   *)
(* signed (its claims) and its signature. Every stage of a request may write     *)
(* parts of what it knows; no stage ever writes a signature: the reports of the  *)
(* success cache mask the credential, the refusals name claims and reasons.      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Rnd, MaxReq
VARIABLES cfg, stage, req, seen, log, seq
vars == <<cfg, stage, req, seen, log, seq>>
Bool == {TRUE, FALSE}
Cfgs == [ policy : Bool, tr : Bool, bind : Bool, cid : Bool, at : Bool, rt : Bool ]
\* what is wrong with the credential ("": nothing, "esc": nothing, but its claims hold the delimiter of the cache key)
RoleDef == {"", "esc", "expired", "unkey", "badsig", "badpair", "bade", "badt", "dupsep", "emptysig", "otherdom", "norole", "trail"}
AccDef == {"", "kidless", "kidint", "unkid", "jku", "unjku", "jkuint", "expired", "future", "nbf", "badsig", "algnone", "alghs", "badhdr", "badhdrjson", "badclaims", "audlist", "four",
           "noclient", "nocnf", "othercert", "older", "otherdom", "norole", "badsigb64"}
Creds == [ kind : {"role"}, def : RoleDef ] \cup [ kind : {"access"}, def : AccDef ]
\* as: what it is presented as; via: the entry point
Entries == [ as : {"role", "access"}, via : {"authorize", "verify", "http-authorize", "http-verify"}, act : {"ok", "denied", "none", "empty", "trfail"}, cert : {"none", "bound", "rotated"} ]
Reqs == [ cred : Creds, e : Entries ]
Nice == { r \in Reqs : r.cred.kind = r.e.as /\ r.e.act \in {"ok", "denied"} }
Good(r) == r.cred.def \in {"", "esc", "jku"}
\* the outcome, as far as the credential and the request decide it
Enabled(r) == (r.e.as = "role" /\ cfg.rt) \/ (r.e.as = "access" /\ cfg.at)
CertOK(r) == \/ r.e.as = "role"
             \/ /\ cfg.bind => r.e.cert = "bound" \/ (r.e.cert = "rotated" /\ r.cred.def # "older")
                /\ cfg.cid => r.e.cert # "none"
\* defects that count only where they are looked at
Ok(r) == /\ r.cred.kind = r.e.as /\ CertOK(r)
         /\ \/ Good(r)
            \/ r.cred.def = "noclient" /\ ~cfg.cid /\ ~(cfg.bind /\ r.e.cert = "rotated")
            \/ r.cred.def = "nocnf" /\ ~cfg.bind
            \/ r.cred.def = "othercert" /\ (~cfg.bind \/ r.e.cert = "rotated")
            \/ r.cred.def = "older" /\ (~cfg.bind \/ r.e.cert = "bound")
            \/ r.cred.def \in {"otherdom", "norole"} /\ ~cfg.policy
PolicyOK(r) == cfg.policy => r.e.act = "ok"
\* the key under which a success is remembered
CertUse(r) == IF r.e.as = "access" THEN r.e.cert ELSE "none"
Key(r) == <<r.cred, r.e.as, CertUse(r), IF cfg.policy THEN r.e.act ELSE "">>
Init == /\ cfg \in (IF Rnd THEN { c \in Cfgs : c.at \/ c.rt } ELSE { c \in Cfgs : c.at /\ c.rt } \cup { c \in Cfgs : c.policy /\ ~c.tr /\ ~c.bind /\ ~c.cid /\ (c.at \/ c.rt) })
        /\ stage = "idle" /\ req = <<>> /\ seen = {} /\ log = {} /\ seq = <<>>
Write(s) == log' = log \cup s
Receive == /\ stage = "idle" /\ Len(seq) < MaxReq
           /\ \E r \in (IF Rnd THEN (IF seq # <<>> /\ RandomElement(1..3) = 1 THEN {seq[Len(seq)].r} ELSE IF RandomElement(1..2) = 1 THEN {RandomElement(Nice)} ELSE {RandomElement(Reqs)}) ELSE (IF seq = <<>> THEN Reqs ELSE {seq[1].r})) :
                req' = r /\ stage' = IF ~Enabled(r) THEN "no-entry" ELSE IF cfg.policy /\ r.e.act = "empty" THEN "bad-params" ELSE "lookup"
           /\ UNCHANGED <<cfg, seen, log, seq>>
Done(o) == stage' = "idle" /\ seq' = Append(seq, [ r |-> req, out |-> o ]) /\ UNCHANGED <<cfg, req>>
NoEntry == stage = "no-entry" /\ Done("refused") /\ Write({}) /\ UNCHANGED seen
BadParams == stage = "bad-params" /\ Done("refused") /\ Write({}) /\ UNCHANGED seen
Hit == stage = "lookup" /\ Key(req) \in seen /\ Done("cached") /\ Write({"claims", "cert-names", "action", "resource"}) /\ UNCHANGED seen
Miss == stage = "lookup" /\ Key(req) \notin seen /\ stage' = (IF Ok(req) THEN "valid" ELSE "invalid") /\ UNCHANGED <<cfg, req, seen, log, seq>>
Invalid == stage = "invalid" /\ Done("refused") /\ Write({"reason", "principal", "key-id", "client-id", "thumbprint"}) /\ UNCHANGED seen
Valid == stage = "valid" /\ stage' = (IF cfg.tr /\ cfg.policy /\ req.e.act = "trfail" THEN "untranslated" ELSE IF PolicyOK(req) THEN "allowed" ELSE "forbidden")
         /\ Write(IF cfg.policy THEN {"principal", "roles", "action", "resource"} ELSE {}) /\ UNCHANGED <<cfg, req, seen, seq>>
Forbidden == stage \in {"forbidden", "untranslated"} /\ Done("refused") /\ Write({"reason", "principal", "action", "resource"}) /\ UNCHANGED seen
Allowed == stage = "allowed" /\ Done("accepted") /\ seen' = seen \cup {Key(req)} /\ Write({"claims", "cert-names", "action", "resource"})
Next == Receive \/ NoEntry \/ BadParams \/ Hit \/ Miss \/ Invalid \/ Valid \/ Forbidden \/ Allowed
NoSignature == "signature" \notin log
OnlyValidSeen == \A k \in seen : k[1].kind = k[2]
EmitEnd == ~(stage = "idle" /\ Len(seq) = MaxReq) \/ PrintT("TR " \o ToJson([ cfg |-> cfg, seq |-> seq ]))
=============================================================================
