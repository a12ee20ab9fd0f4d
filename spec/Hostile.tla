------------------------------ MODULE Hostile ------------------------------
(* C24: the environment may answer anything, in any order, and callers may     *)
(* present anything: every call returns, the process stays alive, and as soon   *)
(* as the servers answer properly an initialization succeeds and decisions are  *)
(* as specified. A behaviour is a sequence of environment and caller steps; the *)
(* abstract state is only what the final decision depends on.                   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Fam, NRandom, MaxSteps
VARIABLES st, served, hist
vars == <<st, served, hist>>
R1(S) == RandomElement(S)
\* ---- documents: a well-formed one with values replaced; the driver knows the well-formed ones
PolPaths == { "", "signedPolicyData", "signedPolicyData/policyData", "signedPolicyData/policyData/domain", "signedPolicyData/policyData/policies", "signedPolicyData/policyData/policies/0",
              "signedPolicyData/policyData/policies/0/name", "signedPolicyData/policyData/policies/0/modified", "signedPolicyData/policyData/policies/0/assertions", "signedPolicyData/policyData/policies/0/assertions/0",
              "signedPolicyData/policyData/policies/0/assertions/0/role", "signedPolicyData/policyData/policies/0/assertions/0/action", "signedPolicyData/policyData/policies/0/assertions/0/resource",
              "signedPolicyData/policyData/policies/0/assertions/0/effect", "signedPolicyData/policyData/policies/0/assertions/0/id", "signedPolicyData/policyData/policies/1", "signedPolicyData/zmsSignature", "signedPolicyData/zmsKeyId", "signedPolicyData/modified",
              "signedPolicyData/expires", "signature", "keyId" }
KeyPaths == { "", "name", "modified", "publicKeys", "publicKeys/0", "publicKeys/0/id", "publicKeys/0/key", "publicKeys/1", "providerEndpoint", "extra" }
JwkPaths == { "", "keys", "keys/0", "keys/0/kty", "keys/0/crv", "keys/0/x", "keys/0/y", "keys/0/kid", "keys/0/alg", "keys/0/use", "keys/0/key_ops", "keys/0/x5c", "keys/0/x5u", "keys/0/n", "keys/0/e", "keys/0/k", "keys/0/d", "keys/1" }
Vals == { "missing", "null", "str", "empty", "num", "neg", "big", "float", "true", "list", "listnull", "listlist", "obj", "objnull", "deep", "nul", "long", "b64zero", "b64one", "RSA", "oct", "OKP", "P-521", "HS256", "none",
          "star", "quest", "bracket", "colon", "colons", "nocolon", "time", "timepast", "timehuge", "badutf8", "keypem", "rsapem", "certpem" }
Kinds == {"pol", "zts", "zms", "jwk", "jwk2"}
Paths(k) == CASE k = "pol" -> PolPaths [] k \in {"zts", "zms"} -> KeyPaths [] OTHER -> JwkPaths
Statuses == {200, 304, 204, 206, 301, 302, 307, 308, 400, 401, 404, 429, 500, 503, 100, 999}
Tags == {"", "t", "BSL", "W/t", "NULs", "long"}
Locs == {"", "self", "rel", "http", "bad", "loop", "scheme"}
Raw == {"", "null", "{}", "[]", "[null]", "{", "nul", "deepjson", "binary", "num", "dup", "hugeint", "bom"}
Ans(s, tag, loc, raw, muts, sign, trunc) == [ status |-> s, etag |-> tag, loc |-> loc, raw |-> raw, muts |-> muts, sign |-> sign, trunc |-> trunc ]
Mut(p, v) == [ p |-> p, v |-> v ]
Doc(muts, sign) == Ans(200, "", "", "doc", muts, sign, FALSE)
NetErr == Ans(0, "", "", "", <<>>, FALSE, FALSE)
RndAns(k) == CASE R1(1..5) = 1 -> NetErr
               [] R1(1..3) = 1 -> Ans(R1(Statuses), R1(Tags), R1(Locs), R1(Raw), <<>>, FALSE, R1(BOOLEAN))
               [] OTHER -> Ans(IF R1(1..5) = 1 THEN R1(Statuses) ELSE 200, R1(Tags), "", "doc", [ i \in 1..R1({0, 1, 1, 2, 3}) |-> Mut(R1(Paths(k)), R1(Vals)) ], R1({TRUE, TRUE, FALSE}), R1(1..8) = 1)
\* ---- what callers present
HeadPaths == {"alg", "kid", "jku", "typ", "crit", "x5u", ""}
ClaimPaths == {"aud", "scp", "sub", "iat", "exp", "nbf", "iss", "jti", "cnf", "cnf/x5t#S256", "cnf/proxy-principals#spiffe", "cnf/proxy-principals#spiffe/0", "client_id", "uid", "ver", "auth_time", ""}
Tok(kind, hm, cm, cert, act, res, query, raw) == [ kind |-> kind, hm |-> hm, cm |-> cm, cert |-> cert, act |-> act, res |-> res, query |-> query, raw |-> raw ]
Certs == {"nil", "zero", "good", "niluri", "emptyuri", "opaque", "nocn"}
Txt == {"a", "", "NULs", "badutf8", "long", "PCT", "sep", "star", "brace", "uni"}
Atoms == {";", "=", ";s=", "d=", "r=", "e=", "t=", "k=", ".", "a", "0", "NULs", "badutf8", "eyJhbGciOiJub25lIn0", "bnVsbA", "e30", "W10", " ", "LF", "long"}
Good == Tok("at", <<>>, <<>>, "good", "act", "res", "", <<>>)
TokMuts == { Tok(k, <<Mut(p, v)>>, <<>>, c, "act", "res", "", <<>>) : k \in {"at", "atnone"}, p \in HeadPaths, v \in Vals, c \in {"nil", "good"} }
           \cup { Tok("at", <<>>, <<Mut(p, v)>>, c, "act", "res", "", <<>>) : p \in ClaimPaths, v \in Vals, c \in {"nil", "good", "niluri", "zero"} }
TokRaw == { Tok(k, <<>>, <<>>, c, "act", "res", "", r) : k \in {"rawat", "rawrt", "rawhttp"}, c \in {"nil", "zero"}, r \in UNION { [ 1..n -> Atoms ] : n \in 0..2 } }
TokReq == { Tok(k, <<>>, <<>>, c, a, r, q, <<>>) : k \in {"at", "rt", "http", "rc"}, c \in Certs, a \in Txt, r \in Txt, q \in {"", "x=1", "badq", "PCT"} }
TokReqE == { t \in TokReq : t.act = t.res \/ t.act = "a" \/ t.res = "a" }
RndTok == CASE R1(1..4) = 1 -> Tok(R1({"rawat", "rawrt", "rawhttp"}), <<>>, <<>>, R1(Certs), R1(Txt), R1(Txt), R1(Txt), [ i \in 1..R1(0..6) |-> R1(Atoms) ])
            [] R1(1..3) = 1 -> R1(TokReq)
            [] OTHER -> Tok(R1({"at", "at", "atnone", "rt", "http", "rc"}), [ i \in 1..R1(0..2) |-> Mut(R1(HeadPaths), R1(Vals)) ], [ i \in 1..R1(0..2) |-> Mut(R1(ClaimPaths), R1(Vals)) ], R1(Certs), R1(Txt \cup {"act"}), R1(Txt \cup {"res"}), R1(Txt), <<>>)
\* ---- steps
Serve(k, a) == hist' = Append(hist, [ a |-> "serve", k |-> k, ans |-> a ]) /\ served' = [ served EXCEPT ![k] = "any" ] /\ UNCHANGED st
InitStep == hist' = Append(hist, [ a |-> "init" ]) /\ UNCHANGED <<st, served>>
Pass == hist' = Append(hist, [ a |-> "pass" ]) /\ UNCHANGED <<st, served>>
Call(t) == hist' = Append(hist, [ a |-> "call", tok |-> t ]) /\ UNCHANGED <<st, served>>
\* the servers answer properly from now on: the next initialization loads everything
Recover == hist' = Append(hist, [ a |-> "recover" ]) /\ served' = [ k \in Kinds |-> "good" ] /\ st' = "loaded"
N == Len(hist)
LastA == IF N = 0 THEN "" ELSE hist[N].a
Init == hist = <<>> /\ served = [ k \in Kinds |-> "good" ] /\ st = "start"
\* one document, loaded at the start and on refresh, and then recovery
NextDocs == \/ N = 0 /\ \E k \in Kinds : \E p \in Paths(k), v \in Vals, s \in (IF k = "pol" THEN BOOLEAN ELSE {FALSE}) : Serve(k, Doc(<<Mut(p, v)>>, s))
            \/ N = 0 /\ \E k \in Kinds \ {"jwk2"}, s \in Statuses, l \in Locs, r \in {"", "doc"}, t \in {"", "t"} : Serve(k, Ans(s, t, l, r, <<>>, FALSE, FALSE))
            \/ N = 0 /\ \E k \in Kinds, r \in Raw, t \in BOOLEAN : Serve(k, Ans(200, "", "", r, <<>>, FALSE, t))
            \/ N = 1 /\ InitStep
            \/ N = 2 /\ Pass
            \/ N = 3 /\ Recover
NextCalls == \/ N = 0 /\ InitStep
             \/ N = 1 /\ \E t \in TokMuts \cup TokRaw \cup TokReqE : Call(t)
             \/ N = 2 /\ Recover
NextSeq == IF N = MaxSteps - 1 THEN Recover
           ELSE IF N < MaxSteps - 1 THEN LET c == R1(1..10) IN
                CASE c \in 1..4 -> \E k \in { R1(Kinds) } : \E a \in { RndAns(k) } : Serve(k, a)
                  [] c \in 5..6 -> InitStep
                  [] c \in 7..8 -> Pass
                  [] OTHER -> \E t \in { RndTok } : Call(t)
           ELSE FALSE /\ UNCHANGED vars
Next == CASE Fam = "docs" -> NextDocs [] Fam = "calls" -> NextCalls [] OTHER -> NextSeq
\* what the last call after a recovery must answer
Outcome == IF st = "loaded" THEN "granted" ELSE "any"
Decided == LastA = "recover" => Outcome = "granted" /\ \A k \in Kinds : served[k] = "good"
EmitEnd == (hist'[Len(hist')].a # "recover") \/ PrintT("TR " \o ToJson([ steps |-> hist', fam |-> Fam, outcome |-> Outcome' ]))
=============================================================================
