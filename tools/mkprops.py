#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":mech}
    if state: a["state"]=state
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
def m(f,s,r): return {"name":r+" ("+s+")","where":f}
I,S,H,F,C="inputs","schedules","histories","fault_sequences","configurations"

p("C01","Deny overrides allow, default deny, exact authorized roles",
 "For every set of installed policies and every request (domain, roles, action, resource), access is granted if and only if at least one requested role has a matching allow assertion and no requested role has a matching deny assertion; in every other case (no roles, unknown domain or role, nothing matching, assertion about another domain's resource) the request is rejected. When access is granted, the reported authorized roles are, as a set, exactly the requested roles that have a matching allow assertion. The outcome does not depend on the order or grouping of policies, assertions and roles, on duplicates, on commas or other special characters in names, or on how goroutines are scheduled.",
 [I,S],"all policy documents over small role/action/resource/effect alphabets, all role lists, all interleavings of the per-policy merge and of the per-role check",
 "Tests check a few hand-written policies; the merge and the check run one goroutine per policy / role, and a lost deny needs an interleaving or an unusual combination of assertions.",
 ["policy/daemon.go","policy/assertion.go"],[m("policy/daemon.go","simplifyAndCachePolicy","merges assertions, deny first"),m("policy/daemon.go","CheckPolicyRoles","per role decision")])
p("C02","Wildcard matching: case-insensitive, anchored, everything else literal",
 "An assertion's action and resource pattern matches a request value exactly when, ignoring case, the whole value can be produced by replacing each '*' with any (possibly empty) text and each '?' with exactly one character; every other character of the pattern, including all regular-expression metacharacters, stands only for itself. Patterns apply to action and to the resource part after the domain; domain and role names are never wildcards.",
 [I],"all patterns and values up to a bounded length over an alphabet with both wildcards, letters of both cases, digits, separators and every regular-expression metacharacter",
 "Tests try about twenty fixed patterns; a wrongly escaped character or a missing anchor shows only for particular pattern/value pairs.",
 ["policy/assertion.go","policy/daemon.go"],[m("policy/assertion.go","patternFromGlob","glob to anchored regexp"),m("policy/daemon.go","CheckPolicyRoles","lower-cases request values")])
p("C03","Only authentic, unexpired signed policies ever take effect",
 "A policy document influences access decisions only if its signed part carries a valid signature by the ZTS key it names, its policy part carries a valid signature by the ZMS key it names, both keys are known to the public key provider for that environment, and it has an expiry time in the future when it is received. A response that fails any of these conditions (tampered, wrong or unknown key, swapped environments, missing part, malformed, not 200) changes no decision and is treated as a failed fetch.",
 [I,H,F],"every combination of signature/key/expiry/field faults in a response, at any point of a history of fetches",
 "Tests mock the verifier; they do not cover the product of faults nor what a rejected document does to later decisions, the ETag state and the fallback copy.",
 ["policy/signed_policy.go","policy/fetcher.go"],[m("policy/signed_policy.go","Verify","both signatures and expiry"),m("policy/fetcher.go","Fetch","verify before caching")])
p("C04","An expired policy is never used",
 "At no instant is a request granted or denied on the basis of a policy whose expiry time has passed: from that instant until a newer valid policy takes effect, requests that depended on it are rejected for want of a match. This holds however the policy got there: freshly fetched, confirmed by a not-modified response, or kept as fallback while the server is failing.",
 [H,F],"all histories of clock advances, successful, failing and not-modified fetches and checks",
 "Tests never let the clock pass the expiry with a failing or not-modified server; the fault needs a multi-step history.",
 ["policy/daemon.go","policy/fetcher.go"],[m("policy/daemon.go","simplifyAndCachePolicy","cache TTL from policy expiry"),m("policy/fetcher.go","FetchWithRetry","fallback copy")])
p("C05","Policy updates are atomic and failed updates have no effect",
 "Every access decision is made against one complete policy snapshot: all domains and roles of that snapshot are as installed by one update, never a mixture of two updates and never a partially built one. An update that returns an error leaves every decision and the reported policy cache as they were before it. After an update returns success every later check uses its snapshot or a newer one.",
 [S,H,F],"all interleavings of updates (with any domain failing at any point) and concurrent checks",
 "Tests are sequential and look at the cache after a single update; a torn snapshot is visible only to a check that overlaps an update.",
 ["policy/daemon.go"],[m("policy/daemon.go","Update","build then swap"),m("policy/daemon.go","CheckPolicyRoles","loads the snapshot once")])
p("C06","Policy fetch discipline: freshness, ETag use, bounded retry, fallback",
 "After a successful update the decisions for each configured domain follow the newest valid policy received for it (or, on not-modified or when every attempt failed, the last valid one received). Each update asks the server for each domain at least once and at most 1 + configured retry attempts times, stopping at the first usable answer and waiting the retry delay between attempts, and fails when a domain has neither a usable answer nor an earlier valid policy. A conditional request is sent only with the ETag of the last valid policy received for that domain and only while that policy is further from its expiry than the configured margin.",
 [H,F],"all sequences of per-attempt server outcomes (200 with/without ETag, 304, error status, transport error, malformed, badly signed), policy versions, clock positions and updates over one and two domains",
 "Tests check single fetches with a prepared cache; staleness, a wrong ETag or a lost fallback need a sequence of updates.",
 ["policy/fetcher.go","policy/daemon.go"],[m("policy/fetcher.go","Fetch","ETag and cache"),m("policy/fetcher.go","FetchWithRetry","retry and fallback")])
p("C07","Expiring policies are refetched without waiting for the next refresh",
 "When a policy in effect reaches its expiry, the policy data is fetched again within one purge period, independently of the periodic refresh and for as long as the daemon's context lives, including for policies installed by initialization. If that fetch yields valid policies they take effect as one complete update (old assertions gone, all new ones present); if it fails nothing else changes and the process keeps running.",
 [H,F,S],"all histories of expiries, purge ticks, server contents and failures after initialization or after a refresh",
 "No test waits for an expiry; the hook runs in a background goroutine only after a real-time delay.",
 ["policy/daemon.go","authorizerd.go"],[m("policy/daemon.go","Update","expired hook"),m("authorizerd.go","Init","context handed to the daemon")])
p("C08","Role tokens: accepted only if well-formed, signed and unexpired",
 "A role token is accepted if and only if it splits into an unsigned part and a signature, every field is a key=value pair with integral times, it has not expired, the ZTS key it names is known, and the signature is that key's signature over exactly the unsigned part presented. When accepted, domain, roles (comma separated), principal, issue and expiry times are exactly those in the signed part, the last occurrence counting when a field is repeated; nothing outside the signed part influences them.",
 [I],"all small token field sequences (missing, duplicated, reordered, malformed, unknown fields, extra '=' and ';', altered bytes, wrong/unknown key, wrong environment) at times around expiry",
 "Tests use a handful of tokens, mostly with a mock verifier.",
 ["role/processor.go","role/token.go"],[m("role/processor.go","parseToken","parsing"),m("role/processor.go","validate","expiry and signature")])
p("C09","Access tokens: accepted only with a valid signature by the selected key",
 "An access token is accepted only if its signature verifies under the key that its key id names in the key set its key-set URL selects (the Athenz key set when it names none), that set being one of the configured ones; its expiry is present and in the future; and its not-before and issued-at, when present, are not in the future. A token without key id, with a malformed key-set URL header, signed by another key or with an unsuitable or missing algorithm, or altered after signing is rejected; the returned claims are exactly the signed ones.",
 [I],"all combinations of algorithm, signing key, key id, key-set URL, claim times relative to now, and tampering",
 "Tests use a few fixed tokens with mocked key providers.",
 ["access/processor.go","access/claim.go","jwk/daemon.go"],[m("access/processor.go","keyFunc","key selection"),m("access/claim.go","Valid","time claims")])
p("C10","Certificate-bound access tokens need the bound (or rotated) certificate",
 "With certificate binding enabled, a token is accepted only when the caller presents a client certificate and either its SHA-256 thumbprint equals the token's confirmation value, or the thumbprint confirmation is present and the certificate was legitimately rotated (rotation enabled, non-empty equal common name and client id, certificate issue time plus backdate not before the token's issue time and at most the allowed offset after it), or one of the certificate's URIs is listed in the token's proxy principals. All bounds are inclusive; with binding disabled the certificate plays no role in it.",
 [I,C],"all combinations of confirmation claims, certificate fields, times around both window edges, and configurations",
 "Tests sample single points of the window; boundary and combination cases are not enumerated.",
 ["access/processor.go"],[m("access/processor.go","validateCertificateBoundAccessToken","thumbprint / proxy"),m("access/processor.go","validateCertPrincipal","rotation window")])
p("C11","Client-ID verification: only authorized client IDs per certificate",
 "With client-ID verification enabled, an access token is accepted only if a client certificate is presented and the token's client id is listed for exactly that certificate's subject common name; with it disabled neither matters. It applies in addition to, and never instead of, signature checking and certificate binding.",
 [I,C],"all small authorization maps, common names, client ids and the on/off combinations with certificate binding",
 "Tests use one map and few pairs.",
 ["access/processor.go","authorizerd.go"],[m("access/processor.go","validateClientID","lookup")])
p("C12","A cached success is reused only for the identical request",
 "A request is answered from the success cache only if a request with the same credential kind, same token, same client certificate, same action, same resource and (when a translator is used) same query string succeeded before; two requests that differ in any of these never share a result, whatever characters the fields contain.",
 [I,H],"all pairs of requests whose fields come from alphabets with delimiters, escapes and empty values, in all orders and through all entry points",
 "Tests look up hand-written keys; a collision needs two specifically chosen requests.",
 ["authorizerd.go"],[m("authorizerd.go","authorize","cache key")])
p("C13","A cached success lives at most the cache TTL from its validation",
 "A success is reused at most for the configured cache lifetime counted from the full validation that produced it; repeated use never extends it, and after it every request is fully validated again (token expiry, signature keys, current policy). Failures and denials are never cached: a request rejected earlier is fully evaluated again.",
 [H],"all histories of requests, clock advances, policy changes and token expiries",
 "Tests never advance time over repeated hits.",
 ["authorizerd.go"],[m("authorizerd.go","authorize","SetWithExpire after validation")])
p("C14","The returned principal is exactly that of the validated credential",
 "The principal returned for an accepted token reports the name, domain, roles, issue and expiry time of that very token, the roles the policy check authorized for this very request (none when policy checking is off), and for access tokens the client id; this also holds when it is served from the success cache.",
 [I,H],"all accepted tokens over small field alphabets, both kinds, policyd on/off, fresh and cached, interleaved requests",
 "Tests compare few mocked principals; a mix-up between requests or fields shows only for particular combinations.",
 ["authorizerd.go","principal.go"],[m("authorizerd.go","authorize","builds the principal")])
p("C15","HTTP requests: any enabled credential suffices, disabled kinds never count",
 "Verifying an HTTP request succeeds if and only if at least one enabled credential kind carried by the request succeeds on its own (bearer access token with the TLS client certificate, role token in the configured header), tried in a fixed order with the first success supplying the principal; otherwise the invalid-credentials error is returned. A credential kind that is disabled, absent or in the wrong header never grants access, and building an authorizer with no kind enabled fails.",
 [I,C],"all enable/disable configurations, header names and valid/invalid/missing combinations of credentials, with and without TLS",
 "Tests cover few configurations with mocked processors.",
 ["authorizerd.go"],[m("authorizerd.go","initAuthorizers","enabled kinds"),m("authorizerd.go","Authorize","OR composition")])
p("C16","Empty action or resource is rejected; policyd off means authentication only",
 "With policy checking enabled, a token request with an empty action or empty resource is always rejected, before and after successes, and access is granted only if policy allows the (translated, prefixed) action and resource in the token's own domain for the token's own roles. With policy checking disabled, a valid token is accepted whatever action and resource, and no policy is consulted.",
 [I,C,H],"all emptiness combinations, both token kinds, policyd on/off, in all orders of requests",
 "Tests check one empty case each; order dependence through the cache is not covered.",
 ["authorizerd.go"],[m("authorizerd.go","authorize","parameter check")])
p("C17","Request translation is deterministic, first match wins, never re-substituted",
 "A request is translated by the first rule of its domain whose method (ignoring case), path segments, and set of single-valued query parameters match, placeholders matching any one segment or value; the result is the rule's action and its resource with every placeholder replaced simultaneously by the matched text, which is never itself re-interpreted. If no rule matches, action and resource are unchanged, a malformed query is an error, and the configured resource prefix is prepended to the result in every case.",
 [I,C],"all small rule sets (overlapping rules, placeholders in path and query, several placeholders) and requests, including values that look like placeholders",
 "Tests enumerate ~50 fixed rules; map-order dependent or injected substitutions appear only sometimes.",
 ["translator.go","authorizerd.go"],[m("translator.go","Translate","matching and substitution"),m("translator.go","validate","rule validation")])
p("C18","Public keys: installed set equals the server's, no gaps during rotation",
 "After a successful key update the provider resolves, for each environment separately, exactly the key ids and keys of the last full response of that environment; a failed fetch or an undecodable key leaves the environment's installed keys as they were. At no time during an update does a key id that is in both the old and the new set fail to resolve, and keys of one environment are never returned for the other.",
 [S,H,F],"all sequences of key sets per environment with faults, and all lookups concurrent with an update",
 "Tests look at the map after one update; removal of stale keys, env mix-up and transient gaps need sequences or interleavings.",
 ["pubkey/daemon.go"],[m("pubkey/daemon.go","Update","install, then remove stale"),m("pubkey/daemon.go","getPubKey","lookup")])
p("C19","A key-set ETag is only sent while that key set is installed",
 "A conditional key request carries an ETag only if the key set that came with it was completely installed and is still the installed one for that environment, and only within the configured ETag lifetime; consequently a not-modified answer never hides a key set the server has but the client has not installed. A 200 without ETag or a key set that cannot be installed makes the next request unconditional.",
 [H,F],"all sequences of 200 (good/bad keys, with/without ETag), 304, errors and clock advances per environment",
 "Tests check the ETag map after one fetch only.",
 ["pubkey/daemon.go"],[m("pubkey/daemon.go","fetchPubKeyEntries","ETag cache")])
p("C20","JWK sets are isolated per URL and survive failing refreshes",
 "Each configured key-set URL has its own key set, which is exactly the one of its last successful fetch; a failing URL keeps its previous set, does not disturb the others, and makes the update report an error naming it. A key is resolved only from the set of the URL asked for (the Athenz set when none is given), only by its exact key id, and never for an empty key id or an unconfigured URL.",
 [H,F,C],"all sequences of per-URL outcomes and lookups over one to three URLs, including the Athenz URL listed among the extra ones",
 "Tests cover single updates.",
 ["jwk/daemon.go"],[m("jwk/daemon.go","Update","per URL store"),m("jwk/daemon.go","getKey","lookup")])
p("C21","Background updaters refresh, retry until success, report and stop",
 "Each started background updater (public keys, policies, key sets) performs an update at every refresh period; after a failed update it keeps retrying, no less often than the retry delay allows, until one succeeds, and delivers every failure on its error channel, none being lost while fewer than a hundred reports wait for the reader. When its context ends it stops making requests, delivers the context's error last and closes the channel, and the authorizer's own channel forwards all of them until its context ends and closes likewise.",
 [H,F,S],"all sequences of success/failure per update, cancellation at any point, with a reader that keeps up or comes back after dozens of failures",
 "Tests run the loops in real time for a few ticks.",
 ["policy/daemon.go","pubkey/daemon.go","jwk/daemon.go","authorizerd.go"],[m("policy/daemon.go","Start","loop"),m("pubkey/daemon.go","Start","loop"),m("jwk/daemon.go","Start","loop"),m("authorizerd.go","Start","fan-in")])
p("C22","Initialization loads keys before policies and fails if any part fails",
 "Initialization requests policies only after the public keys of both environments have been installed, so that policies signed with the current keys are accepted; it returns success only if every enabled part (keys, policies, key sets) was loaded, and an error otherwise, in particular no policy is requested when loading the keys fails. Disabled parts make no requests.",
 [S,F,C],"all enable/disable configurations, failing parts and response orders",
 "Tests use mocks that return immediately.",
 ["authorizerd.go"],[m("authorizerd.go","Init","ordering")])
p("C23","Role certificates: exactly the roles named by CN and URIs, per domain",
 "Verifying role certificates succeeds if and only if, for some domain, the policies allow the action and resource for the set of all roles of that domain named by the certificates' common names (domain:role.name) and role URIs (configured prefix, domain/role); distinct roles are never taken for one another, a deny on one role of a domain blocks that domain, and certificates naming no role are rejected. With policy checking disabled the check passes.",
 [I],"all small sets of certificates with CN and URI role names, including names whose concatenations coincide, and policies",
 "Tests use single certificates and mocked policies.",
 ["authorizerd.go"],[m("authorizerd.go","VerifyRoleCert","role extraction")])
p("C24","Hostile or broken inputs never crash the process",
 "Whatever bytes, statuses, headers, redirects, null or missing JSON values the key, policy and key-set servers answer, in whatever order, and whatever token, header, certificate or parameters a caller presents, under every configuration that construction accepts (contexts and requests being non-nil), the library returns an error or a decision; it never panics in a caller's or a background goroutine.",
 [I,F,H,C],"structured malformed responses at every step of a fetch history, malformed tokens and claims of every JSON type, and all enable/disable configurations",
 "Tests use few malformed payloads; several crashes need a specific prior state (for example not-modified before any success).",
 ["policy/fetcher.go","policy/daemon.go","pubkey/daemon.go","jwk/daemon.go","role/processor.go","access/processor.go","authorizerd.go"],[m("policy/fetcher.go","Fetch","decode"),m("pubkey/daemon.go","fetchPubKeyEntries","decode"),m("access/processor.go","keyFunc","header types")])
p("C25","Retrying transport: bounded attempts, correct result, readable body",
 "The retrying HTTP transport makes at least one and at most the configured number of attempts, retries only temporary errors (only while the next wait would end within the time limit, waiting the growing delay (2n+1)/factor^2 seconds) and, at once, statuses 429, 500, 503 and 504, an error being temporary when it says so itself, and returns the outcome of the last attempt. The response it returns is complete and readable by the caller, and every response it discards is released.",
 [F,C],"all sequences of outcomes up to a bounded number of attempts, and configurations",
 "Tests check a few fixed sequences and never read the body.",
 ["client/exp_rt.go"],[m("client/exp_rt.go","RoundTrip","retry loop")])
p("C26","The policy cache report shows exactly the effective policies",
 "The reported policy cache contains, for each role of the effective snapshot, exactly that role's assertions (action, resource, domain, effect, each once), with deny assertions first, and no role without assertions; before the first successful update it is empty, after a failed update it is unchanged, and with policy checking disabled it is an empty, non-nil map.",
 [I,H],"all small policy documents and update histories",
 "Tests use a single prepared cache.",
 ["policy/daemon.go","authorizerd.go"],[m("policy/daemon.go","GetPolicyCache","report")])
p("C27","Configuration is validated and addresses exactly the configured endpoints",
 "Construction fails for an unparsable duration, a URL with a scheme other than http or https, a malformed extra key-set URL, or invalid mapping rules (empty domain, method, action or resource, a path not starting with '/', empty or repeated placeholders, repeated query parameters), and when no credential kind is enabled; an option not given, or an empty duration, selects the documented default (durations and retries, one minute for cached successes, certificate-bound access tokens with one hour of back-date and offset and no client id check, the header Athenz-Role-Auth, the URI prefix athenz://role/, the address athenz.io/zts/v1, an HTTP client that gives up after 30 seconds). A leading http:// or https:// is ignored and all requests go, over https, to exactly the documented paths below the configured address for the configured domains and system domain.",
 [C,I],"all small URL and duration strings, rule sets and option combinations, observed through the requests made",
 "Tests check each option's field in isolation, not the requests that result.",
 ["option.go","policy/option.go","pubkey/option.go","jwk/option.go","internal/url/util.go","translator.go"],[m("internal/url/util.go","TrimHTTPScheme","address"),m("translator.go","validate","rules")])
p("C28","Token signatures never reach the logs",
 "At every log level and for every outcome (accepted, served from cache, rejected for any reason), the log output contains no role token signature and no access token signature.",
 [I,H],"all outcomes and entry points for both token kinds, with debug logging on",
 "Tests check the masking helper, not the log output of whole requests.",
 ["mask.go","authorizerd.go"],[m("mask.go","maskToken","masking")])
p("C29","Every HTTP response obtained is released",
 "Every response body that the key, policy and key-set updaters obtain from the server is closed by the time the update returns, whatever its status and content.",
 [F,I],"all response kinds (200 good/bad, 304, 4xx, 5xx, truncated) for each kind of endpoint",
 "Tests use servers whose leaks go unnoticed.",
 ["policy/fetcher.go","pubkey/daemon.go","jwk/daemon.go"],[m("policy/fetcher.go","flushAndClose","release"),m("pubkey/daemon.go","fetchPubKeyEntries","release")])
p("C30","Background activity is bounded and ends with the context",
 "However many updates (successful, failed, not modified, late, empty), policy expiries, decisions (granted, denied, of several roles, interrupted) and repeated initializations an authorizer goes through, the background activity it leaves between them does not grow with their number. Once the context it was started with has ended, its error channel has been read to the end and the operations in progress have returned, no background activity of the authorizer is left.",
 [H,F],"all small histories of updates, faults, expiries, decisions and initializations, repeated",
 "Tests end before leaked activity matters and never count it.",
 ["policy/daemon.go","jwk/daemon.go","pubkey/daemon.go","authorizerd.go"],[m("policy/daemon.go","CheckPolicyRoles","evaluation workers"),m("policy/daemon.go","Update","watcher replacement"),m("jwk/daemon.go","Update","fetch")])
p("C31","What a caller is given is its own",
 "Whatever a caller does to the role lists of a principal or to the policy cache report it was given, no later decision, no principal (its own or another caller's, from the success cache or not) and no other report changes because of it. Verification only reads what it is given: requests and certificates are left as they were.",
 [H,C],"all small histories of decisions, reports, refreshes and writes to what was handed out",
 "Tests only compare what they are given; none writes to it.",
 ["principal.go","authorizerd.go","policy/daemon.go"],[m("principal.go","Roles","hand-out"),m("policy/daemon.go","GetPolicyCache","hand-out")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
