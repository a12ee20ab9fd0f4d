From a59ed9a3171738429876b42d44a2c4525f151285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:06 +0000
Subject: [PATCH 01/25] fix: never let a concurrent allow assertion overwrite a
 deny assertion

---
 policy/daemon.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/policy/daemon.go b/policy/daemon.go
index a64979e..199f140 100644
--- a/policy/daemon.go
+++ b/policy/daemon.go
@@ -334,13 +334,11 @@ func simplifyAndCachePolicy(ctx context.Context, rp gache.Gache, sp *SignedPolic
 					return ctx.Err()
 				default:
 					km := fmt.Sprintf("%s,%s,%s", ass.Role, ass.Action, ass.Resource)
-					if _, ok := assm.Load(km); !ok {
+					// deny policy will override allow policy, and also remove duplication
+					if strings.EqualFold("deny", ass.Effect) {
 						assm.Store(km, ass)
 					} else {
-						// deny policy will override allow policy, and also remove duplication
-						if strings.EqualFold("deny", ass.Effect) {
-							assm.Store(km, ass)
-						}
+						assm.LoadOrStore(km, ass)
 					}
 				}
 			}
-- 
2.43.0


From 04d49d5f112d38d4aa3e3ad684cc7339fbce1063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:06 +0000
Subject: [PATCH 02/25] fix: do not merge distinct assertions whose fields
 contain a comma

---
 policy/daemon.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/policy/daemon.go b/policy/daemon.go
index 199f140..af6dd5a 100644
--- a/policy/daemon.go
+++ b/policy/daemon.go
@@ -333,7 +333,7 @@ func simplifyAndCachePolicy(ctx context.Context, rp gache.Gache, sp *SignedPolic
 				case <-ctx.Done():
 					return ctx.Err()
 				default:
-					km := fmt.Sprintf("%s,%s,%s", ass.Role, ass.Action, ass.Resource)
+					km := [3]string{ass.Role, ass.Action, ass.Resource}
 					// deny policy will override allow policy, and also remove duplication
 					if strings.EqualFold("deny", ass.Effect) {
 						assm.Store(km, ass)
-- 
2.43.0


From 2c319f5091f88a57d714762cb6b8e76fec11a29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:31 +0000
Subject: [PATCH 03/25] fix: do not cache an expired policy forever

---
 policy/daemon.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/policy/daemon.go b/policy/daemon.go
index af6dd5a..6aeab46 100644
--- a/policy/daemon.go
+++ b/policy/daemon.go
@@ -356,6 +356,13 @@ func simplifyAndCachePolicy(ctx context.Context, rp gache.Gache, sp *SignedPolic
 	now := fastime.Now()
 	assm.Range(func(k interface{}, val interface{}) bool {
 		ass := val.(*util.Assertion)
+		// an expired policy must not be used, and gache never expires an entry having non-positive expiry
+		ttl := sp.DomainSignedPolicyData.SignedPolicyData.Expires.Sub(now)
+		if ttl <= 0 {
+			glg.Debugf("policy expired, skip assertion: %+v", ass)
+			return false
+		}
+
 		a, err := NewAssertion(ass.Action, ass.Resource, ass.Effect)
 		if err != nil {
 			glg.Debugf("error adding assertion to the cache, err: %v", err)
@@ -374,7 +381,7 @@ func simplifyAndCachePolicy(ctx context.Context, rp gache.Gache, sp *SignedPolic
 		} else {
 			asss = []*Assertion{a}
 		}
-		rp.SetWithExpire(ass.Role, asss, sp.DomainSignedPolicyData.SignedPolicyData.Expires.Sub(now))
+		rp.SetWithExpire(ass.Role, asss, ttl)
 
 		glg.Debugf("added assertion to the tmp cache: %+v", ass)
 		return true
-- 
2.43.0


From 7a899ae0e40e1e18c4175b45d38e281ebf1b366d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:05 +0000
Subject: [PATCH 04/25] fix: refresh expired policies through a complete
 snapshot instead of merging into the live cache

---
 policy/daemon.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/policy/daemon.go b/policy/daemon.go
index 6aeab46..c2c617a 100644
--- a/policy/daemon.go
+++ b/policy/daemon.go
@@ -184,11 +184,20 @@ func (p *policyd) Update(ctx context.Context) error {
 		return err
 	}
 
+	// refresh with a whole new snapshot when a policy expires, at most once at a time;
+	// merging into the effective cache exposes partially updated (e.g. deny not yet stored) and outdated assertions
+	updCtx, refreshing := ctx, new(int32)
 	rp.StartExpired(ctx, p.purgePeriod).
 		EnableExpiredHook().
-		SetExpiredHook(func(ctx context.Context, key string) {
+		SetExpiredHook(func(_ context.Context, key string) {
 			// key = <domain>:role.<role>
-			fetchAndCachePolicy(ctx, *(p.rolePolicies), p.fetchers[strings.Split(key, ":role.")[0]])
+			if !atomic.CompareAndSwapInt32(refreshing, 0, 1) {
+				return
+			}
+			if err := p.Update(updCtx); err != nil {
+				glg.Errorf("refresh expired policy fail, key: %s, error: %v", key, err)
+				atomic.StoreInt32(refreshing, 0)
+			}
 		})
 
 	// swap pointer
-- 
2.43.0


From ea9c12d8484ee35567d82f108393ad524442cc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:05 +0000
Subject: [PATCH 05/25] fix: keep the policy expiry daemon alive after Init
 returns

---
 authorizerd.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/authorizerd.go b/authorizerd.go
index 954c4ac..5df0456 100644
--- a/authorizerd.go
+++ b/authorizerd.go
@@ -277,7 +277,8 @@ func (a *authority) Init(ctx context.Context) error {
 				}
 			}
 			if !a.disablePolicyd {
-				return a.policyd.Update(egCtx)
+				// egCtx is canceled once Init returns, but the policy expiry daemon should be kept alive
+				return a.policyd.Update(ctx)
 			}
 			return nil
 		}
-- 
2.43.0


From 604c46a2c70956867a2902d71b3f532c61373c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:05 +0000
Subject: [PATCH 06/25] fix: do not panic on an unexpected 304 response

---
 policy/fetcher.go | 2 +-
 pubkey/daemon.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/policy/fetcher.go b/policy/fetcher.go
index 49c363d..fb42c17 100644
--- a/policy/fetcher.go
+++ b/policy/fetcher.go
@@ -109,7 +109,7 @@ func (f *fetcher) Fetch(ctx context.Context) (*SignedPolicy, error) {
 	}()
 
 	// if server responses NotModified, return policy from cache
-	if res.StatusCode == http.StatusNotModified {
+	if res.StatusCode == http.StatusNotModified && tp != nil {
 		glg.Debugf("policy = 304 not modified, use cache for domain: %s, ETag: %v", f.domain, tp.eTag)
 		return tp.sp, nil
 	}
diff --git a/pubkey/daemon.go b/pubkey/daemon.go
index 7be03ca..97a1879 100644
--- a/pubkey/daemon.go
+++ b/pubkey/daemon.go
@@ -255,7 +255,7 @@ func (p *pubkeyd) fetchPubKeyEntries(ctx context.Context, env AthenzEnv) (*SysAu
 	}
 
 	// if server return NotModified, return policy from cache
-	if r.StatusCode == http.StatusNotModified {
+	if r.StatusCode == http.StatusNotModified && ok {
 		cache := t.(*confCache)
 		glg.Debugf("Server return not modified, ETag: %s", cache.eTag)
 		return cache.sac, false, nil
-- 
2.43.0


From 8abb9a7a3c143a42a53883c46c1bbcca1ec26c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:06 +0000
Subject: [PATCH 07/25] fix: do not panic on null values in server responses

---
 policy/daemon.go  | 10 ++++++++++
 policy/fetcher.go |  2 +-
 pubkey/daemon.go  |  5 ++++-
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/policy/daemon.go b/policy/daemon.go
index c2c617a..70c4c80 100644
--- a/policy/daemon.go
+++ b/policy/daemon.go
@@ -333,11 +333,21 @@ func simplifyAndCachePolicy(ctx context.Context, rp gache.Gache, sp *SignedPolic
 	eg := errgroup.Group{}
 	assm := new(sync.Map) // assertion map
 
+	if sp.DomainSignedPolicyData.SignedPolicyData.PolicyData == nil {
+		return nil
+	}
+
 	// simplify signed policy cache
 	for _, policy := range sp.DomainSignedPolicyData.SignedPolicyData.PolicyData.Policies {
 		pol := policy
+		if pol == nil {
+			continue
+		}
 		eg.Go(func() error {
 			for _, ass := range pol.Assertions {
+				if ass == nil {
+					continue
+				}
 				select {
 				case <-ctx.Done():
 					return ctx.Err()
diff --git a/policy/fetcher.go b/policy/fetcher.go
index fb42c17..3d7e339 100644
--- a/policy/fetcher.go
+++ b/policy/fetcher.go
@@ -122,7 +122,7 @@ func (f *fetcher) Fetch(ctx context.Context) (*SignedPolicy, error) {
 
 	// read and decode
 	sp := new(SignedPolicy)
-	if err = json.NewDecoder(res.Body).Decode(&sp); err != nil {
+	if err = json.NewDecoder(res.Body).Decode(sp); err != nil {
 		errMsg := "policy decode fail"
 		glg.Errorf("%s, domain: %s, error: %v", errMsg, f.domain, err)
 		return nil, errors.Wrap(err, errMsg)
diff --git a/pubkey/daemon.go b/pubkey/daemon.go
index 97a1879..9b6f414 100644
--- a/pubkey/daemon.go
+++ b/pubkey/daemon.go
@@ -169,6 +169,9 @@ func (p *pubkeyd) Update(ctx context.Context) error {
 		}
 
 		for _, key := range pubKeys.PublicKeys {
+			if key == nil {
+				return errors.Wrap(ErrFetchAthenzPubkey, "invalid public key entry")
+			}
 			glg.Debugf("Decoding key, env: %v, keyID: %v", env, key.ID)
 			decKey, err := dec.DecodeString(key.Key)
 			if err != nil {
@@ -268,7 +271,7 @@ func (p *pubkeyd) fetchPubKeyEntries(ctx context.Context, env AthenzEnv) (*SysAu
 	}
 
 	sac := new(SysAuthConfig)
-	if err = json.NewDecoder(r.Body).Decode(&sac); err != nil {
+	if err = json.NewDecoder(r.Body).Decode(sac); err != nil {
 		glg.Errorf("Error decoding public key entries, err: %v", err)
 		return nil, false, errors.Wrap(err, "json format not correct")
 	}
-- 
2.43.0


From 6fa07b5c22914d2a72b682a453ce9916addeb89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:59 +0000
Subject: [PATCH 08/25] fix: keep the cached ETag consistent with the installed
 public keys

---
 pubkey/daemon.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pubkey/daemon.go b/pubkey/daemon.go
index 9b6f414..a4797ee 100644
--- a/pubkey/daemon.go
+++ b/pubkey/daemon.go
@@ -155,7 +155,7 @@ func (p *pubkeyd) Update(ctx context.Context) error {
 	eg := errgroup.Group{}
 
 	// this function decode and create verifier obj and store to corresponding cache map
-	updConf := func(env AthenzEnv, cache *sync.Map) error {
+	updConf := func(env AthenzEnv, cache *sync.Map) (err error) {
 		cm := new(sync.Map)
 		dec := new(authcore.YBase64)
 		pubKeys, upded, err := p.fetchPubKeyEntries(ctx, env)
@@ -168,6 +168,14 @@ func (p *pubkeyd) Update(ctx context.Context) error {
 			return nil
 		}
 
+		// the ETag is already cached, forget it when the key set cannot be installed,
+		// otherwise the server keeps replying 304 and the key set is never installed
+		defer func() {
+			if err != nil {
+				p.eTagCache.Delete(string(env))
+			}
+		}()
+
 		for _, key := range pubKeys.PublicKeys {
 			if key == nil {
 				return errors.Wrap(ErrFetchAthenzPubkey, "invalid public key entry")
@@ -288,6 +296,9 @@ func (p *pubkeyd) fetchPubKeyEntries(ctx context.Context, env AthenzEnv) (*SysAu
 	if eTag != "" {
 		glg.Debugf("Setting ETag %v", eTag)
 		p.eTagCache.SetWithExpire(string(env), &confCache{eTag, sac}, p.eTagExpiry)
+	} else {
+		// the cached ETag no longer represents the key set being installed
+		p.eTagCache.Delete(string(env))
 	}
 
 	glg.Info("Fetch public key entries success")
-- 
2.43.0


From 0cb7a941263fe54086ecd2834f59d8cd2c2c34e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:28 +0000
Subject: [PATCH 09/25] fix: make the success cache key unambiguous

---
 authorizerd.go | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/authorizerd.go b/authorizerd.go
index 5df0456..86d15b4 100644
--- a/authorizerd.go
+++ b/authorizerd.go
@@ -18,6 +18,7 @@ package authorizerd
 
 import (
 	"context"
+	"crypto/sha256"
 	"crypto/x509"
 	"fmt"
 	"net/http"
@@ -124,6 +125,9 @@ const (
 	accessToken
 )
 
+// cacheKeyEscaper escapes the fields of the cache key, so that different requests never share the same key
+var cacheKeyEscaper = strings.NewReplacer("%", "%25", string(cacheKeyDelimiter), "%3A")
+
 // New creates the Authorizerd object with the options
 func New(opts ...Option) (Authorizerd, error) {
 	var (
@@ -367,13 +371,18 @@ func (a *authority) AuthorizeAccessToken(ctx context.Context, tok, act, res stri
 
 func (a *authority) authorize(ctx context.Context, m mode, tok, act, res, query string, cert *x509.Certificate) (Principal, error) {
 	var key strings.Builder
-	key.WriteString(tok)
+	tokKey := cacheKeyEscaper.Replace(tok)
+	key.WriteString(tokKey)
 
 	if cert != nil {
 		key.WriteRune(cacheKeyDelimiter)
-		key.WriteString(cert.Issuer.CommonName)
+		key.WriteString(cacheKeyEscaper.Replace(cert.Issuer.CommonName))
 		key.WriteRune(cacheKeyDelimiter)
-		key.WriteString(cert.Subject.CommonName)
+		key.WriteString(cacheKeyEscaper.Replace(cert.Subject.CommonName))
+		if len(cert.Raw) > 0 {
+			// certificates having the same common names are not necessarily the same
+			key.WriteString(fmt.Sprintf("%%=%x", sha256.Sum256(cert.Raw)))
+		}
 	}
 
 	if !a.disablePolicyd {
@@ -381,20 +390,25 @@ func (a *authority) authorize(ctx context.Context, m mode, tok, act, res, query
 			return nil, errors.Wrap(ErrInvalidParameters, "empty action / resource")
 		}
 		key.WriteRune(cacheKeyDelimiter)
-		key.WriteString(act)
+		key.WriteString(cacheKeyEscaper.Replace(act))
 		key.WriteRune(cacheKeyDelimiter)
-		key.WriteString(res)
+		key.WriteString(cacheKeyEscaper.Replace(res))
 		if query != "" && a.translator != nil {
 			key.WriteRune(cacheKeyDelimiter)
-			key.WriteString(query)
+			key.WriteString(cacheKeyEscaper.Replace(query))
 		}
 	}
 
 	// check if exists in verification success cache
 	cached, ok := a.cache.Get(key.String())
+	if ok {
+		// a role token is never accepted as an access token, and vice versa
+		_, isAccessToken := cached.(OAuthAccessToken)
+		ok = isAccessToken == (m == accessToken)
+	}
 	if ok {
 		glg.DebugFunc(func() string {
-			return fmt.Sprintf("use cached result. masked tok: %s, masked key: %s", maskToken(m, tok), maskCacheKey(key.String(), tok))
+			return fmt.Sprintf("use cached result. masked tok: %s, masked key: %s", maskToken(m, tok), maskCacheKey(key.String(), tokKey))
 		})
 		return cached.(Principal), nil
 	}
@@ -467,7 +481,7 @@ func (a *authority) authorize(ctx context.Context, m mode, tok, act, res, query
 	}
 
 	glg.DebugFunc(func() string {
-		return fmt.Sprintf("set token result. masked tok: %s, masked key: %s, act: %s, res: %s", maskToken(m, tok), maskCacheKey(key.String(), tok), act, res)
+		return fmt.Sprintf("set token result. masked tok: %s, masked key: %s, act: %s, res: %s", maskToken(m, tok), maskCacheKey(key.String(), tokKey), act, res)
 	})
 	a.cache.SetWithExpire(key.String(), p, a.cacheExp)
 	return p, nil
-- 
2.43.0


From 8fab8c21bfd2dae0baeb2cc6055a7f547fb08169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:59 +0000
Subject: [PATCH 10/25] fix: do not take different roles of a role certificate
 as duplicated

---
 authorizerd.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/authorizerd.go b/authorizerd.go
index 86d15b4..f0cb819 100644
--- a/authorizerd.go
+++ b/authorizerd.go
@@ -519,7 +519,7 @@ func (a *authority) VerifyRoleCert(ctx context.Context, peerCerts []*x509.Certif
 		return nil
 	}
 
-	drcheck := make(map[string]struct{})
+	drcheck := make(map[[2]string]struct{})
 	domainRoles := make(map[string][]string)
 	addDomainRoles := func(dr []string) {
 		if len(dr) != 2 {
@@ -527,9 +527,9 @@ func (a *authority) VerifyRoleCert(ctx context.Context, peerCerts []*x509.Certif
 		}
 		domain, roleName := dr[0], dr[1]
 		// duplicated role check
-		if _, ok := drcheck[domain+roleName]; !ok {
+		if _, ok := drcheck[[2]string{domain, roleName}]; !ok {
 			domainRoles[domain] = append(domainRoles[domain], roleName)
-			drcheck[domain+roleName] = struct{}{}
+			drcheck[[2]string{domain, roleName}] = struct{}{}
 		}
 	}
 
-- 
2.43.0


From b54611645cef341011a756c756a994d3ee8e6215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:59 +0000
Subject: [PATCH 11/25] fix: substitute the placeholders of a mapping rule
 simultaneously

---
 translator.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/translator.go b/translator.go
index 65813d8..e3aee45 100644
--- a/translator.go
+++ b/translator.go
@@ -20,6 +20,7 @@ import (
 	"errors"
 	"fmt"
 	"net/url"
+	"sort"
 	"strings"
 )
 
@@ -177,11 +178,18 @@ OUTER:
 				}
 			}
 
-			replacedRes := rule.Resource
-			for placeholder, v := range placeholderMap {
-				replacedRes = strings.ReplaceAll(replacedRes, placeholder, v)
+			// replace all the placeholders at once in a fixed order (longest match first),
+			// a placeholder-like text in the requested value must not be replaced again
+			placeholders := make([]string, 0, len(placeholderMap))
+			for placeholder := range placeholderMap {
+				placeholders = append(placeholders, placeholder)
 			}
-			return rule.Action, replacedRes, nil
+			sort.Sort(sort.Reverse(sort.StringSlice(placeholders)))
+			oldnew := make([]string, 0, 2*len(placeholders))
+			for _, placeholder := range placeholders {
+				oldnew = append(oldnew, placeholder, placeholderMap[placeholder])
+			}
+			return rule.Action, strings.NewReplacer(oldnew...).Replace(rule.Resource), nil
 		}
 	}
 	return method, path, nil
-- 
2.43.0


From 8cbce5289fddaa681144edda2b62d824332c44af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:59 +0000
Subject: [PATCH 12/25] fix: return a readable response from
 ExponentialRoundTripper

---
 client/exp_rt.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/client/exp_rt.go b/client/exp_rt.go
index 0eba7db..4ec6956 100644
--- a/client/exp_rt.go
+++ b/client/exp_rt.go
@@ -60,7 +60,7 @@ func (p *ExponentialRoundTripper) RoundTrip(req *http.Request) (*http.Response,
 	var resp *http.Response
 	var err error
 
-	for cnt := 0; cnt < p.maxRetryCount; cnt++ {
+	for cnt := 0; cnt == 0 || cnt < p.maxRetryCount; cnt++ {
 		resp, err = p.transport.RoundTrip(req)
 		dur := p.calNextWaitDur(cnt)
 
@@ -77,13 +77,14 @@ func (p *ExponentialRoundTripper) RoundTrip(req *http.Request) (*http.Response,
 			continue
 		}
 
-		if responseRetriable(resp) {
+		if responseRetriable(resp) && cnt+1 < p.maxRetryCount {
+			// the response is dropped, release it to retry
+			io.Copy(ioutil.Discard, resp.Body)
+			resp.Body.Close()
 			continue
 		}
 
-		// response success
-		io.Copy(ioutil.Discard, resp.Body)
-		resp.Body.Close()
+		// the caller is responsible for closing the response body
 		return resp, nil
 	}
 
-- 
2.43.0


From 1db87f91b8dcab2fc82f57b64f26daf22379a25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:59 +0000
Subject: [PATCH 13/25] fix: reject credentials instead of panic when there is
 no key provider

---
 access/processor.go     | 3 +++
 policy/signed_policy.go | 4 ++++
 role/processor.go       | 3 +++
 3 files changed, 10 insertions(+)

diff --git a/access/processor.go b/access/processor.go
index 3008aa4..4f9f8a3 100644
--- a/access/processor.go
+++ b/access/processor.go
@@ -203,6 +203,9 @@ func (a *atp) keyFunc(token *jwt.Token) (interface{}, error) {
 		return nil, errors.New(err.Error() + ":" + jws.JWKSetURLKey)
 	}
 
+	if a.jwkp == nil {
+		return nil, errors.New("no jwk provider")
+	}
 	key := a.jwkp(keyID, jwkSetURL)
 
 	if key == nil {
diff --git a/policy/signed_policy.go b/policy/signed_policy.go
index 73b9690..60d083d 100644
--- a/policy/signed_policy.go
+++ b/policy/signed_policy.go
@@ -48,6 +48,10 @@ func (s *SignedPolicy) Verify(pkp pubkey.Provider) error {
 		return fmt.Errorf("policy already expired at %s", s.SignedPolicyData.Expires.Time.String())
 	}
 
+	if pkp == nil {
+		return errors.New("no public key provider")
+	}
+
 	// verify signed policy data
 	ver := pkp(pubkey.EnvZTS, s.KeyId)
 	if ver == nil {
diff --git a/role/processor.go b/role/processor.go
index 6aeb539..d36304b 100644
--- a/role/processor.go
+++ b/role/processor.go
@@ -84,6 +84,9 @@ func (r *rtp) validate(rt *Token) error {
 	if rt.Expired() {
 		return errors.Wrapf(ErrRoleTokenExpired, "token expired. principal %s", rt.Principal)
 	}
+	if r.pkp == nil {
+		return errors.Wrap(ErrRoleTokenInvalid, "no public key provider")
+	}
 	ver := r.pkp(pubkey.EnvZTS, rt.KeyID)
 	if ver == nil {
 		return errors.Wrapf(ErrRoleTokenInvalid, "invalid role token key ID %s. principal %s", rt.KeyID, rt.Principal)
-- 
2.43.0


From 6fd53dc19c352bee8af95af18ec11e68fbbe422f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:32 +0000
Subject: [PATCH 14/25] fix: release the response on every path of the public
 key fetch

---
 pubkey/daemon.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pubkey/daemon.go b/pubkey/daemon.go
index a4797ee..3fe1e38 100644
--- a/pubkey/daemon.go
+++ b/pubkey/daemon.go
@@ -264,6 +264,14 @@ func (p *pubkeyd) fetchPubKeyEntries(ctx context.Context, env AthenzEnv) (*SysAu
 		glg.Errorf("Error making HTTP request, error: %v", err)
 		return nil, false, errors.Wrap(err, "error make http request")
 	}
+	defer func() {
+		if _, err := io.Copy(ioutil.Discard, r.Body); err != nil {
+			glg.Warn(errors.Wrap(err, "error io.copy"))
+		}
+		if err := r.Body.Close(); err != nil {
+			glg.Warn(errors.Wrap(err, "error body.close"))
+		}
+	}()
 
 	// if server return NotModified, return policy from cache
 	if r.StatusCode == http.StatusNotModified && ok {
@@ -284,13 +292,6 @@ func (p *pubkeyd) fetchPubKeyEntries(ctx context.Context, env AthenzEnv) (*SysAu
 		return nil, false, errors.Wrap(err, "json format not correct")
 	}
 
-	if _, err = io.Copy(ioutil.Discard, r.Body); err != nil {
-		glg.Warn(errors.Wrap(err, "error io.copy"))
-	}
-	if err = r.Body.Close(); err != nil {
-		glg.Warn(errors.Wrap(err, "error body.close"))
-	}
-
 	// set eTag cache
 	eTag := r.Header.Get("ETag")
 	if eTag != "" {
-- 
2.43.0


From dec15efd6c7d9cf4bcd92e5117ed8c8710df4e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:31 +0000
Subject: [PATCH 15/25] fix: reject non-positive periods instead of crashing
 the background goroutines

---
 authorizerd.go   | 2 +-
 jwk/option.go    | 3 +++
 option.go        | 6 ++++++
 policy/option.go | 6 ++++++
 pubkey/option.go | 6 ++++++
 5 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/authorizerd.go b/authorizerd.go
index f0cb819..1f4d786 100644
--- a/authorizerd.go
+++ b/authorizerd.go
@@ -305,7 +305,7 @@ func (a *authority) Init(ctx context.Context) error {
 func (a *authority) Start(ctx context.Context) <-chan error {
 	var (
 		ech              = make(chan error, 200)
-		g                = a.cache.StartExpired(ctx, a.cacheExp/2)
+		g                = a.cache.StartExpired(ctx, a.cacheExp-a.cacheExp/2)
 		cech, pech, jech <-chan error
 	)
 
diff --git a/jwk/option.go b/jwk/option.go
index b272e0c..b32622c 100644
--- a/jwk/option.go
+++ b/jwk/option.go
@@ -62,6 +62,9 @@ func WithRefreshPeriod(t string) Option {
 		if err != nil {
 			return errors.Wrap(err, "invalid refresh period")
 		}
+		if rd <= 0 {
+			return errors.New("refresh period must be positive")
+		}
 		j.refreshPeriod = rd
 		return nil
 	}
diff --git a/option.go b/option.go
index 6cbb141..851274c 100644
--- a/option.go
+++ b/option.go
@@ -20,6 +20,8 @@ import (
 	"net/http"
 	"time"
 
+	"github.com/pkg/errors"
+
 	urlutil "github.com/yahoojapan/athenz-authorizer/v5/internal/url"
 )
 
@@ -92,6 +94,10 @@ func WithHTTPClient(c *http.Client) Option {
 // WithCacheExp returns a CacheExp functional option
 func WithCacheExp(exp time.Duration) Option {
 	return func(authz *authority) error {
+		if exp <= 0 {
+			// the cache would never expire
+			return errors.New("cache expiry must be positive")
+		}
 		authz.cache.SetDefaultExpire(exp)
 		authz.cacheExp = exp
 		return nil
diff --git a/policy/option.go b/policy/option.go
index 683e094..e6133b0 100644
--- a/policy/option.go
+++ b/policy/option.go
@@ -97,6 +97,9 @@ func WithRefreshPeriod(d string) Option {
 		if err != nil {
 			return errors.Wrap(err, "invalid refresh period")
 		}
+		if rp <= 0 {
+			return errors.New("refresh period must be positive")
+		}
 		pol.refreshPeriod = rp
 		return nil
 	}
@@ -112,6 +115,9 @@ func WithPurgePeriod(d string) Option {
 		if err != nil {
 			return errors.Wrap(err, "invalid purge period")
 		}
+		if pp <= 0 {
+			return errors.New("purge period must be positive")
+		}
 		pol.purgePeriod = pp
 		return nil
 	}
diff --git a/pubkey/option.go b/pubkey/option.go
index 21fcba7..cc7c7eb 100644
--- a/pubkey/option.go
+++ b/pubkey/option.go
@@ -72,6 +72,9 @@ func WithRefreshPeriod(t string) Option {
 		if err != nil {
 			return errors.Wrap(err, "invalid refresh period")
 		}
+		if rd <= 0 {
+			return errors.New("refresh period must be positive")
+		}
 		p.refreshPeriod = rd
 		return nil
 	}
@@ -120,6 +123,9 @@ func WithETagPurgePeriod(d string) Option {
 		if err != nil {
 			return errors.Wrap(err, "invalid ETag purge period")
 		}
+		if epp <= 0 {
+			return errors.New("ETag purge period must be positive")
+		}
 		p.eTagPurgePeriod = epp
 		return nil
 	}
-- 
2.43.0


From da1050f6174b37c52a7612a697737b2b8904f399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:47 +0000
Subject: [PATCH 16/25] fix: return an error instead of panic when the token
 kind is disabled

---
 authorizerd.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/authorizerd.go b/authorizerd.go
index 1f4d786..a6e0b44 100644
--- a/authorizerd.go
+++ b/authorizerd.go
@@ -421,6 +421,9 @@ func (a *authority) authorize(ctx context.Context, m mode, tok, act, res, query
 
 	switch m {
 	case roleToken:
+		if a.roleProcessor == nil {
+			return nil, errors.Wrap(ErrInvalidCredentials, "role token is disabled")
+		}
 		rt, err := a.roleProcessor.ParseAndValidateRoleToken(tok)
 		if err != nil {
 			glg.Infof("error parse and validate role token, err: %v", err)
@@ -436,6 +439,9 @@ func (a *authority) authorize(ctx context.Context, m mode, tok, act, res, query
 			expiryTime: rt.ExpiryTime.Unix(),
 		}
 	case accessToken:
+		if a.accessProcessor == nil {
+			return nil, errors.Wrap(ErrInvalidCredentials, "access token is disabled")
+		}
 		ac, err := a.accessProcessor.ParseAndValidateOAuth2AccessToken(tok, cert)
 		if err != nil {
 			glg.Infof("error parse and validate access token, err: %v", err)
-- 
2.43.0


From 976b2c56589e92ee7c884c1443881e04d914f223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:47 +0000
Subject: [PATCH 17/25] fix: close the policy response body even if it cannot
 be read to the end

---
 policy/fetcher.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/policy/fetcher.go b/policy/fetcher.go
index 3d7e339..ba21bbb 100644
--- a/policy/fetcher.go
+++ b/policy/fetcher.go
@@ -188,11 +188,11 @@ func flushAndClose(rc io.ReadCloser) error {
 	if rc != nil {
 		// flush
 		_, err := io.Copy(ioutil.Discard, rc)
-		if err != nil {
-			return err
+		// close even when the flush failed
+		if cerr := rc.Close(); err == nil {
+			err = cerr
 		}
-		// close
-		return rc.Close()
+		return err
 	}
 	return nil
 }
-- 
2.43.0


From e4085a1e2c05dc723617c28919cb2a7312ea6f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:47 +0000
Subject: [PATCH 18/25] fix: release the non-200 responses of the JWK set URLs

---
 jwk/daemon.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/jwk/daemon.go b/jwk/daemon.go
index 8436e82..8b0007f 100644
--- a/jwk/daemon.go
+++ b/jwk/daemon.go
@@ -130,7 +130,7 @@ func (j *jwkd) Update(ctx context.Context) (err error) {
 	var failedTargets []string
 	for _, target := range targets {
 		glg.Debugf("Fetching JWK Set from %s", target)
-		keys, err := jwk.Fetch(ctx, target, jwk.WithHTTPClient(j.client))
+		keys, err := jwk.Fetch(ctx, target, jwk.WithHTTPClient(bodyCloser{j.client}))
 		if err != nil {
 			glg.Errorf("Fetch JWK Set error: %v", err)
 			failedTargets = append(failedTargets, target)
@@ -184,6 +184,19 @@ func (j *jwkd) getKey(keyID string, jwkSetURL string) interface{} {
 	return nil
 }
 
+// bodyCloser closes the response bodies that jwk.Fetch leaves open, i.e. those of the non-200 responses
+type bodyCloser struct {
+	client *http.Client
+}
+
+func (b bodyCloser) Do(req *http.Request) (*http.Response, error) {
+	res, err := b.client.Do(req)
+	if err == nil && res.StatusCode != http.StatusOK {
+		res.Body.Close()
+	}
+	return res, err
+}
+
 func isContain(targets []string, key string) bool {
 	for _, target := range targets {
 		if target == key {
-- 
2.43.0


From 9888414299828db3afc6598d78f7d92c4047894f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:47 +0000
Subject: [PATCH 19/25] fix: keep the default HTTP client when a nil client is
 given

---
 jwk/option.go    | 4 +++-
 pubkey/option.go | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/jwk/option.go b/jwk/option.go
index b32622c..c6f278a 100644
--- a/jwk/option.go
+++ b/jwk/option.go
@@ -105,7 +105,9 @@ func WithURLs(urls []string) Option {
 // WithHTTPClient returns a HTTPClient functional option
 func WithHTTPClient(cl *http.Client) Option {
 	return func(j *jwkd) error {
-		j.client = cl
+		if cl != nil {
+			j.client = cl
+		}
 		return nil
 	}
 }
diff --git a/pubkey/option.go b/pubkey/option.go
index cc7c7eb..dd6c080 100644
--- a/pubkey/option.go
+++ b/pubkey/option.go
@@ -134,7 +134,7 @@ func WithETagPurgePeriod(d string) Option {
 // WithHTTPClient returns a HTTPClient functional option
 func WithHTTPClient(cl *http.Client) Option {
 	return func(p *pubkeyd) error {
-		if p != nil {
+		if cl != nil {
 			p.client = cl
 		}
 		return nil
-- 
2.43.0


From 9471c6836de51e65174da3f37737f6bbca826910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:37 +0000
Subject: [PATCH 20/25] fix: ignore nil certificates and URIs instead of panic

---
 access/processor.go | 3 +++
 authorizerd.go      | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/access/processor.go b/access/processor.go
index 4f9f8a3..6106308 100644
--- a/access/processor.go
+++ b/access/processor.go
@@ -148,6 +148,9 @@ func (a *atp) validateCertificateBoundAccessToken(cert *x509.Certificate, claims
 			}
 		}
 		for _, uri := range cert.URIs {
+			if uri == nil {
+				continue
+			}
 			if _, ok := valid[uri.String()]; ok {
 				return nil
 			}
diff --git a/authorizerd.go b/authorizerd.go
index a6e0b44..dc4c8f1 100644
--- a/authorizerd.go
+++ b/authorizerd.go
@@ -540,12 +540,18 @@ func (a *authority) VerifyRoleCert(ctx context.Context, peerCerts []*x509.Certif
 	}
 
 	for _, cert := range peerCerts {
+		if cert == nil {
+			continue
+		}
 		subj := cert.Subject.CommonName
 		dr := strings.SplitN(subj, roleInCNDelimiter, 2)
 		// dr will be just ignored when subj doesn't represents a role (not contains ":role.")
 		addDomainRoles(dr)
 
 		for _, uri := range cert.URIs {
+			if uri == nil {
+				continue
+			}
 			if strings.HasPrefix(uri.String(), a.roleCertURIPrefix) {
 				dr := strings.SplitN(strings.TrimPrefix(uri.String(), a.roleCertURIPrefix), "/", 2) // domain/role
 				addDomainRoles(dr)
-- 
2.43.0


From de0addeef4a97f1774b9ee5e734a0d1bd1fbfc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:57 +0000
Subject: [PATCH 21/25] fix: key set updates leave no goroutine behind

jwk.Fetch leaves one behind when its context ends before the request is made, e.g. when Init fails because the public keys cannot be loaded
---
 jwk/daemon.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/jwk/daemon.go b/jwk/daemon.go
index 8b0007f..a9710c1 100644
--- a/jwk/daemon.go
+++ b/jwk/daemon.go
@@ -130,7 +130,8 @@ func (j *jwkd) Update(ctx context.Context) (err error) {
 	var failedTargets []string
 	for _, target := range targets {
 		glg.Debugf("Fetching JWK Set from %s", target)
-		keys, err := jwk.Fetch(ctx, target, jwk.WithHTTPClient(bodyCloser{j.client}))
+		// jwk.Fetch leaves a goroutine behind when its own context ends before the request is made
+		keys, err := jwk.Fetch(context.Background(), target, jwk.WithHTTPClient(bodyCloser{ctx, j.client}))
 		if err != nil {
 			glg.Errorf("Fetch JWK Set error: %v", err)
 			failedTargets = append(failedTargets, target)
@@ -184,13 +185,15 @@ func (j *jwkd) getKey(keyID string, jwkSetURL string) interface{} {
 	return nil
 }
 
-// bodyCloser closes the response bodies that jwk.Fetch leaves open, i.e. those of the non-200 responses
+// bodyCloser closes the response bodies that jwk.Fetch leaves open, i.e. those of the non-200 responses,
+// and sends the requests with the context of the update
 type bodyCloser struct {
+	ctx    context.Context
 	client *http.Client
 }
 
 func (b bodyCloser) Do(req *http.Request) (*http.Response, error) {
-	res, err := b.client.Do(req)
+	res, err := b.client.Do(req.WithContext(b.ctx))
 	if err == nil && res.StatusCode != http.StatusOK {
 		res.Body.Close()
 	}
-- 
2.43.0


From dc775848e7f593ffce486ac3434eee8c387c4895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:53 +0000
Subject: [PATCH 22/25] fix: replaced policies are not watched for expiry any
 longer

---
 policy/daemon.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/policy/daemon.go b/policy/daemon.go
index 70c4c80..dd5ae59 100644
--- a/policy/daemon.go
+++ b/policy/daemon.go
@@ -152,6 +152,18 @@ func (p *policyd) Start(ctx context.Context) <-chan error {
 	return ech
 }
 
+// snapshot is a policy cache which can be stopped even before its expiry daemon has been scheduled,
+// the Stop of gache has no effect until then
+type snapshot struct {
+	gache.Gache
+	stop context.CancelFunc
+}
+
+// Stop kills the expire daemon
+func (s *snapshot) Stop() {
+	s.stop()
+}
+
 // Update updates and cache policy data
 func (p *policyd) Update(ctx context.Context) error {
 	glg.Get().DisableColor()
@@ -187,7 +199,8 @@ func (p *policyd) Update(ctx context.Context) error {
 	// refresh with a whole new snapshot when a policy expires, at most once at a time;
 	// merging into the effective cache exposes partially updated (e.g. deny not yet stored) and outdated assertions
 	updCtx, refreshing := ctx, new(int32)
-	rp.StartExpired(ctx, p.purgePeriod).
+	watchCtx, stop := context.WithCancel(ctx)
+	rp.StartExpired(watchCtx, p.purgePeriod).
 		EnableExpiredHook().
 		SetExpiredHook(func(_ context.Context, key string) {
 			// key = <domain>:role.<role>
@@ -200,6 +213,8 @@ func (p *policyd) Update(ctx context.Context) error {
 			}
 		})
 
+	rp = &snapshot{Gache: rp, stop: stop}
+
 	// swap pointer
 	glg.DebugFunc(func() string {
 		return fmt.Sprintf("cache before swap, old: %p %v; new: %p %v", *p.rolePolicies, (*p.rolePolicies).Len(), rp, rp.Len())
-- 
2.43.0


From a603816b65a62b92ca8bf1446aff90f22a0980df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:42 +0000
Subject: [PATCH 23/25] fix: any number of policies may expire at the same time

---
 policy/daemon.go | 79 ++++++++++++++++++++++++++++++++++++------------
 1 file changed, 60 insertions(+), 19 deletions(-)

diff --git a/policy/daemon.go b/policy/daemon.go
index dd5ae59..21305f9 100644
--- a/policy/daemon.go
+++ b/policy/daemon.go
@@ -152,14 +152,61 @@ func (p *policyd) Start(ctx context.Context) <-chan error {
 	return ech
 }
 
-// snapshot is a policy cache which can be stopped even before its expiry daemon has been scheduled,
-// the Stop of gache has no effect until then
+// snapshot is a set of policies which calls expired when some of them have expired, until it is stopped.
+// The expiry daemon and hook of gache are not used, as more expired policies than its queue holds block
+// the daemon and every caller, and as its Stop has no effect before the daemon has been scheduled.
 type snapshot struct {
 	gache.Gache
-	stop context.CancelFunc
+	ctx     context.Context
+	stop    context.CancelFunc
+	size    int64 // number of policies when checked last
+	expired func()
 }
 
-// Stop kills the expire daemon
+func newSnapshot(ctx context.Context, g gache.Gache, purgePeriod time.Duration, expired func()) *snapshot {
+	s := &snapshot{Gache: g, size: int64(g.Len()), expired: expired}
+	s.ctx, s.stop = context.WithCancel(ctx)
+	go func() {
+		ticker := time.NewTicker(purgePeriod)
+		defer ticker.Stop()
+		for {
+			select {
+			case <-s.ctx.Done():
+				return
+			case <-ticker.C:
+				s.DeleteExpired(s.ctx)
+				s.check()
+			}
+		}
+	}()
+	return s
+}
+
+// check calls expired if any policy has been removed since the last check, only expired policies ever are
+func (s *snapshot) check() {
+	n := int64(s.Len())
+	if atomic.SwapInt64(&s.size, n) != n && s.ctx.Err() == nil {
+		go s.expired()
+	}
+}
+
+// Get returns the policies of the role, removing them if expired
+func (s *snapshot) Get(key string) (interface{}, bool) {
+	v, ok := s.Gache.Get(key)
+	if !ok {
+		s.check()
+	}
+	return v, ok
+}
+
+// ToRawMap returns all policies, removing the expired ones
+func (s *snapshot) ToRawMap(ctx context.Context) map[string]interface{} {
+	m := s.Gache.ToRawMap(ctx)
+	s.check()
+	return m
+}
+
+// Stop ends the watch for expired policies
 func (s *snapshot) Stop() {
 	s.stop()
 }
@@ -199,21 +246,15 @@ func (p *policyd) Update(ctx context.Context) error {
 	// refresh with a whole new snapshot when a policy expires, at most once at a time;
 	// merging into the effective cache exposes partially updated (e.g. deny not yet stored) and outdated assertions
 	updCtx, refreshing := ctx, new(int32)
-	watchCtx, stop := context.WithCancel(ctx)
-	rp.StartExpired(watchCtx, p.purgePeriod).
-		EnableExpiredHook().
-		SetExpiredHook(func(_ context.Context, key string) {
-			// key = <domain>:role.<role>
-			if !atomic.CompareAndSwapInt32(refreshing, 0, 1) {
-				return
-			}
-			if err := p.Update(updCtx); err != nil {
-				glg.Errorf("refresh expired policy fail, key: %s, error: %v", key, err)
-				atomic.StoreInt32(refreshing, 0)
-			}
-		})
-
-	rp = &snapshot{Gache: rp, stop: stop}
+	rp = newSnapshot(ctx, rp, p.purgePeriod, func() {
+		if !atomic.CompareAndSwapInt32(refreshing, 0, 1) {
+			return
+		}
+		if err := p.Update(updCtx); err != nil {
+			glg.Errorf("refresh expired policy fail, error: %v", err)
+			atomic.StoreInt32(refreshing, 0)
+		}
+	})
 
 	// swap pointer
 	glg.DebugFunc(func() string {
-- 
2.43.0


From db1a7d51153c0f35f156a400e4a4bbb60f730764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:50 +0000
Subject: [PATCH 24/25] fix: callers cannot change the roles of cached
 principals

---
 principal.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/principal.go b/principal.go
index dbfcb0e..1d09bec 100644
--- a/principal.go
+++ b/principal.go
@@ -52,7 +52,7 @@ func (p *principal) Name() string {
 
 // Roles return the principal's roles
 func (p *principal) Roles() []string {
-	return p.roles
+	return clone(p.roles)
 }
 
 // Domain return the principal's domain
@@ -72,10 +72,18 @@ func (p *principal) ExpiryTime() int64 {
 
 // AuthorizedRoles returns the access token's authorized role
 func (p *principal) AuthorizedRoles() []string {
-	return p.authorizedRoles
+	return clone(p.authorizedRoles)
 }
 
 // ClientID returns the access token's client ID
 func (c *oAuthAccessToken) ClientID() string {
 	return c.clientID
 }
+
+// clone returns a copy, as principals are cached and shared by the callers
+func clone(s []string) []string {
+	if s == nil {
+		return nil
+	}
+	return append(make([]string, 0, len(s)), s...)
+}
-- 
2.43.0


From 9f6af9d1a26130c36d36f9f5c6bbf7a3f903c1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:24 +0000
Subject: [PATCH 25/25] fix: callers cannot change the effective policies
 through the cache report

---
 policy/daemon.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/policy/daemon.go b/policy/daemon.go
index 21305f9..8c846c0 100644
--- a/policy/daemon.go
+++ b/policy/daemon.go
@@ -199,10 +199,19 @@ func (s *snapshot) Get(key string) (interface{}, bool) {
 	return v, ok
 }
 
-// ToRawMap returns all policies, removing the expired ones
+// ToRawMap returns a copy of all policies, removing the expired ones
 func (s *snapshot) ToRawMap(ctx context.Context) map[string]interface{} {
 	m := s.Gache.ToRawMap(ctx)
 	s.check()
+	for key, val := range m {
+		asss := val.([]*Assertion)
+		cs := make([]*Assertion, 0, len(asss))
+		for _, ass := range asss {
+			c := *ass
+			cs = append(cs, &c)
+		}
+		m[key] = cs
+	}
 	return m
 }
 
-- 
2.43.0

