package drv

import (
	"context"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"net/http"
	"net/url"
	"strconv"
	"strings"
	"testing/synctest"
	"time"

	"github.com/AthenZ/athenz/libs/go/zmssvctoken"
	"github.com/AthenZ/athenz/utils/zpe-updater/util"
	"github.com/golang-jwt/jwt/v4"
	authorizerd "github.com/yahoojapan/athenz-authorizer/v5"
)

// Stage "hostile" (C24).

type hMut struct{ P, V string }
type hAns struct {
	Status int
	Etag   string
	Loc    string
	Raw    string
	Muts   []hMut
	Sign   bool
	Trunc  bool
}
type hTok struct {
	Kind, Cert, Act, Res, Query string
	Hm, Cm                      []hMut
	Raw                         []string
}
type hCase struct {
	Fam     string
	Outcome string
	Steps   []struct {
		A   string
		K   string
		Ans hAns
		Tok hTok
	}
}

func hText(s string) string {
	switch s {
	case "NULs":
		return "\x00\x00"
	case "badutf8":
		return "\xff\xfe\xc0"
	case "long":
		return strings.Repeat("x", 70000)
	case "PCT", "badq":
		return "%zz&a=%"
	case "sep":
		return ":;/,=&"
	case "star":
		return "*?*"
	case "brace":
		return "{a}"
	case "uni":
		return "İ\u212a\u0130é"
	case "LF":
		return "\n"
	case "BSL":
		return "\\"
	}
	return s
}

var deepJSON = strings.Repeat("[", 20000) + strings.Repeat("]", 20000)

func hVal(v string, now time.Time) (val interface{}, raw string, drop bool) {
	switch v {
	case "missing":
		return nil, "", true
	case "null":
		return nil, "", false
	case "str":
		return "str", "", false
	case "empty":
		return "", "", false
	case "num":
		return 7, "", false
	case "neg":
		return -1, "", false
	case "big":
		return nil, "1e400", false
	case "float":
		return 1.5, "", false
	case "true":
		return true, "", false
	case "list":
		return []interface{}{}, "", false
	case "listnull":
		return []interface{}{nil, nil}, "", false
	case "listlist":
		return []interface{}{[]interface{}{}, "x", 1}, "", false
	case "obj":
		return map[string]interface{}{}, "", false
	case "objnull":
		return map[string]interface{}{"assertions": nil, "keys": nil, "x": nil}, "", false
	case "deep":
		return nil, deepJSON, false
	case "b64zero":
		return "AA", "", false
	case "b64one":
		return "AQ", "", false
	case "none":
		return "none", "", false
	case "bracket":
		return "d:[a-(*+?", "", false
	case "quest":
		return "?????:???", "", false
	case "colon":
		return ":", "", false
	case "colons":
		return "dom:role.r:x::y", "", false
	case "nocolon":
		return "nocolon", "", false
	case "time":
		return now.Add(time.Hour).UTC().Format("2006-01-02T15:04:05.000Z"), "", false
	case "timepast":
		return now.Add(-time.Hour).UTC().Format("2006-01-02T15:04:05.000Z"), "", false
	case "timehuge":
		return "99999-12-31T23:59:59.999Z", "", false
	case "keypem":
		return ecKey("zts1").yb64Pub, "", false
	case "rsapem", "certpem":
		return new(zmssvctoken.YBase64).EncodeToString(oddPEM(v)), "", false
	}
	return hText(v), "", false
}

func oddPEM(v string) []byte {
	if v == "rsapem" {
		der, _ := x509.MarshalPKIXPublicKey(&rsaKey("ra").PublicKey)
		return pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: der})
	}
	return pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: []byte("x")})
}

// mutate replaces the value at a path of a JSON tree.
func mutate(root interface{}, path string, v string, now time.Time) interface{} {
	val, raw, drop := hVal(v, now)
	if raw != "" {
		val = json.RawMessage(raw)
	}
	if path == "" {
		if drop {
			return map[string]interface{}{}
		}
		return val
	}
	ps := strings.Split(path, "/")
	cur := root
	for i, p := range ps {
		last := i == len(ps)-1
		switch x := cur.(type) {
		case map[string]interface{}:
			if last {
				if drop {
					delete(x, p)
				} else {
					x[p] = val
				}
				return root
			}
			cur = x[p]
		case []interface{}:
			n, err := strconv.Atoi(p)
			if err != nil || n >= len(x) {
				return root
			}
			if last {
				if drop {
					val = map[string]interface{}{}
				}
				x[n] = val
				return root
			}
			cur = x[n]
		default:
			return root
		}
	}
	return root
}

func tree(s string) interface{} {
	var v interface{}
	must(json.Unmarshal([]byte(s), &v))
	return v
}

func deepMarshal(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		// e.g. the number that is out of range
		b, _ = json.Marshal(fmt.Sprint(err))
	}
	return string(b)
}

type hRun struct {
	h    *H
	w    *World
	ans  map[string]*hAns
	redo map[string]int
	a, b authorizerd.Authorizerd
	n    int
}

func hKind(u string) string {
	switch {
	case strings.Contains(u, "/service/zts"):
		return "zts"
	case strings.Contains(u, "/service/zms"):
		return "zms"
	case strings.Contains(u, "/signed_policy_data"):
		return "pol"
	case strings.Contains(u, "extra.example"):
		return "jwk2"
	}
	return "jwk"
}

func (r *hRun) goodBody(k string) string {
	now := time.Now()
	switch k {
	case "zts", "zms":
		return keyDoc(k, map[string]string{"k1": k + "1"})
	case "jwk":
		return jwkSet("k1", "jwk1")
	case "jwk2":
		return jwkSet("k1", "jwk2")
	}
	pd := &util.PolicyData{Domain: "dom", Policies: []*util.Policy{
		{Name: "dom:policy.p", Assertions: []*util.Assertion{{Role: "dom:role.r", Action: "act", Resource: "dom:res", Effect: "ALLOW"}}},
		{Name: "dom:policy.q", Assertions: []*util.Assertion{{Role: "dom:role.r", Action: "zzz", Resource: "dom:res", Effect: "DENY"}}}}}
	return resign(signDoc(pd, now.Add(90*time.Second), "k1", "k1"), "k1")
}

func (r *hRun) body(k string, a *hAns) string {
	now := time.Now()
	switch a.Raw {
	case "doc":
		d := tree(r.goodBody(k))
		for _, m := range a.Muts {
			d = mutate(d, m.P, m.V, now)
		}
		b := deepMarshal(d)
		if k == "pol" && a.Sign {
			b = signLike(b)
		}
		return b
	case "nul":
		return "\x00"
	case "deepjson":
		return deepJSON
	case "binary":
		return "\x1f\x8b\x08\x00\xff\xfe"
	case "num":
		return "12345"
	case "dup":
		return `{"keys":null,"keys":[null],"publicKeys":[],"publicKeys":[null],"signedPolicyData":{},"signedPolicyData":null}`
	case "hugeint":
		return `{"keys":[{"kty":99999999999999999999999}],"publicKeys":[{"id":99999999999999999999999999}]}`
	case "bom":
		return "\ufeff{}"
	}
	return a.Raw
}

// signLike signs whatever the document decodes to, so that it gets past the verification.
func signLike(b string) string {
	var d util.DomainSignedPolicyData
	if json.Unmarshal([]byte(b), &d) != nil {
		return b
	}
	var m map[string]interface{}
	if json.Unmarshal([]byte(b), &m) != nil || m == nil {
		return b
	}
	if d.SignedPolicyData != nil {
		pb, _ := json.Marshal(d.SignedPolicyData.PolicyData)
		d.SignedPolicyData.ZmsSignature = ecKey("zms1").sign(string(pb))
		if sp, ok := m["signedPolicyData"].(map[string]interface{}); ok {
			sp["zmsSignature"] = d.SignedPolicyData.ZmsSignature
		}
	}
	sb, _ := json.Marshal(d.SignedPolicyData)
	m["signature"] = ecKey("zts1").sign(string(sb))
	return deepMarshal(m)
}

func (r *hRun) handle(u, inm string) *Resp {
	r.w.mu.Lock()
	defer r.w.mu.Unlock()
	k := hKind(u)
	a := r.ans[k]
	if a == nil {
		return &Resp{Status: 200, Body: r.goodBody(k)}
	}
	if a.Status == 0 {
		return &Resp{Err: fmt.Errorf("connection reset by peer")}
	}
	hd := map[string]string{}
	switch a.Loc {
	case "self":
		hd["Location"] = u
	case "rel":
		hd["Location"] = "../x?y"
	case "http":
		hd["Location"] = "http://athenz/elsewhere/signed_policy_data"
	case "bad":
		hd["Location"] = "::%zz"
	case "loop":
		hd["Location"] = u + "x"
	case "scheme":
		hd["Location"] = "file:///etc/passwd"
	}
	return &Resp{Status: a.Status, Body: r.body(k, a), ETag: hText(a.Etag), Trunc: a.Trunc, Header: hd}
}

func (r *hRun) cert(k string) *x509.Certificate {
	c := mkCert("ca", "user.c", "raw", time.Now().Add(-time.Minute), "spiffe://x/y", "athenz://role/dom/r")
	switch k {
	case "nil":
		return nil
	case "zero":
		return &x509.Certificate{}
	case "niluri":
		c.URIs = append([]*url.URL{nil}, c.URIs...)
	case "emptyuri":
		c.URIs = []*url.URL{{}}
	case "opaque":
		c.URIs = []*url.URL{{Scheme: "athenz", Opaque: "//role/"}, {Path: "\xff"}}
	case "nocn":
		c.Subject = pkix.Name{}
	}
	return c
}

func (r *hRun) token(t *hTok, fresh time.Time) string {
	now := fresh
	head := tree(`{"alg":"ES256","typ":"at+jwt","kid":"k1"}`)
	cl := tree(fmt.Sprintf(`{"aud":"dom","scp":["r"],"sub":"u","iss":"i","iat":%d,"exp":%d,"client_id":"user.c","cnf":{"x5t#S256":"%s","proxy-principals#spiffe":["spiffe://x/y"]},"ver":1,"uid":"u"}`,
		now.Unix(), now.Add(time.Hour).Unix(), thumb(r.cert("good"))))
	for _, m := range t.Hm {
		head = mutate(head, m.P, m.V, now)
	}
	for _, m := range t.Cm {
		cl = mutate(cl, m.P, m.V, now)
	}
	in := b64.EncodeToString([]byte(deepMarshal(head))) + "." + b64.EncodeToString([]byte(deepMarshal(cl)))
	if t.Kind == "atnone" {
		return in + "."
	}
	sig, err := jwt.SigningMethodES256.Sign(in, ecKey("jwk1").priv)
	must(err)
	return in + "." + sig
}

func (r *hRun) call(t *hTok) {
	now := time.Now()
	var raw strings.Builder
	for _, x := range t.Raw {
		raw.WriteString(hText(x))
	}
	tok := raw.String()
	if !strings.HasPrefix(t.Kind, "raw") {
		tok = r.token(t, now)
	}
	act, res, q := hText(t.Act), hText(t.Res), hText(t.Query)
	rt := roleTok(roleUnsigned("dom", "u", []string{"r"}, now, now.Add(time.Hour), "k1"), "zts1")
	c := r.cert(t.Cert)
	what := fmt.Sprintf("%+v", *t)
	if r.b != nil {
		a, b := r.a, r.b
		r.a, r.b = b, nil
		r.call(t)
		r.a, r.b = a, b
	}
	r.h.Call(what, func() {
		r.h.steps++
		switch t.Kind {
		case "at", "atnone", "rawat":
			r.a.VerifyAccessToken(bg(), tok, act, res, c)
			r.a.AuthorizeAccessToken(bg(), tok, act, res, c)
		case "rawrt":
			r.a.VerifyRoleToken(bg(), tok, act, res)
			r.a.AuthorizeRoleToken(bg(), tok, act, res)
		case "rt":
			r.a.AuthorizeRoleToken(bg(), rt, act, res)
		case "rc":
			r.a.VerifyRoleCert(bg(), []*x509.Certificate{c, nil, r.cert("niluri")}, act, res)
			r.a.AuthorizeRoleCert(bg(), nil, act, res)
		default:
			u := &url.URL{Scheme: "https", Host: "h", Path: "/p", RawQuery: q}
			rq := &http.Request{Method: "GET", URL: u, Header: http.Header{}}
			rq.Header["Authorization"] = []string{"Bearer " + tok}
			rq.Header["Athenz-Role-Auth"] = []string{tok, rt}
			if c != nil {
				rq.TLS = &tls.ConnectionState{PeerCertificates: []*x509.Certificate{c}}
			} else if len(tok)%2 == 0 {
				rq.TLS = &tls.ConnectionState{PeerCertificates: []*x509.Certificate{nil}}
			}
			r.a.Verify(rq, act, res)
			r.a.Authorize(rq, act, res)
			rq.Header = nil
			r.a.Verify(rq, act, res)
		}
		r.a.GetPolicyCache(bg())
	})
}

func hParam(thumb, cid bool) authorizerd.Option {
	return authorizerd.WithAccessTokenParam(authorizerd.NewAccessTokenParam(true, thumb, "1h", "1h", cid, map[string][]string{"user.c": {"user.c"}}))
}

func runHostile(h *H, c *hCase, idx int) {
	r := &hRun{h: h, w: newWorld(), ans: map[string]*hAns{}}
	r.w.s.H = r.handle
	opts := []authorizerd.Option{authorizerd.WithPubkeyRefreshPeriod("20s"), authorizerd.WithPubkeyRetryDelay("5s"), authorizerd.WithPolicyRefreshPeriod("20s"), authorizerd.WithPolicyRetryDelay("2s"), authorizerd.WithPolicyRetryAttempts(1),
		authorizerd.WithPubkeyETagExpiry("1m"), authorizerd.WithPubkeyETagPurgePeriod("10s"), authorizerd.WithPolicyPurgePeriod("5s"), authorizerd.WithPolicyExpiryMargin("10s"), authorizerd.WithJwkRefreshPeriod("20s"), authorizerd.WithJwkRetryDelay("5s"),
		authorizerd.WithJwkURLs([]string{"https://extra.example/keys"}), authorizerd.WithEnableRoleCert(), authorizerd.WithCacheExp(10 * time.Second),
		hParam(c.Fam == "calls" || idx%2 == 0, c.Fam != "calls" && idx%3 == 0)}
	if idx%5 == 4 {
		mr, err := authorizerd.NewMappingRules(map[string][]authorizerd.Rule{"dom": {{Method: "GET", Path: "/{a}?x={b}", Action: "act", Resource: "{a}{b}"}, {Method: "act", Path: "res", Action: "act", Resource: "res"}}})
		if err == nil {
			opts = append(opts, authorizerd.WithTranslator(mr))
		}
	}
	if idx%7 == 6 && c.Fam == "calls" {
		opts = append(opts, authorizerd.WithDisablePolicyd())
	}
	r.a = r.w.authz([]string{"dom"}, opts...)
	if c.Fam == "calls" {
		r.b = r.w.authz([]string{"dom"}, append(opts, hParam(false, true))...)
	}
	ctx, cancel := context.WithCancel(bg())
	defer func() { cancel(); time.Sleep(30 * time.Second); synctest.Wait() }()
	started := false
	goods := func() bool {
		r.n++
		now := time.Now().Add(-time.Duration(r.n) * time.Second) // a new token
		g := &hTok{Kind: "at"}
		e1 := r.a.VerifyRoleToken(bg(), roleTok(roleUnsigned("dom", "u", []string{"r"}, now, now.Add(time.Hour), "k1"), "zts1"), "act", "res")
		e2 := r.a.VerifyAccessToken(bg(), r.token(g, now), "act", "res", r.cert("good"))
		if e1 != nil || e2 != nil {
			h.Violate(nil, "after the servers recovered: role token %v, access token %v", e1, e2)
			return false
		}
		return true
	}
	for _, s := range c.Steps {
		h.steps++
		switch s.A {
		case "serve":
			r.w.mu.Lock()
			a := s.Ans
			r.ans[s.K] = &a
			r.w.mu.Unlock()
		case "init":
			done := make(chan bool)
			go func() { // errors are fine
				defer close(done)
				h.Call("Init", func() {
					r.a.Init(ctx)
					if r.b != nil {
						r.b.Init(ctx)
					}
				})
			}()
			tm := time.NewTimer(time.Hour)
			select {
			case <-done:
				tm.Stop()
			case <-tm.C:
				h.Violate(nil, "Init does not return")
				return
			}
			if !started && idx%4 != 3 {
				started = true
				ch := r.a.Start(ctx)
				go func() {
					for range ch {
					}
				}()
			}
			r.call(&hTok{Kind: "at", Cert: "good", Act: "act", Res: "res"})
			r.call(&hTok{Kind: "rt", Act: "act", Res: "res"})
		case "pass":
			time.Sleep(47 * time.Second)
			r.call(&hTok{Kind: "http", Cert: "good", Act: "act", Res: "res"})
			r.call(&hTok{Kind: "rc", Cert: "good", Act: "act", Res: "res"})
			time.Sleep(63 * time.Second)
			r.call(&hTok{Kind: "at", Cert: "good", Act: "act", Res: "res"})
		case "call":
			r.call(&s.Tok)
		case "recover":
			r.w.mu.Lock()
			r.ans = map[string]*hAns{}
			r.w.mu.Unlock()
			if err := r.a.Init(ctx); err != nil {
				h.Violate(nil, "after the servers recovered Init fails: %v", err)
				return
			}
			if c.Outcome == "granted" && !goods() {
				return
			}
		}
	}
}

func init() {
	stages["hostile"] = func(h *H) {
		i := 0
		h.Cases(func(raw json.RawMessage) {
			var c hCase
			must(json.Unmarshal(raw, &c))
			i++
			h.Bubble(func() { runHostile(h, &c, i) })
		})
	}
}
