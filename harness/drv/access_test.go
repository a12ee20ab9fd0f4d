package drv

import (
	"crypto/x509"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"reflect"
	"strings"
	"sync"
	"time"

	"github.com/golang-jwt/jwt/v4"
	"github.com/lestrrat-go/jwx/jwk"
	authorizerd "github.com/yahoojapan/athenz-authorizer/v5"
	"github.com/yahoojapan/athenz-authorizer/v5/access"
	jwkd "github.com/yahoojapan/athenz-authorizer/v5/jwk"
)

type acCase struct {
	C struct {
		Bind             bool
		Backdate, Offset int
		VerifyID         bool
		Ids              map[string][]string
	}
	T struct {
		Alg, Kid, Jku, Key, Tamper, Exp, Nbf, Iat, Client, Thumb string
		Proxy                                                    []string
		ProxyOK                                                  bool
	}
	Crt struct {
		None    bool
		Cn, Raw string
		Nb      int
		Uris    []string
	}
	Ok bool
}

func init() { stages["access"] = stageAccess }

func isRSAKey(k string) bool { return k == "ra" || k == "re" || k == "rstranger" }

func pubOf(k string) interface{} {
	if isRSAKey(k) {
		return &rsaKey(k).PublicKey
	}
	return &ecKey("jwk" + k).priv.PublicKey
}

func mixedSet(kv ...string) string {
	set := jwk.NewSet()
	for i := 0; i+1 < len(kv); i += 2 {
		k, err := jwk.New(pubOf(kv[i+1]))
		if err != nil {
			panic(err)
		}
		if kv[i] != "" {
			k.Set(jwk.KeyIDKey, kv[i])
		}
		set.Add(k)
	}
	b, _ := json.Marshal(set)
	return string(b)
}

const (
	athenzJWKS = "https://athenz/oauth2/keys?rfc=true"
	extraJWKS  = "https://extra.example/keys"
	extra2JWKS = "http://extra2.example/jwks.json"
)

var b64 = base64.RawURLEncoding

// craft builds a token: header and claims as given, signed as named.
func craft(head, claims map[string]interface{}, alg, key string) string {
	hb, _ := json.Marshal(head)
	cb, _ := json.Marshal(claims)
	in := b64.EncodeToString(hb) + "." + b64.EncodeToString(cb)
	id := in + alg + key
	jwtMu.Lock()
	x, ok := jwts[id]
	jwtMu.Unlock()
	if ok {
		return x
	}
	var sig string
	var err error
	sign := func(m jwt.SigningMethod, k interface{}) { sig, err = m.Sign(in, k) }
	priv := func() interface{} {
		if isRSAKey(key) {
			return rsaKey(key)
		}
		return ecKey("jwk" + key).priv
	}
	der, _ := x509.MarshalPKIXPublicKey(pubOf(key))
	switch alg {
	case "none", "NONE":
		sign(jwt.SigningMethodNone, jwt.UnsafeAllowNoneSignatureType)
	case "HS256", "HS512":
		m := jwt.SigningMethod(jwt.SigningMethodHS256)
		if alg == "HS512" {
			m = jwt.SigningMethodHS512
		}
		sign(m, pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: der}))
	case "HS256der":
		sign(jwt.SigningMethodHS256, der)
	case "HS256xy":
		if isRSAKey(key) {
			sign(jwt.SigningMethodHS256, rsaKey(key).N.Bytes())
		} else {
			p := ecKey("jwk" + key).priv
			sign(jwt.SigningMethodHS256, append(p.X.Bytes(), p.Y.Bytes()...))
		}
	case "HS256jwk":
		k, _ := jwk.New(pubOf(key))
		b, _ := json.Marshal(k)
		sign(jwt.SigningMethodHS256, b)
	case "PS256":
		sign(jwt.SigningMethodPS256, priv())
	default:
		if isRSAKey(key) {
			sign(jwt.SigningMethodRS256, priv())
		} else {
			sign(jwt.SigningMethodES256, priv())
		}
	}
	if err != nil {
		panic(err)
	}
	jwtMu.Lock()
	defer jwtMu.Unlock()
	if len(jwts) > 50000 {
		jwts = map[string]string{}
	}
	jwts[id] = in + "." + sig
	return in + "." + sig
}

func oddValue(v string) (interface{}, bool) {
	switch v {
	case "NUM":
		return 5, true
	case "NULL":
		return nil, true
	case "LIST":
		return []string{"k1"}, true
	case "OBJ":
		return map[string]string{"k1": "k1"}, true
	case "TRUE":
		return true, true
	case "none":
		return nil, false
	}
	return v, true
}

type acWorld struct {
	mu      sync.Mutex
	w       *World
	now     time.Time
	auth    map[string]authorizerd.Authorizerd
	proc    map[string]access.Processor
	jwkPro  jwkd.Provider
	keyless authorizerd.Authorizerd
	bare    access.Processor
	hot     []hotCall
}

// hotCall is a call that is repeated while others are made.
type hotCall struct {
	what string
	tok  string
	crt  *x509.Certificate
	proc access.Processor
	ok   bool
}

// again repeats the calls of processors, several at a time.
func (x *acWorld) again(h *H) {
	rounds := 60000
	if h.tier == "thorough" {
		rounds = 600000
	}
	by := map[access.Processor][]hotCall{}
	for _, c := range x.hot {
		by[c.proc] = append(by[c.proc], c)
	}
	for _, cs := range by { // one processor after the other
		h.shared(rounds*len(cs)/len(x.hot), func(h *H, i int) {
			if h.Full() {
				return
			}
			c := cs[(i/h.parts+i*7)%len(cs)]
			var err error
			if !h.Call("ParseAndValidateOAuth2AccessToken", func() { _, err = c.proc.ParseAndValidateOAuth2AccessToken(c.tok, c.crt) }) {
				return
			}
			h.steps++
			if (err == nil) != c.ok {
				h.Violate(c.tok, "%s: with others at the same time the processor accepts: %v (%v), specified %v", c.what, err == nil, err, c.ok)
			}
		})
	}
}

func (x *acWorld) token(c *acCase, id string) (string, map[string]interface{}) {
	t := c.T
	now := x.now.Unix()
	tm := func(v string) (int64, bool) {
		switch v {
		case "none":
			return 0, false
		case "ZERO":
			return 0, true
		case "P":
			return now - 3600, true
		case "P1":
			return now - 1, true
		case "N0":
			return now, true
		case "N1":
			return now + 1, true
		case "F":
			return now + 3600, true
		}
		return now + 100*365*86400, true
	}
	cl := map[string]interface{}{"iss": "athenz", "sub": "user.x", "aud": "dom", "client_id": t.Client, "scp": []string{"r1", "r2"}, "uid": "u", "ver": 1, "auth_time": now, "jti": id, "proxy": "px"}
	for k, v := range map[string]string{"exp": t.Exp, "nbf": t.Nbf, "iat": t.Iat} {
		if n, ok := tm(v); ok {
			cl[k] = n
		}
	}
	cnf := map[string]interface{}{}
	switch t.Thumb {
	case "none":
	case "NUM":
		cnf["x5t#S256"] = 12
	case "":
		cnf["x5t#S256"] = ""
	default:
		cnf["x5t#S256"] = thumb(&x509.Certificate{Raw: []byte(t.Thumb)})
	}
	if len(t.Proxy) > 0 || !t.ProxyOK {
		var l []interface{}
		for _, u := range t.Proxy {
			l = append(l, "spiffe://"+u)
		}
		if t.ProxyOK {
			cnf["proxy-principals#spiffe"] = append([]interface{}{7}, l...)
		} else if len(t.Proxy) > 0 { // not a list
			cnf["proxy-principals#spiffe"] = "spiffe://" + t.Proxy[0]
		} else {
			cnf["proxy-principals#spiffe"] = map[string]interface{}{"spiffe://u1": "spiffe://u1"}
		}
	}
	if len(cnf) > 0 {
		cl["cnf"] = cnf
	}
	head := map[string]interface{}{"typ": "at+jwt"}
	switch {
	case strings.HasPrefix(t.Alg, "HS256"):
		head["alg"] = "HS256"
	case t.Alg == "missing":
	default:
		if v, ok := oddValue(t.Alg); ok {
			head["alg"] = v
		} else {
			head["alg"] = "none"
		}
	}
	if v, ok := oddValue(t.Kid); ok {
		head["kid"] = v
	}
	urls := map[string]string{"ATHENZ": athenzJWKS, "EXTRA": extraJWKS, "EXTRA2": extra2JWKS, "UNCONF": "https://evil.example/keys", "ATHENZ/": athenzJWKS + "/", "HTTPATHENZ": strings.Replace(athenzJWKS, "https", "http", 1),
		"EXTRA?": extraJWKS + "?", "EXTRA?x=1": extraJWKS + "?x=1", "EXTRA#f": extraJWKS + "#f", "EXTRA/": extraJWKS + "/", " EXTRA": " " + extraJWKS, "EXTRA ": extraJWKS + " ", "CASE EXTRA": strings.Replace(extraJWKS, "keys", "Keys", 1),
		"CASE ATHENZ": strings.Replace(athenzJWKS, "keys", "Keys", 1), "NOQ ATHENZ": "https://athenz/oauth2/keys", "QATHENZ": athenzJWKS + "&x=1", "HOST EXTRA": "https://extra.example.evil.example/keys", "REL": "/keys", "EMPTY": ""}
	if v, ok := oddValue(t.Jku); ok {
		if s, isS := v.(string); isS {
			v = urls[s]
		}
		head["jku"] = v
	}
	tok := craft(head, cl, t.Alg, t.Key)
	p := strings.Split(tok, ".")
	enc := func(v interface{}) string { b, _ := json.Marshal(v); return b64.EncodeToString(b) }
	copyMap := func(m map[string]interface{}) map[string]interface{} {
		r := map[string]interface{}{}
		for k, v := range m {
			r[k] = v
		}
		return r
	}
	switch t.Tamper {
	case "claims":
		m := copyMap(cl)
		m["scp"] = []string{"admin"}
		tok = p[0] + "." + enc(m) + "." + p[2]
	case "header":
		m := copyMap(head)
		m["typ"] = "JWT"
		tok = enc(m) + "." + p[1] + "." + p[2]
	case "sig":
		s := []byte(p[2])
		if s[30] == 'A' {
			s[30] = 'B'
		} else {
			s[30] = 'A'
		}
		tok = p[0] + "." + p[1] + "." + string(s)
	case "sigtrunc":
		tok = tok[:len(tok)-8]
	case "sigempty":
		tok = p[0] + "." + p[1] + "."
	case "nosig":
		tok = p[0] + "." + p[1]
	case "four":
		tok += "." + p[2]
	case "swap":
		tok = p[1] + "." + p[0] + "." + p[2]
	case "garbage":
		tok = "a.b.c"
	case "empty":
		tok = ""
	case "one":
		tok = p[0]
	case "space":
		tok = p[0] + " ." + p[1] + "." + p[2]
	case "pad":
		tok = p[0] + ".=" + p[1] + "." + p[2]
	case "dup":
		tok += tok
	case "quoted":
		tok = `"` + tok + `"`
	case "jsonform":
		b, _ := json.Marshal(map[string]interface{}{"protected": p[0], "payload": p[1], "signature": p[2]})
		tok = string(b)
	}
	return tok, cl
}

func (x *acWorld) cert(c *acCase, cl map[string]interface{}) *x509.Certificate {
	if c.Crt.None {
		return nil
	}
	iat, _ := cl["iat"].(int64)
	var us []string
	for _, u := range c.Crt.Uris {
		if u == "EMPTY" {
			us = append(us, "")
			continue
		}
		us = append(us, "spiffe://"+u)
	}
	return mkCert("ca", c.Crt.Cn, c.Crt.Raw, time.Unix(iat+int64(c.Crt.Nb), 0), us...)
}

func (x *acWorld) run(h *H, c *acCase) {
	id := fmt.Sprintf("%+v", c.C)
	bd, of := fmt.Sprintf("%ds", c.C.Backdate), fmt.Sprintf("%ds", c.C.Offset)
	x.mu.Lock()
	a := x.auth[id]
	if a == nil {
		a = x.w.authz(nil, authorizerd.WithDisablePolicyd(), authorizerd.WithDisableRoleToken(), authorizerd.WithJwkURLs([]string{extraJWKS, extra2JWKS}),
			authorizerd.WithAccessTokenParam(authorizerd.NewAccessTokenParam(true, c.C.Bind, bd, of, c.C.VerifyID, c.C.Ids)))
		if err := a.Init(bg()); err != nil {
			x.mu.Unlock()
			h.Violate(nil, "Init failed: %v", err)
			return
		}
		x.auth[id] = a
		pr, err := access.New(access.WithJWKProvider(x.jwkPro), access.WithEnableMTLSCertificateBoundAccessToken(c.C.Bind), access.WithEnableVerifyClientID(c.C.VerifyID), access.WithAuthorizedClientIDs(c.C.Ids),
			access.WithClientCertificateGoBackSeconds(bd), access.WithClientCertificateOffsetSeconds(of))
		if err != nil {
			x.mu.Unlock()
			h.Violate(nil, "access.New failed: %v", err)
			return
		}
		x.proc[id] = pr
	}
	proc := x.proc[id]
	x.mu.Unlock()
	h.steps++ // a fresh token per case (its jti): the success cache must not answer for another case
	tok, cl := x.token(c, fmt.Sprintf("j%d", h.cur))
	crt := x.cert(c, cl)
	what := func() string {
		b, _ := json.Marshal(c)
		return string(b)
	}
	var p authorizerd.Principal
	var err error
	if !h.Call("AuthorizeAccessToken", func() { p, err = a.AuthorizeAccessToken(bg(), tok, "a", "r", crt) }) {
		return
	}
	if (err == nil) != c.Ok {
		h.Violate(tok, "%s: accepted=%v (%v), specified %v", what(), err == nil, err, c.Ok)
		return
	}
	if err == nil {
		num := func(k string) int64 { n, _ := cl[k].(int64); return n }
		want := fmt.Sprintf("name=user.x domain=dom roles=[r1 r2] iat=%d exp=%d authorized=[] client=%s", num("iat"), num("exp"), c.T.Client)
		if prin(p) != want {
			h.Violate(tok, "%s: principal [%s], specified [%s]", what(), prin(p), want)
		}
	}
	// the processor is shown the same token again and again, with one certificate or another
	tok, cl = x.token(c, "j")
	var got *access.OAuth2AccessTokenClaim
	if !h.Call("ParseAndValidateOAuth2AccessToken", func() { got, err = proc.ParseAndValidateOAuth2AccessToken(tok, crt) }) {
		return
	}
	if (err == nil) != c.Ok {
		h.Violate(tok, "%s: the processor accepts: %v (%v), specified %v", what(), err == nil, err, c.Ok)
		return
	}
	if h.share > 1 && (c.Ok || h.cur%4 == 0) {
		x.mu.Lock()
		if len(x.hot) < 6000 {
			x.hot = append(x.hot, hotCall{what(), tok, crt, proc, c.Ok})
		}
		x.mu.Unlock()
	}
	if c.Ok || h.cur%16 == 0 { // without keys nothing is accepted
		var e1, e2 error
		if !h.Call("AuthorizeAccessToken without keys", func() {
			_, e1 = x.keyless.AuthorizeAccessToken(bg(), tok, "a", "r", crt)
			_, e2 = x.bare.ParseAndValidateOAuth2AccessToken(tok, crt)
		}) {
			return
		}
		if e1 == nil || e2 == nil {
			h.Violate(tok, "%s: accepted without a key set (key set daemon disabled: %v, processor without provider: %v)", what(), e1, e2)
			return
		}
	}
	if !c.Ok {
		return
	}
	h.Stat("accepted", 1)
	var w access.OAuth2AccessTokenClaim
	b, _ := json.Marshal(cl)
	json.Unmarshal(b, &w)
	if !reflect.DeepEqual(*got, w) {
		h.Violate(tok, "%s: claims %+v, signed claims are %+v", what(), *got, w)
	}
}

func stageAccess(h *H) {
	h.Bubble(func() {
		x := &acWorld{w: newWorld(), now: time.Now(), auth: map[string]authorizerd.Authorizerd{}, proc: map[string]access.Processor{}}
		x.w.jwks = map[string]string{athenzJWKS: mixedSet("k1", "a1", "k2", "a2", "kr", "ra", "", "f9"), extraJWKS: mixedSet("k1", "e1", "k3", "e3", "kr", "re"), extra2JWKS: mixedSet("k4", "f4", "k9", "f9")}
		d, err := jwkd.New(jwkd.WithAthenzJwksURL("athenz"), jwkd.WithURLs([]string{extraJWKS, extra2JWKS}), jwkd.WithHTTPClient(x.w.s.Client()))
		if err != nil {
			panic(err)
		}
		if err := d.Update(bg()); err != nil {
			h.Violate(nil, "key set update failed: %v", err)
			return
		}
		x.jwkPro = d.GetProvider()
		if x.bare, err = access.New(); err != nil {
			panic(err)
		}
		x.keyless = x.w.authz(nil, authorizerd.WithDisablePolicyd(), authorizerd.WithDisablePubkeyd(), authorizerd.WithDisableJwkd(), authorizerd.WithAccessTokenParam(authorizerd.NewAccessTokenParam(true, false, "", "", false, nil)))
		must(x.keyless.Init(bg()))
		h.CasesShared(func(h *H, raw json.RawMessage) {
			c := &acCase{}
			if err := json.Unmarshal(raw, c); err != nil {
				h.t.Fatal(err)
			}
			x.run(h, c)
		})
		if h.share > 1 {
			x.again(h)
		}
	})
}
