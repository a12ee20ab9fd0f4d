package drv

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"net/url"
	"strings"
	"sync"
	"time"

	"github.com/AthenZ/athenz/libs/go/zmssvctoken"
	"github.com/AthenZ/athenz/utils/zpe-updater/util"
	"github.com/ardielle/ardielle-go/rdl"
	"github.com/golang-jwt/jwt/v4"
	"github.com/lestrrat-go/jwx/jwk"
	authorizerd "github.com/yahoojapan/athenz-authorizer/v5"
)

// ---------------------------------------------------------------- real keys

type realKey struct {
	priv    *ecdsa.PrivateKey
	signer  zmssvctoken.Signer
	yb64Pub string
}

var (
	keyMu sync.Mutex
	keys  = map[string]*realKey{}
	rsas  = map[string]*rsa.PrivateKey{}
)

func ecKey(name string) *realKey {
	keyMu.Lock()
	defer keyMu.Unlock()
	if k, ok := keys[name]; ok {
		return k
	}
	p, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	b, _ := x509.MarshalECPrivateKey(p)
	s, err := zmssvctoken.NewSigner(pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: b}))
	if err != nil {
		panic(err)
	}
	pb, _ := x509.MarshalPKIXPublicKey(&p.PublicKey)
	k := &realKey{priv: p, signer: s, yb64Pub: new(zmssvctoken.YBase64).EncodeToString(pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: pb}))}
	keys[name] = k
	return k
}

func rsaKey(name string) *rsa.PrivateKey {
	keyMu.Lock()
	defer keyMu.Unlock()
	if k, ok := rsas[name]; ok {
		return k
	}
	k, err := rsa.GenerateKey(rand.Reader, 2048)
	if err != nil {
		panic(err)
	}
	rsas[name] = k
	return k
}

var signMu sync.Mutex
var signed = map[string]string{}

func (k *realKey) sign(s string) string {
	signMu.Lock()
	defer signMu.Unlock()
	id := k.yb64Pub[60:120] + s
	if x, ok := signed[id]; ok {
		return x
	}
	x, err := k.signer.Sign(s)
	if err != nil {
		panic(err)
	}
	if len(signed) > 20000 {
		signed = map[string]string{}
	}
	signed[id] = x
	return x
}

// ---------------------------------------------------------------- tokens

// roleTok builds a role token signed by the named key.
func roleTok(unsigned, key string) string { return unsigned + ";s=" + ecKey(key).sign(unsigned) }

func roleUnsigned(dom, name string, roles []string, iat, exp time.Time, kid string) string {
	return fmt.Sprintf("v=Z1;d=%s;r=%s;p=%s;a=salt;t=%d;e=%d;k=%s", dom, strings.Join(roles, ","), name, iat.Unix(), exp.Unix(), kid)
}

var jwtMu sync.Mutex
var jwts = map[string]string{}

// jwtTok signs claims with header additions using ES256 and the named key.
func jwtTok(head map[string]interface{}, claims map[string]interface{}, key string) string {
	hb, _ := json.Marshal(head)
	cb, _ := json.Marshal(claims)
	id := string(hb) + "|" + string(cb) + "|" + key
	jwtMu.Lock()
	defer jwtMu.Unlock()
	if x, ok := jwts[id]; ok {
		return x
	}
	t := jwt.NewWithClaims(jwt.SigningMethodES256, jwt.MapClaims(claims))
	for k, v := range head {
		if v == nil {
			delete(t.Header, k)
		} else {
			t.Header[k] = v
		}
	}
	s, err := t.SignedString(ecKey(key).priv)
	if err != nil {
		panic(err)
	}
	if len(jwts) > 20000 {
		jwts = map[string]string{}
	}
	jwts[id] = s
	return s
}

func thumb(c *x509.Certificate) string {
	s := sha256.Sum256(c.Raw)
	return base64.RawURLEncoding.EncodeToString(s[:])
}

// mkCert builds the parts of a certificate the authorizer looks at.
func mkCert(issuer, subject, raw string, notBefore time.Time, uris ...string) *x509.Certificate {
	c := &x509.Certificate{Raw: []byte(raw), Issuer: pkix.Name{CommonName: issuer}, Subject: pkix.Name{CommonName: subject}, NotBefore: notBefore, NotAfter: notBefore.Add(24 * time.Hour)}
	for _, u := range uris {
		x, err := url.Parse(u)
		if err != nil {
			panic(err)
		}
		c.URIs = append(c.URIs, x)
	}
	return c
}

// jwkSet builds a JWK set from key ids and key names.
func jwkSet(kv ...string) string {
	set := jwk.NewSet()
	for i := 0; i+1 < len(kv); i += 2 {
		k, err := jwk.New(&ecKey(kv[i+1]).priv.PublicKey)
		if err != nil {
			panic(err)
		}
		if kv[i] != "" {
			k.Set(jwk.KeyIDKey, kv[i])
		}
		set.Add(k)
	}
	b, _ := json.Marshal(set)
	return string(b)
}

// ---------------------------------------------------------------- the server side

// World is everything outside the authorizer.
type World struct {
	mu     sync.Mutex
	s      *Server
	zts    map[string]string // key id -> key name
	zms    map[string]string
	jwks   map[string]string // url -> body
	policy map[string]string // domain -> document
	fail   map[string]*Resp  // url substring -> answer
}

func newWorld() *World {
	w := &World{zts: map[string]string{"z1": "zts1"}, zms: map[string]string{"m1": "zms1"}, policy: map[string]string{},
		jwks: map[string]string{"https://athenz/oauth2/keys?rfc=true": jwkSet("k1", "jwk1")}, fail: map[string]*Resp{}}
	w.s = &Server{H: w.handle}
	return w
}

func keyDoc(env string, m map[string]string) string {
	type pk struct {
		ID  string `json:"id"`
		Key string `json:"key"`
	}
	var ks []pk
	for id, n := range m {
		ks = append(ks, pk{id, ecKey(n).yb64Pub})
	}
	b, _ := json.Marshal(map[string]interface{}{"name": "sys.auth." + env, "modified": "2020-01-01T00:00:00.000Z", "publicKeys": ks})
	return string(b)
}

func (w *World) handle(u, inm string) *Resp {
	w.mu.Lock()
	defer w.mu.Unlock()
	for sub, r := range w.fail {
		if strings.Contains(u, sub) {
			return r
		}
	}
	switch {
	case u == "https://athenz/domain/sys.auth/service/zts":
		return &Resp{Status: 200, Body: keyDoc("zts", w.zts)}
	case u == "https://athenz/domain/sys.auth/service/zms":
		return &Resp{Status: 200, Body: keyDoc("zms", w.zms)}
	case strings.HasSuffix(u, "/signed_policy_data"):
		if d, ok := w.policy[domainOf(u)]; ok {
			return &Resp{Status: 200, Body: d}
		}
		return &Resp{Status: 404}
	}
	if b, ok := w.jwks[u]; ok {
		return &Resp{Status: 200, Body: b}
	}
	return &Resp{Status: 404}
}

// setPolicy publishes a policy signed with real keys.
func (w *World) setPolicy(dom string, pols [][]Ass, exp time.Time) {
	pd := &util.PolicyData{Domain: dom}
	for i, as := range pols {
		p := &util.Policy{Name: fmt.Sprintf("%s:policy.p%d", dom, i)}
		for _, a := range as {
			p.Assertions = append(p.Assertions, &util.Assertion{Role: a.Role, Action: a.Action, Resource: a.Resource, Effect: a.Effect})
		}
		pd.Policies = append(pd.Policies, p)
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	zid, zn := anyKey(w.zts)
	mid, mn := anyKey(w.zms)
	pb, _ := json.Marshal(pd)
	ts := rdl.NewTimestamp(exp.UTC())
	mod := rdl.NewTimestamp(time.Unix(0, 0).UTC())
	spd := &util.SignedPolicyData{PolicyData: pd, Expires: &ts, Modified: &mod, ZmsKeyId: mid, ZmsSignature: ecKey(mn).sign(string(pb))}
	sb, _ := json.Marshal(spd)
	d := util.DomainSignedPolicyData{SignedPolicyData: spd, KeyId: zid, Signature: ecKey(zn).sign(string(sb))}
	b, _ := json.Marshal(d)
	w.policy[dom] = string(b)
}

func anyKey(m map[string]string) (id, name string) {
	for k, v := range m {
		if id == "" || k < id {
			id, name = k, v
		}
	}
	return
}

// authz builds an authorizer talking to the world.
func (w *World) authz(domains []string, opts ...authorizerd.Option) authorizerd.Authorizerd {
	o := append([]authorizerd.Option{
		authorizerd.WithAthenzURL("athenz"), authorizerd.WithAthenzDomains(domains...), authorizerd.WithHTTPClient(w.s.Client()),
		authorizerd.WithPolicyRetryDelay("1ms"), authorizerd.WithPolicyPurgePeriod("10000h"), authorizerd.WithDisableRoleCert(),
	}, opts...)
	a, err := authorizerd.New(o...)
	if err != nil {
		panic(err)
	}
	return a
}

// prin is the comparable content of a principal.
func prin(p authorizerd.Principal) string {
	if p == nil {
		return "nil"
	}
	c := ""
	if o, ok := p.(authorizerd.OAuthAccessToken); ok {
		c = " client=" + o.ClientID()
	}
	return fmt.Sprintf("name=%s domain=%s roles=%v iat=%d exp=%d authorized=%v%s", p.Name(), p.Domain(), p.Roles(), p.IssueTime(), p.ExpiryTime(), uniq(p.AuthorizedRoles()), c)
}

var _ = context.Background
