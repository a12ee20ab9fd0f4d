package drv

import (
	"bytes"
	"crypto/hmac"
	"crypto/sha256"
	"crypto/tls"
	"crypto/x509"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"net/http"
	"os"
	"strings"
	"sync"
	"time"

	"github.com/kpango/glg"
	authorizerd "github.com/yahoojapan/athenz-authorizer/v5"
)

type lgCase struct {
	Cfg struct{ Policy, Tr, Bind, Cid, At, Rt bool }
	Seq []struct {
		R struct {
			Cred struct{ Kind, Def string }
			E    struct{ As, Via, Act, Cert string }
		}
		Out string
	}
}

type logBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *logBuf) Write(p []byte) (int, error) { l.mu.Lock(); defer l.mu.Unlock(); return l.b.Write(p) }
func (l *logBuf) Take() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	s := l.b.String()
	l.b.Reset()
	return s
}

// leaked returns a part of the secret, at least 12 characters of it, that the text contains. The first
// characters of a signature are left out: every signature (as those of the policies, which are no secret) starts alike.
func leaked(text, secret string) string {
	const w, skip = 12, 8
	if len(secret) < w+skip {
		return ""
	}
	secret = secret[skip:]
	for i := 0; i+w <= len(secret); i++ {
		if strings.Contains(text, secret[i:i+w]) {
			j := i + w
			for j < len(secret) && strings.Contains(text, secret[i:j+1]) {
				j++
			}
			return secret[i:j]
		}
	}
	return ""
}

func init() { stages["logging"] = stageLogging }

func stageLogging(h *H) {
	buf := &logBuf{}
	// everything the process writes: the logger at its most verbose, the standard logger, standard output and error
	pr, pw, err := os.Pipe()
	if err != nil {
		h.t.Fatal(err)
	}
	so, se := os.Stdout, os.Stderr
	os.Stdout, os.Stderr = pw, pw
	log.SetOutput(buf)
	done := make(chan struct{})
	go func() { io.Copy(buf, pr); close(done) }()
	defer func() { os.Stdout, os.Stderr = so, se; pw.Close(); <-done }()
	glg.Get().SetMode(glg.WRITER).SetWriter(buf).SetLevel(glg.DEBG)
	defer glg.Get().SetMode(glg.NONE)

	now := time.Now()
	w := newWorld()
	w.jwks[extraJWKS] = jwkSet("k1", "jwkextra")
	var rules []authorizerd.Rule
	for _, a := range []string{"ok", "denied", "none"} {
		rules = append(rules, authorizerd.Rule{Method: a, Path: "/u", Action: a, Resource: "u"})
	}
	mr, err := authorizerd.NewMappingRules(map[string][]authorizerd.Rule{"d": append(rules, authorizerd.Rule{Method: "trfail", Path: "/u?p={p}", Action: "ok", Resource: "{p}"})})
	if err != nil {
		h.t.Fatal(err)
	}
	w.setPolicy("d", [][]Ass{{{"d:role.x:y", "ok", "d:*", "allow"}, {"d:role.x", "ok", "d:*", "allow"}, {"d:role.x*", "denied", "d:*", "deny"}}}, now.Add(10000*time.Hour))
	cert := map[string]*x509.Certificate{"bound": mkCert("is:suer:ca", "client", "raw bound", now.Add(-3*time.Hour)), "rotated": mkCert("is:suer:ca", "client", "raw rotated", now.Add(-30*time.Minute))}
	toks := map[string]string{}
	mk := func(kind, def string) string {
		if t, ok := toks[kind+"/"+def]; ok {
			return t
		}
		var t string
		if kind == "role" {
			name, dom, roles, exp, kid, key := "user.a", "d", []string{"x"}, now.Add(time.Hour), "z1", "zts1"
			switch def {
			case "esc":
				name, roles = strings.Repeat("user:%:", 12), []string{"x", "x:y", ":::::"}
			case "expired":
				exp = now.Add(-time.Hour)
			case "unkey":
				kid = "nokey"
			case "badsig":
				key = "zts-other"
			case "otherdom":
				dom = "unknown"
			case "norole":
				roles = []string{"z"}
			}
			u := roleUnsigned(dom, name, roles, now.Add(-time.Hour), exp, kid)
			switch def {
			case "badpair":
				u += ";noequals"
			case "bade":
				u += ";e=soon"
			case "badt":
				u += ";t=1e9"
			}
			t = roleTok(u, key)
			switch def {
			case "dupsep":
				t = u + ";s=" + ecKey("zts-other").sign(u) + ";s=" + ecKey(key).sign(u)
			case "emptysig":
				t = u + ";s="
			case "trail":
				t += ";h=host"
			}
		} else {
			head := map[string]interface{}{"kid": "k1"}
			claims := map[string]interface{}{"aud": "d", "sub": "user.a", "scp": []string{"x"}, "client_id": "client", "iat": now.Add(-time.Hour).Unix(), "exp": now.Add(time.Hour).Unix(),
				"cnf": map[string]interface{}{"x5t#S256": thumb(cert["bound"])}}
			key := "jwk1"
			switch def {
			case "kidless":
				head["kid"] = nil
			case "kidint":
				head["kid"] = 7
			case "unkid":
				head["kid"] = "nokey"
			case "jku":
				head["jku"], key = extraJWKS, "jwkextra"
			case "unjku":
				head["jku"] = "https://unknown.example/keys"
			case "jkuint":
				head["jku"] = 7
			case "expired":
				claims["exp"] = now.Add(-time.Minute).Unix()
			case "future":
				claims["iat"] = now.Add(time.Hour).Unix()
			case "nbf":
				claims["nbf"] = now.Add(time.Hour).Unix()
			case "badsig":
				key = "jwkother"
			case "audlist":
				claims["aud"] = []string{"d"}
			case "noclient":
				delete(claims, "client_id")
			case "nocnf":
				delete(claims, "cnf")
			case "othercert":
				claims["cnf"] = map[string]interface{}{"x5t#S256": strings.Repeat("A", 43)}
			case "older":
				claims["iat"] = now.Add(-2*time.Hour - 30*time.Minute).Unix()
			case "otherdom":
				claims["aud"] = "unknown"
			case "norole":
				claims["scp"] = []string{"z"}
			}
			t = jwtTok(head, claims, key)
			p := strings.Split(t, ".")
			switch def {
			case "algnone":
				p[0] = b64.EncodeToString([]byte(`{"alg":"none","kid":"k1"}`))
			case "alghs":
				p[0] = b64.EncodeToString([]byte(`{"alg":"HS256","kid":"k1"}`))
				m := hmac.New(sha256.New, []byte("x"))
				m.Write([]byte(p[0] + "." + p[1]))
				p[2] = b64.EncodeToString(m.Sum(nil))
			case "badhdr":
				p[0] = "*" + p[0]
			case "badhdrjson":
				p[0] = b64.EncodeToString([]byte(`{"alg":"ES256","kid":`))
			case "badclaims":
				p[1] = b64.EncodeToString([]byte(`["d"]`))
			case "badsigb64":
				p[2] = p[2][:40] + "*" + p[2][40:]
			case "four":
				p = append(p, "x")
			}
			t = strings.Join(p, ".")
		}
		toks[kind+"/"+def] = t
		return t
	}
	// the signatures a credential carries
	sigs := func(kind, def string) []string {
		t := mk(kind, def)
		if kind == "role" {
			return strings.Split(t, ";s=")[1:]
		}
		return strings.Split(t, ".")[2:]
	}
	secret := map[string][]string{}
	auths := map[string]authorizerd.Authorizerd{}
	look := func(what string) bool {
		text := buf.Take()
		h.Stat("log_bytes", len(text))
		for id, ss := range secret {
			for _, s := range ss {
				if l := leaked(text, s); l != "" {
					i := strings.Index(text, l)
					a, b := max(0, i-160), min(len(text), i+len(l)+20)
					h.Violate(text[a:b], "%s: the log holds %d characters of the signature of credential %s", what, len(l), id)
					return false
				}
			}
		}
		return true
	}
	h.Cases(func(raw json.RawMessage) {
		c := &lgCase{}
		if err := json.Unmarshal(raw, c); err != nil {
			h.t.Fatal(err)
		}
		id := fmt.Sprint(c.Cfg)
		a := auths[id]
		if a == nil || h.n%64 == 0 { // caches that hold anything make the model's hits hits
			off, back := "0s", "0s"
			if c.Cfg.Bind {
				off, back = "2h", "1h"
			}
			var ids map[string][]string
			if c.Cfg.Cid {
				ids = map[string][]string{"client": {"client"}}
			}
			opts := []authorizerd.Option{authorizerd.WithJwkURLs([]string{extraJWKS}), authorizerd.WithDisableRoleToken(),
				authorizerd.WithAccessTokenParam(authorizerd.NewAccessTokenParam(c.Cfg.At, c.Cfg.Bind, back, off, c.Cfg.Cid, ids))}
			if c.Cfg.Rt {
				opts = append(opts, authorizerd.WithEnableRoleToken())
			}
			if !c.Cfg.Policy {
				opts = append(opts, authorizerd.WithDisablePolicyd())
			}
			if c.Cfg.Tr {
				opts = append(opts, authorizerd.WithTranslator(mr))
			}
			a = w.authz([]string{"d"}, opts...)
			if err := a.Init(bg()); err != nil {
				h.Violate(nil, "Init failed: %v", err)
				return
			}
			auths[id] = a
			buf.Take()
		}
		clear(secret)
		for i, s := range c.Seq {
			cr, e := s.R.Cred, s.R.E
			tok := mk(cr.Kind, cr.Def)
			secret[cr.Kind+"/"+cr.Def] = sigs(cr.Kind, cr.Def)
			act := e.Act
			if act == "empty" {
				act = ""
			}
			res := "u"
			if c.Cfg.Tr {
				res = "/u"
			}
			crt := cert[e.Cert]
			var rerr error
			ok := h.Call("request", func() {
				switch e.Via {
				case "authorize", "verify":
					switch {
					case e.As == "role" && e.Via == "authorize":
						_, rerr = a.AuthorizeRoleToken(bg(), tok, act, res)
					case e.As == "role":
						rerr = a.VerifyRoleToken(bg(), tok, act, res)
					case e.Via == "authorize":
						_, rerr = a.AuthorizeAccessToken(bg(), tok, act, res, crt)
					default:
						rerr = a.VerifyAccessToken(bg(), tok, act, res, crt)
					}
				default:
					r, err := http.NewRequest("GET", "https://host/path", nil)
					must(err)
					if act == "trfail" {
						r.URL.RawQuery = "p=1&p=2"
					}
					if e.As == "role" {
						r.Header.Set("Athenz-Role-Auth", tok)
					} else {
						r.Header.Set("Authorization", "Bearer "+tok)
					}
					if crt != nil {
						r.TLS = &tls.ConnectionState{PeerCertificates: []*x509.Certificate{crt}}
					}
					if e.Via == "http-verify" {
						rerr = a.Verify(r, act, res)
					} else {
						_, rerr = a.Authorize(r, act, res)
					}
				}
			})
			if !ok {
				return
			}
			h.steps++
			h.Stat("outcome "+s.Out, 1)
			if (rerr == nil) != (s.Out != "refused") {
				// which credentials are accepted is not the matter of this property
				h.Stat("unexpected outcome", 1)
				if h.stats["unexpected outcome"] < 20 {
					h.Emit(map[string]interface{}{"t": "note", "case": raw, "step": i, "err": fmt.Sprint(rerr)})
				}
			}
			if !look(fmt.Sprintf("request %d, %s presented as %s via %s, action %s (%s)", i+1, cr.Kind+"/"+cr.Def, e.As, e.Via, e.Act, s.Out)) {
				return
			}
		}
	})
	time.Sleep(20 * time.Millisecond)
	look("after the requests")
}
