package drv

import (
	"crypto/tls"
	"crypto/x509"
	"encoding/json"
	"fmt"
	"net/http"
	"sync"
	"time"

	authorizerd "github.com/yahoojapan/athenz-authorizer/v5"
)

type hcCase struct {
	Cfg struct {
		On     struct{ At, Rt, Rc bool }
		Header string
		Bind   bool
	}
	Req struct {
		Via, Rt, Other, Act string
		Auth                [2]string
		Tls                 []string
	}
	Ans   string
	Valid bool
}

func init() { stages["http"] = stageHTTP }

func stageHTTP(h *H) {
	now := time.Now()
	w := newWorld()
	cert := map[string]*x509.Certificate{"c1": mkCert("ca", "svc", "raw1", now), "c2": mkCert("ca", "svc2", "raw2", now)}
	toks := map[string]string{}
	rt := func(n string, exp time.Duration, key string) {
		toks[n] = roleTok(roleUnsigned("d", "user."+n, []string{"x"}, now.Add(-2*time.Hour), now.Add(exp), "z1"), key)
	}
	at := func(n string, exp time.Duration, key string) {
		toks[n] = jwtTok(map[string]interface{}{"kid": "k1"}, map[string]interface{}{"aud": "d", "sub": "user." + n, "scp": []string{"y"}, "client_id": "c",
			"iat": now.Add(-2 * time.Hour).Unix(), "exp": now.Add(exp).Unix(), "cnf": map[string]interface{}{"x5t#S256": thumb(cert["c1"])}}, key)
	}
	rt("r1", time.Hour, "zts1")
	rt("rbad", time.Hour, "zts2")
	rt("rexp", -time.Hour, "zts1")
	at("a1", time.Hour, "jwk1")
	at("abad", time.Hour, "jwk2")
	at("aexp", -time.Hour, "jwk1")
	w.setPolicy("d", [][]Ass{{{"d:role.x", "both", "d:u", "allow"}, {"d:role.y", "both", "d:u", "allow"}, {"d:role.x", "rt", "d:u", "allow"}, {"d:role.y", "at", "d:u", "allow"}}}, now.Add(10000*time.Hour))
	auths := map[string]authorizerd.Authorizerd{}
	var mu sync.Mutex
	h.CasesShared(func(h *H, raw json.RawMessage) {
		c := &hcCase{}
		if err := json.Unmarshal(raw, c); err != nil {
			h.t.Fatal(err)
		}
		opts := []authorizerd.Option{authorizerd.WithAthenzURL("athenz"), authorizerd.WithAthenzDomains("d"), authorizerd.WithHTTPClient(w.s.Client()), authorizerd.WithPolicyPurgePeriod("10000h"),
			authorizerd.WithDisableRoleCert(), authorizerd.WithDisableRoleToken(),
			authorizerd.WithAccessTokenParam(authorizerd.NewAccessTokenParam(c.Cfg.On.At, c.Cfg.Bind, "0s", "0s", false, nil))}
		if c.Cfg.Header != "Athenz-Role-Auth" {
			opts = append(opts, authorizerd.WithRoleAuthHeader(c.Cfg.Header))
		}
		if c.Cfg.On.Rt {
			opts = append(opts, authorizerd.WithEnableRoleToken())
		}
		if c.Cfg.On.Rc {
			opts = append(opts, authorizerd.WithEnableRoleCert())
		}
		if !c.Valid {
			h.steps++
			if _, err := authorizerd.New(opts...); err == nil {
				h.Violate(nil, "an authorizer with no credential kind enabled was built")
			}
			return
		}
		id := fmt.Sprint(c.Cfg)
		mu.Lock()
		a := auths[id]
		mu.Unlock()
		if a == nil || h.n%997 == 0 { // now and then a new one: its cache is empty
			var err error
			if a, err = authorizerd.New(opts...); err != nil {
				h.Violate(nil, "New failed: %v", err)
				return
			}
			if err = a.Init(bg()); err != nil {
				h.Violate(nil, "Init failed: %v", err)
				return
			}
			mu.Lock()
			auths[id] = a
			mu.Unlock()
		}
		want := func(n string) string {
			ro, cl := "x", ""
			if n == "a1" {
				ro, cl = "y", " client=c"
			}
			return fmt.Sprintf("name=user.%s domain=d roles=[%s] iat=%d exp=%d authorized=[%s]%s", n, ro, now.Add(-2*time.Hour).Unix(), now.Add(time.Hour).Unix(), ro, cl)
		}
		h.steps++
		q := c.Req
		var p authorizerd.Principal
		var err, verr error
		ok := h.Call("request", func() {
			switch q.Via {
			case "direct-at":
				var cc *x509.Certificate
				if len(q.Tls) > 0 {
					cc = cert[q.Tls[0]]
				}
				p, err = a.AuthorizeAccessToken(bg(), toks[q.Auth[1]], q.Act, "u", cc)
				verr = a.VerifyAccessToken(bg(), toks[q.Auth[1]], q.Act, "u", cc)
			case "direct-rt":
				p, err = a.AuthorizeRoleToken(bg(), toks[q.Rt], q.Act, "u")
				verr = a.VerifyRoleToken(bg(), toks[q.Rt], q.Act, "u")
			default:
				hr, e := http.NewRequest("GET", "https://host/path", nil)
				if e != nil {
					panic(e)
				}
				if q.Auth[1] != "none" {
					hr.Header.Set("Authorization", q.Auth[0]+toks[q.Auth[1]])
				}
				if q.Rt != "none" {
					hr.Header.Set(c.Cfg.Header, toks[q.Rt])
				}
				if q.Other != "none" {
					o := "X-Role"
					if c.Cfg.Header == o {
						o = "Athenz-Role-Auth"
					}
					hr.Header.Set(o, toks[q.Other])
				}
				if len(q.Tls) == 0 || q.Tls[0] != "notls" {
					hr.TLS = &tls.ConnectionState{}
					for _, n := range q.Tls {
						hr.TLS.PeerCertificates = append(hr.TLS.PeerCertificates, cert[n])
					}
				}
				if h.n%2 == 0 {
					verr = a.Verify(hr, q.Act, "u")
					p, err = a.Authorize(hr, q.Act, "u")
				} else {
					p, err = a.Authorize(hr, q.Act, "u")
					verr = a.Verify(hr, q.Act, "u")
				}
				if err != nil && err != authorizerd.ErrInvalidCredentials || verr != nil && verr != authorizerd.ErrInvalidCredentials {
					h.Violate(q, "the error is not the invalid credentials error: %v / %v", err, verr)
				}
			}
		})
		if !ok {
			return
		}
		if (err == nil) != (c.Ans != "invalid") || (verr == nil) != (c.Ans != "invalid") {
			h.Violate(q, "enabled %+v, request %+v: Authorize err=%v, Verify err=%v, specified: %s", c.Cfg, q, err, verr, c.Ans)
			return
		}
		if err == nil && prin(p) != want(c.Ans) {
			h.Violate(q, "enabled %+v, request %+v: principal [%s], specified [%s]", c.Cfg, q, prin(p), want(c.Ans))
		}
	})
}
