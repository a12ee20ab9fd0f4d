package drv

import (
	"context"
	"crypto/tls"
	"crypto/x509"
	"encoding/json"
	"fmt"
	"net/http"
	"os"
	"strings"
	"testing/synctest"
	"time"

	authorizerd "github.com/yahoojapan/athenz-authorizer/v5"
)

type auTok struct {
	Kind  string   `json:"kind"`
	Dom   string   `json:"dom"`
	Roles []string `json:"roles"`
	Exp   int      `json:"exp"`
	Gen   int      `json:"gen"`
	Bound string   `json:"bound"`
}
type auPol struct{ Dom, Role, Act, Res string }
type auReq struct{ Tok, Cert, Act, Res, Q string }
type auPrin struct {
	Tok  string   `json:"tok"`
	Auth []string `json:"auth"`
}
type auStep struct {
	A     string   `json:"a"`
	T     int      `json:"t"`
	V     int      `json:"v"`
	R     auReq    `json:"r"`
	Ok    []auPrin `json:"ok"`
	Rej   bool     `json:"rej"`
	Fresh bool     `json:"fresh"`
	Had   bool     `json:"had"`
}
type auCase struct {
	Toks   map[string]auTok `json:"toks"`
	Allow  [][]auPol        `json:"allow"`
	Deny   [][]auPol        `json:"deny"`
	Policy bool             `json:"policy"`
	Bind   bool             `json:"bind"`
	Trans  bool             `json:"trans"`
	Prefix string           `json:"prefix"`
	TTL    int              `json:"ttl"`
	Steps  []auStep         `json:"steps"`
}

func init() { stages["authorizer"] = stageAuthorizer }

// concatTranslator appends the query to the action, injectively for the requests of the models.
type concatTranslator struct{}

func (concatTranslator) Translate(domain, act, res, query string) (string, string, error) {
	if query == "bad" {
		return "", "", fmt.Errorf("malformed query")
	}
	return act + "." + query, "t." + res, nil
}

const auTick = 10 * time.Second

type auRun struct {
	h    *H
	def  *auCase
	c    *auCase
	cmp  map[string]bool
	w    *World
	a    authorizerd.Authorizerd
	t0   time.Time
	cert map[string]*x509.Certificate
	toks map[string]string
	ctx  context.Context
}

func (r *auRun) exp(name string) time.Time {
	return r.t0.Add(time.Duration(r.def.Toks[name].Exp) * auTick / 2)
}

func (r *auRun) build() {
	r.cert = map[string]*x509.Certificate{
		"c1": mkCert("ca", "svc", "raw1", r.t0), "c2": mkCert("ca", "svc2", "raw2", r.t0),
		"c1'": mkCert("ca", "svc", "raw3", r.t0.Add(-1000*time.Hour)), // same names, another certificate
	}
	r.toks = map[string]string{}
	for n, t := range r.def.Toks {
		key := fmt.Sprintf("%s%d", map[string]string{"rt": "zts", "at": "jwk"}[t.Kind], t.Gen)
		kid := fmt.Sprintf("%s%d", map[string]string{"rt": "z", "at": "k"}[t.Kind], t.Gen)
		if t.Gen == 0 { // forged: names the first key, signed by another one
			kid = kid[:1] + "1"
		}
		if t.Kind == "rt" {
			r.toks[n] = roleTok(roleUnsigned(t.Dom, "user."+n, t.Roles, r.t0.Add(-time.Minute), r.exp(n), kid), key)
		} else {
			cl := map[string]interface{}{"iss": "athenz", "aud": t.Dom, "sub": "user." + n, "scp": t.Roles, "client_id": "client." + n,
				"iat": r.t0.Add(-time.Minute).Unix(), "exp": r.exp(n).Unix(), "auth_time": r.t0.Unix(), "ver": 1,
				"cnf": map[string]interface{}{"x5t#S256": thumb(r.cert[t.Bound])}}
			r.toks[n] = jwtTok(map[string]interface{}{"kid": kid}, cl, key)
		}
	}
}

func (r *auRun) publish(v int) {
	per := map[string][]Ass{"a": {}, "b": {}}
	add := func(ps []auPol, eff string) {
		for _, p := range ps {
			per[p.Dom] = append(per[p.Dom], Ass{p.Dom + ":role." + p.Role, p.Act, p.Dom + ":" + p.Res, eff})
		}
	}
	add(r.def.Allow[v-1], "allow")
	add(r.def.Deny[v-1], "deny")
	for d, as := range per {
		r.w.setPolicy(d, [][]Ass{as}, r.t0.Add(10000*time.Hour))
	}
}

func (r *auRun) want(p auPrin) string {
	t := r.def.Toks[p.Tok]
	c := ""
	if t.Kind == "at" {
		c = " client=client." + p.Tok
	}
	return fmt.Sprintf("name=user.%s domain=%s roles=%v iat=%d exp=%d authorized=%v%s", p.Tok, t.Dom, t.Roles, r.t0.Add(-time.Minute).Unix(), r.exp(p.Tok).Unix(), uniq(p.Auth), c)
}

// ask sends the request through one of the entry points; it returns the principal ("?" when the entry point returns none).
func (r *auRun) ask(q auReq, ep int) (string, error) {
	t := r.def.Toks[q.Tok]
	cert := r.cert[q.Cert]
	if q.Q != "" || ep >= 2 {
		hr, err := http.NewRequest("GET", "https://host/path", nil)
		if err != nil {
			panic(err)
		}
		hr.URL.RawQuery = q.Q
		hr = hr.WithContext(r.ctx)
		if cert != nil {
			hr.TLS = &tls.ConnectionState{PeerCertificates: []*x509.Certificate{cert}}
		}
		if t.Kind == "rt" {
			hr.Header.Set("Athenz-Role-Auth", r.toks[q.Tok])
		} else {
			hr.Header.Set("Authorization", "Bearer "+r.toks[q.Tok])
		}
		if ep%2 == 1 {
			return "?", r.a.Verify(hr, q.Act, q.Res)
		}
		p, err := r.a.Authorize(hr, q.Act, q.Res)
		return prin(p), err
	}
	switch {
	case t.Kind == "rt" && ep == 1:
		return "?", r.a.VerifyRoleToken(r.ctx, r.toks[q.Tok], q.Act, q.Res)
	case t.Kind == "rt":
		p, err := r.a.AuthorizeRoleToken(r.ctx, r.toks[q.Tok], q.Act, q.Res)
		return prin(p), err
	case ep == 1:
		return "?", r.a.VerifyAccessToken(r.ctx, r.toks[q.Tok], q.Act, q.Res, cert)
	default:
		p, err := r.a.AuthorizeAccessToken(r.ctx, r.toks[q.Tok], q.Act, q.Res, cert)
		return prin(p), err
	}
}

func (r *auRun) run() {
	ctx, cancel := context.WithCancel(bg())
	defer cancel()
	r.ctx = ctx
	r.t0 = time.Now()
	r.w = newWorld()
	r.build()
	r.publish(1)
	opts := []authorizerd.Option{authorizerd.WithCacheExp(time.Duration(r.c.TTL)*auTick - auTick/2), authorizerd.WithResourcePrefix(r.c.Prefix),
		authorizerd.WithAccessTokenParam(authorizerd.NewAccessTokenParam(true, r.c.Bind, "0s", "0s", false, nil))}
	if !r.c.Policy {
		opts = append(opts, authorizerd.WithDisablePolicyd())
	}
	if r.c.Trans {
		opts = append(opts, authorizerd.WithTranslator(concatTranslator{}))
	}
	r.a = r.w.authz([]string{"a", "b"}, opts...)
	if err := r.a.Init(ctx); err != nil {
		r.h.Violate(nil, "Init failed: %v", err)
		return
	}
	if r.h.cur%2 == 1 {
		r.a.Start(ctx)
	}
	for i, st := range r.c.Steps {
		time.Sleep(time.Until(r.t0.Add(time.Duration(st.T) * auTick)))
		switch st.A {
		case "pol":
			r.publish(st.V)
			if err := r.a.Init(ctx); err != nil {
				r.h.Violate(nil, "step %d: update failed: %v", i, err)
				return
			}
		case "rot":
			r.w.mu.Lock()
			r.w.zts = map[string]string{fmt.Sprintf("z%d", st.V): fmt.Sprintf("zts%d", st.V)}
			r.w.jwks["https://athenz/oauth2/keys?rfc=true"] = jwkSet(fmt.Sprintf("k%d", st.V), fmt.Sprintf("jwk%d", st.V))
			r.w.mu.Unlock()
			if r.c.Policy {
				v := 1
				for _, s := range r.c.Steps[:i] {
					if s.A == "pol" {
						v = s.V
					}
				}
				r.publish(v)
			}
			if err := r.a.Init(ctx); err != nil {
				r.h.Violate(nil, "step %d: update failed: %v", i, err)
				return
			}
		case "req":
			r.h.steps++
			p, err := r.ask(st.R, (r.h.cur+i)%4)
			if err != nil {
				if st.Fresh && r.cmp["reject"] {
					r.h.Violate(nil, "step %d: request %+v is rejected (%v), specified: accepted", i, st.R, err)
					return
				}
				continue
			}
			if len(st.Ok) == 0 {
				if r.cmp["accept"] {
					why := "no full evaluation accepts it and no identical request succeeded before"
					if st.Had {
						why = "its last successful full evaluation is older than the cache lifetime"
					}
					r.h.Violate(nil, "step %d: request %+v is accepted (%s), specified: rejected; %s", i, st.R, p, why)
					return
				}
				continue
			}
			if !st.Fresh {
				r.h.Stat("served_from_cache", 1)
			}
			if p == "?" {
				continue
			}
			var ws []string
			ok := false
			for _, e := range st.Ok {
				ws = append(ws, r.want(e))
				ok = ok || r.want(e) == p
			}
			if !ok && r.cmp["prin"] {
				r.h.Violate(nil, "step %d: request %+v: principal is [%s], specified %q", i, st.R, p, ws)
				return
			}
		}
	}
	cancel()
	synctest.Wait()
}

func stageAuthorizer(h *H) {
	cmp := map[string]bool{}
	for _, k := range strings.Split(os.Getenv("VP_CMP"), ",") {
		cmp[k] = true
	}
	var def *auCase
	h.defBy = `"toks"`
	h.isDef = func(raw json.RawMessage) bool {
		c := &auCase{}
		if json.Unmarshal(raw, c) == nil && c.Toks != nil {
			def = c
			return true
		}
		return false
	}
	h.Cases(func(raw json.RawMessage) {
		c := &auCase{}
		if err := json.Unmarshal(raw, c); err != nil {
			h.t.Fatal(err)
		}
		h.Bubble(func() { (&auRun{h: h, def: def, c: c, cmp: cmp}).run() })
	})
}
