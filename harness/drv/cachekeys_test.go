package drv

import (
	"context"
	"crypto/tls"
	"crypto/x509"
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	authorizerd "github.com/yahoojapan/athenz-authorizer/v5"
)

type ckReq struct {
	Kind, Tok, Tail string
	Cert            []json.RawMessage
	Act, Res, Q     string
}
type ckCase struct {
	Trans, Bind bool
	Allow       [][3]string
	Certs       [][]json.RawMessage
	Script      []struct {
		R  ckReq
		Ok bool
	}
}

func init() { stages["cachekeys"] = stageCacheKeys }

// caseTranslator is injective and tells upper from lower case.
type caseTranslator struct{}

func enc(s string) string {
	var b strings.Builder
	for _, c := range s {
		if c >= 'A' && c <= 'Z' || c == '|' || c == '^' {
			b.WriteString("^")
		}
		b.WriteRune(c)
	}
	return b.String()
}

func (caseTranslator) Translate(domain, act, res, query string) (string, string, error) {
	return enc(act) + "|" + enc(query), enc(res), nil
}

func certKey(c []json.RawMessage) (iss, sub string, n int) {
	json.Unmarshal(c[0], &iss)
	json.Unmarshal(c[1], &sub)
	json.Unmarshal(c[2], &n)
	return
}

func flipCase(s string) string {
	// change the case of letters near the end (inside the signature)
	b := []byte(s)
	for i := len(b) - 3; i > len(b)-20; i-- {
		if b[i] >= 'a' && b[i] <= 'z' {
			b[i] -= 32
		} else if b[i] >= 'A' && b[i] <= 'Z' {
			b[i] += 32
		}
	}
	return string(b)
}

func runCacheKeys(h *H, c *ckCase, conc bool) {
	ctx, cancel := context.WithCancel(bg())
	defer cancel()
	now := time.Now()
	w := newWorld()
	uri := func(iss, sub string, n int) string { return fmt.Sprintf("spiffe://c/%x/%x/%d", iss, sub, n) }
	certs := map[string]*x509.Certificate{}
	cert := func(q []json.RawMessage) *x509.Certificate {
		if len(q) == 0 {
			return nil
		}
		iss, sub, n := certKey(q)
		u := uri(iss, sub, n)
		if certs[u] == nil {
			certs[u] = mkCert(iss, sub, "raw"+u, now, u)
		}
		return certs[u]
	}
	var bound []string
	for _, q := range c.Certs {
		iss, sub, n := certKey(q)
		bound = append(bound, uri(iss, sub, n))
	}
	toks := map[string]string{"rt1": roleTok(roleUnsigned("d", "user.rt1", []string{"x"}, now, now.Add(time.Hour), "z1"), "zts1")}
	for _, n := range []string{"at1", "at2"} {
		toks[n] = jwtTok(map[string]interface{}{"kid": "k1"}, map[string]interface{}{"aud": "d", "sub": "user." + n, "scp": []string{"x"}, "client_id": "client." + n,
			"iat": now.Unix(), "exp": now.Add(time.Hour).Unix(), "cnf": map[string]interface{}{"proxy-principals#spiffe": bound}}, "jwk1")
	}
	var as []Ass
	for _, a := range c.Allow {
		act, res := a[0], a[1]
		if c.Trans {
			act, res, _ = caseTranslator{}.Translate("", a[0], a[1], a[2])
		}
		as = append(as, Ass{"d:role.x", act, "d:" + res, "allow"})
	}
	w.setPolicy("d", [][]Ass{as}, now.Add(10000*time.Hour))
	opts := []authorizerd.Option{authorizerd.WithAccessTokenParam(authorizerd.NewAccessTokenParam(true, c.Bind, "0s", "0s", false, nil))}
	if c.Trans {
		opts = append(opts, authorizerd.WithTranslator(caseTranslator{}))
	}
	a := w.authz([]string{"d"}, opts...)
	if err := a.Init(ctx); err != nil {
		h.Violate(nil, "Init failed: %v", err)
		return
	}
	want := map[string]string{}
	for _, n := range []string{"rt1", "at1", "at2"} {
		cl := ""
		if n[0] == 'a' {
			cl = " client=client." + n
		}
		want[n] = fmt.Sprintf("name=user.%s domain=d roles=[x] iat=%d exp=%d authorized=[x]%s", n, now.Unix(), now.Add(time.Hour).Unix(), cl)
	}
	ask := func(i int, r ckReq, cr *x509.Certificate) (p authorizerd.Principal, err error) {
		tok := toks[r.Tok]
		if r.Tail == "CASE" {
			tok = flipCase(tok)
		} else if t := strings.ReplaceAll(r.Tail, "TAB", "\t"); strings.HasPrefix(t, "HEAD") {
			tok = t[4:] + tok
		} else {
			tok += t
		}
		http1 := r.Q != "" || (i%3 == 0 && strings.TrimSpace(tok) == tok && !strings.Contains(tok, "\n"))
		switch {
		case http1:
			hr, e := http.NewRequest("GET", "https://host/path", nil)
			if e != nil {
				panic(e)
			}
			hr.URL.RawQuery = r.Q
			hr = hr.WithContext(ctx)
			if cr != nil {
				hr.TLS = &tls.ConnectionState{PeerCertificates: []*x509.Certificate{cr}}
			}
			if r.Kind == "rt" {
				hr.Header.Set("Athenz-Role-Auth", tok)
			} else {
				hr.Header.Set("Authorization", "Bearer "+tok)
			}
			return a.Authorize(hr, r.Act, r.Res)
		case r.Kind == "rt":
			return a.AuthorizeRoleToken(ctx, tok, r.Act, r.Res)
		default:
			return a.AuthorizeAccessToken(ctx, tok, r.Act, r.Res, cr)
		}
	}
	verdict := func(i int, when string) bool {
		s := c.Script[i]
		r := s.R
		p, err := ask(i, r, cert(r.Cert))
		if (err == nil) != s.Ok {
			h.Violate(r, "request %d %s%s (token kind %s, certificate %s, action %q, resource %q, query %q): accepted=%v, its own full evaluation: %v (err %v)", i, r.Tok+r.Tail, when, r.Kind, r.Cert, r.Act, r.Res, r.Q, err == nil, s.Ok, err)
			return false
		}
		if s.Ok {
			h.Stat("accepted", 1)
			if g := prin(p); g != want[r.Tok] {
				h.Violate(r, "request %d %s%s: principal is [%s], specified [%s]", i, r.Tok, when, g, want[r.Tok])
				return false
			}
		}
		return true
	}
	if conc {
		// every caller asks all requests in its own order, all at the same time
		for _, s := range c.Script {
			cert(s.R.Cert)
		}
		const callers = 8
		var wg sync.WaitGroup
		var bad int32
		for g := 0; g < callers; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for _, i := range rand.New(rand.NewSource(h.seed*100 + int64(g))).Perm(len(c.Script)) {
					if atomic.LoadInt32(&bad) != 0 || !verdict(i, " (concurrently)") {
						atomic.StoreInt32(&bad, 1)
						return
					}
				}
			}(g)
		}
		wg.Wait()
		h.steps += callers * len(c.Script)
		return
	}
	for i := range c.Script {
		h.steps++
		if !verdict(i, "") {
			return
		}
	}
}

func stageCacheKeys(h *H) {
	h.Cases(func(raw json.RawMessage) {
		c := &ckCase{}
		if err := json.Unmarshal(raw, c); err != nil {
			h.t.Fatal(err)
		}
		if os.Getenv("VP_CONC") != "" {
			runCacheKeys(h, c, true)
			return
		}
		h.Bubble(func() { runCacheKeys(h, c, false) })
	})
}
