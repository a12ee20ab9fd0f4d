package drv

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"net/http"
	"sort"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	authorizerd "github.com/yahoojapan/athenz-authorizer/v5"
)

// Stage "init" (C22): Init of the real authorizer, every answer released in the order of the script; what it
// asked, what was answered and what it returned is recorded for InitTrace.

type initCfg struct {
	Pubkeyd bool     `json:"pubkeyd"`
	Policyd bool     `json:"policyd"`
	Jwkd    bool     `json:"jwkd"`
	Doms    []string `json:"doms"`
	Urls    []string `json:"urls"`
}

type initCase struct {
	Cfg    initCfg  `json:"cfg"`
	Order  []string `json:"order"`
	Bad    []string `json:"bad"`
	Cancel int      `json:"cancel"`
}

type initGate struct {
	h       *H
	mu      sync.Mutex
	w       *World
	idx     int
	bad     map[string]bool
	pend    map[string]chan bool
	hold    bool
	later   bool
	lateReq map[string]int
}

func initReq(u string) string {
	switch {
	case strings.HasSuffix(u, "/service/zts"):
		return "zts"
	case strings.HasSuffix(u, "/service/zms"):
		return "zms"
	case strings.HasSuffix(u, "/signed_policy_data"):
		return domainOf(u)
	case strings.Contains(u, "/oauth2/keys"):
		return "j0"
	}
	return strings.TrimPrefix(u, "https://keys.example/")
}

func (g *initGate) ev(m map[string]interface{}) {
	m["t"] = "ev"
	g.h.Emit(m)
	g.h.mu.Lock()
	g.h.steps++
	g.h.mu.Unlock()
}

func (g *initGate) RoundTrip(q *http.Request) (*http.Response, error) {
	r := initReq(q.URL.String())
	g.mu.Lock()
	if err := q.Context().Err(); err != nil {
		g.mu.Unlock()
		return nil, err
	}
	if !g.hold {
		if g.later {
			g.lateReq[r]++
			g.ev(map[string]interface{}{"e": "later", "r": r})
		}
		g.mu.Unlock()
		return g.w.s.RoundTrip(q)
	}
	g.ev(map[string]interface{}{"e": "req", "r": r})
	ch := make(chan bool)
	g.pend[r] = ch
	g.mu.Unlock()
	select {
	case <-ch:
	case <-q.Context().Done():
		g.mu.Lock()
		delete(g.pend, r)
		g.mu.Unlock()
		return nil, q.Context().Err()
	}
	if !g.bad[r] {
		return g.w.s.RoundTrip(q)
	}
	return g.badAnswer(r, q)
}

// badAnswer is an answer that cannot be used.
func (g *initGate) badAnswer(r string, q *http.Request) (*http.Response, error) {
	bodies := []string{"neterr", "500", "404", "garbage"}
	switch r {
	case "zts", "zms":
		bodies = append(bodies, `{"publicKeys":[{"id":"x","key":"%%%"}]}`, `{"publicKeys":[{"id":"z1","key":"AAAA"}]}`)
	case "j0", "j1":
		bodies = append(bodies, `{"keys":[{"kty":"EC","crv":"P-256","x":"AA"}]}`)
	default:
		bodies = append(bodies, `{}`, policyDoc(r, nil, time.Now().Add(time.Hour), "k", "k"))
	}
	b := bodies[(g.idx+len(r))%len(bodies)]
	rs := &Resp{Status: 200, Body: b}
	switch b {
	case "neterr":
		return nil, errors.New("connection refused")
	case "500":
		rs = &Resp{Status: 500}
	case "404":
		rs = &Resp{Status: 404, Body: "{}"}
	}
	s := &Server{H: func(string, string) *Resp { return rs }}
	return s.RoundTrip(q)
}

// publish gives the server the keys and policies of a generation.
func (g *initGate) publish(gen int, doms []string) {
	g.w.mu.Lock()
	g.w.zts = map[string]string{fmt.Sprintf("z%d", gen): fmt.Sprintf("zts%d", gen)}
	g.w.zms = map[string]string{fmt.Sprintf("m%d", gen): fmt.Sprintf("zms%d", gen)}
	g.w.jwks = map[string]string{"https://athenz/oauth2/keys?rfc=true": jwkSet("k", fmt.Sprintf("ja%d", gen)), "https://keys.example/j1": jwkSet("k", fmt.Sprintf("jb%d", gen))}
	g.w.mu.Unlock()
	for _, d := range doms {
		g.w.setPolicy(d, [][]Ass{{{d + ":role.r", "act", d + ":res", "ALLOW"}}}, time.Now().Add(48*time.Hour))
	}
}

func init() {
	stages["init"] = func(h *H) {
		i := 0
		h.Cases(func(raw json.RawMessage) {
			var c initCase
			must(json.Unmarshal(raw, &c))
			i++
			h.Bubble(func() { runInit(h, c, i) })
		})
	}
}

func runInit(h *H, c initCase, idx int) {
	g := &initGate{h: h, w: newWorld(), idx: idx, pend: map[string]chan bool{}, lateReq: map[string]int{}}
	opts := []authorizerd.Option{
		authorizerd.WithAthenzURL("athenz"), authorizerd.WithHTTPClient(&http.Client{Transport: g}), authorizerd.WithDisableRoleCert(), authorizerd.WithAthenzDomains(c.Cfg.Doms...),
		authorizerd.WithPubkeyRefreshPeriod("1h"), authorizerd.WithPolicyRefreshPeriod("1h"), authorizerd.WithJwkRefreshPeriod("1h"), authorizerd.WithCacheExp(time.Hour),
		authorizerd.WithPolicyRetryDelay("1ms"), authorizerd.WithPolicyRetryAttempts(1), authorizerd.WithPolicyPurgePeriod("10000h"), authorizerd.WithPubkeyETagExpiry("10000h"), authorizerd.WithPubkeyETagPurgePeriod("10000h"),
		authorizerd.WithAccessTokenParam(authorizerd.NewAccessTokenParam(true, false, "1h", "1h", false, nil)),
	}
	var urls []string
	for _, u := range c.Cfg.Urls {
		if u != "j0" {
			urls = append(urls, "https://keys.example/"+u)
		}
	}
	opts = append(opts, authorizerd.WithJwkURLs(urls))
	// the last word on a daemon counts
	last := func(on bool, enable, disable authorizerd.Option) {
		if idx%2 == 0 {
			opts = append(opts, disable, enable)
		}
		if !on {
			opts = append(opts, disable)
		}
	}
	last(c.Cfg.Pubkeyd, authorizerd.WithEnablePubkeyd(), authorizerd.WithDisablePubkeyd())
	last(c.Cfg.Policyd, authorizerd.WithEnablePolicyd(), authorizerd.WithDisablePolicyd())
	last(c.Cfg.Jwkd, authorizerd.WithEnableJwkd(), authorizerd.WithDisableJwkd())
	a, err := authorizerd.New(opts...)
	must(err)
	root, stop := context.WithCancel(bg())
	defer func() { stop(); synctest.Wait() }()
	for round := 1; round <= 3; round++ {
		gen := round
		g.publish(gen, c.Cfg.Doms)
		cc := c
		if round == 2 { // everything works, with new keys; the third time the answers are those of the script again
			cc = initCase{Cfg: c.Cfg, Cancel: 99}
		}
		g.bad = map[string]bool{}
		for _, b := range cc.Bad {
			g.bad[b] = true
		}
		g.ev(map[string]interface{}{"e": "begin", "case": idx, "cfg": c.Cfg, "again": round > 1})
		ctx, cancel := context.WithCancel(root)
		g.mu.Lock()
		g.hold = true
		g.mu.Unlock()
		ret := make(chan error, 1)
		go func() { ret <- a.Init(ctx) }()
		n, order := 0, cc.Order
		returned, ok := false, false
		for it := 0; !returned; it++ {
			synctest.Wait()
			select {
			case e := <-ret:
				returned, ok = true, e == nil
				continue
			default:
			}
			if n >= cc.Cancel && ctx.Err() == nil {
				g.mu.Lock()
				g.ev(map[string]interface{}{"e": "cancel"})
				g.mu.Unlock()
				cancel()
				continue
			}
			g.mu.Lock()
			var pick string
			for k, r := range order {
				if g.pend[r] != nil {
					pick = r
					order = append(append([]string{}, order[:k]...), order[k+1:]...)
					break
				}
			}
			if pick == "" {
				var l []string
				for r := range g.pend {
					l = append(l, r)
				}
				sort.Strings(l)
				if len(l) > 0 {
					pick = l[idx%len(l)]
				}
			}
			if pick != "" {
				g.ev(map[string]interface{}{"e": "ans", "r": pick, "ok": !g.bad[pick]})
				close(g.pend[pick])
				delete(g.pend, pick)
				n++
			}
			g.mu.Unlock()
			if pick == "" {
				if it > 3000 {
					h.Violate(nil, "Init does not return")
					return
				}
				time.Sleep(time.Millisecond)
			}
		}
		g.mu.Lock()
		g.ev(map[string]interface{}{"e": "ret", "ok": ok})
		g.hold = false
		g.mu.Unlock()
		if ok {
			use := func(kind, d, j string, e error) {
				g.ev(map[string]interface{}{"e": "use", "kind": kind, "d": d, "j": j, "ok": e == nil})
			}
			now := time.Now()
			for _, d := range []string{"d1", "d2"} {
				use("role", d, "", a.VerifyRoleToken(bg(), roleTok(roleUnsigned(d, "u", []string{"r"}, now, now.Add(time.Hour), fmt.Sprintf("z%d", gen)), fmt.Sprintf("zts%d", gen)), "act", "res"))
				cl := map[string]interface{}{"aud": d, "scp": []string{"r"}, "sub": "u", "iat": now.Unix(), "exp": now.Add(time.Hour).Unix()}
				use("access", d, "j0", a.VerifyAccessToken(bg(), jwtTok(map[string]interface{}{"kid": "k"}, cl, fmt.Sprintf("ja%d", gen)), "act", "res", nil))
				use("access", d, "j1", a.VerifyAccessToken(bg(), jwtTok(map[string]interface{}{"kid": "k", "jku": "https://keys.example/j1"}, cl, fmt.Sprintf("jb%d", gen)), "act", "res", nil))
			}
		}
		if round == 2 && ok {
			// the daemons refresh only what is enabled
			g.mu.Lock()
			g.later = true
			g.mu.Unlock()
			ch := a.Start(ctx)
			go func() {
				for range ch {
				}
			}()
			time.Sleep(150 * time.Minute)
			synctest.Wait()
			g.mu.Lock()
			g.later = false
			g.mu.Unlock()
		}
		cancel()
		synctest.Wait()
	}
}
