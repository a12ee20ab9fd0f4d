package drv

import (
	"context"
	"crypto/tls"
	"crypto/x509"
	"encoding/json"
	"errors"
	"fmt"
	"net/http"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	authorizerd "github.com/yahoojapan/athenz-authorizer/v5"
	"github.com/yahoojapan/athenz-authorizer/v5/policy"
	"github.com/yahoojapan/athenz-authorizer/v5/pubkey"
)

// Stage "activity" (C30): what runs between the operations of a history, and after its end.

type actCase struct {
	Ops  []struct{ K, Ep, How string }
	Last struct {
		O  struct{ K, Ep, How string }
		At int
	}
	Grow, Left int
}

var bubbleRe = regexp.MustCompile(`synctest bubble (\d+)`)

// running gives the goroutines of the calling bubble, the caller aside.
func running() []string {
	b := make([]byte, 1<<20)
	for {
		n := runtime.Stack(b, true)
		if n < len(b) {
			b = b[:n]
			break
		}
		b = make([]byte, 2*len(b))
	}
	gs := strings.Split(string(b), "\n\n")
	own := bubbleRe.FindString(strings.SplitN(gs[0], "\n", 2)[0])
	var r []string
	for _, g := range gs[1:] {
		if l := strings.SplitN(g, "\n", 2)[0]; bubbleRe.FindString(l) == own && !strings.Contains(g, "synctest.Run(") && !strings.Contains(g, "testingSynctestTest") {
			r = append(r, g)
		}
	}
	return r
}

func runActivity(h *H, c *actCase) {
	r := &hRun{h: h, w: newWorld(), ans: map[string]*hAns{}}
	var mu sync.Mutex
	ep, how, n, forever := "", "ok", 0, false
	life, manyRoles := 1000*time.Hour, false
	var held context.CancelFunc
	answer := func(k, u string, bare bool) *Resp {
		mu.Lock()
		life, many := life, manyRoles
		mu.Unlock()
		switch k {
		case "pol":
			d := domainOf(u)
			as := [][]Ass{{{d + ":role.r", "act", d + ":res*", "allow"}, {d + ":role.s", "act", d + ":res*", "allow"}, {d + ":role.d", "act", d + ":res*", "deny"}}}
			if bare {
				as = nil
			}
			if many {
				for i := 0; i < 6000; i++ {
					as[0] = append(as[0], Ass{fmt.Sprintf("%s:role.n%d", d, i), "act", d + ":res", "allow"})
				}
			}
			return &Resp{Status: 200, Body: resign(policyDoc(d, as, time.Now().Add(life), "k1", "k1"), "k1"), ETag: `"p"`}
		case "jwk":
			if bare {
				return &Resp{Status: 200, Body: `{"keys":[]}`}
			}
		default:
			if bare {
				return &Resp{Status: 200, Body: keyDoc(k, nil)}
			}
		}
		return &Resp{Status: 200, Body: r.goodBody(k), ETag: `"t"`}
	}
	r.w.s.H = func(u, inm string) *Resp {
		k := hKind(u)
		mu.Lock()
		hit := k == ep || k == "pol" && (ep == "pol2" && domainOf(u) == "dom2" || ep == "pols")
		if ep == "pol" && k == "pol" && domainOf(u) == "dom2" {
			hit = false
		}
		hit = hit || ep == "all" || ep == "keys" && (k == "zts" || k == "zms")
		if hit = hit && (n < 2 || forever || how == "notmod" || how == "cancel" || how == "bare"); hit {
			n++
		}
		f, cancel := how, held
		mu.Unlock()
		if !hit {
			return answer(k, u, false)
		}
		switch f {
		case "refused":
			return &Resp{Err: errors.New("connection refused")}
		case "500":
			return &Resp{Status: 500, Body: "no"}
		case "garbage":
			return &Resp{Status: 200, Body: "{[}"}
		case "late":
			time.Sleep(5 * time.Minute)
		case "notmod":
			if inm != "" {
				return &Resp{Status: 304}
			}
		case "bare":
			return answer(k, u, true)
		case "cutoff":
			x := answer(k, u, false)
			x.Trunc = true
			return x
		case "cancel":
			if cancel != nil {
				cancel()
			}
		}
		return answer(k, u, false)
	}
	before := len(running())
	a := r.w.authz([]string{"dom", "dom2"}, authorizerd.WithJwkURLs([]string{"https://extra.example/keys"}), authorizerd.WithPolicyRetryDelay("1m"), authorizerd.WithPolicyRetryAttempts(2), authorizerd.WithPolicyExpiryMargin("1s"), authorizerd.WithPolicyPurgePeriod("7m"),
		authorizerd.WithCacheExp(5*time.Hour), authorizerd.WithPubkeyRefreshPeriod("1h"), authorizerd.WithPolicyRefreshPeriod("1h"), authorizerd.WithJwkRefreshPeriod("1h"), authorizerd.WithAccessTokenParam(authorizerd.NewAccessTokenParam(true, false, "", "", false, nil)))
	ctx, cancel := context.WithCancel(bg())
	defer func() { cancel(); time.Sleep(3 * time.Hour); synctest.Wait() }()
	must(a.Init(ctx))
	ch := a.Start(ctx)
	go func() {
		for range ch {
		}
	}()
	time.Sleep(50 * time.Minute)
	now := time.Now()
	exp := now.Add(10000 * time.Hour)
	tok := func(roles ...string) string {
		return roleTok(roleUnsigned("dom", "u", roles, now, exp, "k1"), "zts1")
	}
	at := jwtTok(map[string]interface{}{"kid": "k1", "typ": "at+jwt"}, map[string]interface{}{"aud": "dom", "sub": "u", "scp": []string{"r"}, "iat": now.Unix(), "exp": exp.Unix()}, "jwk1")
	eight := func(f func(i int)) {
		var wg sync.WaitGroup
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go func() { defer wg.Done(); f(i) }()
		}
		wg.Wait()
	}
	keys, err := pubkey.New(pubkey.WithAthenzURL("athenz"), pubkey.WithSysAuthDomain("sys.auth"), pubkey.WithHTTPClient(r.w.s.Client()))
	must(err)
	must(keys.Update(ctx))
	pd, err := policy.New(policy.WithAthenzURL("athenz"), policy.WithAthenzDomains("dom", "dom2"), policy.WithHTTPClient(r.w.s.Client()), policy.WithPubKeyProvider(keys.GetProvider()))
	must(err)
	round := 0
	do := func(k, e, f string) {
		mu.Lock()
		ep, how, n = e, f, 0
		mu.Unlock()
		switch k {
		case "refresh":
			time.Sleep(time.Hour)
		case "expire": // a refresh gives policies that expire soon
			mu.Lock()
			ep = "none"
			life, manyRoles = 20*time.Minute, f == "many"
			mu.Unlock()
			time.Sleep(20 * time.Minute)
			mu.Lock()
			ep, life, manyRoles = e, 1000*time.Hour, false
			mu.Unlock()
			if f == "many" { // the policies have expired, but not been removed yet
				time.Sleep(10*time.Minute + time.Second)
				a.GetPolicyCache(bg())
				a.VerifyRoleToken(bg(), tok("n1", "n2", "n5999"), "act", "res")
				time.Sleep(30*time.Minute - time.Second)
				break
			}
			time.Sleep(40 * time.Minute)
		case "init":
			ic := ctx
			if f == "cancel" {
				var stop context.CancelFunc
				ic, stop = context.WithCancel(ctx)
				mu.Lock()
				held = stop
				mu.Unlock()
				defer stop()
			}
			a.Init(ic)
			if d := time.Since(now) % time.Hour; d > 0 { // to the same moment of the hour
				time.Sleep(time.Hour - d)
			}
		case "updates":
			for i := 0; i < 20; i++ {
				must(pd.Update(ctx))
			}
		case "together":
			eight(func(int) { must(pd.Update(ctx)); must(pd.Update(ctx)) })
		case "calls":
			round++ // past the success cache
			eight(func(i int) {
				res := fmt.Sprintf("res%d-%d", round, i)
				cc, stop := context.WithCancel(bg())
				defer stop()
				switch f {
				case "granted":
					a.VerifyRoleToken(cc, tok("r"), "act", res)
				case "denied":
					a.AuthorizeRoleToken(cc, tok("d"), "act", res)
					a.AuthorizeRoleToken(cc, tok("z"), "act", res)
				case "several":
					a.VerifyRoleToken(cc, tok("r", "s", "z", "d", "r2"), "act", res)
					a.AuthorizeRoleToken(cc, tok("d", "r", "s", "r"), "act", res)
					a.AuthorizeRoleToken(cc, tok("s", "r"), "act", res)
				case "unknown":
					a.VerifyRoleToken(cc, roleTok(roleUnsigned("elsewhere", "u", []string{"r"}, now, exp, "k1"), "zts1"), "act", res)
				case "rejected":
					a.VerifyRoleToken(cc, tok("r")+"x", "act", res)
					a.VerifyAccessToken(cc, at+"x", "act", res, nil)
				case "ended":
					stop()
					a.VerifyRoleToken(cc, tok("r", "s"), "act", res)
					a.VerifyRoleCert(cc, []*x509.Certificate{mkCert("ca", "dom:role.r", "raw", now)}, "act", res)
				case "ending":
					go stop()
					a.VerifyRoleToken(cc, tok("d", "r", "s"), "act", res)
				case "cert":
					a.VerifyRoleCert(cc, []*x509.Certificate{mkCert("ca", "dom:role.r", "raw", now, "athenz://role/dom/d", "athenz://role/dom/s", "athenz://role/dom2/d"), mkCert("ca", "dom2:role.r", "raw", now)}, "act", res)
				case "access":
					a.AuthorizeAccessToken(cc, at, "act", res, nil)
				case "http":
					q, _ := http.NewRequestWithContext(cc, "GET", "https://host/", nil)
					q.Header.Set("Authorization", "Bearer "+at)
					q.Header.Set("Athenz-Role-Auth", tok("d"))
					q.TLS = &tls.ConnectionState{}
					a.Verify(q, "act", res)
					a.Authorize(q, "act", "other")
				case "report":
					a.GetPolicyCache(cc)
				}
			})
		}
	}
	count := func() int { synctest.Wait(); return len(running()) }
	// whatever is started once is started now
	for _, o := range [][3]string{{"refresh", "none", "ok"}, {"expire", "none", "ok"}, {"init", "none", "ok"}, {"calls", "none", "granted"}, {"calls", "none", "denied"}, {"updates", "none", "ok"}, {"refresh", "none", "ok"}} {
		do(o[0], o[1], o[2])
	}
	c0 := count()
	var cs []int
	for k := 0; k < 3; k++ {
		if !h.Call("history", func() {
			for _, o := range c.Ops {
				do(o.K, o.Ep, o.How)
				h.steps++
			}
		}) {
			return
		}
		cs = append(cs, count())
	}
	if cs[0] > c0+c.Grow && cs[1] > cs[0]+c.Grow && cs[2] > cs[1]+c.Grow {
		h.Violate(running(), "the number of goroutines grows with every repetition of the operations: %d, then %v", c0, cs)
		return
	}
	h.Stat("running", cs[2]-before)
	fin := make(chan struct{})
	go func() {
		defer close(fin)
		if l := c.Last; l.O.K != "none" {
			mu.Lock()
			forever = true
			mu.Unlock()
			do(l.O.K, l.O.Ep, l.O.How)
		}
	}()
	time.Sleep(time.Duration(c.Last.At) * time.Minute)
	cancel()
	if !h.Call("end", func() { <-fin }) {
		return
	}
	for _, f := range []string{"granted", "denied", "several", "ended", "access", "http", "report"} { // calls may go on
		do("calls", "none", f)
	}
	time.Sleep(3 * time.Hour)
	if left := count() - before; left != c.Left {
		h.Violate(running(), "%d goroutines are left after the context has ended", left)
	}
}

func init() {
	stages["activity"] = func(h *H) {
		h.Cases(func(raw json.RawMessage) {
			var c actCase
			must(json.Unmarshal(raw, &c))
			h.Bubble(func() { runActivity(h, &c) })
		})
	}
}
