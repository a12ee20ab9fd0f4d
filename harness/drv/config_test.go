package drv

import (
	"context"
	"crypto/tls"
	"crypto/x509"
	"encoding/json"
	"fmt"
	"math"
	"net/http"
	"net/url"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/AthenZ/athenz/utils/zpe-updater/util"
	authorizerd "github.com/yahoojapan/athenz-authorizer/v5"
	"github.com/yahoojapan/athenz-authorizer/v5/access"
	"github.com/yahoojapan/athenz-authorizer/v5/jwk"
	"github.com/yahoojapan/athenz-authorizer/v5/policy"
	"github.com/yahoojapan/athenz-authorizer/v5/pubkey"
	"github.com/yahoojapan/athenz-authorizer/v5/role"
)

// Stage "config" (C27, and C24 for the family "host").

type cfgAddr struct {
	URL  []string
	Via  string
	Sys  string
	Doms []string
	Off  []string
}
type cfgSched struct {
	PkR, PkD, EtE, PolR, PolM, PolP, PolD, JwkR, JwkD string
	PolA, Life, Span                                  int
	Fail                                              bool
	On                                                []string
}
type cfgEv struct {
	At   int
	Cond bool
}
type cfgCase struct {
	Fam string
	Out string
	// durs
	O string
	S []string
	// addr
	X     cfgAddr
	Base  []string
	Extra []string
	Exact bool
	URLs  []struct{ Base, Path string }
	// sched
	Cfg cfgSched
	Log map[string][]cfgEv
	// cache
	Exp, At int
	// defs
	Given []string
	Probe struct {
		Kind, Thumb, Cn, Client, Name string
		None                          bool
		Nb, Secs                      int
	}
	Ok  bool
	URL string
	// host
	H struct {
		Durs []struct{ O, V string }
		Odd  []string
	}
}

func durOption(o, v string) []authorizerd.Option {
	switch o {
	case "pubkeyRefresh":
		return []authorizerd.Option{authorizerd.WithPubkeyRefreshPeriod(v)}
	case "pubkeyRetry":
		return []authorizerd.Option{authorizerd.WithPubkeyRetryDelay(v)}
	case "etagExpiry":
		return []authorizerd.Option{authorizerd.WithPubkeyETagExpiry(v)}
	case "etagPurge":
		return []authorizerd.Option{authorizerd.WithPubkeyETagPurgePeriod(v)}
	case "policyRefresh":
		return []authorizerd.Option{authorizerd.WithPolicyRefreshPeriod(v)}
	case "policyPurge":
		return []authorizerd.Option{authorizerd.WithPolicyPurgePeriod(v)}
	case "policyMargin":
		return []authorizerd.Option{authorizerd.WithPolicyExpiryMargin(v)}
	case "policyRetry":
		return []authorizerd.Option{authorizerd.WithPolicyRetryDelay(v)}
	case "jwkRefresh":
		return []authorizerd.Option{authorizerd.WithJwkRefreshPeriod(v)}
	case "jwkRetry":
		return []authorizerd.Option{authorizerd.WithJwkRetryDelay(v)}
	case "certBack":
		return []authorizerd.Option{authorizerd.WithAccessTokenParam(authorizerd.NewAccessTokenParam(true, true, v, "1h", false, nil))}
	case "certOffset":
		return []authorizerd.Option{authorizerd.WithAccessTokenParam(authorizerd.NewAccessTokenParam(true, true, "1h", v, false, nil))}
	}
	panic(o)
}

// durDirect gives the duration to the sub-package itself.
func durDirect(o, v string) error {
	var err error
	switch o {
	case "pubkeyRefresh":
		_, err = pubkey.New(pubkey.WithRefreshPeriod(v))
	case "pubkeyRetry":
		_, err = pubkey.New(pubkey.WithRetryDelay(v))
	case "etagExpiry":
		_, err = pubkey.New(pubkey.WithETagExpiry(v))
	case "etagPurge":
		_, err = pubkey.New(pubkey.WithETagPurgePeriod(v))
	case "policyRefresh":
		_, err = policy.New(policy.WithRefreshPeriod(v))
	case "policyPurge":
		_, err = policy.New(policy.WithPurgePeriod(v))
	case "policyMargin":
		_, err = policy.New(policy.WithExpiryMargin(v))
	case "policyRetry":
		_, err = policy.New(policy.WithRetryDelay(v))
	case "jwkRefresh":
		_, err = jwk.New(jwk.WithRefreshPeriod(v))
	case "jwkRetry":
		_, err = jwk.New(jwk.WithRetryDelay(v))
	case "certBack":
		_, err = access.New(access.WithClientCertificateGoBackSeconds(v))
	case "certOffset":
		_, err = access.New(access.WithClientCertificateOffsetSeconds(v))
	default:
		panic(o)
	}
	return err
}

func (h *H) outcome(c interface{}, want string, err error, what string) bool {
	h.steps++
	if want == "accept" && err != nil {
		h.Violate(c, "%s: construction refuses a valid configuration: %v", what, err)
		return false
	}
	if want == "refuse" && err == nil {
		h.Violate(c, "%s: construction accepts an invalid configuration", what)
		return false
	}
	return err == nil
}

func cfgDurs(h *H, c *cfgCase) {
	s := join(c.S)
	h.Call("New", func() {
		_, err := authorizerd.New(durOption(c.O, s)...)
		h.outcome(c, c.Out, err, fmt.Sprintf("%s %q", c.O, s))
		h.outcome(c, c.Out, durDirect(c.O, s), fmt.Sprintf("%s %q given to the package", c.O, s))
	})
}

// cfgServer answers every kind of request properly.
type cfgServer struct {
	mu     sync.Mutex
	s      *Server
	life   time.Duration
	down   func(kind string, t time.Duration) bool
	t0     time.Time
	tags   bool
	effect string
}

func newCfgServer() *cfgServer {
	x := &cfgServer{s: &Server{}, life: 1000 * time.Hour, effect: "ALLOW", t0: time.Now()}
	x.s.H = func(u, inm string) *Resp {
		k := hKind(u)
		x.mu.Lock()
		defer x.mu.Unlock()
		if x.down != nil && x.down(k, time.Since(x.t0)) {
			return &Resp{Err: fmt.Errorf("down")}
		}
		if inm != "" {
			return &Resp{Status: 304, ETag: inm}
		}
		tag := ""
		if x.tags {
			tag = `"t"`
		}
		switch k {
		case "zts", "zms":
			return &Resp{Status: 200, ETag: tag, Body: keyDoc(k, map[string]string{"k1": k + "1"})}
		case "pol":
			d := strings.Split(strings.TrimSuffix(u, "/signed_policy_data"), "/")
			dom := d[len(d)-1]
			pd := &util.PolicyData{Domain: dom, Policies: []*util.Policy{{Name: dom + ":policy.p", Assertions: []*util.Assertion{{Role: dom + ":role.r", Action: "act", Resource: dom + ":res", Effect: x.effect}}}}}
			return &Resp{Status: 200, ETag: tag, Body: resign(signDoc(pd, time.Now().Add(x.life), "k1", "k1"), "k1")}
		}
		return &Resp{Status: 200, Body: jwkSet("k1", "jwk1")}
	}
	return x
}

func cfgURL(s string) string { return strings.ReplaceAll(s, "CTL", "\x7f") }

func runAddr(h *H, c *cfgCase) {
	x := newCfgServer()
	u := join(c.X.URL)
	var extra []string
	for _, e := range c.Extra {
		if e == "SAME" {
			e = "https://" + join(c.Base) + "/oauth2/keys?rfc=true"
		}
		extra = append(extra, cfgURL(e))
	}
	upd := func(context.Context) error { return nil }
	var err error
	switch c.X.Via {
	case "facade":
		o := []authorizerd.Option{authorizerd.WithAthenzURL(u), authorizerd.WithHTTPClient(x.s.Client()), authorizerd.WithPubkeySysAuthDomain(c.X.Sys), authorizerd.WithAthenzDomains(c.X.Doms...), authorizerd.WithJwkURLs(extra)}
		for _, f := range c.X.Off {
			switch f {
			case "pubkeyd":
				o = append(o, authorizerd.WithDisablePubkeyd())
			case "policyd":
				o = append(o, authorizerd.WithDisablePolicyd())
			case "jwkd":
				o = append(o, authorizerd.WithDisableJwkd())
			case "at":
				o = append(o, authorizerd.WithAccessTokenParam(authorizerd.NewAccessTokenParam(false, true, "1h", "1h", false, nil)))
			case "rt":
				o = append(o, authorizerd.WithDisableRoleToken())
			case "rc":
				o = append(o, authorizerd.WithDisableRoleCert())
			}
		}
		var a authorizerd.Authorizerd
		a, err = authorizerd.New(o...)
		if err == nil {
			upd = a.Init
		}
	case "pubkey":
		var d pubkey.Daemon
		d, err = pubkey.New(pubkey.WithAthenzURL(u), pubkey.WithSysAuthDomain(sysOr(c.X.Sys)), pubkey.WithHTTPClient(x.s.Client()))
		if err == nil {
			upd = d.Update
		}
	case "policy":
		var d policy.Daemon
		d, err = policy.New(policy.WithAthenzURL(u), policy.WithAthenzDomains(c.X.Doms...), policy.WithHTTPClient(x.s.Client()), policy.WithRetryDelay("1ms"), policy.WithPubKeyProvider(stdProvider))
		if err == nil {
			upd = d.Update
		}
	case "jwk":
		var d jwk.Daemon
		d, err = jwk.New(jwk.WithAthenzJwksURL(u), jwk.WithURLs(extra), jwk.WithHTTPClient(x.s.Client()))
		if err == nil {
			upd = d.Update
		}
	}
	what := fmt.Sprintf("address %q via %s, key sets %q, disabled %v", u, c.X.Via, extra, c.X.Off)
	if !h.outcome(c, c.Out, err, what) || c.Out == "refuse" {
		return
	}
	ctx, cancel := context.WithCancel(bg())
	upd(ctx)
	cancel()
	time.Sleep(10 * time.Minute)
	want := map[string]bool{}
	for _, w := range c.URLs {
		b := w.Base
		if b == "" {
			b = "https://" + join(c.Base)
		}
		want[b+w.Path] = true
	}
	got := map[string]bool{}
	for _, q := range x.s.Take() {
		h.steps++
		if !c.Exact { // a strange address: net/http makes of it what it can
			if !strings.HasPrefix(q.URL, "https://") && !want[q.URL] {
				h.Violate(c, "%s: requests %q", what, q.URL)
				return
			}
			continue
		}
		if !want[q.URL] {
			h.Violate(c, "%s: requests %q, which is not configured", what, q.URL)
			return
		}
		got[q.URL] = true
	}
	// the policies come after the keys, and are not requested when those fail: in well-formed cases nothing fails
	if c.Exact && !reflect.DeepEqual(got, want) {
		h.Violate(c, "%s: requested %v, configured %v", what, keysOf(got), keysOf(want))
	}
}

func sysOr(s string) string {
	if s == "" {
		return "sys.auth"
	}
	return s
}

func keysOf(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func runSched(h *H, c *cfgCase) {
	x := newCfgServer()
	x.tags = true
	f := &c.Cfg
	x.life = time.Duration(f.Life) * time.Minute
	on := map[string]bool{}
	for _, k := range f.On {
		on[k] = true
	}
	o := []authorizerd.Option{authorizerd.WithAthenzURL("athenz"), authorizerd.WithHTTPClient(x.s.Client()), authorizerd.WithAthenzDomains("dom"), authorizerd.WithCacheExp(1000 * time.Hour),
		authorizerd.WithPubkeyRefreshPeriod(f.PkR), authorizerd.WithPubkeyRetryDelay(f.PkD), authorizerd.WithPubkeyETagExpiry(f.EtE), authorizerd.WithPubkeyETagPurgePeriod(""), authorizerd.WithPolicyRefreshPeriod(f.PolR), authorizerd.WithPolicyExpiryMargin(f.PolM),
		authorizerd.WithPolicyPurgePeriod(f.PolP), authorizerd.WithPolicyRetryDelay(f.PolD), authorizerd.WithPolicyRetryAttempts(f.PolA), authorizerd.WithJwkRefreshPeriod(f.JwkR), authorizerd.WithJwkRetryDelay(f.JwkD)}
	if !on["pol"] {
		o = append(o, authorizerd.WithDisablePolicyd())
	}
	if !on["jwk"] {
		o = append(o, authorizerd.WithDisableJwkd())
	}
	a, err := authorizerd.New(o...)
	if err != nil {
		h.Violate(c, "construction refuses a valid configuration: %v", err)
		return
	}
	// the failures: once for keys and key sets, for the whole first refresh interval for policies
	at := func(k string) time.Duration { // when the model lets the refresh fail
		if l := c.Log[k]; f.Fail && len(l) > 1 {
			return time.Duration(l[1].At) * time.Minute
		}
		return time.Hour * 1e6
	}
	refresh := at("pol")
	x.down = func(k string, t time.Duration) bool {
		switch k {
		case "zts", "zms":
			return on["pk"] && t >= at("pk") && t < at("pk")+30*time.Second
		case "pol":
			return t >= refresh && t < 2*refresh
		}
		return t >= at("jwk") && t < at("jwk")+30*time.Second
	}
	ctx, cancel := context.WithCancel(bg())
	if err := a.Init(ctx); err != nil {
		h.Violate(c, "Init fails: %v", err)
		cancel()
		return
	}
	ch := a.Start(ctx)
	go func() {
		for range ch {
		}
	}()
	time.Sleep(time.Duration(f.Span)*time.Minute + 20*time.Second)
	cancel()
	eps := map[string][]string{"pk": {"zts", "zms"}, "jwk": {"jwk"}, "pol": {"pol"}}
	log := x.s.Take()
	for k, want := range c.Log {
		for _, ep := range eps[k] {
			var got []cfgEv
			for _, q := range log {
				if hKind(q.URL) != ep {
					continue
				}
				m := int(q.At.Sub(x.t0).Round(time.Second) / time.Second)
				e := cfgEv{At: m / 60, Cond: q.INM != ""}
				if m%60 != 0 {
					h.Violate(c, "request of %s %d seconds after the start: not a configured moment", ep, m)
					return
				}
				if n := len(got); n > 0 && got[n-1].At == e.At { // an immediate retry
					continue
				}
				got = append(got, e)
			}
			h.steps += len(want)
			n := len(want)
			if len(got) != n {
				h.Violate(c, "%s is requested %d times in %d minutes, %d expected; %v, expected %v", ep, len(got), f.Span, n, head(got), head(want))
				return
			}
			for i := range want {
				if got[i] != want[i] {
					h.Violate(c, "request %d of %s: minute %d (conditional: %v), configured: minute %d (conditional: %v)", i, ep, got[i].At, got[i].Cond, want[i].At, want[i].Cond)
					return
				}
			}
		}
	}
	time.Sleep(time.Hour)
	synctest.Wait()
}

// runCache: a granted decision is used for the configured time, after that the policies decide again.
func runCache(h *H, c *cfgCase) {
	x := newCfgServer()
	o := []authorizerd.Option{authorizerd.WithAthenzURL("athenz"), authorizerd.WithHTTPClient(x.s.Client()), authorizerd.WithAthenzDomains("dom"), authorizerd.WithPolicyRefreshPeriod("3s"), authorizerd.WithPolicyExpiryMargin("3h")}
	if c.Exp > 0 {
		o = append(o, authorizerd.WithCacheExp(time.Duration(c.Exp)*time.Second))
	}
	a, err := authorizerd.New(o...)
	if !h.outcome(c, "accept", err, "cache lifetime") {
		return
	}
	ctx, cancel := context.WithCancel(bg())
	defer func() { cancel(); time.Sleep(10 * time.Minute); synctest.Wait() }()
	must(a.Init(ctx))
	ch := a.Start(ctx)
	go func() {
		for range ch {
		}
	}()
	now := time.Now()
	rt := roleTok(roleUnsigned("dom", "u", []string{"r"}, now, now.Add(time.Hour), "k1"), "zts1")
	if err := a.VerifyRoleToken(bg(), rt, "act", "res"); err != nil {
		h.Violate(c, "not granted at first: %v", err)
		return
	}
	x.mu.Lock()
	x.effect = "DENY"
	x.mu.Unlock()
	time.Sleep(time.Duration(c.At) * time.Second)
	err = a.VerifyRoleToken(bg(), rt, "act", "res")
	h.steps++
	if (err == nil) != (c.Out == "granted") {
		h.Violate(c, "cache lifetime %d s (0: default): %d s after the grant, the policies denying since: %v, configured: %s", c.Exp, c.At, err, c.Out)
	}
}

// defaultTransport is held by the one case that replaces the default transport of net/http.
var defaultTransport sync.Mutex

// runDefs: what is not given has its documented default.
func runDefs(h *H, c *cfgCase) {
	x := newCfgServer()
	old := http.DefaultTransport
	http.DefaultTransport = x.s // no client is given: the default one is used
	defer func() { http.DefaultTransport = old }()
	answer := x.s.H
	other := ""
	x.s.H = func(u, inm string) *Resp {
		x.mu.Lock()
		if !strings.HasPrefix(u, c.URL+"/") {
			other = u
		}
		x.mu.Unlock()
		r := answer(u, inm)
		if c.Probe.Kind == "slow" && hKind(u) == c.Probe.Name {
			time.Sleep(time.Duration(c.Probe.Secs) * time.Second)
		}
		return r
	}
	o := []authorizerd.Option{authorizerd.WithAthenzDomains("dom")}
	for _, g := range c.Given {
		switch g {
		case "url":
			o = append(o, authorizerd.WithAthenzURL("given.example/x"))
		case "at0":
			o = append(o, authorizerd.WithAccessTokenParam(authorizerd.NewAccessTokenParam(false, true, "1h", "1h", false, nil)))
		case "at1":
			o = append(o, authorizerd.WithAccessTokenParam(authorizerd.NewAccessTokenParam(true, true, "30m", "20m", false, nil)))
		case "at2":
			o = append(o, authorizerd.WithAccessTokenParam(authorizerd.NewAccessTokenParam(true, false, "30m", "20m", true, map[string][]string{"svc": {"id1"}})))
		case "hdr":
			o = append(o, authorizerd.WithRoleAuthHeader("X-Role"))
		case "pre":
			o = append(o, authorizerd.WithRoleCertURIPrefix("x://y/"))
		case "nort":
			o = append(o, authorizerd.WithDisableRoleToken())
		case "norc":
			o = append(o, authorizerd.WithDisableRoleCert())
		}
	}
	what := fmt.Sprintf("with only %v configured", c.Given)
	a, err := authorizerd.New(o...)
	if !h.outcome(c, "accept", err, what) {
		return
	}
	ctx, cancel := context.WithCancel(bg())
	defer func() { cancel(); time.Sleep(time.Hour); synctest.Wait() }()
	err = a.Init(ctx)
	x.mu.Lock()
	bad := other
	x.mu.Unlock()
	if bad != "" {
		h.Violate(c, "%s: %q is requested, not below %q", what, bad, c.URL)
		return
	}
	if c.Probe.Kind == "slow" {
		h.steps++
		if (err == nil) != c.Ok {
			h.Violate(c, "%s: the %s server answers after %d s: initialized: %v (%v), specified %v", what, c.Probe.Name, c.Probe.Secs, err == nil, err, c.Ok)
		}
		return
	}
	if err != nil {
		h.Violate(c, "%s: Init fails: %v", what, err)
		return
	}
	now := time.Now()
	r, _ := http.NewRequest("GET", "https://host/", nil)
	p := c.Probe
	switch p.Kind {
	case "at":
		r.Header.Set("Authorization", "Bearer "+jwtTok(map[string]interface{}{"kid": "k1", "typ": "at+jwt"}, map[string]interface{}{"aud": "dom", "sub": "u", "scp": []string{"r"}, "iat": now.Unix(), "exp": now.Add(time.Hour).Unix(), "client_id": p.Client,
			"cnf": map[string]interface{}{"x5t#S256": thumb(&x509.Certificate{Raw: []byte(p.Thumb)})}}, "jwk1"))
		if !p.None {
			r.TLS = &tls.ConnectionState{PeerCertificates: []*x509.Certificate{mkCert("ca", p.Cn, "raw1", now.Add(time.Duration(p.Nb)*time.Second))}}
		}
	case "rt":
		r.Header.Set(p.Name, roleTok(roleUnsigned("dom", "u", []string{"r"}, now, now.Add(time.Hour), "k1"), "zts1"))
	case "rc":
		r.TLS = &tls.ConnectionState{PeerCertificates: []*x509.Certificate{mkCert("ca", "u", "raw1", now, p.Name+"dom/r")}}
	}
	for k := 0; k < 2; k++ { // the second time from the success cache, if at all
		h.steps++
		if !h.Call("Verify", func() {
			if p.Kind == "rc" {
				err = a.VerifyRoleCert(bg(), r.TLS.PeerCertificates, "act", "res")
				return
			}
			err = a.Verify(r, "act", "res")
		}) {
			return
		}
		if (err == nil) != c.Ok {
			h.Violate(c, "%s: accepted: %v (%v), specified %v", what, err == nil, err, c.Ok)
			return
		}
	}
}

func head(x []cfgEv) []cfgEv {
	if len(x) > 12 {
		return x[:12]
	}
	return x
}

// runPackages: the daemons and processors used on their own.
func runPackages(h *H, k string, x *cfgServer, ctx context.Context) {
	old := http.DefaultTransport
	http.DefaultTransport = x.s
	defer func() { http.DefaultTransport = old }()
	h.Call(k, func() {
		h.steps++
		var po []policy.Option
		var ko []pubkey.Option
		var jo []jwk.Option
		var ro []role.Option
		var ao []access.Option
		if k == "pkg-nil-client" {
			po = []policy.Option{policy.WithHTTPClient(nil), policy.WithPubKeyProvider(nil), policy.WithAthenzURL("athenz"), policy.WithAthenzDomains("dom"), policy.WithRetryDelay("1ms")}
			ko = []pubkey.Option{pubkey.WithHTTPClient(nil), pubkey.WithAthenzURL("athenz"), pubkey.WithSysAuthDomain("sys.auth")}
			jo = []jwk.Option{jwk.WithHTTPClient(nil), jwk.WithAthenzJwksURL("athenz")}
			ro = []role.Option{role.WithPubkeyProvider(nil)}
			ao = []access.Option{access.WithJWKProvider(nil), access.WithEnableVerifyClientID(true), access.WithEnableMTLSCertificateBoundAccessToken(true)}
		}
		if d, err := pubkey.New(ko...); err == nil {
			d.Update(ctx)
			d.GetProvider()("zts", "k1")
			d.GetProvider()("", "")
		}
		if d, err := policy.New(po...); err == nil {
			d.Update(ctx)
			d.CheckPolicy(ctx, "dom", []string{"r", ""}, "act", "res")
			d.CheckPolicyRoles(ctx, "dom", nil, "act", "res")
			d.GetPolicyCache(ctx)
		}
		if d, err := jwk.New(jo...); err == nil {
			d.Update(ctx)
			d.GetProvider()("k1", "")
			d.GetProvider()("k1", "x")
		}
		now := time.Now()
		if p, err := role.New(ro...); err == nil {
			p.ParseAndValidateRoleToken(roleTok(roleUnsigned("dom", "u", []string{"r"}, now, now.Add(time.Hour), "k1"), "zts1"))
		}
		if p, err := access.New(ao...); err == nil {
			at := jwtTok(map[string]interface{}{"kid": "k1", "typ": "at+jwt"}, map[string]interface{}{"aud": "dom", "scp": []string{"r"}, "iat": now.Unix(), "exp": now.Add(time.Hour).Unix(), "client_id": "user.c"}, "jwk1")
			p.ParseAndValidateOAuth2AccessToken(at, nil)
			p.ParseAndValidateOAuth2AccessToken(at, &x509.Certificate{})
		}
	})
}

// runHost: a configuration that construction accepts must not crash, whatever is done with it.
func runHost(h *H, c *cfgCase, idx int) {
	x := newCfgServer()
	// the servers fail at first only where waiting for a retry takes time
	o := []authorizerd.Option{authorizerd.WithAthenzURL("athenz"), authorizerd.WithHTTPClient(x.s.Client()), authorizerd.WithAthenzDomains("dom")}
	spin, atOnce, never := false, false, false
	for _, d := range c.H.Durs {
		o = append(o, durOption(d.O, d.V)...)
		spin = spin || strings.Contains(d.V, "ns") || strings.Contains(d.V, "ms")
		// failed updates are repeated without a pause, as configured: time would not advance
		atOnce = atOnce || strings.HasSuffix(d.O, "Retry") && (d.V == "0s" || strings.HasPrefix(d.V, "-"))
		// a failed update waits for centuries, as configured: the virtual clock cannot count so far (the Go runtime crashes)
		never = never || strings.HasSuffix(d.O, "Retry") && (strings.HasPrefix(d.V, "2562047h") || strings.HasPrefix(d.V, "9223372036854775807"))
	}
	for _, k := range c.H.Odd {
		atOnce, never = atOnce && k != "none", never && k != "none"
		switch k {
		case "retry-neg":
			o = append(o, authorizerd.WithPolicyRetryAttempts(-1))
		case "retry-min":
			o = append(o, authorizerd.WithPolicyRetryAttempts(math.MinInt))
		case "retry-zero":
			o = append(o, authorizerd.WithPolicyRetryAttempts(0))
		case "cache-zero":
			o = append(o, authorizerd.WithCacheExp(0))
		case "cache-neg":
			o = append(o, authorizerd.WithCacheExp(-1))
		case "cache-one":
			o = append(o, authorizerd.WithCacheExp(1))
			spin = true
		case "cache-max":
			o = append(o, authorizerd.WithCacheExp(math.MaxInt64))
		case "nil-client": // the default client: no server is reachable through it
			o = append(o, authorizerd.WithHTTPClient(nil), authorizerd.WithHTTPClient(x.s.Client()))
		case "nil-translator":
			o = append(o, authorizerd.WithTranslator(nil))
		case "nil-doms":
			o = append(o, authorizerd.WithAthenzDomains())
		case "empty-dom":
			o = append(o, authorizerd.WithAthenzDomains(""))
		case "dup-dom":
			o = append(o, authorizerd.WithAthenzDomains("dom", "dom"))
		case "slash-dom":
			o = append(o, authorizerd.WithAthenzDomains("../dom", "dom"))
		case "pct-dom":
			o = append(o, authorizerd.WithAthenzDomains("%zz", "dom"))
		case "no-pubkeyd":
			o = append(o, authorizerd.WithDisablePubkeyd())
		case "no-policyd":
			o = append(o, authorizerd.WithDisablePolicyd())
		case "no-jwkd":
			o = append(o, authorizerd.WithDisableJwkd())
		case "no-at":
			o = append(o, authorizerd.WithAccessTokenParam(authorizerd.NewAccessTokenParam(false, true, "1h", "1h", false, nil)))
		case "no-rt":
			o = append(o, authorizerd.WithDisableRoleToken())
		case "no-rc":
			o = append(o, authorizerd.WithDisableRoleCert())
		case "empty-header":
			o = append(o, authorizerd.WithRoleAuthHeader(""))
		case "odd-header":
			o = append(o, authorizerd.WithRoleAuthHeader("\x00 :"))
		case "empty-prefix":
			o = append(o, authorizerd.WithRoleCertURIPrefix(""))
		case "odd-prefix":
			o = append(o, authorizerd.WithRoleCertURIPrefix("athenz://role/dom/r/and/more"))
		case "res-prefix":
			o = append(o, authorizerd.WithResourcePrefix("\x00/"))
		case "zero-param":
			o = append(o, authorizerd.WithAccessTokenParam(authorizerd.AccessTokenParam{}))
		case "nil-clients":
			o = append(o, authorizerd.WithAccessTokenParam(authorizerd.NewAccessTokenParam(true, true, "", "", true, nil)))
		case "empty-url":
			o = append(o, authorizerd.WithAthenzURL(""))
		case "pct-url":
			o = append(o, authorizerd.WithAthenzURL("%zz"))
		case "space-url":
			o = append(o, authorizerd.WithAthenzURL("a b"))
		case "nil-urls":
			o = append(o, authorizerd.WithJwkURLs(nil))
		case "dup-urls":
			o = append(o, authorizerd.WithJwkURLs([]string{"https://athenz/oauth2/keys?rfc=true", "https://athenz/oauth2/keys?rfc=true"}))
		case "bare-rules":
			o = append(o, authorizerd.WithTranslator(&authorizerd.MappingRules{}))
		case "empty-rules":
			o = append(o, authorizerd.WithTranslator(&authorizerd.MappingRules{Rules: map[string][]authorizerd.Rule{"dom": {{Method: "GET", Path: "", Action: "a", Resource: "r"}, {}}}}))
		}
	}
	ctx, cancel := context.WithCancel(bg())
	defer func() { cancel(); time.Sleep(time.Minute); synctest.Wait() }()
	var a authorizerd.Authorizerd
	for _, k := range c.H.Odd {
		if strings.HasPrefix(k, "pkg-") {
			runPackages(h, k, x, ctx)
		}
	}
	h.Call("New", func() {
		var err error
		if a, err = authorizerd.New(o...); err != nil {
			a = nil
		}
	})
	if a == nil {
		return
	}
	use := func() {
		h.Call("calls", func() {
			h.steps++
			now := time.Now()
			rt := roleTok(roleUnsigned("dom", "u", []string{"r"}, now, now.Add(time.Hour), "k1"), "zts1")
			good := mkCert("ca", "user.c", "raw", now.Add(-time.Minute), "athenz://role/dom/r")
			for _, crt := range []*x509.Certificate{nil, {}, good} {
				at := jwtTok(map[string]interface{}{"kid": "k1", "typ": "at+jwt"}, map[string]interface{}{"aud": "dom", "scp": []string{"r"}, "iat": now.Unix(), "exp": now.Add(time.Hour).Unix(), "client_id": "user.c", "cnf": map[string]interface{}{"x5t#S256": thumb(good)}}, "jwk1")
				a.AuthorizeAccessToken(bg(), at, "act", "res", crt)
				a.VerifyRoleToken(bg(), rt, "act", "res")
				a.AuthorizeRoleCert(bg(), []*x509.Certificate{crt}, "act", "res")
				for _, t := range []string{at, rt, ""} {
					rq := &http.Request{Method: "GET", URL: &url.URL{Path: "/"}, Header: http.Header{}}
					rq.Header.Set("Authorization", "Bearer "+t)
					rq.Header.Set("Athenz-Role-Auth", t)
					rq.Header[""] = []string{t}
					rq.TLS = &tls.ConnectionState{PeerCertificates: []*x509.Certificate{crt}}
					a.Authorize(rq, "act", "res")
					rq.TLS = nil
					a.Verify(rq, "", "")
				}
			}
			a.GetPolicyCache(bg())
		})
	}
	use()
	if never {
		return
	}
	h.Call("Init", func() { a.Init(ctx) })
	ch := a.Start(ctx)
	go func() {
		for range ch {
		}
	}()
	use()
	if atOnce {
		runtime.Gosched()
	} else if spin {
		time.Sleep(200 * time.Nanosecond)
	} else {
		time.Sleep(50 * time.Minute)
	}
	use()
}

func init() {
	stages["config"] = func(h *H) {
		i := 0
		h.Cases(func(raw json.RawMessage) {
			var c cfgCase
			// an empty record is written as a list
			must(json.Unmarshal([]byte(strings.Replace(string(raw), `"log":[]`, `"log":{}`, 1)), &c))
			i++
			switch c.Fam {
			case "durs":
				cfgDurs(h, &c)
			case "addr":
				h.Bubble(func() { runAddr(h, &c) })
			case "cache":
				h.Bubble(func() { runCache(h, &c) })
			case "defs":
				defaultTransport.Lock()
				h.Bubble(func() { runDefs(h, &c) })
				defaultTransport.Unlock()
			case "host":
				t0 := time.Now()
				pkg := strings.Contains(fmt.Sprint(c.H.Odd), "pkg-")
				if pkg {
					defaultTransport.Lock()
				}
				h.Bubble(func() { runHost(h, &c, i) })
				if pkg {
					defaultTransport.Unlock()
				}
				if d := time.Since(t0); d > time.Second {
					fmt.Println("SLOW", d, string(raw))
				}
			default:
				h.Bubble(func() { runSched(h, &c) })
			}
		})
	}
}
