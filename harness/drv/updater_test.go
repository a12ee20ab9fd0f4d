package drv

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"sort"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	authorizerd "github.com/yahoojapan/athenz-authorizer/v5"
	"github.com/yahoojapan/athenz-authorizer/v5/jwk"
	"github.com/yahoojapan/athenz-authorizer/v5/policy"
	"github.com/yahoojapan/athenz-authorizer/v5/pubkey"
)

// Stage "updater" (C21): the real background updaters run every script of the model (outcome and
// duration of every update, moment of cancellation) and what they did is recorded for UpdaterTrace.

type updOut struct {
	OK  bool `json:"ok"`
	Lat int  `json:"lat"`
}

type updCase struct {
	P       int      `json:"P"`
	Rd      int      `json:"rd"`
	Script  []updOut `json:"script"`
	Cancel  int      `json:"cancel"`
	Lag     int      `json:"lag"` // the reader looks at the channel every Lag seconds
	Variant string   `json:"variant"`
}

type updEv struct {
	at   time.Duration
	kind string // request arrived / answered: "s", "f"; "err", "cancel", "last", "close"
	k    string
	sub  string
	ok   bool
}

// updWorld answers requests following a script per kind.
type updWorld struct {
	mu     sync.Mutex
	start  time.Time
	evs    []updEv
	script map[string][]updOut
	which  int // which key requests fail: 0 both, 1 zts, 2 zms
	nreq   map[string]int
	natt   map[string]int // attempts begun
	inAtt  map[string]int // requests of the current attempt
	real   *World
	live   bool // false: answer everything at once, record nothing
	dl     time.Duration
}

func (w *updWorld) log(kind, k, sub string, ok bool) {
	w.evs = append(w.evs, updEv{time.Since(w.start), kind, k, sub, ok})
}

func updKind(u string) (k, sub string) {
	switch {
	case strings.HasSuffix(u, "/service/zts"):
		return "pubkey", "zts"
	case strings.HasSuffix(u, "/service/zms"):
		return "pubkey", "zms"
	case strings.HasSuffix(u, "/signed_policy_data"):
		return "policy", ""
	}
	return "jwk", ""
}

func (w *updWorld) RoundTrip(q *http.Request) (*http.Response, error) {
	k, sub := updKind(q.URL.String())
	w.mu.Lock()
	if err := q.Context().Err(); err != nil {
		w.mu.Unlock()
		return nil, err
	}
	o := updOut{OK: true}
	if w.live {
		// the key updater makes two requests per update, the policy updater up to two (one retry), the key sets one
		n := w.nreq[k+sub]
		w.nreq[k+sub]++
		att := n
		if k == "policy" {
			// a failing update makes two requests
			att = w.natt[k]
			if w.inAtt[k] == 1 {
				w.inAtt[k] = 0
				w.natt[k]++
			} else if att < len(w.script[k]) && !w.script[k][att].OK {
				w.inAtt[k] = 1
			} else {
				w.natt[k]++
			}
		}
		if att < len(w.script[k]) {
			o = w.script[k][att]
			if !o.OK && (sub == "zts" && w.which == 2 || sub == "zms" && w.which == 1) {
				o.OK = true
			}
		}
		w.log("s", k, sub, true)
	}
	w.mu.Unlock()
	finish := func(ok bool) {
		w.mu.Lock()
		if w.live {
			w.log("f", k, sub, ok)
		}
		w.mu.Unlock()
	}
	tm := time.NewTimer(time.Duration(o.Lat)*time.Second + 5*time.Millisecond)
	defer tm.Stop()
	select {
	case <-tm.C:
	case <-q.Context().Done():
		finish(false)
		return nil, q.Context().Err()
	}
	finish(o.OK)
	if !o.OK || !w.live && k == "policy" {
		return nil, errors.New("connection reset")
	}
	body := ""
	if w.real != nil {
		if k == "policy" {
			w.real.setPolicy("dom", nil, time.Now().Add(time.Millisecond))
		}
		body = w.real.handle(q.URL.String(), "").Body
	} else {
		switch k {
		case "policy":
			body = policyDoc("dom", nil, time.Now().Add(time.Millisecond), "k", "k")
		case "jwk":
			body = `{"keys":[]}`
		default:
			body = `{"publicKeys":[]}`
		}
	}
	return &http.Response{Status: "200 OK", StatusCode: 200, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: io.NopCloser(strings.NewReader(body)), ContentLength: -1, Request: q}, nil
}

type updStarter interface {
	Start(context.Context) <-chan error
}

func init() {
	stages["updater"] = func(h *H) {
		i := 0
		h.Cases(func(raw json.RawMessage) {
			var c updCase
			must(json.Unmarshal(raw, &c))
			i++
			kinds := []string{"pubkey", "policy"}
			if c.Variant == "jwk" {
				kinds = []string{"jwk"}
			}
			for _, k := range kinds {
				h.Bubble(func() { runUpdater(h, c, i, k) })
			}
			if i%3 == 0 {
				h.Bubble(func() { runUpdater(h, c, i, "all") })
			}
		})
	}
}

func rot(s []updOut, n int) []updOut {
	if len(s) == 0 {
		return s
	}
	n %= len(s)
	return append(append([]updOut{}, s[n:]...), s[:n]...)
}

func runUpdater(h *H, c updCase, i int, kind string) {
	w := &updWorld{nreq: map[string]int{}, natt: map[string]int{}, inAtt: map[string]int{}, which: i % 3, script: map[string][]updOut{}}
	cl := &http.Client{Transport: w}
	per, rd := fmt.Sprintf("%ds", c.P), fmt.Sprintf("%ds", c.Rd)
	var d updStarter
	var err error
	kinds := []string{kind}
	w.script[kind] = c.Script
	switch kind {
	case "pubkey":
		d, err = pubkey.New(pubkey.WithAthenzURL("athenz"), pubkey.WithHTTPClient(cl), pubkey.WithRefreshPeriod(per), pubkey.WithRetryDelay(rd), pubkey.WithETagPurgePeriod("10000h"), pubkey.WithETagExpiry("10000h"))
	case "policy":
		d, err = policy.New(policy.WithAthenzURL("athenz"), policy.WithAthenzDomains("dom"), policy.WithHTTPClient(cl), policy.WithPubKeyProvider(stdProvider), policy.WithRefreshPeriod(per),
			policy.WithRetryDelay(rd), policy.WithRetryAttempts(1), policy.WithPurgePeriod("10000h"))
	case "jwk":
		d, err = jwk.New(jwk.WithAthenzJwksURL("athenz"), jwk.WithHTTPClient(cl), jwk.WithRefreshPeriod(per), jwk.WithRetryDelay(rd))
	case "all":
		kinds = [][]string{{"pubkey", "policy", "jwk"}, {"pubkey", "jwk"}, {"jwk"}, {"pubkey", "policy"}}[i/3%4]
		if c.Lag > 60 { // fewer than a hundred reports wait: one of them fails
			kinds = [][]string{{"jwk"}, {"pubkey"}}[i/3%2]
		}
		has := map[string]bool{}
		for n, k := range kinds {
			has[k] = true
			w.script[k] = rot(c.Script, n)
		}
		w.real = newWorld()
		opts := []authorizerd.Option{
			authorizerd.WithAthenzURL("athenz"), authorizerd.WithHTTPClient(cl), authorizerd.WithDisableRoleCert(),
			authorizerd.WithPubkeyRefreshPeriod(per), authorizerd.WithPubkeyRetryDelay(rd), authorizerd.WithPubkeyETagExpiry("10000h"), authorizerd.WithPubkeyETagPurgePeriod("10000h"),
			authorizerd.WithAthenzDomains("dom"), authorizerd.WithPolicyRefreshPeriod(per), authorizerd.WithPolicyRetryDelay(rd), authorizerd.WithPolicyRetryAttempts(1), authorizerd.WithPolicyPurgePeriod("10000h"),
			authorizerd.WithJwkRefreshPeriod(per), authorizerd.WithJwkRetryDelay(rd), authorizerd.WithAccessTokenParam(authorizerd.NewAccessTokenParam(true, false, "1h", "1h", false, nil)),
		}
		if !has["pubkey"] {
			opts = append(opts, authorizerd.WithDisablePubkeyd(), authorizerd.WithDisableRoleToken())
		}
		if !has["policy"] {
			opts = append(opts, authorizerd.WithDisablePolicyd())
		}
		if !has["jwk"] {
			opts = append(opts, authorizerd.WithDisableJwkd())
		}
		var a authorizerd.Authorizerd
		a, err = authorizerd.New(opts...)
		must(err)
		ictx, ic := context.WithCancel(bg())
		// the keys are loaded, the policies not: an earlier policy would be used when fetching fails
		if err := a.Init(ictx); (err == nil) == has["policy"] {
			h.Violate(nil, "Init with failing policies=%v: %v", has["policy"], err)
		}
		defer ic()
		d = a
	}
	must(err)
	ctx, cancel := context.WithCancel(bg())
	w.start, w.live = time.Now(), true
	ch := d.Start(ctx)
	done := make(chan struct{})
	go func() {
		defer close(done)
		for {
			if c.Lag > 0 && len(ch) == 0 {
				time.Sleep(time.Duration(c.Lag)*time.Second - time.Since(w.start)%(time.Duration(c.Lag)*time.Second))
			}
			e, ok := <-ch
			if !ok {
				break
			}
			if e == nil {
				h.Violate(nil, "%s: the error channel delivers an error that is none (nil)", kind)
			}
			w.mu.Lock()
			w.log("err", "", "", errors.Is(e, context.Canceled))
			w.mu.Unlock()
		}
		w.mu.Lock()
		w.log("close", "", "", true)
		w.mu.Unlock()
	}()
	at := time.Duration(c.Cancel) * time.Second
	if i%2 == 0 {
		at += 500 * time.Millisecond
	}
	time.Sleep(at)
	synctest.Wait()
	w.mu.Lock()
	w.log("cancel", "", "", true)
	cancel()
	w.mu.Unlock()
	tm := time.NewTimer(time.Duration(c.Rd*10+100+c.Lag) * time.Second)
	select {
	case <-done:
	case <-tm.C:
		h.Violate(nil, "%s: the error channel is not closed after the context ended", kind)
		return
	}
	// nothing happens any more
	time.Sleep(time.Duration(3*c.P+3*c.Rd) * time.Second)
	synctest.Wait()
	w.mu.Lock()
	defer w.mu.Unlock()
	ks := map[string]interface{}{}
	for _, k := range kinds {
		r := c.Rd * 1000
		if k == "policy" {
			r *= 2 // a failing update ends with one more delay
		}
		ks[k] = map[string]int{"P": c.P * 1000, "rd": r}
	}
	h.Emit(map[string]interface{}{"t": "ev", "e": "begin", "case": i, "kinds": ks, "lag": c.Lag * 1000, "direct": kind != "all"})
	for _, e := range updHistory(w.evs) {
		h.Emit(e)
		h.steps++
	}
	h.Emit(map[string]interface{}{"t": "ev", "e": "over", "at": time.Since(w.start).Milliseconds()})
}

// updHistory turns requests into updates and finds the last error.
func updHistory(evs []updEv) []map[string]interface{} {
	type rec struct {
		at  int64
		seq int
		m   map[string]interface{}
	}
	var out []rec
	add := func(seq int, e updEv, m map[string]interface{}) {
		m["t"], m["at"] = "ev", e.at.Milliseconds()
		out = append(out, rec{e.at.Milliseconds(), seq, m})
	}
	had := false // an earlier policy is used when fetching fails
	// an update of the keys makes a request per environment, a failing one of the policies two in a row
	type att struct {
		k           string
		first, last int // events
		subs        map[string]bool
		n           int
		ok          bool
	}
	cur, starts, ends := map[string]*att{}, map[int]*att{}, map[int]*att{}
	for i, e := range evs {
		a := cur[e.k]
		switch e.kind {
		case "s":
			if a == nil || e.k == "jwk" || e.k == "pubkey" && a.subs[e.sub] || e.k == "policy" && (a.ok || a.n == 2) {
				a = &att{k: e.k, first: i, last: -1, subs: map[string]bool{}, ok: e.k != "policy"}
				cur[e.k], starts[i] = a, a
			}
			a.subs[e.sub] = true
			a.n++
		case "f":
			if a.last >= 0 {
				delete(ends, a.last)
			}
			a.last = i
			ends[i] = a
			if e.k == "policy" {
				a.ok = e.ok
			} else {
				a.ok = a.ok && e.ok
			}
		}
	}
	lastErr := -1
	for i, e := range evs {
		if e.kind == "err" {
			lastErr = i
		}
	}
	for i, e := range evs {
		switch e.kind {
		case "s":
			if starts[i] != nil {
				add(i, e, map[string]interface{}{"e": "s", "k": e.k})
			}
		case "f":
			if a := ends[i]; a != nil && (e.k != "policy" || a.ok || a.n == 2) {
				ok := a.ok
				if e.k == "policy" {
					had = had || a.ok
					ok = had
				}
				add(i, e, map[string]interface{}{"e": "f", "k": e.k, "ok": ok})
			}
		case "err":
			m := map[string]interface{}{"e": "err"}
			if i == lastErr && e.ok {
				m["e"] = "last"
			}
			add(i, e, m)
		default:
			add(i, e, map[string]interface{}{"e": e.kind})
		}
	}
	sort.SliceStable(out, func(x, y int) bool { return out[x].seq < out[y].seq })
	var r []map[string]interface{}
	for _, o := range out {
		r = append(r, o.m)
	}
	return r
}
