package drv

import (
	"context"
	"encoding/json"
	"fmt"
	"net/url"
	"os"
	"sort"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	authcore "github.com/AthenZ/athenz/libs/go/zmssvctoken"
	"github.com/AthenZ/athenz/utils/zpe-updater/util"
	"github.com/ardielle/ardielle-go/rdl"
	"github.com/pkg/errors"
	"github.com/yahoojapan/athenz-authorizer/v5/policy"
	"github.com/yahoojapan/athenz-authorizer/v5/pubkey"
)

type pdAnswer struct {
	K   string `json:"k"`
	V   int    `json:"v"`
	Exp int    `json:"exp"`
	Tag string `json:"tag"`
	Gen int    `json:"gen"`
}
type pdStep struct {
	A    string       `json:"a"`
	T    int          `json:"t"`
	Plan [][]pdAnswer `json:"plan"`
	Inm  []string     `json:"inm"`
	Fb   []int        `json:"fb"`
	Err  bool         `json:"err"`
	Inst []int        `json:"inst"`
	Exp  []int        `json:"exp"`
	Gen  int          `json:"gen"`
}
type pdCase struct {
	ND     int      `json:"nd"`
	Att    int      `json:"att"`
	Margin int      `json:"margin"`
	MaxV   int      `json:"maxv"`
	Steps  []pdStep `json:"steps"`
}

func init() { stages["policyd"] = stagePolicyd }

const (
	pdTick = 8 * time.Second
	pdRD   = time.Second
	badVer = 97
)

func pdDom(d int) string { return fmt.Sprintf("dom%d", d) }

// pdPolicy is the content of version v of a domain's policy.
func pdPolicy(d, v int) [][]Ass {
	dom := pdDom(d)
	r := dom + ":role.r"
	o := dom + ":role.o"
	p := [][]Ass{
		{{r, fmt.Sprintf("v%d", v), dom + ":res", "allow"}, {r, "n*", dom + ":res", "allow"}},
		{{r, fmt.Sprintf("n%d", v), dom + ":res", "deny"}, {o, fmt.Sprintf("w%d", v), dom + ":res.*", "ALLOW"}, {r, fmt.Sprintf("v%d", v), dom + ":res", "allow"}},
		{},
		{{fmt.Sprintf("%s:role.only%d", dom, v), "x", dom + ":y?", "Deny"}},
	}
	if v%2 == 0 {
		p = append(p, []Ass{{o, fmt.Sprintf("n%d", v), dom + ":res", "deny"}, {o, fmt.Sprintf("n%d", v), dom + ":res", "allow"}})
	}
	return p
}

// genProvider knows only the keys of the current generation, per environment.
func genProvider(gen *int) pubkey.Provider {
	return func(e pubkey.AthenzEnv, id string) authcore.Verifier {
		g := fmt.Sprintf("g%d", *gen)
		switch {
		case id == g:
			return fakeVerifier{string(e), id}
		case id == string(e)+"only"+g:
			return fakeVerifier{string(e), id}
		}
		return nil
	}
}

func pdDoc(d, v int, exp time.Time, gen int) string {
	g := fmt.Sprintf("g%d", gen)
	return policyDoc(pdDom(d), pdPolicy(d, v), exp, g, g)
}

func pdPD(d, v int) *util.PolicyData {
	pd := &util.PolicyData{Domain: pdDom(d)}
	for i, as := range pdPolicy(d, v) {
		p := &util.Policy{Name: fmt.Sprintf("p%d", i)}
		for _, a := range as {
			p.Assertions = append(p.Assertions, &util.Assertion{Role: a.Role, Action: a.Action, Resource: a.Resource, Effect: a.Effect})
		}
		pd.Policies = append(pd.Policies, p)
	}
	return pd
}

// pdBad builds an unusable answer.
func pdBad(kind string, d, gen int, now time.Time) *Resp {
	exp := now.Add(100 * pdTick)
	g := fmt.Sprintf("g%d", gen)
	doc := pdDoc(d, badVer, exp, gen)
	ok := func(body string) *Resp { return &Resp{Status: 200, Body: body, ETag: "bad"} }
	custom := func(edit func(spd *util.SignedPolicyData, dsp *util.DomainSignedPolicyData, after bool)) *Resp {
		pd := pdPD(d, badVer)
		pb, _ := json.Marshal(pd)
		ts := rdl.NewTimestamp(exp.UTC())
		mod := rdl.NewTimestamp(time.Unix(0, 0).UTC())
		spd := &util.SignedPolicyData{PolicyData: pd, Expires: &ts, Modified: &mod, ZmsKeyId: g, ZmsSignature: fakeSign("zms", g, string(pb))}
		dsp := &util.DomainSignedPolicyData{SignedPolicyData: spd, KeyId: g}
		edit(spd, dsp, false)
		sb, _ := json.Marshal(dsp.SignedPolicyData)
		dsp.Signature = fakeSign("zts", dsp.KeyId, string(sb))
		edit(spd, dsp, true)
		b, _ := json.Marshal(dsp)
		return ok(string(b))
	}
	resignZMS := func(spd *util.SignedPolicyData) {
		pb, _ := json.Marshal(spd.PolicyData)
		spd.ZmsSignature = fakeSign("zms", spd.ZmsKeyId, string(pb))
	}
	switch kind {
	case "neterr":
		return &Resp{Err: fmt.Errorf("connection refused")}
	case "500", "404", "403", "204", "202", "401", "429", "503":
		r := ok(doc)
		fmt.Sscan(kind, &r.Status)
		return r
	case "garbage":
		return ok("<html>{" + doc)
	case "empty":
		return ok("")
	case "null":
		return ok("null")
	case "{}":
		return ok("{}")
	case "array":
		return ok("[" + doc + "]")
	case "trunc":
		r := ok(doc[:len(doc)-20])
		r.Trunc = true
		return r
	case "cut":
		return ok(doc[:len(doc)/2])
	case "nosigned":
		return custom(func(spd *util.SignedPolicyData, dsp *util.DomainSignedPolicyData, after bool) {
			dsp.SignedPolicyData = nil
		})
	case "ztssig":
		return custom(func(spd *util.SignedPolicyData, dsp *util.DomainSignedPolicyData, after bool) {
			if after {
				dsp.Signature = dsp.Signature[:len(dsp.Signature)-1] + "x"
			}
		})
	case "ztsempty":
		return custom(func(spd *util.SignedPolicyData, dsp *util.DomainSignedPolicyData, after bool) {
			if after {
				dsp.Signature = ""
			}
		})
	case "ztsunknown":
		return custom(func(spd *util.SignedPolicyData, dsp *util.DomainSignedPolicyData, after bool) { dsp.KeyId = "nokey" })
	case "ztskeyempty":
		return custom(func(spd *util.SignedPolicyData, dsp *util.DomainSignedPolicyData, after bool) { dsp.KeyId = "" })
	case "ztsenv": // a key only the other environment has
		return custom(func(spd *util.SignedPolicyData, dsp *util.DomainSignedPolicyData, after bool) {
			dsp.KeyId = "zmsonly" + g
			if after {
				sb, _ := json.Marshal(dsp.SignedPolicyData)
				dsp.Signature = fakeSign("zms", dsp.KeyId, string(sb))
			}
		})
	case "ztsswap": // signed by the ZMS key of the same id
		return custom(func(spd *util.SignedPolicyData, dsp *util.DomainSignedPolicyData, after bool) {
			if after {
				sb, _ := json.Marshal(dsp.SignedPolicyData)
				dsp.Signature = fakeSign("zms", g, string(sb))
			}
		})
	case "zmssig":
		return custom(func(spd *util.SignedPolicyData, dsp *util.DomainSignedPolicyData, after bool) {
			if !after {
				spd.ZmsSignature += "x"
			}
		})
	case "zmsempty":
		return custom(func(spd *util.SignedPolicyData, dsp *util.DomainSignedPolicyData, after bool) {
			if !after {
				spd.ZmsSignature = ""
			}
		})
	case "zmsunknown":
		return custom(func(spd *util.SignedPolicyData, dsp *util.DomainSignedPolicyData, after bool) {
			if !after {
				spd.ZmsKeyId = "nokey"
				resignZMS(spd)
			}
		})
	case "zmskeyempty":
		return custom(func(spd *util.SignedPolicyData, dsp *util.DomainSignedPolicyData, after bool) {
			if !after {
				spd.ZmsKeyId = ""
				resignZMS(spd)
			}
		})
	case "zmsenv":
		return custom(func(spd *util.SignedPolicyData, dsp *util.DomainSignedPolicyData, after bool) {
			if !after {
				spd.ZmsKeyId = "ztsonly" + g
				pb, _ := json.Marshal(spd.PolicyData)
				spd.ZmsSignature = fakeSign("zts", spd.ZmsKeyId, string(pb))
			}
		})
	case "zmsswap":
		return custom(func(spd *util.SignedPolicyData, dsp *util.DomainSignedPolicyData, after bool) {
			if !after {
				pb, _ := json.Marshal(spd.PolicyData)
				spd.ZmsSignature = fakeSign("zts", g, string(pb))
			}
		})
	case "zmstamper": // policy altered, resigned by ZTS only
		return custom(func(spd *util.SignedPolicyData, dsp *util.DomainSignedPolicyData, after bool) {
			if !after {
				spd.PolicyData.Policies[0].Assertions[0].Action = "*"
			}
		})
	case "ztstamper": // altered and resigned by ZMS only
		return custom(func(spd *util.SignedPolicyData, dsp *util.DomainSignedPolicyData, after bool) {
			if after {
				spd.PolicyData.Policies[0].Assertions[0].Action = "*"
				resignZMS(spd)
			}
		})
	case "exptamper": // expiry pushed forward after signing
		return custom(func(spd *util.SignedPolicyData, dsp *util.DomainSignedPolicyData, after bool) {
			if after {
				ts := rdl.NewTimestamp(now.Add(1000 * pdTick).UTC())
				spd.Expires = &ts
			}
		})
	case "expired":
		return ok(pdDoc(d, badVer, now.Add(-time.Millisecond), gen))
	case "expired-long":
		return ok(pdDoc(d, badVer, now.Add(-1000*time.Hour), gen))
	case "noexpires":
		return custom(func(spd *util.SignedPolicyData, dsp *util.DomainSignedPolicyData, after bool) { spd.Expires = nil })
	case "badexpires":
		r := ok("")
		// an unparsable expiry, signed as the client would re-encode it
		r.Body = strings.Replace(doc, exp.UTC().Format("2006-01-02T15:04:05.000Z"), "soon", 1)
		return r
	case "oldgen":
		return ok(pdDoc(d, badVer, exp, gen-1))
	case "futgen":
		return ok(pdDoc(d, badVer, exp, gen+1))
	case "302":
		return &Resp{Status: 302, Body: doc, ETag: "bad"}
	}
	panic("unknown bad kind " + kind)
}

type pdRun struct {
	h         *H
	c         *pdCase
	cmp       map[string]bool
	t0        time.Time
	gen       int
	s         *Server
	d         policy.Daemon
	mu        sync.Mutex
	plan      map[string][]*Resp // nil: unscheduled requests
	sched     bool
	curI      []int // installed versions
	curE      []time.Time
	lastCache string
	bad       bool
}

func (r *pdRun) at(half int) time.Time { return r.t0.Add(time.Duration(half)*pdTick/2 + 3*pdTick/10) }

func (r *pdRun) viol(step int, format string, a ...interface{}) {
	r.bad = true
	r.h.Violate(map[string]int{"step": step}, "step %d: %s", step, fmt.Sprintf(format, a...))
}

// eff is the version in effect now, according to the specification.
func (r *pdRun) eff(d int) int {
	if r.curI[d] != 0 && time.Now().Before(r.curE[d]) {
		return r.curI[d]
	}
	return 0
}

// observe compares every decision with the specification.
func (r *pdRun) observe(step int, what string) {
	for d := 0; d < r.c.ND; d++ {
		e := r.eff(d)
		dom := pdDom(d + 1)
		vs := []int{badVer}
		for v := 1; v <= r.c.MaxV; v++ {
			vs = append(vs, v)
		}
		if r.cmp["decide"] {
			for _, v := range vs {
				r.h.steps++
				err := r.d.CheckPolicy(bg(), dom, []string{"r"}, fmt.Sprintf("v%d", v), "res")
				if (err == nil) != (v == e) {
					r.viol(step, "%s: domain %s: version in effect is %d, but the action of version %d gets: %v", what, dom, e, v, err)
				}
				err = r.d.CheckPolicy(bg(), dom, []string{"r"}, fmt.Sprintf("n%d", v), "res")
				switch {
				case e == 0 && (err == nil || errors.Cause(err) != policy.ErrNoMatch):
					r.viol(step, "%s: domain %s: no version in effect, decision should be no match, got %v", what, dom, err)
				case e == v && (err == nil || errors.Cause(err) != policy.ErrDenyByPolicy):
					r.viol(step, "%s: domain %s: version %d in effect denies action n%d, got %v", what, dom, e, v, err)
				case e != 0 && e != v && err != nil:
					r.viol(step, "%s: domain %s: version %d in effect allows action n%d, got %v", what, dom, e, v, err)
				}
				err = r.d.CheckPolicy(bg(), dom, []string{"o"}, fmt.Sprintf("w%d", v), "res.x")
				if (err == nil) != (v == e) {
					r.viol(step, "%s: domain %s: version in effect is %d, but role o with the action of version %d gets: %v", what, dom, e, v, err)
				}
			}
		}
	}
	if r.cmp["cache"] {
		want := map[string][]string{}
		for d := 0; d < r.c.ND; d++ {
			if e := r.eff(d); e != 0 {
				addReport(want, pdPolicy(d+1, e))
			}
		}
		r.h.steps++
		if m := compareReport(r.d.GetPolicyCache(bg()), want); m != "" {
			r.viol(step, "%s: reported policy cache: %s", what, m)
		}
	}
}

// addReport adds the canonical assertions of a document to the expected report.
func addReport(want map[string][]string, pols [][]Ass) {
	type key struct{ r, a, res string }
	eff := map[key]string{}
	for _, p := range pols {
		for _, a := range p {
			k := key{a.Role, a.Action, a.Resource}
			if strings.EqualFold(a.Effect, "deny") {
				eff[k] = "deny"
			} else if eff[k] == "" {
				eff[k] = "allow"
			}
		}
	}
	for k, e := range eff {
		dr := strings.SplitN(k.res, ":", 2)
		want[k.r] = append(want[k.r], fmt.Sprintf("%q %q %q %s", k.a, dr[1], dr[0], e))
	}
}

func compareReport(got map[string]interface{}, want map[string][]string) string {
	if got == nil {
		return "nil map"
	}
	for role, v := range got {
		as, ok := v.([]*policy.Assertion)
		if !ok {
			return fmt.Sprintf("role %q has a value of type %T", role, v)
		}
		if len(as) == 0 {
			return fmt.Sprintf("role %q without assertions", role)
		}
		var g []string
		allow := false
		for _, a := range as {
			e := "allow"
			if a.Effect != nil {
				e = "deny"
				if allow {
					return fmt.Sprintf("role %q: a deny assertion after an allow assertion", role)
				}
			} else {
				allow = true
			}
			g = append(g, fmt.Sprintf("%q %q %q %s", a.Action, a.Resource, a.ResourceDomain, e))
		}
		w := append([]string(nil), want[role]...)
		sort.Strings(g)
		sort.Strings(w)
		if fmt.Sprint(g) != fmt.Sprint(w) {
			return fmt.Sprintf("role %q: reported %v, should be %v", role, g, w)
		}
	}
	for role := range want {
		if _, ok := got[role]; !ok {
			return fmt.Sprintf("role %q missing", role)
		}
	}
	return ""
}

// sleepTo advances virtual time, observing around every expiry on the way.
func (r *pdRun) sleepTo(t time.Time, step int) {
	if r.cmp["instant"] {
		var ts []time.Time
		for d := range r.curE {
			if r.curI[d] != 0 {
				ts = append(ts, r.curE[d].Add(-10*time.Millisecond), r.curE[d].Add(10*time.Millisecond))
			}
		}
		sort.Slice(ts, func(i, j int) bool { return ts[i].Before(ts[j]) })
		for _, x := range ts {
			if x.After(time.Now()) && x.Before(t) {
				time.Sleep(time.Until(x))
				r.observe(step, "around expiry")
				synctest.Wait()
			}
		}
	}
	if d := time.Until(t); d > 0 {
		time.Sleep(d)
	}
}

func (r *pdRun) handler(u, inm string) *Resp {
	r.mu.Lock()
	defer r.mu.Unlock()
	if !r.sched {
		return &Resp{Err: fmt.Errorf("unscheduled")}
	}
	dom := domainOf(u)
	q := r.plan[dom]
	if len(q) == 0 {
		return &Resp{Err: fmt.Errorf("no more answers")}
	}
	r.plan[dom] = q[1:]
	return q[0]
}

func (r *pdRun) run() {
	c := r.c
	ctx, cancel := context.WithCancel(bg())
	defer cancel()
	r.t0 = time.Now()
	r.gen = 1
	r.s = &Server{H: r.handler}
	var doms []string
	for d := 1; d <= c.ND; d++ {
		doms = append(doms, pdDom(d))
	}
	r.curI, r.curE = make([]int, c.ND), make([]time.Time, c.ND)
	opts := []policy.Option{policy.WithPubKeyProvider(genProvider(&r.gen)), policy.WithRetryDelay(pdRD.String()),
		policy.WithExpiryMargin((time.Duration(c.Margin) * pdTick).String()), policy.WithPurgePeriod("10000h")}
	opts = append(opts, policy.WithRetryAttempts(c.Att))
	r.d = newPolicyd(r.s, doms, opts...)
	if c.Att == 0 {
		// the option takes 0 as "keep the default": tests use an explicit daemon with no retry only through the model's Attempts >= 1
		r.h.t.Fatal("Attempts must be at least 1")
	}
	r.observe(0, "initially")
	for i, st := range c.Steps {
		i++
		r.sleepTo(r.t0.Add(time.Duration(st.T)*pdTick), i)
		switch st.A {
		case "rot":
			r.gen = st.Gen
			continue
		case "tick":
			r.observe(i, "after waiting")
		case "cancel":
			cc, cf := context.WithCancel(ctx)
			cf()
			r.s.Take()
			err := r.d.Update(cc)
			synctest.Wait()
			r.s.Take()
			if r.cmp["err"] && err == nil {
				r.viol(i, "an update with an ended context succeeded")
			}
			r.observe(i, "after an update with an ended context")
		case "upd":
			r.mu.Lock()
			r.plan = map[string][]*Resp{}
			now := time.Now()
			for d, p := range st.Plan {
				for _, a := range p {
					var rp *Resp
					switch a.K {
					case "new", "doc":
						rp = &Resp{Status: 200, ETag: a.Tag, Body: pdDoc(d+1, a.V, r.at(a.Exp), a.Gen)}
					case "304":
						rp = &Resp{Status: 304}
					default:
						rp = pdBad(a.K, d+1, r.gen, now)
					}
					r.plan[pdDom(d+1)] = append(r.plan[pdDom(d+1)], rp)
				}
			}
			r.sched = true
			r.mu.Unlock()
			r.s.Take()
			err := r.d.Update(ctx)
			r.mu.Lock()
			r.sched = false
			r.mu.Unlock()
			log := r.s.Take()
			r.h.steps++
			if r.cmp["err"] && (err != nil) != st.Err {
				r.viol(i, "Update returned %v; specified failure: %v", err, st.Err)
			}
			if r.cmp["open"] && r.s.Open() != 0 {
				r.viol(i, "%d response bodies left open after the update", r.s.Open())
			}
			if r.cmp["req"] {
				r.requests(i, st, log)
			}
			copy(r.curI, st.Inst)
			for d := range st.Exp {
				r.curE[d] = r.at(st.Exp[d])
			}
			r.observe(i, "after the update")
			synctest.Wait()
		}
		if r.bad {
			return
		}
	}
}

func (r *pdRun) requests(i int, st pdStep, log []*Req) {
	per := map[string][]*Req{}
	for _, q := range log {
		u, err := url.Parse(q.URL)
		if err != nil || u.Scheme != "https" || u.Host != "athenz" {
			r.viol(i, "unexpected request %s", q.URL)
		}
		per[domainOf(q.URL)] = append(per[domainOf(q.URL)], q)
	}
	for d := range st.Plan {
		qs := per[pdDom(d+1)]
		if len(qs) != len(st.Plan[d]) {
			r.viol(i, "domain %s: %d requests, specified %d", pdDom(d+1), len(qs), len(st.Plan[d]))
			continue
		}
		for k, q := range qs {
			if q.INM != st.Inm[d] {
				r.viol(i, "domain %s: request %d sent If-None-Match %q, specified %q", pdDom(d+1), k+1, q.INM, st.Inm[d])
			}
			if k > 0 && q.At.Sub(qs[k-1].At) != pdRD {
				r.viol(i, "domain %s: %v between attempts, retry delay is %v", pdDom(d+1), q.At.Sub(qs[k-1].At), pdRD)
			}
		}
		delete(per, pdDom(d+1))
	}
	for dom := range per {
		r.viol(i, "requests for %q, which is not a configured domain", dom)
	}
}

func stagePolicyd(h *H) {
	cmp := map[string]bool{}
	for _, k := range strings.Split(os.Getenv("VP_CMP"), ",") {
		cmp[k] = true
	}
	h.Cases(func(raw json.RawMessage) {
		var c pdCase
		if err := json.Unmarshal(raw, &c); err != nil {
			h.t.Fatal(err)
		}
		h.Bubble(func() { (&pdRun{h: h, c: &c, cmp: cmp}).run() })
	})
}
