package drv

import (
	"context"
	"crypto/x509"
	"encoding/json"
	"fmt"
	"os"
	"strings"
	"sync"
	"time"

	"github.com/AthenZ/athenz/utils/zpe-updater/util"
	authorizerd "github.com/yahoojapan/athenz-authorizer/v5"
	"github.com/yahoojapan/athenz-authorizer/v5/policy"
)

type peStep struct {
	A       string `json:"a"`
	T       int    `json:"t"`
	D       int    `json:"d"`
	V       int    `json:"v"`
	Dexp    int    `json:"dexp"`
	K       string `json:"k"`
	Err     bool   `json:"err"`
	Refetch bool   `json:"refetch"`
	Inst    []int  `json:"inst"`
	Exp     []int  `json:"exp"`
}
type peCase struct {
	ND    int      `json:"nd"`
	MaxV  int      `json:"maxv"`
	Steps []peStep `json:"steps"`
}

func init() { stages["expiry"] = stageExpiry }

// peRun: ticks of 16 s, expiries 0.3 tick after an integer time, purge period 1/4 tick.
type peRun struct {
	pdRun
	vers []int
	exps []time.Time
	mode []string
}

func (r *peRun) handler(u, inm string) *Resp {
	r.mu.Lock()
	defer r.mu.Unlock()
	for d := range r.mode {
		if domainOf(u) != pdDom(d+1) {
			continue
		}
		switch r.mode[d] {
		case "ok":
			tag := fmt.Sprintf("t%d.%d", d+1, r.vers[d])
			if inm == tag {
				return &Resp{Status: 304}
			}
			rp := &Resp{Status: 200, ETag: tag, Body: pdDoc(d+1, r.vers[d], r.exps[d], 1)}
			if d > 0 { // the second domain answers later, so that a partial update would show
				rp.Hold = make(chan struct{})
				time.AfterFunc(200*time.Millisecond, func() { close(rp.Hold) })
			}
			return rp
		default:
			return pdBad(r.mode[d], d+1, 1, time.Now())
		}
	}
	return &Resp{Status: 404}
}

// observe asks, per domain and version, what only that version allows and what only that version denies.
func (r *peRun) observe() (o []bool) {
	for d := 0; d < r.c.ND; d++ {
		dom := pdDom(d + 1)
		for v := 1; v <= r.c.MaxV; v++ {
			o = append(o, r.d.CheckPolicy(bg(), dom, []string{"r"}, fmt.Sprintf("v%d", v), "res") == nil)
			o = append(o, r.d.CheckPolicy(bg(), dom, []string{"r"}, fmt.Sprintf("n%d", v), "res") == nil)
			o = append(o, r.d.CheckPolicy(bg(), dom, []string{"o"}, fmt.Sprintf("w%d", v), "res.x") == nil)
		}
	}
	return o
}

// answers are those of observe when the versions of vec are in effect.
func (r *peRun) answers(vec []int) (o []bool) {
	for _, e := range vec {
		for v := 1; v <= r.c.MaxV; v++ {
			o = append(o, v == e, e != 0 && v != e, v == e)
		}
	}
	return o
}

// explain tells whether the answers are those of pre up to a moment and those of post from then on
// (asking about an expired policy may trigger the refetch, which takes effect between two answers).
func explain(got, pre, post []bool) (ok, switched bool) {
	k := 0
	for k < len(got) && got[k] == pre[k] {
		k++
	}
	if k == len(got) {
		return true, false
	}
	for i := k; i < len(got); i++ {
		if got[i] != post[i] {
			return false, false
		}
	}
	return true, true
}

// show is the version each domain's answers follow (-1: those of no version alone).
func (r *peRun) show(got []bool) []int {
	out := make([]int, r.c.ND)
	for d := range out {
		for v := 1; v <= r.c.MaxV; v++ {
			q := got[3*(d*r.c.MaxV+v-1):]
			if q[0] && q[2] {
				out[d] = v
			}
		}
		vec := make([]int, r.c.ND)
		vec[d] = out[d]
		n := 3 * r.c.MaxV
		if fmt.Sprint(r.answers(vec)[n*d:n*(d+1)]) != fmt.Sprint(got[n*d:n*(d+1)]) {
			out[d] = -1
		}
	}
	return out
}

func (r *peRun) vector() []int { return r.show(r.observe()) }

func (r *peRun) run(c *peCase) {
	ctx, cancel := context.WithCancel(bg())
	defer cancel()
	const T = 16 * time.Second
	r.t0 = time.Now()
	at := func(half int) time.Time { return r.t0.Add(time.Duration(half-1)*T/2 + 3*T/10) }
	r.gen = 1
	r.s = &Server{H: r.handler}
	var doms []string
	for d := 1; d <= c.ND; d++ {
		doms = append(doms, pdDom(d))
		r.vers = append(r.vers, 1)
		r.exps = append(r.exps, at(3))
		r.mode = append(r.mode, "ok")
	}
	r.curI, r.curE = make([]int, c.ND), make([]time.Time, c.ND)
	r.d = newPolicyd(r.s, doms, policy.WithPubKeyProvider(genProvider(&r.gen)), policy.WithRetryDelay("100ms"), policy.WithRetryAttempts(1),
		policy.WithExpiryMargin("1s"), policy.WithPurgePeriod((T / 4).String()), policy.WithRefreshPeriod("10000h"))
	if os.Getenv("VP_VIA") == "init" {
		// the same, for policies installed by the initialization of an authorizer
		r.s.H = func(u, inm string) *Resp {
			for _, env := range []string{"zts", "zms"} {
				if strings.HasSuffix(u, "/service/"+env) {
					return &Resp{Status: 200, Body: keyDoc(env, map[string]string{"g1": env + "1"})}
				}
			}
			rs := r.handler(u, inm)
			rs.Body = resign(rs.Body, "g1")
			return rs
		}
		a, err := authorizerd.New(authorizerd.WithAthenzURL("athenz"), authorizerd.WithHTTPClient(r.s.Client()), authorizerd.WithAthenzDomains(doms...), authorizerd.WithDisableJwkd(),
			authorizerd.WithPolicyRetryDelay("100ms"), authorizerd.WithPolicyRetryAttempts(1), authorizerd.WithPolicyExpiryMargin("1s"), authorizerd.WithPolicyPurgePeriod((T / 4).String()),
			authorizerd.WithPolicyRefreshPeriod("10000h"), authorizerd.WithPubkeyETagPurgePeriod("10000h"))
		must(err)
		r.d = viaInit{a}
	}
	effAt := func(inst []int, exp []time.Time, t time.Time) []int {
		o := make([]int, c.ND)
		for d := range o {
			if inst[d] != 0 && t.Before(exp[d]) {
				o[d] = inst[d]
			}
		}
		return o
	}
	for i, st := range c.Steps {
		i++
		r.mu.Lock()
		switch st.A {
		case "pub":
			r.vers[st.D-1], r.exps[st.D-1], r.mode[st.D-1] = st.V, at(st.Dexp), "ok"
		case "mode":
			r.mode[st.D-1] = st.K
		}
		r.mu.Unlock()
		preI, preE := append([]int(nil), r.curI...), append([]time.Time(nil), r.curE...)
		copy(r.curI, st.Inst)
		for d := range st.Exp {
			r.curE[d] = at(st.Exp[d])
		}
		switch st.A {
		case "upd":
			r.h.steps++
			err := r.d.Update(ctx)
			if (err != nil) != st.Err {
				r.viol(i, "Update returned %v, specified failure %v", err, st.Err)
			}
			if got, want := r.vector(), effAt(r.curI, r.curE, time.Now()); fmt.Sprint(got) != fmt.Sprint(want) {
				r.viol(i, "after the update the versions in effect are %v, specified %v", got, want)
			}
		case "tick":
			end := r.t0.Add(time.Duration(st.T+1) * T)
			r.s.Take()
			swapped := false
			// nothing may be asked of the daemon around the expiry: the refetch must not depend on lookups
			quiet := i%2 == 0
			for k := 1; k < 16; k++ {
				time.Sleep(r.t0.Add(time.Duration(st.T) * T).Add(time.Duration(k) * T / 16).Add(50 * time.Millisecond).Sub(time.Now()))
				if quiet && k < 11 {
					continue
				}
				r.h.steps++
				now := time.Now()
				obs := r.observe()
				preV, postV := effAt(preI, preE, now), effAt(r.curI, r.curE, now)
				pre, post := r.answers(preV), r.answers(postV)
				if swapped {
					pre = post
				}
				ok, sw := explain(obs, pre, post)
				swapped = swapped || sw
				if !ok {
					if !st.Refetch && len(r.s.Log) > 0 {
						r.h.Stat("extra_fetch", 1)
						return
					}
					r.viol(i, "at +%d/16 tick the versions in effect are %v; specified %v, or %v once the refetched policies take effect", k, r.show(obs), preV, postV)
				}
				if r.bad {
					return
				}
			}
			if st.Refetch {
				seen := map[string]bool{}
				for _, q := range r.s.Take() {
					if !q.At.Before(r.t0.Add(time.Duration(st.T)*T+3*T/10)) && q.At.Before(r.t0.Add(time.Duration(st.T)*T+6*T/10)) {
						seen[domainOf(q.URL)] = true
					}
				}
				for _, dm := range doms {
					if !seen[dm] {
						r.viol(i, "a policy in effect expired, but the policy of %s was not fetched within one purge period", dm)
					}
				}
			}
			if got, post := fmt.Sprint(r.vector()), fmt.Sprint(effAt(r.curI, r.curE, time.Now())); got != post {
				r.viol(i, "after the expiry the versions in effect are %s, specified %s", got, post)
			}
			want := map[string][]string{}
			for d, e := range effAt(r.curI, r.curE, time.Now()) {
				if e != 0 {
					addReport(want, pdPolicy(d+1, e))
				}
			}
			if m := compareReport(r.d.GetPolicyCache(bg()), want); m != "" {
				r.viol(i, "after the tick the effective policies are incomplete or mixed: %s", m)
			}
			time.Sleep(time.Until(end))
		}
		if r.bad {
			return
		}
	}
}

// viaInit drives the policy daemon of an authorizer.
type viaInit struct{ a authorizerd.Authorizerd }

func (v viaInit) Start(ctx context.Context) <-chan error { return v.a.Start(ctx) }
func (v viaInit) Update(ctx context.Context) error       { return v.a.Init(ctx) }
func (v viaInit) GetPolicyCache(ctx context.Context) map[string]interface{} {
	return v.a.GetPolicyCache(ctx)
}
func (v viaInit) CheckPolicy(ctx context.Context, domain string, roles []string, action, resource string) error {
	return v.a.VerifyRoleCert(ctx, []*x509.Certificate{mkCert("ca", domain+":role."+roles[0], "x", time.Now())}, action, resource)
}
func (v viaInit) CheckPolicyRoles(ctx context.Context, domain string, roles []string, action, resource string) ([]string, error) {
	return roles, v.CheckPolicy(ctx, domain, roles, action, resource)
}

// resign replaces the fake signatures of a document by real ones if they are right.
func resign(body, id string) string {
	var d util.DomainSignedPolicyData
	if json.Unmarshal([]byte(body), &d) != nil || d.SignedPolicyData == nil || d.SignedPolicyData.PolicyData == nil {
		return body
	}
	pb, _ := json.Marshal(d.SignedPolicyData.PolicyData)
	sb, _ := json.Marshal(d.SignedPolicyData)
	okM, okT := d.SignedPolicyData.ZmsSignature == fakeSign("zms", id, string(pb)), d.Signature == fakeSign("zts", id, string(sb))
	if okM {
		d.SignedPolicyData.ZmsSignature = ecKey("zms1").sign(string(pb))
	}
	if okT {
		sb, _ = json.Marshal(d.SignedPolicyData)
		d.Signature = ecKey("zts1").sign(string(sb))
	}
	b, _ := json.Marshal(d)
	return string(b)
}

func stageExpiry(h *H) {
	h.Cases(func(raw json.RawMessage) {
		var c peCase
		if err := json.Unmarshal(raw, &c); err != nil {
			h.t.Fatal(err)
		}
		h.Bubble(func() {
			(&peRun{pdRun: pdRun{h: h, c: &pdCase{ND: c.ND, MaxV: c.MaxV}, cmp: map[string]bool{}}}).run(&c)
		})
	})
}

var _ sync.Mutex
