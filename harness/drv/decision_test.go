package drv

import (
	"context"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/yahoojapan/athenz-authorizer/v5/policy"
)

type specAss struct {
	Role []string `json:"role"`
	Act  []string `json:"act"`
	Rd   []string `json:"rdom"`
	Res  []string `json:"res"`
	Eff  string   `json:"eff"`
}
type specReq struct {
	Dom   []string   `json:"dom"`
	Roles [][]string `json:"roles"`
	Act   []string   `json:"act"`
	Res   []string   `json:"res"`
}
type polCase struct {
	Doc  [][]specAss  `json:"doc"`
	Rq   string       `json:"rq"`
	Def  []specReq    `json:"def"`
	Reqs []specReq    `json:"reqs"`
	Exp  [][][]string `json:"exp"`
}

func init() {
	stages["decision"] = stageDecision
	stages["mergerace"] = stageMergeRace
}

// own replaces the symbolic domain names.
func own(cs []string, k int) string {
	s := ""
	for _, c := range cs {
		switch c {
		case "DOM":
			s += fmt.Sprintf("dom%d", k)
		case "DOMU":
			s += fmt.Sprintf("DOM%d", k)
		case "OTH":
			s += "other"
		default:
			s += unchar(c)
		}
	}
	return s
}

func (c *polCase) assertions(k int) [][]Ass {
	var ps [][]Ass
	for _, p := range c.Doc {
		as := []Ass{}
		for _, a := range p {
			as = append(as, Ass{fmt.Sprintf("dom%d:role.%s", k, own(a.Role, k)), own(a.Act, k), own(a.Rd, k) + ":" + own(a.Res, k), a.Eff})
		}
		ps = append(ps, as)
	}
	return ps
}

func uniq(xs []string) []string {
	m := map[string]bool{}
	r := []string{}
	for _, x := range xs {
		if !m[x] {
			m[x] = true
			r = append(r, x)
		}
	}
	sort.Strings(r)
	return r
}

// checkRoles compares one decision with the prescribed set of authorized roles ({} = rejected).
func (h *H) checkRoles(d policy.Daemon, dom string, roles []string, act, res string, want []string, ctxmsg string) {
	h.steps++
	got, err := d.CheckPolicyRoles(bg(), dom, roles, act, res)
	w := uniq(want)
	if err != nil {
		if len(w) != 0 {
			h.Violate(nil, "%srequest %s roles=%q action=%q resource=%q: spec grants with roles %v, code rejects: %v", ctxmsg, dom, roles, act, res, w, err)
		} else if got != nil && len(got) > 0 {
			h.Violate(nil, "%srequest %s roles=%q action=%q resource=%q rejected but authorized roles %v returned", ctxmsg, dom, roles, act, res, got)
		}
		return
	}
	if len(w) == 0 {
		h.Violate(nil, "%srequest %s roles=%q action=%q resource=%q: spec rejects, code grants with roles %v", ctxmsg, dom, roles, act, res, got)
		return
	}
	if fmt.Sprint(uniq(got)) != fmt.Sprint(w) {
		h.Violate(nil, "%srequest %s roles=%q action=%q resource=%q: spec authorizes roles %v, code %v", ctxmsg, dom, roles, act, res, w, got)
	}
}

type ending struct {
	key    string
	cancel func()
}

func stageDecision(h *H) {
	const batch = 150
	defs := map[string][]specReq{}
	type ent struct {
		i   int
		raw json.RawMessage
		c   polCase
	}
	var buf []ent
	flush := func() {
		if len(buf) == 0 {
			return
		}
		h.Bubble(func() {
			ctx, cancel := context.WithCancel(bg())
			defer cancel()
			s := &Server{}
			var doms []string
			docs := map[string]string{}
			exp := time.Now().Add(1000 * time.Hour)
			for k, e := range buf {
				dom := fmt.Sprintf("dom%d", k)
				doms = append(doms, dom)
				docs[dom] = policyDoc(dom, e.c.assertions(k), exp, "k", "k")
			}
			s.H = func(u, inm string) *Resp { return &Resp{Status: 200, Body: docs[domainOf(u)]} }
			d := newPolicyd(s, doms)
			if err := d.Update(ctx); err != nil {
				h.cur, h.curIn = buf[0].i, buf[0].raw
				h.Violate(nil, "installing valid policies failed: %v", err)
				return
			}
			var order sync.Map     // cache key -> delay of its lookup
			var endAt atomic.Value // cache key -> the request ends in its lookup
			h.setYield(func(key string) {
				if v, ok := order.Load(key); ok {
					time.Sleep(v.(time.Duration))
				}
				if e, ok := endAt.Load().(ending); ok && e.key == key {
					time.Sleep(time.Millisecond)
					e.cancel()
				}
			})
			defer h.setYield(nil)
			ask := func(h *H, k int, e ent) {
				h.cur, h.curIn = e.i, e.raw
				reqs := e.c.Reqs
				if e.c.Rq != "inline" {
					reqs = defs[e.c.Rq]
				}
				if len(reqs) != len(e.c.Exp) {
					h.t.Fatalf("case %d: %d requests, %d expectations", e.i, len(reqs), len(e.c.Exp))
				}
				for qi, q := range reqs {
					dom := own(q.Dom, k)
					var roles, want []string
					for _, r := range q.Roles {
						roles = append(roles, own(r, k))
					}
					for _, r := range e.c.Exp[qi] {
						want = append(want, own(r, k))
					}
					// every order of role evaluation: rotate which lookup is slow
					n := len(uniq(roles))
					ords := n
					if n <= 1 || len(e.c.Doc) == 0 {
						ords = 1
					}
					if ords > 6 {
						ords = 6
					}
					for o := 0; o < ords; o++ {
						if ords > 1 {
							for ri, r := range uniq(roles) {
								order.Store(dom+":role."+r, time.Duration((ri+o)%n)*time.Millisecond)
							}
						}
						h.checkRoles(d, dom, roles, own(q.Act, k), own(q.Res, k), want, "")
						if ords > 1 {
							order.Range(func(k, v interface{}) bool { order.Delete(k); return true })
						}
						if (d.CheckPolicy(bg(), dom, roles, own(q.Act, k), own(q.Res, k)) == nil) != (len(want) > 0) {
							h.Violate(nil, "CheckPolicy differs from the specified decision for %s %q", dom, roles)
						}
					}
					// the request's context ends in the lookup of each of the roles (and before all of them):
					// the answer is the specified one or a rejection
					if len(e.c.Doc) > 0 && (qi+e.i)%3 == 0 && h.share <= 1 {
						for ri, r := range append(uniq(roles), "") {
							if ri > 4 && r != "" {
								continue
							}
							cctx, end := context.WithCancel(bg())
							if r == "" {
								end()
							}
							endAt.Store(ending{dom + ":role." + r, end})
							got, err := d.CheckPolicyRoles(cctx, dom, roles, own(q.Act, k), own(q.Res, k))
							end()
							h.steps++
							if err == nil && fmt.Sprint(uniq(got)) != fmt.Sprint(uniq(want)) {
								h.Violate(nil, "request %s roles=%q action=%q resource=%q, ended in the lookup of role %q: code grants with roles %v, specified %v", dom, roles, own(q.Act, k), own(q.Res, k), r, got, want)
							}
						}
						endAt.Store(ending{})
					}
					if h.Full() {
						return
					}
				}
			}
			h.shared(len(buf), func(h *H, k int) {
				if !h.Full() {
					ask(h, k, buf[k])
				}
			})
			cancel()
		})
		buf = nil
	}
	h.defBy = `"def"`
	h.isDef = func(raw json.RawMessage) bool {
		var c polCase
		if json.Unmarshal(raw, &c) == nil && c.Def != nil {
			defs[c.Rq] = c.Def
			return true
		}
		return false
	}
	h.Cases(func(raw json.RawMessage) {
		var c polCase
		if err := json.Unmarshal(raw, &c); err != nil {
			h.t.Fatal(err)
		}
		buf = append(buf, ent{h.cur, raw, c})
		if len(buf) >= batch {
			flush()
		}
	})
	if !h.Full() {
		flush()
	}
}

// barrierCtx makes the goroutines that poll Done() collide: each call waits (briefly) for a peer.
type barrierCtx struct {
	context.Context
	armed   atomic.Bool
	n       int64
	arrived atomic.Int64
	misses  atomic.Int64
}

func (b *barrierCtx) Done() <-chan struct{} {
	if b.armed.Load() && b.misses.Load() < 200 {
		a := b.arrived.Add(1)
		goal := (a + b.n - 1) / b.n * b.n
		t := time.Now()
		for b.arrived.Load() < goal {
			if time.Since(t) > 100*time.Microsecond {
				b.misses.Add(1)
				break
			}
		}
	}
	return b.Context.Done()
}

// mergeCase: several policies of one document state the same assertions with different effects.
type mergeCase struct {
	Pols [][]struct {
		K   int    `json:"k"`
		Eff string `json:"eff"`
	} `json:"pols"`
	Exp []string `json:"exp"` // per key: allow, deny, none
}

func stageMergeRace(h *H) {
	rounds := 40
	if h.tier == "thorough" {
		rounds = 400
	}
	h.Cases(func(raw json.RawMessage) {
		var c mergeCase
		if err := json.Unmarshal(raw, &c); err != nil {
			h.t.Fatal(err)
		}
		for r := 0; r < rounds && !h.Full(); r++ {
			// each abstract key stands for many concrete assertions, walked concurrently in the same order
			const width = 40
			var pols [][]Ass
			for _, p := range c.Pols {
				as := []Ass{}
				for w := 0; w < width; w++ {
					for _, a := range p {
						as = append(as, Ass{fmt.Sprintf("d:role.k%dw%d", a.K, w), "act", "d:res", a.Eff})
					}
				}
				pols = append(pols, as)
			}
			s := &Server{}
			doc := policyDoc("d", pols, time.Now().Add(time.Hour), "k", "k")
			base, cancel := context.WithCancel(bg())
			bc := &barrierCtx{Context: base, n: int64(len(pols))}
			s.H = func(u, inm string) *Resp { bc.armed.Store(r%2 == 0); return &Resp{Status: 200, Body: doc} }
			d := newPolicyd(s, []string{"d"})
			err := d.Update(bc)
			bc.armed.Store(false)
			if err != nil {
				h.Violate(nil, "update failed: %v", err)
			}
			for k, want := range c.Exp {
				for w := 0; w < width; w++ {
					h.steps++
					e := d.CheckPolicy(bg(), "d", []string{fmt.Sprintf("k%dw%d", k+1, w)}, "act", "res")
					got := "none"
					if e == nil {
						got = "allow"
					} else if strings.Contains(e.Error(), "deny") {
						got = "deny"
					}
					if (got == "allow") != (want == "allow") {
						h.Violate(map[string]int{"round": r, "key": k + 1, "copy": w}, "concurrent merge: spec says %s, code says %s (%v)", want, got, e)
					}
				}
			}
			cancel()
		}
	})
}
