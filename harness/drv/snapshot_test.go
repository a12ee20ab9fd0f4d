package drv

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"github.com/yahoojapan/athenz-authorizer/v5/policy"
)

type snStep struct {
	A    string  `json:"a"`
	V    int     `json:"v"`
	Kind string  `json:"kind"`
	D    int     `json:"d"`
	C    int     `json:"c"`
	G    string  `json:"g"`
	Done bool    `json:"done"`
	Err  bool    `json:"err"`
	Inst int     `json:"inst"`
	Seen [][]int `json:"seen"`
}
type snCase struct {
	ND    int      `json:"nd"`
	NChk  int      `json:"nchk"`
	MaxV  int      `json:"maxv"`
	Steps []snStep `json:"steps"`
}

func init() {
	stages["snapshot"] = stageSnapshot
	stages["snapstress"] = stageSnapStress
}

// snDoc: version v of domain d authorizes, for the action of check c, exactly the roles x<v> and y<v>
// of check c; z<v> is used by observers.
func snDoc(d, v, nchk int, exp time.Time, bad bool) string {
	dom := pdDom(d)
	var p1, p2 []Ass
	for c := 1; c <= nchk; c++ {
		p1 = append(p1, Ass{fmt.Sprintf("%s:role.x%d.%d", dom, c, v), "a", dom + ":res", "allow"})
		p2 = append(p2, Ass{fmt.Sprintf("%s:role.y%d.%d", dom, c, v), "a", dom + ":res", "allow"})
	}
	p1 = append(p1, Ass{fmt.Sprintf("%s:role.z%d", dom, v), "a", dom + ":res", "allow"})
	if bad {
		p2 = append(p2, Ass{fmt.Sprintf("%s:role.z%d", dom, v), "b", "malformed", "allow"})
	}
	return policyDoc(dom, [][]Ass{p1, p2}, exp, "k", "k")
}

type gates struct {
	mu   sync.Mutex
	ch   map[string]chan struct{} // closed = open
	hold bool
}

func (g *gates) open(k string) {
	g.mu.Lock()
	defer g.mu.Unlock()
	select {
	case <-g.ch[k]:
	default:
		close(g.ch[k])
	}
}

func stageSnapshot(h *H) {
	h.Cases(func(raw json.RawMessage) {
		var c snCase
		if err := json.Unmarshal(raw, &c); err != nil {
			h.t.Fatal(err)
		}
		h.Bubble(func() { snRun(h, &c) })
	})
}

func snRun(h *H, c *snCase) {
	ctx, cancel := context.WithCancel(bg())
	defer cancel()
	g := &gates{ch: map[string]chan struct{}{}}
	for k := 1; k <= c.NChk; k++ {
		for _, grp := range []string{"x", "y"} {
			g.ch[fmt.Sprintf("%s%d", grp, k)] = make(chan struct{})
			close(g.ch[fmt.Sprintf("%s%d", grp, k)])
		}
	}
	h.setYield(func(key string) {
		i := strings.Index(key, ":role.")
		if i < 0 {
			return
		}
		r := key[i+6:]
		if j := strings.IndexByte(r, '.'); j > 0 {
			r = r[:j]
		}
		g.mu.Lock()
		ch, hold := g.ch[r], g.hold
		g.mu.Unlock()
		if ch != nil && hold {
			<-ch
		}
	})
	defer h.setYield(nil)
	defer func() {
		for k := range g.ch {
			g.open(k)
		}
		cancel()
		synctest.Wait()
	}()
	exp := time.Now().Add(10000 * time.Hour)
	var mu sync.Mutex
	holds := map[string]chan struct{}{}
	cur, kind := 0, "ok"
	s := &Server{}
	s.H = func(u, inm string) *Resp {
		mu.Lock()
		defer mu.Unlock()
		dom := domainOf(u)
		d := 0
		fmt.Sscanf(dom, "dom%d", &d)
		if holds[dom] == nil {
			return &Resp{Err: fmt.Errorf("not in an update")}
		}
		return &Resp{Status: 200, ETag: fmt.Sprint("t", cur), Hold: holds[dom], Body: snDoc(d, cur, c.NChk, exp, kind == "bad" && d == c.ND)}
	}
	var doms []string
	for d := 1; d <= c.ND; d++ {
		doms = append(doms, pdDom(d))
	}
	d := newPolicyd(s, doms, policy.WithRetryDelay("1ms"), policy.WithPurgePeriod("10000h"))
	decode := func(roles []string, err error, want int) int {
		if err != nil {
			return 0
		}
		vs := map[string]int{}
		for _, r := range roles {
			vs[r[strings.LastIndexAny(r, ".z")+1:]]++
		}
		if len(vs) != 1 || len(uniq(roles)) != want {
			return -1
		}
		v := 0
		for k := range vs {
			fmt.Sscan(k, &v)
		}
		return v
	}
	var updErr error
	updDone := make(chan struct{})
	var updCancel context.CancelFunc
	type res struct {
		done  bool
		v     int
		roles []string
	}
	results := make([]*res, c.NChk+1)
	bad := false
	viol := func(i int, f string, a ...interface{}) {
		bad = true
		h.Violate(nil, "step %d: %s", i, fmt.Sprintf(f, a...))
	}
	observe := func(i int, inst int) {
		for dd := 1; dd <= c.ND; dd++ {
			h.steps++
			var roles []string
			for v := 1; v <= c.MaxV; v++ {
				roles = append(roles, fmt.Sprintf("z%d", v))
			}
			r, err := d.CheckPolicyRoles(bg(), pdDom(dd), roles, "a", "res")
			if got := decode(r, err, 1); got != inst {
				viol(i, "the snapshot in effect is %d, but a check on %s answers as snapshot %d (%v)", inst, pdDom(dd), got, r)
			}
		}
		want := map[string][]string{}
		if inst > 0 {
			for dd := 1; dd <= c.ND; dd++ {
				var doc struct {
					SignedPolicyData struct {
						PolicyData struct {
							Policies []struct{ Assertions []Ass }
						}
					}
				}
				if err := json.Unmarshal([]byte(snDoc(dd, inst, c.NChk, exp, false)), &doc); err != nil {
					panic(err)
				}
				var ps [][]Ass
				for _, p := range doc.SignedPolicyData.PolicyData.Policies {
					ps = append(ps, p.Assertions)
				}
				addReport(want, ps)
			}
		}
		if m := compareReport(d.GetPolicyCache(bg()), want); m != "" {
			viol(i, "the snapshot in effect is %d, but the policy cache differs: %s", inst, m)
		}
	}
	for i, st := range c.Steps {
		i++
		switch st.A {
		case "upd":
			mu.Lock()
			cur, kind = st.V, st.Kind
			for _, dm := range doms {
				holds[dm] = make(chan struct{})
			}
			mu.Unlock()
			uctx, uc := context.WithCancel(ctx)
			updCancel = uc
			done := make(chan struct{})
			updDone = done
			go func() {
				defer close(done)
				h.Call("Update", func() { updErr = d.Update(uctx) })
			}()
			synctest.Wait()
		case "ans", "cancel":
			if st.A == "ans" {
				close(holds[pdDom(st.D)])
			} else {
				updCancel()
			}
			synctest.Wait()
			if st.Done {
				time.Sleep(100 * time.Millisecond) // retries of a cancelled fetch
				synctest.Wait()
				select {
				case <-updDone:
					if (updErr != nil) != st.Err {
						viol(i, "Update returned %v; specified failure: %v", updErr, st.Err)
					}
				default:
					viol(i, "the update did not return")
				}
			}
		case "chk":
			for _, grp := range []string{"x", "y"} {
				g.ch[fmt.Sprintf("%s%d", grp, st.C)] = make(chan struct{})
			}
			var roles []string
			for v := 1; v <= c.MaxV; v++ {
				roles = append(roles, fmt.Sprintf("x%d.%d", st.C, v), fmt.Sprintf("y%d.%d", st.C, v))
			}
			r := &res{}
			results[st.C] = r
			g.mu.Lock()
			g.hold = true
			g.mu.Unlock()
			go h.Call("CheckPolicyRoles", func() {
				rs, err := d.CheckPolicyRoles(bg(), pdDom(1), roles, "a", "res")
				r.roles, r.v, r.done = rs, decode(rs, err, 2), true
			})
			synctest.Wait()
			g.mu.Lock()
			g.hold = false
			g.mu.Unlock()
		case "look":
			g.mu.Lock()
			g.hold = true
			g.mu.Unlock()
			g.open(fmt.Sprintf("%s%d", st.G, st.C))
			synctest.Wait()
			g.mu.Lock()
			g.hold = false
			g.mu.Unlock()
			if st.Done {
				r := results[st.C]
				h.steps++
				if !r.done {
					viol(i, "the check does not return")
				} else {
					ok := false
					for _, v := range st.Seen[st.C-1] {
						ok = ok || v == r.v
					}
					if !ok {
						viol(i, "check %d answered as snapshot %d (roles %v); snapshots in effect during it: %v", st.C, r.v, r.roles, st.Seen[st.C-1])
					}
				}
			}
		}
		if !bad {
			observe(i, st.Inst)
		}
		if bad {
			return
		}
	}
}

// stageSnapStress records a history of real concurrent updates, checks and reports.
func stageSnapStress(h *H) {
	h.Case(0, json.RawMessage(`"stress"`), func(json.RawMessage) {
		const nd, bits, rep = 3, 8, 12
		updates := 200
		type ev struct {
			seq int64
			m   map[string]interface{}
		}
		var evs []ev
		var emu sync.Mutex
		var seq int64
		add := func(s int64, m map[string]interface{}) { emu.Lock(); evs = append(evs, ev{s, m}); emu.Unlock() }
		next := func() int64 { return atomic.AddInt64(&seq, 1) }
		exp := time.Now().Add(time.Hour)
		var cur int64
		var kind atomic.Value
		kind.Store("ok")
		rng := rand.New(rand.NewSource(h.seed))
		// version v authorizes for every bit b of v and copy k the role b<b>.<bit value>.<k>
		mk := func(d, v int, bad bool) string {
			dom := pdDom(d)
			ps := make([][]Ass, 4)
			for b := 0; b < bits; b++ {
				for k := 0; k < rep; k++ {
					j := (b*rep + k) % 4
					role := fmt.Sprintf("%s:role.b%d.%d.%d", dom, b, v>>b&1, k)
					ps[j] = append(ps[j], Ass{role, "a", dom + ":res", "allow"})
					if k%4 == 0 { // others, that do not match
						ps[j] = append(ps[j], Ass{role, "c", dom + ":res", "allow"}, Ass{role, "b", dom + ":other", "allow"}, Ass{role, "x", dom + ":res", "deny"}, Ass{role, "0", dom + ":res", "allow"})
					}
				}
			}
			if bad {
				ps[1] = append(ps[1], Ass{dom + ":role.m", "a", "malformed", "allow"})
			}
			return policyDoc(dom, ps, exp, "k", "k")
		}
		s := &Server{}
		s.H = func(u, inm string) *Resp {
			d := 0
			fmt.Sscanf(domainOf(u), "dom%d", &d)
			return &Resp{Status: 200, Body: mk(d, int(atomic.LoadInt64(&cur)), kind.Load() == "bad" && d == 2)}
		}
		d := newPolicyd(s, []string{pdDom(1), pdDom(2), pdDom(3)}, policy.WithPurgePeriod("10000h"))
		ctx, cancel := context.WithCancel(bg())
		defer cancel()
		decodeRoles := func(rs []string) int {
			v, seen := 0, make([]int, bits)
			for _, r := range rs {
				var b, x, k int
				if n, _ := fmt.Sscanf(r, "b%d.%d.%d", &b, &x, &k); n != 3 {
					return -1
				}
				if seen[b] != 0 && seen[b] != x+1 {
					return -1
				}
				seen[b] = x + 1
				v |= x << b
			}
			if len(rs) != bits*rep {
				return -1
			}
			return v
		}
		stop := make(chan struct{})
		var wg sync.WaitGroup
		var all []string
		for b := 0; b < bits; b++ {
			for x := 0; x < 2; x++ {
				for k := 0; k < rep; k++ {
					all = append(all, fmt.Sprintf("b%d.%d.%d", b, x, k))
				}
			}
		}
		for w := 0; w < 6; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				for n := 0; n < 60000; n++ {
					select {
					case <-stop:
						return
					default:
					}
					id := fmt.Sprint(w)
					s0 := next()
					v := 0
					if w == 5 {
						m := d.GetPolicyCache(ctx)
						per := map[string][]string{}
						for k := range m {
							i := strings.Index(k, ":role.")
							per[k[:i]] = append(per[k[:i]], k[i+6:])
						}
						vs := map[int]bool{}
						for _, rs := range per {
							vs[decodeRoles(rs)] = true
						}
						if len(m) > 0 {
							v = -1
							if len(vs) == 1 && len(per) == nd {
								for x := range vs {
									v = x
								}
							}
						}
					} else {
						rs, err := d.CheckPolicyRoles(ctx, pdDom(1+w%nd), all, "a", "res")
						if err == nil {
							v = decodeRoles(rs)
						}
					}
					e0 := next()
					h.mu.Lock()
					h.steps++
					h.mu.Unlock()
					add(s0, map[string]interface{}{"e": "cs", "c": id})
					add(e0, map[string]interface{}{"e": "ce", "c": id, "v": v})
					time.Sleep(time.Duration(n%3) * 50 * time.Microsecond)
				}
			}(w)
		}
		for u := 1; u <= updates; u++ {
			time.Sleep(time.Duration(rng.Intn(3)) * time.Millisecond)
			atomic.StoreInt64(&cur, int64(u))
			k := "ok"
			if rng.Intn(4) == 0 {
				k = "bad"
			}
			kind.Store(k)
			s0 := next()
			err := d.Update(ctx)
			e0 := next()
			add(s0, map[string]interface{}{"e": "us", "v": u})
			add(e0, map[string]interface{}{"e": "ue", "v": u, "ok": err == nil})
		}
		close(stop)
		wg.Wait()
		sort.Slice(evs, func(i, j int) bool { return evs[i].seq < evs[j].seq })
		for _, e := range evs {
			e.m["t"] = "ev"
			h.Emit(e.m)
		}
	})
}
