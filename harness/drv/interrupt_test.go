package drv

import (
	"context"
	"encoding/json"
	"fmt"
	"sync"
	"time"

	"github.com/yahoojapan/athenz-authorizer/v5/policy"
)

// countCtx is a context that ends when it is looked at for the n-th time.
type countCtx struct {
	context.Context
	mu    sync.Mutex
	n     int
	looks int
	done  chan struct{}
}

func newCountCtx(n int) *countCtx {
	return &countCtx{Context: bg(), n: n, done: make(chan struct{})}
}

func (c *countCtx) look() {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.looks++; c.looks == c.n {
		close(c.done)
	}
}

func (c *countCtx) Done() <-chan struct{} { c.look(); return c.done }

func (c *countCtx) Err() error {
	c.look()
	select {
	case <-c.done:
		return context.Canceled
	default:
		return nil
	}
}

type inCase struct {
	Nd, Np int
	Ks     []int
}

func init() { stages["interrupt"] = stageInterrupt }

// inDoc: version v authorizes role x for the action v<v>, denies it the action n<v>, in each policy for one resource.
func inDoc(d, v, np int, exp time.Time) string {
	var ps [][]Ass
	for p := 1; p <= np; p++ {
		r := fmt.Sprintf("%s:r%d", pdDom(d), p)
		ps = append(ps, []Ass{{pdDom(d) + ":role.x", fmt.Sprint("v", v), r, "allow"}, {pdDom(d) + ":role.x", "*", r, "allow"}, {pdDom(d) + ":role.x", fmt.Sprint("n", v), r, "deny"}})
	}
	return policyDoc(pdDom(d), ps, exp, "k", "k")
}

func stageInterrupt(h *H) {
	exp := time.Now().Add(10000 * time.Hour)
	docs := map[string]string{}
	h.Cases(func(raw json.RawMessage) {
		var c inCase
		if err := json.Unmarshal(raw, &c); err != nil {
			h.t.Fatal(err)
		}
		v := 1
		s := &Server{}
		var mu sync.Mutex
		s.H = func(u, inm string) *Resp {
			mu.Lock()
			defer mu.Unlock()
			var d int
			fmt.Sscanf(domainOf(u), "dom%d", &d)
			id := fmt.Sprint(d, v, c.Np)
			if docs[id] == "" {
				docs[id] = inDoc(d, v, c.Np, exp)
			}
			return &Resp{Status: 200, Body: docs[id], ETag: fmt.Sprint("t", v)}
		}
		var doms []string
		for d := 1; d <= c.Nd; d++ {
			doms = append(doms, pdDom(d))
		}
		d := newPolicyd(s, doms, policy.WithRetryAttempts(0), policy.WithRetryDelay("1ns"))
		if err := d.Update(bg()); err != nil {
			h.Violate(nil, "the first update failed: %v", err)
			return
		}
		inst := 1
		// which version decides the requests on each resource of each domain
		see := func() map[int]int {
			m := map[int]int{}
			for dd := 1; dd <= c.Nd; dd++ {
				for p := 1; p <= c.Np; p++ {
					for x := 1; x <= v; x++ {
						if d.CheckPolicy(bg(), pdDom(dd), []string{"x"}, fmt.Sprint("n", x), fmt.Sprint("r", p)) != nil {
							m[x]++
						}
					}
					if d.CheckPolicy(bg(), pdDom(dd), []string{"x"}, "any", fmt.Sprint("r", p)) != nil {
						m[-1]++ // nothing decides it
					}
				}
			}
			return m
		}
		for i, k := range c.Ks {
			mu.Lock()
			v++
			mu.Unlock()
			cc := newCountCtx(k)
			var err error
			if !h.Call("Update", func() { err = d.Update(cc) }) {
				return
			}
			h.steps++
			if err == nil {
				inst = v
				h.Stat("installed", 1)
			} else {
				h.Stat("failed", 1)
			}
			if m := see(); len(m) != 1 || m[inst] != c.Nd*c.Np {
				h.Violate(nil, "update %d, its context ended at look %d of %d (result %v): version %d of all the policies should decide, the numbers of policies in effect per version are %v", i+1, k, cc.looks, err, inst, m)
				return
			}
		}
		mu.Lock()
		v++
		mu.Unlock()
		if err := d.Update(bg()); err != nil {
			h.Violate(nil, "the update after interrupted ones failed: %v", err)
		} else if m := see(); len(m) != 1 || m[v] != c.Nd*c.Np {
			h.Violate(nil, "after an update to version %d the numbers of policies in effect per version are %v", v, m)
		}
	})
}
