package drv

import (
	"context"
	"encoding/json"
	"fmt"
	"time"

	authorizerd "github.com/yahoojapan/athenz-authorizer/v5"
	"github.com/yahoojapan/athenz-authorizer/v5/policy"
)

type repCase struct {
	Doc [][]specAss `json:"doc"`
	Rep []struct {
		Rod  []string `json:"rod"`
		Role []string `json:"role"`
		As   []struct {
			Act  []string `json:"act"`
			Rd   []string `json:"rdom"`
			Res  []string `json:"res"`
			Deny bool     `json:"deny"`
		} `json:"as"`
	} `json:"rep"`
}

func init() { stages["report"] = stageReport }

// stageReport installs documents and compares the whole reported cache.
func stageReport(h *H) {
	type ent struct {
		i   int
		raw json.RawMessage
		c   repCase
	}
	var buf []ent
	flush := func() {
		if len(buf) == 0 {
			return
		}
		h.Bubble(func() {
			ctx, cancel := context.WithCancel(bg())
			defer cancel()
			h.cur, h.curIn = buf[0].i, nil
			s := &Server{}
			var doms []string
			docs := map[string]string{}
			want := map[string][]string{}
			exp := time.Now().Add(1000 * time.Hour)
			for k, e := range buf {
				dom := fmt.Sprintf("dom%d", k)
				doms = append(doms, dom)
				pc := polCase{Doc: e.c.Doc}
				docs[dom] = policyDoc(dom, pc.assertions(k), exp, "k", "k")
				for _, r := range e.c.Rep {
					role := own(r.Rod, k) + ":role." + own(r.Role, k)
					for _, a := range r.As {
						eff := "allow"
						if a.Deny {
							eff = "deny"
						}
						want[role] = append(want[role], fmt.Sprintf("%q %q %q %s", own(a.Act, k), own(a.Res, k), own(a.Rd, k), eff))
					}
				}
			}
			broken := false
			s.H = func(u, inm string) *Resp {
				if broken && domainOf(u) == doms[len(doms)-1] {
					return &Resp{Status: 500}
				}
				return &Resp{Status: 200, Body: docs[domainOf(u)]}
			}
			d := newPolicyd(s, doms, policy.WithPurgePeriod("5000h"))
			check := func(when string, want map[string][]string) {
				h.steps++
				if m := compareReport(d.GetPolicyCache(bg()), want); m != "" {
					h.Violate(nil, "%s: %s", when, m)
				}
			}
			check("before the first update", map[string][]string{})
			broken = true
			if err := d.Update(ctx); err == nil {
				h.Violate(nil, "an update without usable policies for a domain succeeded")
			}
			check("after a failed first update", map[string][]string{})
			broken = false
			if err := d.Update(ctx); err != nil {
				h.Violate(nil, "installing valid policies failed: %v", err)
				return
			}
			check("after the update", want)
			c2, cancel2 := context.WithCancel(ctx)
			cancel2()
			if err := d.Update(c2); err == nil {
				h.Violate(nil, "an update with an ended context succeeded")
			}
			check("after a failed update", want)
			time.Sleep(1001 * time.Hour)
			check("after every policy expired", map[string][]string{})
			cancel()
		})
		buf = nil
	}
	// with policy checking disabled
	w := newWorld()
	a := w.authz([]string{"d"}, authorizerd.WithDisablePolicyd())
	h.Call("GetPolicyCache with policy checking disabled", func() {
		for i := 0; i < 2; i++ {
			h.steps++
			if m := a.GetPolicyCache(bg()); m == nil || len(m) != 0 {
				h.Violate(nil, "policy checking disabled: the reported cache is %v (nil: %v)", m, m == nil)
			}
			if i == 0 {
				a.Init(bg())
			}
		}
	})
	h.Cases(func(raw json.RawMessage) {
		var c repCase
		if err := json.Unmarshal(raw, &c); err != nil {
			h.t.Fatal(err)
		}
		if c.Rep == nil && c.Doc == nil {
			h.n--
			return
		}
		buf = append(buf, ent{h.cur, raw, c})
		if len(buf) == 40 {
			flush()
		}
	})
	flush()
}
