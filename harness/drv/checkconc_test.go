package drv

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"time"
)

func init() { stages["checkconc"] = stageCheckConc }

// stageCheckConc runs access checks, each role of the case many times, while the request's context ends at random moments.
func stageCheckConc(h *H) {
	rounds := 25
	if h.tier == "thorough" {
		rounds = 1000
	}
	rng := rand.New(rand.NewSource(h.seed))
	const width = 24
	h.Cases(func(raw json.RawMessage) {
		var c struct {
			Eff []string
			Exp []int
		}
		if err := json.Unmarshal(raw, &c); err != nil {
			h.t.Fatal(err)
		}
		var as []Ass
		var roles []string
		role := func(i, w int) string { return fmt.Sprintf("r%dw%d", i, w) }
		want := []string{}
		for w := 0; w < width; w++ {
			for i, e := range c.Eff {
				ef := e
				if e == "deny" && w != width-1-i {
					ef = "allow"
				}
				roles = append(roles, role(i, w))
				for k := 0; k < 3; k++ { // assertions that do not match come first
					as = append(as, Ass{"d:role." + role(i, w), fmt.Sprint("other", k), "d:res", "deny"})
				}
				if ef != "none" {
					as = append(as, Ass{"d:role." + role(i, w), "act", "d:res", ef})
				}
			}
		}
		for _, i := range c.Exp {
			for w := 0; w < width; w++ {
				want = append(want, role(i-1, w))
			}
		}
		s := &Server{}
		doc := policyDoc("d", [][]Ass{as}, time.Now().Add(10*time.Hour), "k", "k")
		s.H = func(u, inm string) *Resp { return &Resp{Status: 200, Body: doc} }
		d := newPolicyd(s, []string{"d"})
		if err := d.Update(bg()); err != nil {
			h.Violate(nil, "update failed: %v", err)
			return
		}
		wants := fmt.Sprint(uniq(want))
		took := time.Duration(0)
		for r := 0; r < rounds && !h.Full(); r++ {
			ctx, cancel := context.WithCancel(bg())
			rng.Shuffle(len(roles), func(i, j int) { roles[i], roles[j] = roles[j], roles[i] })
			if r%5 != 0 {
				wait := time.Duration(rng.Int63n(int64(took + 1)))
				t := time.Now()
				go func() {
					for time.Since(t) < wait {
					}
					cancel()
				}()
			}
			t := time.Now()
			got, err := d.CheckPolicyRoles(ctx, "d", roles, "act", "res")
			if r%5 == 0 {
				took = time.Since(t)
			}
			h.steps++
			if err == nil && fmt.Sprint(uniq(got)) != wants {
				h.Violate(map[string]int{"round": r}, "%d roles, some denied or not matching (%v), the context ends during the check: granted with %d roles, specified %d", len(roles), c.Eff, len(uniq(got)), len(want))
			}
			if err != nil && r%5 == 0 && len(want) > 0 {
				h.Violate(nil, "%v: rejected: %v", c.Eff, err)
			}
			if r%5 != 0 {
				if err == nil {
					h.Stat("granted", 1)
				} else {
					h.Stat("rejected", 1)
				}
			}
			cancel()
		}
	})
}
