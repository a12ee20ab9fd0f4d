package drv

import (
	"crypto/x509"
	"encoding/json"
	"fmt"
	"net/url"
	"sync"
	"time"

	authorizerd "github.com/yahoojapan/athenz-authorizer/v5"
)

type rcCase struct {
	Cs []struct {
		Cn   []string
		Uris [][]string
	}
	Pre []string
	Eff []struct {
		D, R []string
		E    string
	}
	On, Ok bool
}

// Stage "rolecert" (C23).
func init() {
	stages["rolecert"] = func(h *H) {
		h.Bubble(func() {
			as := map[string]authorizerd.Authorizerd{}
			now := time.Now()
			var mu sync.Mutex
			h.CasesShared(func(h *H, raw json.RawMessage) {
				var c rcCase
				must(json.Unmarshal(raw, &c))
				eb, _ := json.Marshal(c.Eff)
				pre := join(c.Pre)
				id := fmt.Sprint(c.On, pre, string(eb))
				mu.Lock()
				a, ok := as[id]
				if !ok {
					w := newWorld()
					doms := map[string][][]Ass{}
					var ds []string
					for i, e := range c.Eff {
						d, r := join(e.D), join(e.R)
						if doms[d] == nil {
							ds = append(ds, d)
							// action and resource have to match: every role may do something else
							doms[d] = [][]Ass{{}}
						}
						full := d + ":role." + r
						as := []Ass{{full, "other", d + ":*", "allow"}, {full, "act", d + ":elsewhere", "allow"}}
						if e.E == "allow" || e.E == "both" {
							as = append(as, Ass{full, "a?t", d + ":res*", "allow"})
						}
						if e.E == "deny" || e.E == "both" {
							as = append(as, Ass{full, "act", d + ":res", "deny"})
						}
						if i%2 == 0 {
							as = append(as, Ass{full, "act", "foreign:res", "allow"})
						}
						doms[d] = append(doms[d], as)
					}
					for d, p := range doms {
						w.setPolicy(d, p, now.Add(1000*time.Hour))
					}
					opts := []authorizerd.Option{authorizerd.WithDisableJwkd(), authorizerd.WithEnableRoleCert(), authorizerd.WithPubkeyETagPurgePeriod("10000h")}
					if pre != "athenz://role/" {
						opts = append(opts, authorizerd.WithRoleCertURIPrefix(pre))
					}
					if !c.On {
						opts = append(opts, authorizerd.WithDisablePolicyd())
					}
					a = w.authz(ds, opts...)
					must(a.Init(bg()))
					as[id] = a
				}
				mu.Unlock()
				var certs []*x509.Certificate
				for _, x := range c.Cs {
					var us []string
					for _, u := range x.Uris {
						us = append(us, join(u))
					}
					certs = append(certs, mkCert("ca", join(x.Cn), fmt.Sprint(len(us), x.Cn, us), now, us...))
				}
				if len(raw)%3 == 0 { // nothing where something is expected names no role
					for _, x := range certs {
						x.URIs = append([]*url.URL{nil}, x.URIs...)
					}
					certs = append([]*x509.Certificate{nil}, certs...)
				}
				h.steps++
				// the outcome must not depend on the order in which domains are looked at
				for k := 0; k < 3; k++ {
					var err error
					if !h.Call("VerifyRoleCert", func() { err = a.VerifyRoleCert(bg(), certs, "act", "res") }) {
						return
					}
					if (err == nil) != c.Ok {
						h.Violate(nil, "role certificates: accepted=%v (%v), specified %v", err == nil, err, c.Ok)
						return
					}
				}
				if c.Ok {
					h.Stat("accepted", 1)
				}
			})
		})
	}
}
