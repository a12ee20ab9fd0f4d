package drv

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/url"
	"os"
	"strings"
	"time"

	authorizerd "github.com/yahoojapan/athenz-authorizer/v5"
)

type trCase struct {
	Ok    bool
	Rules []struct {
		D    string
		Null bool
		L    []struct{ M, Path, Act, Res string }
	}
	Reqs []struct {
		D, M, Path, Query string
		Want              struct{ O, Act, Res string }
	}
}

func init() { stages["translator"] = stageTranslator }

func stageTranslator(h *H) {
	e2e := strings.Contains(os.Getenv("VP_CMP"), "e2e")
	valid := strings.Contains(os.Getenv("VP_CMP"), "valid")
	h.Bubble(func() {
		n, granted := 0, 0
		now := time.Now()
		h.Cases(func(raw json.RawMessage) {
			c := &trCase{}
			if err := json.Unmarshal(raw, c); err != nil {
				h.t.Fatal(err)
			}
			n++
			rules := map[string][]authorizerd.Rule{}
			for _, d := range c.Rules {
				var l []authorizerd.Rule
				if !d.Null {
					l = []authorizerd.Rule{}
				}
				for _, r := range d.L {
					l = append(l, authorizerd.Rule{Method: r.M, Path: r.Path, Action: r.Act, Resource: r.Res})
				}
				rules[d.D] = l
			}
			what := func() string { b, _ := json.Marshal(c.Rules); return string(b) }
			var mr *authorizerd.MappingRules
			var err error
			if !h.Call("NewMappingRules", func() { mr, err = authorizerd.NewMappingRules(rules) }) {
				return
			}
			h.steps++
			if (err == nil) != c.Ok {
				h.Violate(nil, "rules %s: accepted=%v (%v), specified %v", what(), err == nil, err, c.Ok)
				return
			}
			if valid || err != nil {
				return
			}
			ask := func(h *H, i int) {
				q := c.Reqs[i%len(c.Reqs)]
				var act, res string
				var err error
				if !h.Call("Translate", func() { act, res, err = mr.Translate(q.D, q.M, q.Path, q.Query) }) {
					return
				}
				h.steps++
				switch {
				case q.Want.O == "error" && err == nil:
					h.Violate(nil, "rules %s, request %q %q?%q in %q: translated to %q %q, specified an error", what(), q.M, q.Path, q.Query, q.D, act, res)
				case q.Want.O == "error" || (q.Want.O == "error?" && err != nil):
				case err != nil || act != q.Want.Act || res != q.Want.Res:
					h.Violate(nil, "rules %s, request %q %q?%q in %q: translated to %q %q (%v), specified %q %q", what(), q.M, q.Path, q.Query, q.D, act, res, err, q.Want.Act, q.Want.Res)
				}
			}
			// several times: the order of maps must not matter; at the same time: nor must other requests
			if len(c.Reqs) > 0 {
				h.shared(3*len(c.Reqs), ask)
			}
			if h.viol > 0 {
				return
			}
			if !e2e {
				return
			}
			// through the authorizer: request i is made by a role that is allowed exactly what the translation is specified to be
			prefix := []string{"", "pre.", "/p/", "{x}", "/", "r"}[n%6]
			w := newWorld()
			pols := map[string][]Ass{}
			for i, q := range c.Reqs {
				a := Ass{Role: fmt.Sprintf("%s:role.r%d", q.D, i), Action: q.Want.Act, Resource: q.D + ":" + prefix + q.Want.Res, Effect: "allow"}
				if q.Want.O != "ok" {
					a.Action, a.Resource = "*", q.D+":*"
				}
				pols[q.D] = append(pols[q.D], a)
			}
			var doms []string
			for _, d := range []string{"d", "e"} {
				w.setPolicy(d, [][]Ass{pols[d]}, now.Add(time.Hour))
				doms = append(doms, d)
			}
			a := w.authz(doms, authorizerd.WithTranslator(mr), authorizerd.WithResourcePrefix(prefix))
			if err := a.Init(bg()); err != nil {
				h.Violate(nil, "Init failed: %v", err)
				return
			}
			for i, q := range c.Reqs {
				if q.M == "" || q.Path == "" || strings.ContainsAny(q.Want.Res+q.Want.Act, "*?") {
					continue
				}
				tok := roleTok(roleUnsigned(q.D, "p", []string{fmt.Sprintf("r%d", i)}, now, now.Add(time.Hour), "z1"), "zts1")
				hd := http.Header{}
				hd.Set("Athenz-Role-Auth", tok)
				req := (&http.Request{Method: "GET", Header: hd, URL: &url.URL{Path: "/elsewhere", RawQuery: q.Query}}).WithContext(bg())
				var err error
				if !h.Call("Authorize", func() { _, err = a.Authorize(req, q.M, q.Path) }) {
					return
				}
				h.steps++
				if q.Want.O == "error?" {
					continue
				}
				if (err == nil) != (q.Want.O == "ok") {
					h.Violate(nil, "rules %s, request %q %q?%q in %q, prefix %q: granted=%v although only (%q %q) is granted", what(), q.M, q.Path, q.Query, q.D, prefix, err == nil, q.Want.Act, prefix+q.Want.Res)
					return
				}
				if err == nil {
					granted++
				}
			}
		})
		h.Stat("granted", granted)
	})
}
