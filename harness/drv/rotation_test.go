package drv

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"github.com/yahoojapan/athenz-authorizer/v5/access"
	jwkd "github.com/yahoojapan/athenz-authorizer/v5/jwk"
	"github.com/yahoojapan/athenz-authorizer/v5/pubkey"
	"github.com/yahoojapan/athenz-authorizer/v5/role"
)

// Stage "rotation" (C08, C09): the same processor is asked about the same tokens while the keys change.

type rotToken struct {
	Src string `json:"src"`
	Key string `json:"key"`
	Exp int    `json:"exp"`
}

type rotCase struct {
	Exps  []int `json:"exps"`
	Steps []struct {
		A struct {
			K   string            `json:"k"`
			Out map[string]string `json:"out"`
		} `json:"a"`
		Srv map[string]string `json:"srv"`
		Acc []rotToken        `json:"acc"`
	} `json:"steps"`
}

func init() {
	stages["rotation"] = func(h *H) {
		kind := os.Getenv("VP_KIND")
		h.Cases(func(raw json.RawMessage) {
			var c rotCase
			must(json.Unmarshal(raw, &c))
			h.Bubble(func() { runRotation(h, kind, c) })
		})
	}
}

// rotFail is an answer after which nothing new is installed.
func rotFail(kind string, n int) *Resp {
	bad := []*Resp{{Err: fmt.Errorf("connection reset")}, {Status: 500}, {Status: 200, Body: "{"}, {Status: 404, Body: "{}"}}
	if kind == "role" {
		bad = append(bad, &Resp{Status: 200, Body: `{"publicKeys":[{"id":"k","key":"%%%"}]}`})
	} else {
		bad = append(bad, &Resp{Status: 200, Body: `{"keys":[{"kid":"k","kty":"EC","crv":"P-256","x":"AA"}]}`})
	}
	return bad[n%len(bad)]
}

func runRotation(h *H, kind string, c rotCase) {
	const hour = time.Hour
	start := time.Now()
	srv, out := map[string]string{}, map[string]string{}
	fails := 0
	s := &Server{}
	keyOf := func(src, v string) string { return "rot-" + src + "-" + v }
	s.H = func(u, inm string) *Resp {
		src := "a"
		if strings.HasSuffix(u, "/service/zms") || u == extraJWKS {
			src = "b"
		}
		if out[src] == "fail" {
			fails++
			return rotFail(kind, fails+h.cur)
		}
		// another id may have the other key, or the same one
		ids := []string{"k2", keyOf(src, "B"), "k3", keyOf(src, "A")}
		if srv[src] != "none" {
			ids = append(ids, "k", keyOf(src, srv[src]))
		}
		if kind == "role" {
			m := map[string]string{}
			for i := 0; i < len(ids); i += 2 {
				m[ids[i]] = ids[i+1]
			}
			return &Resp{Status: 200, Body: keyDoc("zts", m)}
		}
		return &Resp{Status: 200, Body: jwkSet(ids...)}
	}
	var update func() error
	var ask func(t rotToken) (string, error) // what the token says, when it is accepted
	expAt := func(t rotToken) time.Time { return start.Add(time.Duration(t.Exp)*hour - 30*time.Minute) }
	who := func(t rotToken) string { return fmt.Sprintf("user.%s%s%d", t.Src, t.Key, t.Exp) }
	switch kind {
	case "role":
		d, err := pubkey.New(pubkey.WithAthenzURL("athenz"), pubkey.WithHTTPClient(s.Client()), pubkey.WithETagPurgePeriod("10000h"))
		must(err)
		p, err := role.New(role.WithPubkeyProvider(d.GetProvider()))
		must(err)
		update = func() error { return d.Update(bg()) }
		ask = func(t rotToken) (string, error) {
			r, err := p.ParseAndValidateRoleToken(roleTok(roleUnsigned("d", who(t), []string{"r" + t.Key}, start, expAt(t), "k"), keyOf(t.Src, t.Key)))
			if err != nil {
				return "", err
			}
			return fmt.Sprint(r.Principal, r.Roles, r.ExpiryTime.Unix(), r.KeyID), nil
		}
	case "access":
		d, err := jwkd.New(jwkd.WithAthenzJwksURL("athenz"), jwkd.WithURLs([]string{extraJWKS}), jwkd.WithHTTPClient(s.Client()))
		must(err)
		p, err := access.New(access.WithJWKProvider(d.GetProvider()), access.WithEnableMTLSCertificateBoundAccessToken(false), access.WithEnableVerifyClientID(false))
		must(err)
		update = func() error { return d.Update(bg()) }
		ask = func(t rotToken) (string, error) {
			head := map[string]interface{}{"kid": "k"}
			if t.Src == "b" {
				head["jku"] = extraJWKS
			} else if t.Exp == 2 {
				head["jku"] = athenzJWKS
			}
			r, err := p.ParseAndValidateOAuth2AccessToken(jwtTok(head, map[string]interface{}{"aud": "d", "sub": who(t), "scp": []string{"r" + t.Key}, "iat": start.Unix(), "exp": expAt(t).Unix()}, keyOf(t.Src, t.Key)), nil)
			if err != nil {
				return "", err
			}
			return fmt.Sprint(r.Subject, r.Scope, r.ExpiresAt, "k"), nil
		}
	}
	var toks []rotToken
	for _, src := range []string{"a", "b"} {
		for _, k := range []string{"A", "B"} {
			for _, e := range c.Exps {
				toks = append(toks, rotToken{src, k, e})
			}
		}
	}
	for i, st := range c.Steps {
		switch st.A.K {
		case "tick":
			time.Sleep(hour)
		default:
			srv, out = st.Srv, st.A.Out
			var err error
			if !h.Call("Update", func() { err = update() }) {
				return
			}
			if want := out["a"] == "fail" || out["b"] == "fail"; (err != nil) != want {
				h.Violate(nil, "step %d: update with outcomes %v: error %v", i+1, out, err)
				return
			}
		}
		acc := map[rotToken]bool{}
		for _, t := range st.Acc {
			acc[t] = true
		}
		// forwards and backwards, what was accepted before first
		order := append([]rotToken{}, toks...)
		if i > 0 && i%2 == 1 {
			was := map[rotToken]bool{}
			for _, t := range c.Steps[i-1].Acc {
				was[t] = true
			}
			sort.SliceStable(order, func(x, y int) bool { return was[order[x]] && !was[order[y]] })
		}
		check := func(h *H, t rotToken) {
			var got string
			var err error
			if !h.Call("ParseAndValidate", func() { got, err = ask(t) }) {
				return
			}
			h.steps++
			want := fmt.Sprint(who(t), []string{"r" + t.Key}, expAt(t).Unix(), "k")
			if (err == nil) != acc[t] {
				h.Violate(t, "after step %d (%s %v), token of source %s signed by key %s, valid for %d h: accepted=%v (%v), specified %v", i+1, st.A.K, st.A.Out, t.Src, t.Key, t.Exp, err == nil, err, acc[t])
			} else if err == nil && got != want {
				h.Violate(t, "after step %d: token says %s, specified %s", i+1, got, want)
			}
		}
		for _, t := range order {
			check(h, t)
		}
		h.shared(len(order), func(h *H, k int) { check(h, order[len(order)-1-k]) })
		if h.Full() {
			return
		}
	}
}
