package drv

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"
	"time"

	authorizerd "github.com/yahoojapan/athenz-authorizer/v5"
	"github.com/yahoojapan/athenz-authorizer/v5/role"
)

type rtCase struct {
	T, Over []string
	Ok      bool
	C       struct {
		D, P []string
		R    [][]string
		E, T string
	}
}

func init() { stages["roletok"] = stageRole }

func rtTimes(now time.Time) map[string]string {
	i := func(d time.Duration) string { return fmt.Sprint(now.Add(d).Unix()) }
	return map[string]string{"F": i(time.Hour), "N1": i(time.Second), "P": i(-time.Hour), "P1": i(-time.Second), "ZERO": "0", "NEG": "-5", "LEAD0": "00" + i(time.Hour),
		"HUGE": "99999999999", "FLOAT": i(time.Hour) + ".0", "SPACED": " " + i(time.Hour), "OVERFLOW": "99999999999999999999", "1_000": "1_0" + i(0), "NBSP": i(time.Hour) + "\u00a0",
		"1e9": "1e19", "UNI": "dömäin\u4e2d"}
}

func stageRole(h *H) {
	rt := os.Getenv("VP_CMP")
	h.Bubble(func() {
		now := time.Now()
		tm := rtTimes(now)
		w := newWorld()
		w.zts = map[string]string{"z1": "zts1", "z2": "zts2"}
		w.zms = map[string]string{"m1": "zms1"}
		keyName := map[string]string{"z1": "zts1", "z2": "zts2", "m1": "zms1", "x9": "stranger"}
		a := w.authz(nil, authorizerd.WithDisablePolicyd())
		if err := a.Init(bg()); err != nil {
			h.Violate(nil, "Init failed: %v", err)
			return
		}
		// without keys nothing is accepted
		bare, err := role.New()
		must(err)
		keyless := w.authz(nil, authorizerd.WithDisablePolicyd(), authorizerd.WithDisablePubkeyd(), authorizerd.WithDisableJwkd())
		must(keyless.Init(bg()))
		text := func(atoms []string, over string) string {
			var b strings.Builder
			for _, x := range atoms {
				switch {
				case strings.HasPrefix(x, "SIG:"):
					b.WriteString(ecKey(keyName[x[4:]]).sign(over))
				case strings.HasPrefix(x, "TRUNC:"):
					s := ecKey(keyName[x[6:]]).sign(over)
					b.WriteString(s[:len(s)/2])
				case strings.HasPrefix(x, "FLIP:"):
					s := []byte(ecKey(keyName[x[5:]]).sign(over))
					if s[40] == 'A' {
						s[40] = 'B'
					} else {
						s[40] = 'A'
					}
					b.Write(s)
				default:
					if v, ok := tm[x]; ok {
						b.WriteString(v)
					} else {
						b.WriteString(x)
					}
				}
			}
			return b.String()
		}
		h.CasesShared(func(h *H, raw json.RawMessage) {
			c := &rtCase{}
			if err := json.Unmarshal(raw, c); err != nil {
				h.t.Fatal(err)
			}
			h.steps++
			tok := text(c.T, text(c.Over, ""))
			var p authorizerd.Principal
			var err error
			if !h.Call("AuthorizeRoleToken", func() { p, err = a.AuthorizeRoleToken(bg(), tok, "a", "r") }) {
				return
			}
			if rt != "prin" && (err == nil) != c.Ok {
				h.Violate(tok, "role token %q: accepted=%v (%v), specified %v", tok, err == nil, err, c.Ok)
				return
			}
			if rt != "prin" && (c.Ok || h.cur%16 == 0) {
				var e1, e2 error
				if !h.Call("AuthorizeRoleToken without keys", func() {
					_, e1 = keyless.AuthorizeRoleToken(bg(), tok, "a", "r")
					_, e2 = bare.ParseAndValidateRoleToken(tok)
				}) {
					return
				}
				if e1 == nil || e2 == nil {
					h.Violate(tok, "role token %q accepted without a public key (public key daemon disabled: %v, processor without provider: %v)", tok, e1, e2)
					return
				}
			}
			if err != nil || !c.Ok {
				return
			}
			h.Stat("accepted", 1)
			want := fmt.Sprintf("name=%q domain=%q roles=", text(c.C.P, ""), text(c.C.D, ""))
			var rs []string
			for _, r := range c.C.R {
				rs = append(rs, text(r, ""))
			}
			want += fmt.Sprintf("%q exp=%s", rs, strings.TrimLeft(tm[c.C.E], "0"))
			got := fmt.Sprintf("name=%q domain=%q roles=%q exp=%d", p.Name(), p.Domain(), p.Roles(), p.ExpiryTime())
			if c.C.T != "" {
				v := strings.TrimLeft(tm[c.C.T], "0")
				if v == "" {
					v = "0"
				}
				want += " iat=" + v
				got += fmt.Sprintf(" iat=%d", p.IssueTime())
			}
			if got != want || len(p.AuthorizedRoles()) != 0 {
				h.Violate(tok, "role token %q: principal %s (authorized %v), specified %s", tok, got, p.AuthorizedRoles(), want)
			}
		})
	})
}
