package drv

import (
	"encoding/json"
	"fmt"
	"strings"
	"time"
)

// A case: one pattern and all values of its universe, with the set of indices that match.
type globCase struct {
	P  []string   `json:"p"`
	U  [][]string `json:"u"`
	M  []int      `json:"m"`
	NL bool       `json:"nl"`
}

func init() { stages["glob"] = stageGlob }

func unchar(c string) string {
	switch c {
	case "NL":
		return "\n"
	case "BSL":
		return "\\"
	case "QUO":
		return "\""
	case "TAB":
		return "\t"
	case "E'":
		return "É"
	case "e'":
		return "é"
	case "EMO":
		return "😀"
	case "KELVIN":
		return "\u212a"
	}
	return c
}

func unstr(cs []string) string {
	var sb strings.Builder
	for _, c := range cs {
		sb.WriteString(unchar(c))
	}
	return sb.String()
}

func stageGlob(h *H) {
	const batch = 400
	type ent struct {
		i   int
		raw json.RawMessage
		c   globCase
	}
	var buf []ent
	flush := func() {
		if len(buf) == 0 {
			return
		}
		s := &Server{}
		d := newPolicyd(s, []string{"d"})
		var as []Ass
		for k, e := range buf {
			p := unstr(e.c.P)
			as = append(as, Ass{fmt.Sprintf("d:role.a%d", k), p, "d:only", "allow"},
				Ass{fmt.Sprintf("d:role.r%d", k), "only", "d:" + p, "allow"},
				Ass{fmt.Sprintf("d:role.x%d", k), "*", "d:*", "allow"},
				Ass{fmt.Sprintf("d:role.x%d", k), "only", "d:" + p, "deny"})
		}
		doc := policyDoc("d", [][]Ass{as}, time.Now().Add(time.Hour), "k", "k")
		s.H = func(u, inm string) *Resp { return &Resp{Status: 200, Body: doc} }
		if err := d.Update(bg()); err != nil {
			h.cur, h.curIn = buf[0].i, buf[0].raw
			h.Violate(nil, "installing assertions with valid patterns failed: %v", err)
			buf = nil
			return
		}
		for k, e := range buf {
			h.cur, h.curIn = e.i, e.raw
			p := unstr(e.c.P)
			match := map[int]bool{}
			for _, m := range e.c.M {
				match[m-1] = true
			}
			for vi, vc := range e.c.U {
				v := unstr(vc)
				want := match[vi]
				ga := d.CheckPolicy(bg(), "d", []string{fmt.Sprintf("a%d", k)}, v, "only") == nil
				gr := d.CheckPolicy(bg(), "d", []string{fmt.Sprintf("r%d", k)}, "only", v) == nil
				h.steps += 2
				if e.c.NL && strings.Contains(v, "\n") && strings.ContainsAny(p, "*?") && want && !ga && !gr {
					h.Known("newline")
					continue
				}
				if ga != want {
					h.Violate(nil, "action pattern %q against %q: spec says match=%v, code says %v", p, v, want, ga)
				}
				if gr != want {
					h.Violate(nil, "resource pattern %q against %q: spec says match=%v, code says %v", p, v, want, gr)
				}
				if !e.c.NL && vi%4 == 0 {
					gx := d.CheckPolicy(bg(), "d", []string{fmt.Sprintf("x%d", k)}, "only", v) != nil
					h.steps++
					if gx != want {
						h.Violate(nil, "deny assertion, resource pattern %q against %q: spec says match=%v, code denies=%v", p, v, want, gx)
					}
				}
				if h.Full() {
					buf = nil
					return
				}
			}
		}
		buf = nil
	}
	h.Cases(func(raw json.RawMessage) {
		var c globCase
		if err := json.Unmarshal(raw, &c); err != nil {
			h.t.Fatal(err)
		}
		buf = append(buf, ent{h.cur, raw, c})
		if len(buf) >= batch {
			flush()
		}
	})
	flush()
}
