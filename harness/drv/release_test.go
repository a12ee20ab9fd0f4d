package drv

import (
	"context"
	"encoding/json"
	"errors"
	"strings"
	"testing/synctest"
	"time"

	authorizerd "github.com/yahoojapan/athenz-authorizer/v5"
)

// Stage "release" (C29): after every update no response is open.

type relCase struct {
	Prior string
	Open  int
	Seq   []struct {
		Kind string
		Ans  struct {
			Status     int
			Body, Mode string
			Tag        bool
			Len        int
		}
	}
}

func runRelease(h *H, c *relCase) {
	r := &hRun{h: h, w: newWorld(), ans: map[string]*hAns{}}
	var cur func(k string) *Resp
	tag := func(on bool) string {
		if on {
			return `"tag"`
		}
		return ""
	}
	prior := false
	r.w.s.H = func(u, inm string) *Resp {
		k := hKind(u)
		if cur != nil {
			if x := cur(k); x != nil {
				return x
			}
		}
		return &Resp{Status: 200, Body: r.goodBody(k), ETag: tag(prior)}
	}
	a := r.w.authz([]string{"dom"}, authorizerd.WithJwkURLs([]string{"https://extra.example/keys"}), authorizerd.WithPolicyRetryDelay("1ms"), authorizerd.WithPolicyRetryAttempts(1), authorizerd.WithPolicyExpiryMargin("1s"))
	ctx, cancel := context.WithCancel(bg())
	defer func() { cancel(); time.Sleep(3 * time.Hour); synctest.Wait() }()
	check := func(what string) bool {
		h.steps++
		synctest.Wait()
		if n := r.w.s.Open(); n != c.Open {
			h.Violate(c, "%s: %d responses are not released after the update", what, n)
			return false
		}
		return true
	}
	if c.Prior != "none" {
		prior = c.Prior == "tag"
		if !h.Call("Init", func() { must(a.Init(ctx)) }) || !check("first update") {
			return
		}
	}
	for i, s := range c.Seq {
		an := s.Ans
		cur = func(k string) *Resp {
			if k != s.Kind {
				return nil
			}
			if an.Status == 0 {
				return &Resp{Err: errors.New("connection refused")}
			}
			b := ""
			switch an.Body {
			case "good":
				b = r.goodBody(k)
			case "tail":
				b = r.goodBody(k) + strings.Repeat(" \n", 40000) + "x"
			case "garbage":
				b = "{[}"
			case "long":
				b = strings.Repeat("<html>", 30000)
			case "null":
				b = "null"
			case "bad": // well-formed, but not usable
				b = strings.NewReplacer(`"keyId":"k1"`, `"keyId":"k9"`, `"key":"`, `"key":"!!`, `"x":"`, `"x":"!!`).Replace(r.goodBody(k))
			}
			return &Resp{Status: an.Status, Body: b, ETag: tag(an.Tag), Trunc: an.Mode == "cut", Cut0: an.Mode == "cut0", CloseErr: an.Mode == "closeerr", Len: an.Len}
		}
		if !h.Call("Init", func() { a.Init(ctx) }) {
			return
		}
		if !check("update " + string(rune('1'+i)) + ", " + s.Kind + " answers " + an.Body + " " + an.Mode) {
			return
		}
	}
}

func init() {
	stages["release"] = func(h *H) {
		h.Cases(func(raw json.RawMessage) {
			var c relCase
			must(json.Unmarshal(raw, &c))
			h.Bubble(func() { runRelease(h, &c) })
		})
	}
}
