package drv

import (
	"context"
	"crypto/tls"
	"crypto/x509"
	"encoding/json"
	"fmt"
	"net/http"
	"regexp"
	"sort"
	"strings"
	"time"

	authorizerd "github.com/yahoojapan/athenz-authorizer/v5"
	"github.com/yahoojapan/athenz-authorizer/v5/policy"
)

// Stage "ownership" (C31): callers write to what they were given.

type ownStep struct {
	Op, Cred, Res, How string
	I                  int
	OK                 bool
	Roles, Auth        []string
}

// renderReport gives what a report says, in an order of its own.
func renderReport(m map[string]interface{}) string {
	var r []string
	for k, v := range m {
		as, ok := v.([]*policy.Assertion)
		if !ok {
			return fmt.Sprintf("%T", v)
		}
		for _, a := range as {
			if a == nil {
				r = append(r, k+" nil")
				continue
			}
			r = append(r, fmt.Sprintf("%s %s %s %s %s %s %v %v %v", k, a.ResourceDomain, a.Action, a.Resource, a.ActionRegexpString, a.ResourceRegexpString, a.Effect, a.ActionRegexp, a.ResourceRegexp))
		}
		if len(as) == 0 {
			r = append(r, k+" empty")
		}
	}
	sort.Strings(r)
	return strings.Join(r, "\n")
}

// untouched makes a call with a request and sees whether the request is left as it was.
func (h *H) untouched(a authorizerd.Authorizerd, toks map[string]string, s ownStep, n int) (authorizerd.Principal, error) {
	body := strings.NewReader("a=1&b=2")
	q, err := http.NewRequest("POST", "https://user:pw@host:8080/p//x/../y;v=1?q=1&q=2&%71=%20#frag", body)
	must(err)
	q.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	q.Header["X-Raw"] = []string{"one", "two"}
	q.Header.Add("Cookie", "c=1")
	if s.Cred == "a1" {
		q.Header.Set("Authorization", "Bearer "+toks[s.Cred])
	} else {
		q.Header.Set("Athenz-Role-Auth", toks[s.Cred])
	}
	cert := mkCert("ca", "u", "raw", time.Now(), "athenz://role/elsewhere/x")
	q.TLS = &tls.ConnectionState{PeerCertificates: []*x509.Certificate{cert}}
	q.RequestURI, q.RemoteAddr = "/p//x/../y;v=1?q=1&q=2&%71=%20", "1.2.3.4:5"
	look := func() string {
		hd, _ := json.Marshal(q.Header)
		return fmt.Sprintf("%s %s %+v %s host %s uri %s from %s len %d form %v %v %v unread %d tls %v certs %v %d cert %v %v %s %v", q.Method, q.URL, *q.URL, hd, q.Host, q.RequestURI, q.RemoteAddr, q.ContentLength, q.Form, q.PostForm, q.MultipartForm, body.Len(), q.TLS != nil, q.TLS.PeerCertificates[0] == cert, len(q.TLS.PeerCertificates), cert.Subject, cert.URIs, cert.Raw, cert.NotBefore)
	}
	before := look()
	p, err := a.Authorize(q, "act", s.Res)
	if after := look(); after != before {
		h.Violate(nil, "step %d: the request was changed from\n%s\nto\n%s", n, before, after)
	}
	return p, err
}

func runOwnership(h *H, steps []ownStep) {
	w := newWorld()
	w.setPolicy("dom", [][]Ass{{{"dom:role.a", "act", "dom:res", "allow"}, {"dom:role.b", "act", "dom:res", "allow"}}, {{"dom:role.d", "act", "dom:sec", "deny"}, {"dom:role.a", "act", "dom:sec", "allow"}}}, time.Now().Add(1000*time.Hour))
	a := w.authz([]string{"dom"}, authorizerd.WithEnableRoleToken(), authorizerd.WithAccessTokenParam(authorizerd.NewAccessTokenParam(true, false, "", "", false, nil)), authorizerd.WithCacheExp(100*time.Hour))
	ctx, cancel := context.WithCancel(bg())
	defer cancel()
	must(a.Init(ctx))
	now := time.Now()
	exp := now.Add(100 * time.Hour)
	toks := map[string]string{
		"r1": roleTok(roleUnsigned("dom", "u", []string{"b", "a"}, now, exp, "z1"), "zts1"),
		"r2": roleTok(roleUnsigned("dom", "u", []string{"a", "d"}, now, exp, "z1"), "zts1"),
		"a1": jwtTok(map[string]interface{}{"kid": "k1", "typ": "at+jwt"}, map[string]interface{}{"aud": "dom", "sub": "u", "scp": []string{"b", "a"}, "iat": now.Unix(), "exp": exp.Unix()}, "jwk1"),
	}
	ok0 := renderReport(a.GetPolicyCache(bg()))
	type held struct {
		p     authorizerd.Principal
		want  string
		lists map[string][]string // as given to the caller first
		rep   map[string]interface{}
		dirty bool
	}
	var hs []*held
	view := func(roles, auth []string) string {
		return fmt.Sprintf("roles %q authorized %q", roles, uniq(auth))
	}
	bad := false
	for n, s := range steps {
		if !h.Call(s.Op, func() {
			switch s.Op {
			case "call":
				var p authorizerd.Principal
				var err error
				if s.How == "http" {
					p, err = h.untouched(a, toks, s, n)
				} else if strings.HasPrefix(s.Cred, "a") {
					p, err = a.AuthorizeAccessToken(bg(), toks[s.Cred], "act", s.Res, nil)
				} else {
					p, err = a.AuthorizeRoleToken(bg(), toks[s.Cred], "act", s.Res)
				}
				if (err == nil) != s.OK {
					h.Violate(steps, "step %d: the decision about %s on %s has changed: %v", n, s.Cred, s.Res, err)
					bad = true
					return
				}
				if err != nil {
					return
				}
				hs = append(hs, &held{p: p, want: view(s.Roles, s.Auth), lists: map[string][]string{"roles": p.Roles(), "auth": p.AuthorizedRoles()}})
			case "report":
				m := a.GetPolicyCache(bg())
				if r := renderReport(m); r != ok0 {
					h.Violate(steps, "step %d: the report has changed to\n%s", n, r)
				}
				hs = append(hs, &held{rep: m})
			case "refresh":
				must(a.Init(ctx))
			case "roles", "auth":
				x := hs[s.I-1]
				l := x.lists[s.Op]
				switch s.How {
				case "reverse":
					for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
						l[i], l[j] = l[j], l[i]
					}
					if len(l) == 1 {
						l[0] += "z"
					}
				case "overwrite":
					for i := range l {
						l[i] = "admin"
					}
				case "append":
					_ = append(append(l, "x")[:1], "admin", "root")
				case "clear":
					clear(l)
				}
			case "wreport":
				x := hs[s.I-1]
				x.dirty = true
				for k, v := range x.rep {
					as := v.([]*policy.Assertion)
					for i, as1 := range as {
						if as1 == nil {
							continue
						}
						switch s.How {
						case "effect":
							as1.Effect = nil
						case "domain":
							as1.ResourceDomain = "other"
						case "resource":
							as1.Resource, as1.ResourceRegexpString, as1.ResourceRegexp = "none", "^none$", regexp.MustCompile("^none$")
						case "action":
							as1.Action, as1.ActionRegexpString, as1.ActionRegexp = "*", ".*", regexp.MustCompile(".*")
						case "swap":
							as[i], as[len(as)-1-i] = as[len(as)-1-i], as[i]
						case "cut":
							as[i] = nil
						case "all":
							*as1 = policy.Assertion{}
						}
					}
					if s.How == "drop" {
						delete(x.rep, k)
					}
				}
			}
		}) {
			return
		}
		if bad || h.Full() {
			return
		}
		for i, x := range hs {
			if x.p != nil {
				if v := view(x.p.Roles(), x.p.AuthorizedRoles()); v != x.want {
					h.Violate(steps, "step %d: principal %d was given as %s, and is now %s", n, i+1, x.want, v)
					return
				}
			} else if v := renderReport(x.rep); !x.dirty && v != ok0 {
				h.Violate(steps, "step %d: report %d, which its holder left alone, is now\n%s", n, i+1, v)
				return
			}
		}
		h.steps++
	}
}

func init() {
	stages["ownership"] = func(h *H) {
		h.Cases(func(raw json.RawMessage) {
			var c []ownStep
			must(json.Unmarshal(raw, &c))
			h.Bubble(func() { runOwnership(h, c) })
		})
	}
}
