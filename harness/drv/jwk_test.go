package drv

import (
	"context"
	"crypto"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"github.com/lestrrat-go/jwx/jwk"
	jwkd "github.com/yahoojapan/athenz-authorizer/v5/jwk"
)

type jkStep struct {
	Rel []string
	Ans map[string]struct {
		K   string
		Doc idMap
	}
	Err           []string
	Before, After map[string]idMap
}
type jkCase struct {
	Cfg   []string
	Steps []jkStep
}

func init() { stages["jwk"] = stageJwk; stages["jwkstress"] = stageJwkStress }

var jkURL = map[string]string{"ATHENZ": athenzJWKS, "E1": "https://extra.example/keys", "E2": "http://extra2.example:8080/v1/jwks.json?x=1",
	"AC": "https://athenz/OAuth2/Keys?rfc=true", "EC": "https://extra.example/Keys", "ES": "https://extra.example/keys/", "EQ": "https://extra.example/keys?x=1"}

func jkPub(u string, n int) interface{} {
	if n == 7 || n == 8 {
		return &rsaKey(fmt.Sprintf("%s%d", u, n)).PublicKey
	}
	return &ecKey(fmt.Sprintf("jk-%s%d", u, n)).priv.PublicKey
}

func jkDoc(u string, set idMap) string {
	var ids []string
	for id := range set {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	s := jwk.NewSet()
	for _, id := range ids {
		k, err := jwk.New(jkPub(u, set[id]))
		if err != nil {
			panic(err)
		}
		if id != "-" {
			k.Set(jwk.KeyIDKey, id)
		}
		s.Add(k)
	}
	b, _ := json.Marshal(s)
	return string(b)
}

func jkAnswer(u, kind string, set idMap) *Resp {
	r := &Resp{Status: 200, Body: jkDoc(u, set)}
	switch kind {
	case "neterr":
		return &Resp{Err: fmt.Errorf("connection refused")}
	case "garbage":
		r.Body = "<html>"
	case "empty":
		r.Body = ""
	case "cut":
		r.Body = r.Body[:len(r.Body)-3]
	case "trunc":
		r.Body, r.Trunc = r.Body[:len(r.Body)/2], true
	case "badkey":
		r.Body = strings.Replace(r.Body, `{"keys":[`, `{"keys":[{"kty":"EC","kid":"z","crv":"P-256","x":"!","y":"!"},`, 1)
	case "badlast":
		r.Body = strings.TrimSuffix(r.Body, "]}") + `,{"kid":"z"}]}`
	case "keysnum":
		r.Body = `{"keys":5}`
	case "html500":
		r.Status = 500
	default:
		if kind != "ok" {
			fmt.Sscan(kind, &r.Status)
		}
	}
	return r
}

func stageJwk(h *H) {
	h.Cases(func(raw json.RawMessage) {
		var c jkCase
		if err := json.Unmarshal(raw, &c); err != nil {
			h.t.Fatal(err)
		}
		h.Bubble(func() { jkRun(h, &c) })
	})
}

func jkRun(h *H, c *jkCase) {
	var mu sync.Mutex
	var st *jkStep
	hold := map[string]chan struct{}{}
	name := map[string]string{}
	for n, u := range jkURL {
		name[u] = n
	}
	s := &Server{}
	s.H = func(u, inm string) *Resp {
		mu.Lock()
		defer mu.Unlock()
		n := name[u]
		a, ok := st.Ans[n]
		if !ok {
			return &Resp{Status: 404}
		}
		r := jkAnswer(n, a.K, a.Doc)
		r.Hold = hold[n]
		return r
	}
	var urls []string
	for _, u := range c.Cfg {
		urls = append(urls, jkURL[u])
	}
	d, err := jwkd.New(jwkd.WithAthenzJwksURL("athenz"), jwkd.WithURLs(urls), jwkd.WithHTTPClient(s.Client()))
	if err != nil {
		h.Violate(nil, "New failed: %v", err)
		return
	}
	p := d.GetProvider()
	ids := []string{"a", "b", "c", "A", "z", "", "-", "a ", "C"}
	many := false
	for _, x := range c.Steps {
		for _, a := range x.Ans {
			many = many || len(a.Doc) > 10
		}
	}
	if many {
		for i := 1; i <= 40; i++ {
			ids = append(ids, fmt.Sprint("m", i))
		}
	}
	bad := false
	get := func(id, u string) (k interface{}, ok bool) {
		ok = h.Call("provider", func() { k = p(id, u) })
		return
	}
	// check compares everything that can be resolved; want gives the allowed sets of each URL
	check := func(i int, when string, want map[string][]idMap) {
		for n, u := range jkURL {
			sets := want[n]
			if sets == nil {
				sets = []idMap{{}}
			}
			spell := []string{u}
			if n == "ATHENZ" {
				spell = append(spell, "")
			}
			for _, sp := range spell {
				for _, id := range ids {
					h.steps++
					k, ok := get(id, sp)
					if !ok {
						bad = true
						return
					}
					hit := false
					for _, set := range sets {
						n2, in := set[id]
						if id == "" || id == "-" {
							in = false
						}
						if !in {
							hit = hit || k == nil
						} else if eq, ok := jkPub(n, n2).(interface{ Equal(crypto.PublicKey) bool }); ok && k != nil {
							hit = hit || eq.Equal(k)
						}
					}
					if !hit {
						bad = true
						h.Violate(nil, "step %d, %s: key id %q of %q resolves to %v; specified sets %v", i, when, id, sp, k, sets)
						return
					}
				}
			}
		}
		for _, u := range []string{"https://evil.example/keys", athenzJWKS + "&", "https://athenz/oauth2/keys", "http://athenz/oauth2/keys?rfc=true", "HTTPS://EXTRA.EXAMPLE/keys", "http://extra.example/keys", extraJWKS + "?", extraJWKS + "?y", extraJWKS + "#f", " " + extraJWKS, extraJWKS + "/x/..", athenzJWKS + "?", athenzJWKS + "#", "https://athenz/oauth2/keys?RFC=true", "http://extra2.example:8080/v1/jwks.json", "http://extra2.example:8080/v1/jwks.json?x=1&y=2", "athenz", " "} {
			for _, id := range []string{"a", "b", ""} {
				h.steps++
				if k, ok := get(id, u); !ok || k != nil {
					bad = true
					h.Violate(nil, "step %d, %s: key id %q of the unconfigured URL %q resolves to %v", i, when, id, u, k)
					return
				}
			}
		}
	}
	for i := range c.Steps {
		x := &c.Steps[i]
		mu.Lock()
		st = x
		for _, u := range x.Rel {
			hold[u] = make(chan struct{})
		}
		mu.Unlock()
		var err error
		done := make(chan struct{})
		go func() {
			defer close(done)
			h.Call("Update", func() { err = d.Update(bg()) })
		}()
		want := map[string][]idMap{}
		for u, s := range x.Before {
			want[u] = []idMap{s}
		}
		for _, u := range x.Rel {
			synctest.Wait()
			check(i, "before the answer of "+u, want)
			want[u] = append(want[u], x.After[u])
			close(hold[u])
			if bad {
				break
			}
		}
		if bad {
			for _, ch := range hold {
				select {
				case <-ch:
				default:
					close(ch)
				}
			}
			<-done
			return
		}
		synctest.Wait()
		<-done
		for u, s := range x.After {
			want[u] = []idMap{s}
		}
		check(i, "after the update", want)
		if bad {
			return
		}
		h.steps++
		if (err != nil) != (len(x.Err) > 0) {
			h.Violate(nil, "step %d: Update returned %v; failing URLs: %v", i, err, x.Err)
			return
		}
		for _, u := range x.Err {
			if !strings.Contains(err.Error(), jkURL[u]) {
				h.Violate(nil, "step %d: the failing URL %s is not named by the error: %v", i, jkURL[u], err)
				return
			}
		}
	}
}

// stageJwkStress records reads of key ids during real concurrent updates (same histories as pkstress).
func stageJwkStress(h *H) {
	h.Case(0, json.RawMessage(`"stress"`), func(json.RawMessage) {
		type ev struct {
			seq int64
			m   map[string]interface{}
		}
		var evs []ev
		var emu sync.Mutex
		var seq int64
		add := func(s int64, m map[string]interface{}) { emu.Lock(); evs = append(evs, ev{s, m}); emu.Unlock() }
		next := func() int64 { return atomic.AddInt64(&seq, 1) }
		sets := []idMap{nil, {"s": 1, "c": 2, "o": 3}, {"s": 1, "c": 4, "n": 5}}
		for i := 0; i < 60; i++ {
			sets[1][fmt.Sprint("f", i)], sets[2][fmt.Sprint("f", i)] = 6, 6
			sets[1][fmt.Sprint("g", i)] = 6
		}
		docs := map[string]string{}
		names := map[string]string{}
		for n, u := range jkURL {
			names[u] = n
			for v := 1; v <= 2; v++ {
				docs[fmt.Sprint(n, v)] = jkDoc(n, sets[v])
			}
		}
		var cur int64
		s := &Server{}
		s.H = func(u, inm string) *Resp {
			v := int(atomic.LoadInt64(&cur))
			n := names[u]
			if v < 0 { // one URL fails, the others rotate
				if n == "E1" {
					return &Resp{Status: 200, Body: docs[n+"1"][:500]}
				}
				v = -v
			}
			return &Resp{Status: 200, Body: docs[fmt.Sprint(n, v)]}
		}
		d, err := jwkd.New(jwkd.WithAthenzJwksURL("athenz"), jwkd.WithURLs([]string{jkURL["E1"], jkURL["E2"]}), jwkd.WithHTTPClient(s.Client()))
		if err != nil {
			panic(err)
		}
		p := d.GetProvider()
		ids := []string{"s", "c", "o", "n", "f7", "g3"}
		urls := []string{"ATHENZ", "E1", "E2"}
		stop := make(chan struct{})
		var wg sync.WaitGroup
		var reads int64
		for w := 0; w < 6; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				un := urls[w%3]
				type obs struct {
					b, e int64
					v    string
				}
				last := map[string]*obs{}
				flush := func(id string, o *obs) {
					r := fmt.Sprintf("%d.%d", w, o.b)
					add(o.b, map[string]interface{}{"e": "rs", "id": un + "." + id, "r": r})
					add(o.e, map[string]interface{}{"e": "re", "id": un + "." + id, "r": r, "v": o.v})
				}
				for n := 0; ; n++ {
					select {
					case <-stop:
						for id, o := range last {
							flush(id, o)
						}
						return
					default:
					}
					id := ids[(n*7+w)%len(ids)]
					b := next()
					k := p(id, jkURL[un])
					e := next()
					val := "none"
					if k != nil {
						val = "?"
						for x := 1; x <= 6; x++ {
							if jkPub(un, x).(interface{ Equal(crypto.PublicKey) bool }).Equal(k) {
								val = fmt.Sprint(x)
							}
						}
					}
					atomic.AddInt64(&reads, 1)
					if o := last[id]; o != nil && o.v == val {
						o.e = e
						continue
					} else if o != nil {
						flush(id, o)
					}
					last[id] = &obs{b, e, val}
				}
			}(w)
		}
		val := func(v int, id string) string {
			if v > 0 {
				if k, ok := sets[v][id]; ok {
					return fmt.Sprint(k)
				}
			}
			return "none"
		}
		inst := map[string]int{}
		for u := 1; u <= 40; u++ {
			time.Sleep(300 * time.Microsecond)
			v := 1 + u%2
			if u%5 == 0 {
				v = -v
			}
			atomic.StoreInt64(&cur, int64(v))
			s0 := next()
			err := d.Update(context.Background())
			e0 := next()
			if (err != nil) != (v < 0) {
				h.Violate(nil, "update %d: %v", u, err)
			}
			for _, un := range urls {
				t := v
				if v < 0 && un == "E1" {
					t = inst[un]
				} else if v < 0 {
					t = -v
				}
				inst[un] = t
				for _, id := range ids {
					add(s0, map[string]interface{}{"e": "us", "id": un + "." + id, "v": val(t, id)})
					add(e0, map[string]interface{}{"e": "ue", "id": un + "." + id})
				}
			}
		}
		close(stop)
		wg.Wait()
		h.steps += int(reads)
		sort.SliceStable(evs, func(i, j int) bool { return evs[i].seq < evs[j].seq })
		for _, e := range evs {
			e.m["t"] = "ev"
			h.Emit(e.m)
		}
	})
}
