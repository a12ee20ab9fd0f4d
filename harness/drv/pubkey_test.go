package drv

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	authcore "github.com/AthenZ/athenz/libs/go/zmssvctoken"
	"github.com/yahoojapan/athenz-authorizer/v5/pubkey"
)

// idMap is a function of the model; the empty one is written as [].
type idMap map[string]int

func (m *idMap) UnmarshalJSON(b []byte) error {
	if string(b) == "[]" {
		*m = idMap{}
		return nil
	}
	var x map[string]int
	err := json.Unmarshal(b, &x)
	*m = x
	return err
}

type pkAns struct {
	K   string
	Set idMap
	Tag string
}
type pkStep struct {
	A, First string
	T        int
	Ans      map[string]pkAns
	May      map[string]string
	Err      bool
	Mid, End map[string]idMap
}
type pkCase struct {
	Life  int
	Steps []pkStep
}

func init() { stages["pubkey"] = stagePubkey; stages["pkstress"] = stagePkStress }

func pkKey(env string, n int) *realKey { return ecKey(fmt.Sprintf("pk-%s%d", env, n)) }

// pkDoc is the key document of an environment; kind selects how it is spoilt.
func pkDoc(env string, set map[string]int, kind string) string {
	var ks []interface{}
	var ids []string
	for id := range set {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		ks = append(ks, map[string]string{"id": id, "key": pkKey(env, set[id]).yb64Pub})
	}
	bad := func(key string, first bool) {
		e := map[string]string{"id": "zz", "key": key}
		if first {
			ks = append([]interface{}{e}, ks...)
		} else {
			ks = append(ks, e)
		}
	}
	switch kind {
	case "badb64":
		bad("!!!not base64!!!", true)
	case "badpem":
		bad(new(authcore.YBase64).EncodeToString([]byte("no pem")), true)
	case "badlast":
		bad("", false)
	case "nullkey":
		ks = append(ks, nil)
	}
	b, _ := json.Marshal(map[string]interface{}{"name": "sys.auth." + env, "modified": "2020-01-01T00:00:00.000Z", "publicKeys": ks})
	if kind == "cut" {
		return string(b[:len(b)-2])
	}
	return string(b)
}

func pkAnswer(env string, a pkAns, inm string) *Resp {
	r := &Resp{Status: 200, ETag: a.Tag, Body: pkDoc(env, a.Set, a.K)}
	switch a.K {
	case "ok":
		if a.Tag != "" && inm == a.Tag {
			return &Resp{Status: 304, ETag: a.Tag}
		}
	case "neterr":
		return &Resp{Err: fmt.Errorf("connection refused")}
	case "500", "404", "403", "202", "204", "301", "429":
		fmt.Sscan(a.K, &r.Status)
	case "304x": // not modified although nothing was asked conditionally; cannot be expressed when something was
		if inm != "" {
			return &Resp{Status: 500}
		}
		return &Resp{Status: 304, ETag: a.Tag}
	case "garbage":
		r.Body = "<html>"
	case "empty":
		r.Body = ""
	case "array":
		r.Body = "[" + r.Body + "]"
	case "string":
		r.Body = `{"name":"x","publicKeys":"none"}`
	case "trunc":
		r.Body, r.Trunc = r.Body[:len(r.Body)/2], true
	}
	return r
}

func stagePubkey(h *H) {
	cmp := os.Getenv("VP_CMP")
	h.Cases(func(raw json.RawMessage) {
		var c pkCase
		if err := json.Unmarshal(raw, &c); err != nil {
			h.t.Fatal(err)
		}
		h.Bubble(func() { pkRun(h, &c, cmp) })
	})
}

func pkRun(h *H, c *pkCase, cmp string) {
	const tick = 10 * time.Second
	inmOnly := cmp == "inm"
	t0 := time.Now()
	var mu sync.Mutex
	var st *pkStep
	hold, asked := map[string]chan struct{}{}, map[string]bool{}
	s := &Server{}
	bad := ""
	s.H = func(u, inm string) *Resp {
		mu.Lock()
		defer mu.Unlock()
		env := u[strings.LastIndexByte(u, '/')+1:]
		if u != "https://athenz/domain/sys.auth/service/"+env || st == nil || st.Ans[env].K == "" {
			bad = "unexpected request " + u
			return &Resp{Status: 400}
		}
		if inm != "" && inm != st.May[env] && strings.Contains(cmp, "inm") {
			bad = fmt.Sprintf("the %s key request carries the ETag %q; only %q may be sent", env, inm, st.May[env])
		}
		r := pkAnswer(env, st.Ans[env], inm)
		r.Hold, asked[env] = hold[env], true
		return r
	}
	d, err := pubkey.New(pubkey.WithAthenzURL("athenz"), pubkey.WithSysAuthDomain("sys.auth"), pubkey.WithHTTPClient(s.Client()),
		pubkey.WithETagExpiry((time.Duration(c.Life)*tick - tick/2).String()), pubkey.WithETagPurgePeriod("10000h"))
	if err != nil {
		panic(err)
	}
	p := d.GetProvider()
	idSet := map[string]bool{"a": true, "b": true, "c": true, "zz": true, "": true}
	for _, x := range c.Steps {
		for _, m := range x.End {
			for id := range m {
				idSet[id] = true
			}
		}
	}
	var ids []string
	for id := range idSet {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	check := func(i int, when string, want map[string]idMap) bool {
		for _, env := range []string{"zts", "zms"} {
			for _, id := range ids {
				h.steps++
				n, ok := want[env][id]
				var v authcore.Verifier
				if !h.Call("provider", func() { v = p(pubkey.AthenzEnv(env), id) }) {
					return false
				}
				if (v != nil) != ok {
					h.Violate(nil, "step %d, %s: %s key id %q resolves: %v; specified %v", i, when, env, id, v != nil, ok)
					return false
				}
				if ok && (i == len(c.Steps)-1 || i%4 == 0) { // earlier steps: the identity of the keys is compared in other behaviours
					if err := v.Verify("x", pkKey(env, n).sign("x")); err != nil {
						h.Violate(nil, "step %d, %s: %s key id %q does not resolve to key %d: %v", i, when, env, id, n, err)
						return false
					}
				}
			}
		}
		return true
	}
	for i := range c.Steps {
		x := &c.Steps[i]
		if x.A == "tick" {
			time.Sleep(time.Until(t0.Add(time.Duration(x.T) * tick)))
			continue
		}
		mu.Lock()
		st = x
		hold, asked = map[string]chan struct{}{"zts": make(chan struct{}), "zms": make(chan struct{})}, map[string]bool{}
		mu.Unlock()
		var err error
		done := make(chan struct{})
		go func() {
			defer close(done)
			h.Call("Update", func() { err = d.Update(bg()) })
		}()
		synctest.Wait()
		mu.Lock()
		// asking one server after the other is as good, but may leave no choice of whose answer comes first
		mid := asked[x.First] || len(asked) == 0
		mu.Unlock()
		close(hold[x.First])
		synctest.Wait()
		if mid && bad == "" && !inmOnly && !check(i, "after the answer for "+x.First, x.Mid) {
			bad = "-"
		}
		for e, ch := range hold {
			if e != x.First {
				close(ch)
			}
		}
		synctest.Wait()
		<-done
		h.steps++
		if bad == "-" {
			return
		}
		if bad != "" {
			h.Violate(nil, "step %d: %s", i, bad)
			return
		}
		if !inmOnly && (err != nil) != x.Err {
			h.Violate(nil, "step %d: Update returned %v; specified failure: %v", i, err, x.Err)
			return
		}
		if !check(i, "after the update", x.End) {
			return
		}
	}
}

// stagePkStress records reads of key ids during real concurrent rotations.
func stagePkStress(h *H) {
	h.Case(0, json.RawMessage(`"stress"`), func(json.RawMessage) {
		const fill = 120
		rot := 40
		type ev struct {
			seq int64
			m   map[string]interface{}
		}
		var evs []ev
		var emu sync.Mutex
		var seq int64
		add := func(s int64, m map[string]interface{}) { emu.Lock(); evs = append(evs, ev{s, m}); emu.Unlock() }
		next := func() int64 { return atomic.AddInt64(&seq, 1) }
		sets := make([]map[string]int, 3)
		sets[1] = map[string]int{"s": 1, "c": 2, "o": 3}
		sets[2] = map[string]int{"s": 1, "c": 4, "n": 5}
		for i := 0; i < fill; i++ {
			sets[1][fmt.Sprint("f", i)] = 6
			sets[2][fmt.Sprint("f", i)] = 6
			sets[1][fmt.Sprint("g", i)] = 6
			sets[2][fmt.Sprint("h", i)] = 6
		}
		var cur int64
		docs := map[string]string{}
		for _, e := range []string{"zts", "zms"} {
			for v := 1; v <= 2; v++ {
				docs[fmt.Sprint(e, v)] = pkDoc(e, sets[v], "ok")
			}
		}
		s := &Server{}
		s.H = func(u, inm string) *Resp {
			env := u[strings.LastIndexByte(u, '/')+1:]
			v := atomic.LoadInt64(&cur)
			if v == 0 {
				return &Resp{Status: 200, Body: strings.Replace(docs[env+"1"], `"key":"`, `"key":"!`, 1)}
			}
			return &Resp{Status: 200, Body: docs[fmt.Sprint(env, v)]}
		}
		d, err := pubkey.New(pubkey.WithAthenzURL("athenz"), pubkey.WithHTTPClient(s.Client()))
		if err != nil {
			panic(err)
		}
		p := d.GetProvider()
		ids := []string{"s", "c", "o", "n", "f7", "g3"}
		stop := make(chan struct{})
		var wg sync.WaitGroup
		for w := 0; w < 6; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				env := []string{"zts", "zms"}[w%2]
				type obs struct {
					b, e int64
					v    string
				}
				last := map[string]*obs{}
				known := map[authcore.Verifier]string{}
				flush := func(id string, o *obs) {
					r := fmt.Sprintf("%d.%d", w, o.b)
					add(o.b, map[string]interface{}{"e": "rs", "id": env + "." + id, "r": r})
					add(o.e, map[string]interface{}{"e": "re", "id": env + "." + id, "r": r, "v": o.v})
				}
				for n := 0; ; n++ {
					select {
					case <-stop:
						for id, o := range last {
							flush(id, o)
						}
						return
					default:
					}
					id := ids[(n*7+w)%len(ids)]
					b := next()
					v := p(pubkey.AthenzEnv(env), id)
					e := next()
					val := "none"
					if v != nil {
						if x, ok := known[v]; ok {
							val = x
						} else {
							val = "?"
							for k := 1; k <= 6; k++ {
								if v.Verify("x", pkKey(env, k).sign("x")) == nil {
									val = fmt.Sprint(k)
								}
							}
							if len(known) > 5000 {
								known = map[authcore.Verifier]string{}
							}
							known[v] = val
						}
					}
					atomic.AddInt64(&pkReads, 1)
					if o := last[id]; o != nil && o.v == val {
						o.e = e
						continue
					} else if o != nil {
						flush(id, o)
					}
					last[id] = &obs{b, e, val}
				}
			}(w)
		}
		val := func(v int, id string) string {
			if k, ok := sets[v][id]; ok {
				return fmt.Sprint(k)
			}
			return "none"
		}
		inst := 0
		for u := 1; u <= rot; u++ {
			time.Sleep(300 * time.Microsecond)
			v := 1 + u%2
			if u%5 == 0 {
				v = 0 // a failing update
			}
			atomic.StoreInt64(&cur, int64(v))
			t := v
			if v == 0 {
				t = inst
			}
			s0 := next()
			err := d.Update(context.Background())
			e0 := next()
			if (err != nil) != (v == 0) {
				h.Violate(nil, "update %d: %v", u, err)
			}
			for _, env := range []string{"zts", "zms"} {
				for _, id := range ids {
					add(s0, map[string]interface{}{"e": "us", "id": env + "." + id, "v": val(t, id)})
					add(e0, map[string]interface{}{"e": "ue", "id": env + "." + id})
				}
			}
			inst = t
		}
		close(stop)
		wg.Wait()
		h.steps += int(pkReads)
		sort.SliceStable(evs, func(i, j int) bool { return evs[i].seq < evs[j].seq })
		for _, e := range evs {
			e.m["t"] = "ev"
			h.Emit(e.m)
		}
	})
}

var pkReads int64
