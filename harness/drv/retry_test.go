package drv

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"net"
	"net/http"
	"net/url"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing/synctest"
	"time"

	"github.com/yahoojapan/athenz-authorizer/v5/client"
)

// Stage "retry" (C25).

type rexAttempt struct {
	O     string
	Lat   int
	Start int
}
type rexCase struct {
	Unit, Max, Limit int
	Script           []rexAttempt
	Last             string
	ReturnedOpen     int
}

type tempErr struct{ t bool }

func (e *tempErr) Error() string   { return fmt.Sprintf("temporary: %v", e.t) }
func (e *tempErr) Temporary() bool { return e.t }

type tempErr2 struct {
	tempErr
	in error
}

func (e *tempErr2) Unwrap() error { return e.in }

var rtErrs = map[string]error{
	"temp":      &tempErr{true},
	"tempfalse": &tempErr{false},
	"perm":      errors.New("permanent"),
	"canceled":  context.Canceled,
	"deadline":  context.DeadlineExceeded,
	"optemp":    &net.OpError{Op: "read", Err: syscall.EAGAIN},
	"urltemp":   &url.Error{Op: "Get", URL: "x", Err: &tempErr{true}},
	"wraptrue":  &tempErr2{tempErr{true}, &tempErr{false}}, // what the error itself says counts
	"wrapfalse": &tempErr2{tempErr{false}, &tempErr{true}},
	"wrapped":   fmt.Errorf("wrapped: %w", errors.New("permanent")),
}

// rexServer plays the script of one request (the request says which).
type rexServer struct {
	mu    sync.Mutex
	s     *Server // counts the open bodies
	t0    time.Time
	c     *rexCase
	n     map[string]int
	start map[string][]int
	bad   string
}

var longBody = strings.Repeat("0123456789", 30000)

func rtBody(o string, k int) string {
	if strings.HasSuffix(o, "long") {
		return longBody
	}
	return fmt.Sprintf("body of attempt %d", k)
}

func (r *rexServer) RoundTrip(q *http.Request) (*http.Response, error) {
	r.mu.Lock()
	id := q.Header.Get("X-Id")
	k := r.n[id]
	r.n[id]++
	r.start[id] = append(r.start[id], int(time.Since(r.t0)/time.Millisecond))
	if q.Method != "GET" || q.URL.String() != "https://h/p?q="+id {
		r.bad = q.Method + " " + q.URL.String()
	}
	r.mu.Unlock()
	if k >= len(r.c.Script) {
		return nil, rtErrs["perm"]
	}
	a := r.c.Script[k]
	if a.Lat > 0 {
		time.Sleep(time.Duration(a.Lat) * time.Millisecond)
	}
	if e, ok := rtErrs[a.O]; ok {
		return nil, e
	}
	code, _ := strconv.Atoi(a.O[:3])
	r.s.mu.Lock()
	r.s.open++
	r.s.mu.Unlock()
	return &http.Response{StatusCode: code, Header: http.Header{"X-Attempt": {fmt.Sprint(k)}}, ContentLength: -1, Request: q,
		Body: &trackBody{Reader: strings.NewReader(rtBody(a.O, k)), s: r.s, trunc: strings.HasSuffix(a.O, "cut")}}, nil
}

var (
	rtMu  sync.Mutex
	rtAll = map[string]*client.ExponentialRoundTripper{}
)

type rtSwitch struct{}

type rtKey struct{}

// RoundTrip goes to the server of the case the request belongs to.
func (rtSwitch) RoundTrip(q *http.Request) (*http.Response, error) {
	return q.Context().Value(rtKey{}).(*rexServer).RoundTrip(q)
}

func runRetry(h *H, c *rexCase) bool {
	r := &rexServer{s: &Server{}, t0: time.Now(), c: c, n: map[string]int{}, start: map[string][]int{}}
	// one transport per configuration, used for all requests
	id := fmt.Sprint(c.Unit, c.Max, c.Limit)
	rtMu.Lock()
	t := rtAll[id]
	if t == nil {
		var err error
		t, err = client.NewExponentialRoundTripper(rtSwitch{}, math.Sqrt(1000/float64(c.Unit)), c.Max, time.Duration(c.Limit)*time.Millisecond)
		must(err)
		rtAll[id] = t
	}
	rtMu.Unlock()
	type res struct {
		resp *http.Response
		err  error
	}
	out := map[string]*res{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	for _, id := range []string{"a", "b"} { // two requests at the same time
		wg.Add(1)
		go func(id string) {
			defer wg.Done()
			q, _ := http.NewRequest("GET", "https://h/p?q="+id, nil)
			q.Header.Set("X-Id", id)
			q = q.WithContext(context.WithValue(bg(), rtKey{}, r))
			var x res
			h.Call("RoundTrip", func() { x.resp, x.err = t.RoundTrip(q) })
			mu.Lock()
			out[id] = &x
			mu.Unlock()
		}(id)
	}
	wg.Wait()
	synctest.Wait()
	if r.bad != "" {
		h.Violate(c, "the transport is given another request: %s", r.bad)
		return false
	}
	want := len(c.Script)
	for id, x := range out {
		h.steps += want + 3
		if r.n[id] != want {
			h.Violate(c, "%d attempts are made, %d specified", r.n[id], want)
			return false
		}
		for i, a := range c.Script {
			if r.start[id][i] != a.Start {
				h.Violate(c, "attempt %d starts after %d ms, specified %d ms", i+1, r.start[id][i], a.Start)
				return false
			}
		}
		if e, ok := rtErrs[c.Last]; ok {
			if x.err != e || x.resp != nil {
				h.Violate(c, "returns (%v, %v), the last attempt ended with %v", x.resp, x.err, e)
				return false
			}
			continue
		}
		if x.err != nil || x.resp == nil {
			h.Violate(c, "returns the error %v, the last attempt was answered %s", x.err, c.Last)
			return false
		}
		if fmt.Sprint(x.resp.StatusCode) != c.Last[:3] || x.resp.Header.Get("X-Attempt") != fmt.Sprint(want-1) {
			h.Violate(c, "returns the answer %d of attempt %s, not the last one", x.resp.StatusCode, x.resp.Header.Get("X-Attempt"))
			return false
		}
	}
	if r.s.Open() != 2*c.ReturnedOpen {
		h.Violate(c, "%d bodies are open after two requests returned, specified %d", r.s.Open(), 2*c.ReturnedOpen)
		return false
	}
	for _, x := range out {
		if x.resp == nil {
			continue
		}
		b, err := io.ReadAll(x.resp.Body)
		cut := strings.HasSuffix(c.Last, "cut")
		if string(b) != rtBody(c.Last, want-1) || (err != nil) != cut {
			h.Violate(c, "the returned body is not readable: %d bytes, %v", len(b), err)
			return false
		}
		x.resp.Body.Close()
	}
	return true
}

func init() {
	stages["retry"] = func(h *H) {
		h.Cases(func(raw json.RawMessage) {
			var c rexCase
			must(json.Unmarshal(raw, &c))
			h.Bubble(func() {
				// and later once more: a transport keeps nothing from one request to the next
				if runRetry(h, &c) {
					time.Sleep(2 * time.Hour)
					runRetry(h, &c)
				}
			})
		})
	}
}
