// Package drv replays behaviours generated from the TLA+ specification against
// the real packages of /repo and records logs for the trace specifications.
package drv

import (
	"bufio"
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	authcore "github.com/AthenZ/athenz/libs/go/zmssvctoken"
	"github.com/AthenZ/athenz/utils/zpe-updater/util"
	"github.com/ardielle/ardielle-go/rdl"
	"github.com/kpango/gache"
	"github.com/kpango/glg"
	"github.com/yahoojapan/athenz-authorizer/v5/policy"
	"github.com/yahoojapan/athenz-authorizer/v5/pubkey"
)

// H is the harness of one driver stage.
type H struct {
	t     *testing.T
	out   *json.Encoder
	prog  *os.File
	seed  int64
	tier  string
	mu    sync.Mutex
	n     int // behaviours replayed
	steps int // steps compared
	viol  int
	known map[string]int
	stats map[string]int
	cur   int
	curIn json.RawMessage
	part  int // of the cases this one replays those of index part modulo parts
	parts int
	omu   *sync.Mutex                    // of out
	defBy string                         // in the lines that are no cases but define something for all of them
	isDef func(raw json.RawMessage) bool // takes such a line
	share int                            // this many goroutines replay the cases of CasesShared on the same objects
}

const maxViol = 10

func (h *H) Violate(detail interface{}, format string, a ...interface{}) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.viol++
	if h.viol <= maxViol {
		h.omu.Lock()
		defer h.omu.Unlock()
		h.out.Encode(map[string]interface{}{"t": "viol", "case": h.cur, "input": h.curIn, "msg": fmt.Sprintf(format, a...), "detail": detail})
	}
}

// Known reports that a listed finding was observed.
func (h *H) Known(id string) {
	h.mu.Lock()
	h.known[id]++
	h.mu.Unlock()
}

func (h *H) Stat(k string, d int) {
	h.mu.Lock()
	h.stats[k] += d
	h.mu.Unlock()
}

// Log writes a record used by a trace specification.
func (h *H) Emit(v interface{}) { h.omu.Lock(); h.out.Encode(v); h.omu.Unlock() }

func (h *H) Full() bool { return h.viol >= maxViol }

// Cases calls f for each input line.
func (h *H) Cases(f func(raw json.RawMessage)) {
	in, err := os.Open(os.Getenv("VP_IN"))
	if err != nil {
		h.t.Fatal(err)
	}
	defer in.Close()
	r := bufio.NewReaderSize(in, 1<<20)
	for i := 0; ; i++ {
		line, err := r.ReadBytes('\n')
		line = bytes.TrimSpace(line)
		if len(line) > 0 && h.isDef != nil && bytes.Contains(line, []byte(h.defBy)) && h.isDef(line) {
			line = nil
		}
		if len(line) > 0 && i%h.parts == h.part {
			h.Case(i, json.RawMessage(append([]byte(nil), line...)), f)
			if h.Full() {
				return
			}
		}
		if err == io.EOF {
			return
		}
		if err != nil {
			h.t.Fatal(err)
		}
	}
}

// CasesShared calls f for each input line. With VP_SHARE=n, n goroutines do, each with its share of the lines and
// its own H, on the objects they share.
func (h *H) CasesShared(f func(h *H, raw json.RawMessage)) {
	if h.share <= 1 {
		h.Cases(func(raw json.RawMessage) { f(h, raw) })
		return
	}
	h.fork(func(g *H) { g.Cases(func(raw json.RawMessage) { f(g, raw) }) })
}

// shared calls f(h, 0) ... f(h, n-1). With VP_SHARE, several goroutines do, each with its own H.
func (h *H) shared(n int, f func(h *H, i int)) {
	if h.share <= 1 {
		for i := 0; i < n; i++ {
			f(h, i)
		}
		return
	}
	h.fork(func(g *H) {
		for i := g.part; i < n; i += g.parts {
			f(g, i)
		}
	})
}

func (h *H) fork(f func(g *H)) {
	var hs []*H
	for i := 0; i < h.share; i++ {
		hs = append(hs, &H{t: h.t, out: h.out, omu: h.omu, prog: h.prog, seed: h.seed, tier: h.tier, known: map[string]int{}, stats: map[string]int{}, part: i, parts: h.share,
			share: h.share, cur: h.cur, curIn: h.curIn, defBy: h.defBy, isDef: h.isDef})
	}
	h.together(h.share, func(i int) { f(hs[i]) })
	for _, g := range hs {
		h.merge(g)
	}
}

// together runs f(0) ... f(n-1) at the same time.
func (h *H) together(n int, f func(i int)) {
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			h.Call("concurrent calls", func() { f(i) })
		}()
	}
	wg.Wait()
}

func (h *H) merge(o *H) {
	h.n += o.n
	h.steps += o.steps
	h.viol += o.viol
	for k, v := range o.known {
		h.known[k] += v
	}
	for k, v := range o.stats {
		h.stats[k] += v
	}
}

// Case runs one case, with its index in the progress file in case the process dies.
func (h *H) Case(i int, raw json.RawMessage, f func(raw json.RawMessage)) {
	h.cur, h.curIn = i, raw
	b := []byte(fmt.Sprintf("%-12d", i))
	if h.parts > 1 { // any of the cases under way may be the one
		b = []byte(fmt.Sprintf("%-12d", -i))
	}
	h.prog.WriteAt(b, 0)
	h.n++
	f(raw)
}

// Bubble runs f in a synctest bubble. A panic in f's goroutine that comes out of the code under test
// is a violation; so is a call that never returns.
func (h *H) Bubble(f func()) {
	defer func() {
		if r := recover(); r != nil {
			s := fmt.Sprint(r)
			if strings.Contains(s, "main bubble goroutine has exited") {
				h.Stat("leftover_goroutines", 1)
				return
			}
			if strings.Contains(s, "all goroutines in bubble are blocked") {
				h.Violate(nil, "hang: every goroutine is blocked: %s", s)
				return
			}
			panic(r)
		}
	}()
	synctest.Test(h.t, func(*testing.T) {
		defer func() {
			if r := recover(); r != nil {
				st := string(debug.Stack())
				if repoPanic(st) {
					h.Violate(st, "panic in the code under test: %v", r)
					return
				}
				panic(fmt.Sprintf("%v\n%s", r, st))
			}
		}()
		f()
	})
}

// repoPanic tells whether the panicking goroutine's stack goes through the code under test.
func repoPanic(stack string) bool {
	return strings.Contains(stack, "athenz-authorizer/v5") || strings.Contains(stack, "/repo/")
}

// Call runs f and reports a panic of the code under test as a violation; it returns false then.
func (h *H) Call(what string, f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if !repoPanic(st) {
				panic(fmt.Sprintf("%v\n%s", r, st))
			}
			h.Violate(st, "%s: panic: %v", what, r)
			ok = false
		}
	}()
	f()
	return true
}

var stages = map[string]func(h *H){}

func TestDrive(t *testing.T) {
	name := os.Getenv("VP_STAGE")
	f, ok := stages[name]
	if !ok {
		t.Skipf("no stage %q", name)
	}
	o, err := os.Create(os.Getenv("VP_OUT"))
	if err != nil {
		t.Fatal(err)
	}
	defer o.Close()
	bw := bufio.NewWriter(o)
	defer bw.Flush()
	pf, err := os.Create(os.Getenv("VP_OUT") + ".prog")
	if err != nil {
		t.Fatal(err)
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	glg.Get().SetMode(glg.NONE)
	start := time.Now()
	// VP_PAR=n: n goroutines replay the cases at the same time, each its share. What the specification says
	// about a call does not depend on the calls of others.
	parts := 1
	if v, err := strconv.Atoi(os.Getenv("VP_PAR")); err == nil {
		parts = v
	}
	share, _ := strconv.Atoi(os.Getenv("VP_SHARE"))
	enc, omu := json.NewEncoder(bw), &sync.Mutex{}
	hs := make([]*H, parts)
	for i := range hs {
		hs[i] = &H{t: t, out: enc, omu: omu, prog: pf, seed: seed, tier: os.Getenv("VERIF_TIER"), known: map[string]int{}, stats: map[string]int{}, part: i, parts: parts, share: share}
	}
	if parts == 1 {
		f(hs[0])
	} else {
		var wg sync.WaitGroup
		for _, h := range hs {
			wg.Add(1)
			go t.Run(fmt.Sprint(h.part), func(t *testing.T) {
				defer wg.Done()
				h.t = t
				f(h)
			})
		}
		wg.Wait()
	}
	h := hs[0]
	for _, o := range hs[1:] {
		h.merge(o)
	}
	h.out.Encode(map[string]interface{}{"t": "sum", "n": h.n, "steps": h.steps, "viol": h.viol, "known": h.known, "stats": h.stats, "wall": time.Since(start).Seconds()})
}

// ---------------------------------------------------------------- HTTP

// Resp is what the fake server answers.
type Resp struct {
	Status   int
	Body     string
	ETag     string
	Err      error
	Hold     chan struct{} // when not nil, answer only after it is closed
	Trunc    bool          // the body ends with an error
	Cut0     bool          // the body cannot be read at all
	CloseErr bool          // closing reports an error
	Len      int           // announced length: 0 sometimes, 1 always, 2 never
	Header   map[string]string
}

// Req is a request the code under test made.
type Req struct {
	URL  string
	INM  string
	At   time.Time
	Done bool
}

type Server struct {
	mu     sync.Mutex
	seen   int
	H      func(url, inm string) *Resp
	Log    []*Req
	open   int
	opened int
}

type trackBody struct {
	io.Reader
	s      *Server
	closed bool
	trunc  bool
	cut0   bool
	cerr   bool
}

func (b *trackBody) Read(p []byte) (int, error) {
	if b.closed {
		return 0, fmt.Errorf("http: read on closed response body")
	}
	if b.cut0 {
		return 0, io.ErrUnexpectedEOF
	}
	n, err := b.Reader.Read(p)
	if err == io.EOF && b.trunc {
		err = io.ErrUnexpectedEOF
	}
	return n, err
}

func (b *trackBody) Close() error {
	b.s.mu.Lock()
	defer b.s.mu.Unlock()
	if !b.closed {
		b.closed = true
		b.s.open--
	}
	if b.cerr {
		return fmt.Errorf("close failed")
	}
	return nil
}

// RoundTrip implements http.RoundTripper.
func (s *Server) RoundTrip(q *http.Request) (*http.Response, error) {
	u := q.URL.String()
	inm := q.Header.Get("If-None-Match")
	if len(q.Header.Values("If-None-Match")) > 0 && inm == "" {
		inm = "(an empty condition)"
	}
	rl := &Req{URL: u, INM: inm, At: time.Now()}
	s.mu.Lock()
	s.Log = append(s.Log, rl)
	s.seen++
	odd := s.seen%2 == 1
	s.mu.Unlock()
	r := s.H(u, inm)
	if r.Hold != nil {
		select {
		case <-r.Hold:
		case <-q.Context().Done():
			return nil, q.Context().Err()
		}
	}
	if err := q.Context().Err(); err != nil {
		return nil, err
	}
	s.mu.Lock()
	rl.Done = true
	s.mu.Unlock()
	if r.Err != nil {
		return nil, r.Err
	}
	s.mu.Lock()
	s.open++
	s.opened++
	s.mu.Unlock()
	length := int64(-1) // as of a chunked answer
	if r.Len == 1 || r.Len == 0 && odd {
		if length = int64(len(r.Body)); r.Trunc || r.Cut0 {
			length += 10
		}
	}
	hd := http.Header{}
	if r.ETag != "" {
		hd.Set("ETag", r.ETag)
	} else if r.Status != 200 && odd { // of whatever the body is
		hd.Set("ETag", "of-a-"+fmt.Sprint(r.Status))
	}
	for k, v := range r.Header {
		hd.Set(k, v)
	}
	return &http.Response{Status: fmt.Sprint(r.Status), StatusCode: r.Status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: hd, Body: &trackBody{Reader: strings.NewReader(r.Body), s: s, trunc: r.Trunc, cut0: r.Cut0, cerr: r.CloseErr}, ContentLength: length, Request: q}, nil
}

func (s *Server) Client() *http.Client { return &http.Client{Transport: s} }

// Take returns and clears the request log.
func (s *Server) Take() []*Req {
	s.mu.Lock()
	defer s.mu.Unlock()
	l := s.Log
	s.Log = nil
	return l
}

func (s *Server) Open() int { s.mu.Lock(); defer s.mu.Unlock(); return s.open }

// ---------------------------------------------------------------- fake keys

// fakeVerifier accepts exactly fakeSign(env, id, input).
type fakeVerifier struct{ env, id string }

func fakeSign(env, id, input string) string {
	s := sha256.Sum256([]byte(input))
	return env + "|" + id + "|" + hex.EncodeToString(s[:])
}

func (f fakeVerifier) Verify(input, signature string) error {
	if signature != fakeSign(f.env, f.id, input) {
		return fmt.Errorf("bad signature")
	}
	return nil
}

// fakeProvider knows key ids with the given prefix-free names.
func fakeProvider(known ...string) pubkey.Provider {
	m := map[string]bool{}
	for _, k := range known {
		m[k] = true
	}
	return func(e pubkey.AthenzEnv, id string) authcore.Verifier {
		if !m[string(e)+":"+id] {
			return nil
		}
		return fakeVerifier{string(e), id}
	}
}

var stdProvider = fakeProvider("zts:k", "zms:k")

// ---------------------------------------------------------------- policies

// Ass is an assertion of a policy document.
type Ass struct {
	Role, Action, Resource, Effect string
}

// policyDoc builds a signed policy document with the fake keys.
func policyDoc(domain string, pols [][]Ass, expires time.Time, ztsID, zmsID string) string {
	pd := &util.PolicyData{Domain: domain}
	for i, as := range pols {
		p := &util.Policy{Name: fmt.Sprintf("%s:policy.p%d", domain, i)}
		for _, a := range as {
			p.Assertions = append(p.Assertions, &util.Assertion{Role: a.Role, Action: a.Action, Resource: a.Resource, Effect: a.Effect})
		}
		pd.Policies = append(pd.Policies, p)
	}
	return signDoc(pd, expires, ztsID, zmsID)
}

func signDoc(pd *util.PolicyData, expires time.Time, ztsID, zmsID string) string {
	pb, _ := json.Marshal(pd)
	ts := rdl.NewTimestamp(expires.UTC())
	spd := &util.SignedPolicyData{PolicyData: pd, Expires: &ts, ZmsKeyId: zmsID, ZmsSignature: fakeSign("zms", zmsID, string(pb))}
	mod := rdl.NewTimestamp(time.Unix(0, 0).UTC())
	spd.Modified = &mod
	sb, _ := json.Marshal(spd)
	d := util.DomainSignedPolicyData{SignedPolicyData: spd, KeyId: ztsID, Signature: fakeSign("zts", ztsID, string(sb))}
	b, _ := json.Marshal(d)
	return string(b)
}

const policyURL = "https://athenz/domain/%s/signed_policy_data"

func domainOf(url string) string {
	s := strings.TrimPrefix(url, "https://athenz/domain/")
	return strings.TrimSuffix(s, "/signed_policy_data")
}

func newPolicyd(s *Server, domains []string, opts ...policy.Option) policy.Daemon {
	o := append([]policy.Option{
		policy.WithAthenzURL("athenz"), policy.WithAthenzDomains(domains...),
		policy.WithPubKeyProvider(stdProvider), policy.WithHTTPClient(s.Client()),
		policy.WithRetryDelay("1ms"), policy.WithRetryAttempts(1),
	}, opts...)
	d, err := policy.New(o...)
	if err != nil {
		panic(err)
	}
	return d
}

// Gates ---------------------------------------------------------------

// setYield installs a function called at the start of every cache lookup of the code under test.
func (h *H) setYield(f func(key string)) {
	if h.parts == 1 {
		gache.VerifYield = f
	}
}

func bg() context.Context { return context.Background() }

func join(xs []string) string { return strings.Join(xs, "") }

func must(err error) {
	if err != nil {
		panic(err)
	}
}
