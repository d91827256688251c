// Package pbt runs properties over generated cases: plain JSON data drawn by rapid, executed by a
// function, shrunk by rapid. Every case is written to a journal before it runs, so that a case that
// kills or hangs the process can be replayed by the runner.
package pbt

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
	"unicode/utf8"

	"github.com/sirupsen/logrus"
	"pgregory.net/rapid"
)

// ---- byte-safe JSON values ----

// B is a byte string that survives JSON exactly.
type B string

func (b B) MarshalJSON() ([]byte, error) {
	q := strconv.QuoteToASCII(string(b))
	return json.Marshal(q[1 : len(q)-1])
}

func (b *B) UnmarshalJSON(d []byte) error {
	var s string
	if err := json.Unmarshal(d, &s); err != nil {
		return err
	}
	u, err := strconv.Unquote(`"` + s + `"`)
	if err != nil {
		return fmt.Errorf("bad byte string %q: %v", s, err)
	}
	*b = B(u)
	return nil
}

// F is a float64 that survives JSON exactly, including infinities and NaN.
type F float64

func (f F) MarshalJSON() ([]byte, error) {
	return json.Marshal(strconv.FormatFloat(float64(f), 'g', -1, 64))
}

func (f *F) UnmarshalJSON(d []byte) error {
	var s string
	if err := json.Unmarshal(d, &s); err != nil {
		return err
	}
	v, err := strconv.ParseFloat(s, 64)
	*f = F(v)
	return err
}

// Strs converts.
func Strs(bs []B) []string {
	out := make([]string, len(bs))
	for i, b := range bs {
		out[i] = string(b)
	}
	return out
}

// ---- recording ----

// Rec is handed to a case while it runs.
type Rec struct {
	T          *testing.T
	Dir        string // scratch directory of this process
	Replaying  bool
	nontrivial bool
	labels     []string
}

func (r *Rec) NonTrivial(cond bool) {
	if cond {
		r.nontrivial = true
	}
}

func (r *Rec) Label(cond bool, s string) {
	if cond {
		r.labels = append(r.labels, s)
	}
}

// Inconclusive is an error that must not be reported as a violation (budget hit, environment).
type Inconclusive struct{ Msg string }

func (e Inconclusive) Error() string { return "inconclusive: " + e.Msg }

type Spec[C any] struct {
	ID, Name string
	Rule     string // what a case is and what makes it non-trivial
	Gen      func(t *rapid.T) C
	Run      func(c C, r *Rec) error
	Quick    int
	Thorough int
	Timeout  time.Duration // per case; a case taking longer is reported as a hang by the runner
	// Concurrent: the outcome depends on scheduling. A failure need not reproduce, replay tries often.
	Concurrent bool
	Retries    int // replay attempts when Concurrent
	// Cut lists smaller variants of a case, tried on the shrunk failure of a deterministic check.
	Cut func(c C) []C
	// Bytes, when set, makes a case of the bytes of the coverage-guided search (else Gen draws from them), Seed gives
	// the bytes to start from for a generated case.
	Bytes func(b []byte) C
	Seed  func(c C) []byte
}

type violation struct {
	Case  json.RawMessage `json:"case"`
	Error string          `json:"error"`
}

type specOut struct {
	Name         string            `json:"name"`
	Rule         string            `json:"rule"`
	Evaluations  int               `json:"evaluations"`
	Nontrivial   int               `json:"nontrivial"`
	Inconclusive int               `json:"inconclusive"`
	InconcWhy    string            `json:"inconclusive_why,omitempty"`
	Hashes       []string          `json:"hashes"`
	Labels       map[string]int    `json:"labels"`
	Samples      []json.RawMessage `json:"samples"`
	Corpus       int               `json:"corpus"`
	Violation    *violation        `json:"violation,omitempty"`
	Concurrent   bool              `json:"concurrent"`
	Err          string            `json:"err,omitempty"` // harness problem
	Findings     []string          `json:"findings,omitempty"`
}

type output struct {
	Specs []*specOut `json:"specs"`
	Done  bool       `json:"done"`
}

type replayFile struct {
	Property string          `json:"property"`
	Spec     string          `json:"spec"`
	Seed     uint64          `json:"seed,omitempty"`
	Error    string          `json:"error,omitempty"`
	Case     json.RawMessage `json:"case"`
}

var (
	mu       sync.Mutex
	out      output
	journal  *os.File
	curStart atomic.Int64 // unix nanos, 0 when idle
	curLimit atomic.Int64
	scratch  string
)

func env(k string) string { return os.Getenv(k) }

func Tier() string {
	if env("VP_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

func Thorough() bool { return Tier() == "thorough" }

// Main is called from each package's TestMain.
func Main(m *testing.M) {
	flag.Parse()
	logrus.SetOutput(io.Discard)
	log.SetOutput(io.Discard)
	_ = flag.Set("rapid.nofailfile", "true")
	_ = flag.Set("rapid.shrinktime", "20s")
	if p := env("VP_JOURNAL"); p != "" {
		f, err := os.OpenFile(p, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o644)
		if err == nil {
			journal = f
		}
	}
	dir, err := os.MkdirTemp(env("VP_TMP"), "vp-case-")
	if err != nil {
		fmt.Fprintln(os.Stderr, "scratch:", err)
		os.Exit(96)
	}
	scratch = dir
	go watchdog()
	code := m.Run()
	out.Done = true
	flush()
	os.RemoveAll(dir)
	os.Exit(code)
}

func watchdog() {
	for {
		time.Sleep(250 * time.Millisecond)
		s := curStart.Load()
		if s == 0 {
			continue
		}
		if time.Now().UnixNano()-s > curLimit.Load() {
			buf := make([]byte, 1<<18)
			n := runtime.Stack(buf, true)
			fmt.Fprintf(os.Stderr, "HANG: case exceeded %v\n%s\n", time.Duration(curLimit.Load()), buf[:n])
			os.Exit(97)
		}
	}
}

func flush() {
	p := env("VP_OUT")
	if p == "" {
		return
	}
	mu.Lock()
	defer mu.Unlock()
	d, err := json.Marshal(&out)
	if err == nil {
		err = os.WriteFile(p+".tmp", d, 0o644)
	}
	if err == nil {
		err = os.Rename(p+".tmp", p)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "output:", err)
		os.Exit(96)
	}
}

func writeJournal(id, spec string, c []byte) {
	if journal == nil {
		return
	}
	hdr := fmt.Sprintf("%s\n%s\n%d\n", id, spec, len(c))
	b := append([]byte(hdr), c...)
	_, _ = journal.WriteAt(b, 0)
}

// fakeTB lets rapid.Check report without failing the surrounding test.
type fakeTB struct {
	name   string
	failed bool
	logs   []string
}

type failNow struct{}

func (f *fakeTB) Helper()                   {}
func (f *fakeTB) Name() string              { return f.name }
func (f *fakeTB) Logf(s string, a ...any)   { f.logs = append(f.logs, fmt.Sprintf(s, a...)) }
func (f *fakeTB) Log(a ...any)              { f.logs = append(f.logs, fmt.Sprint(a...)) }
func (f *fakeTB) Skipf(s string, a ...any)  { panic("skip") }
func (f *fakeTB) Skip(a ...any)             { panic("skip") }
func (f *fakeTB) SkipNow()                  { panic("skip") }
func (f *fakeTB) Errorf(s string, a ...any) { f.failed = true; f.Logf(s, a...) }
func (f *fakeTB) Error(a ...any)            { f.failed = true; f.Log(a...) }
func (f *fakeTB) Fatalf(s string, a ...any) { f.Errorf(s, a...); panic(failNow{}) }
func (f *fakeTB) Fatal(a ...any)            { f.Error(a...); panic(failNow{}) }
func (f *fakeTB) FailNow()                  { f.failed = true; panic(failNow{}) }
func (f *fakeTB) Fail()                     { f.failed = true }
func (f *fakeTB) Failed() bool              { return f.failed }

func hash64(s string) uint64 {
	h := fnv.New64a()
	_, _ = h.Write([]byte(s))
	return h.Sum64()
}

func mix(x uint64) uint64 {
	x ^= x >> 33
	x *= 0xff51afd7ed558ccd
	x ^= x >> 33
	x *= 0xc4ceb9fe1a85ec53
	x ^= x >> 33
	return x
}

func envInt(k string, def int) int {
	if n, err := strconv.Atoi(env(k)); err == nil {
		return n
	}
	return def
}

// Seed is the run's VERIF_SEED.
func Seed() uint64 {
	n, err := strconv.ParseInt(env("VP_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return uint64(n)
}

// runOne executes a case, turning a panic on this goroutine into an error.
func runOne[C any](s *Spec[C], c C, js []byte, r *Rec) (err error) {
	writeJournal(s.ID, s.Name, js)
	to := s.Timeout
	if to == 0 {
		to = 60 * time.Second
	}
	if x := envInt("VP_TIMEOUT_X", 1); x > 1 {
		to *= time.Duration(x)
	}
	if fuzzSpec != "" { // the case is confirmed with the whole limit
		to = min(to, 30*time.Second)
	}
	curLimit.Store(int64(to))
	curStart.Store(time.Now().UnixNano())
	defer curStart.Store(0)
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v\n%s", p, trimStack(string(debug.Stack())))
		}
	}()
	return s.Run(c, r)
}

func trimStack(s string) string {
	if len(s) > 3000 {
		s = s[:3000] + "..."
	}
	return s
}

// Check runs a spec: replay mode, or corpus followed by generated cases.
func Check[C any](t *testing.T, s Spec[C]) {
	if collecting {
		collect(s)
		return
	}
	so := &specOut{Name: s.Name, Rule: s.Rule, Labels: map[string]int{}, Concurrent: s.Concurrent}
	if rp := env("VP_REPLAY"); rp != "" {
		replay(t, &s, so, rp)
		return
	}
	if only := env("VP_SPEC"); only != "" && only != s.Name { // for development
		return
	}
	mu.Lock()
	out.Specs = append(out.Specs, so)
	mu.Unlock()
	defer flush()
	seen := map[uint64]bool{}
	var best *violation
	var failed time.Time // when the first failing case was found
	ran := 0
	exec := func(c C, fromCorpus bool) error {
		js, err := json.Marshal(c)
		if err != nil {
			so.Err = "case does not marshal: " + err.Error()
			return nil
		}
		r := &Rec{T: t, Dir: scratch}
		err = runOne(&s, c, js, r)
		ran++
		so.Evaluations++
		if ic, ok := err.(Inconclusive); ok {
			so.Inconclusive++
			so.InconcWhy = ic.Msg
			return nil
		}
		if err != nil {
			if best == nil {
				failed = time.Now()
				stopOthers()
			}
			if best == nil || len(js) <= len(best.Case) {
				best = &violation{Case: js, Error: err.Error()}
			}
			return err
		}
		for _, l := range r.labels {
			so.Labels[l]++
		}
		if r.nontrivial {
			so.Nontrivial++
			h := hash64(string(js))
			if !seen[h] {
				seen[h] = true
				so.Hashes = append(so.Hashes, strconv.FormatUint(h, 16))
				n := len(so.Samples)
				if len(js) < 3000 && (n < 2 || (n < 5 && so.Evaluations%37 == 0)) {
					so.Samples = append(so.Samples, js)
				}
			}
		}
		return nil
	}
	shard, nsh := envInt("VP_SHARD", 0), envInt("VP_NSHARDS", 1)
	if shard == 0 {
		files, _ := filepath.Glob(filepath.Join(env("VP_CORPUS"), s.ID, s.Name+"-*.json"))
		sort.Strings(files)
		for _, f := range files {
			d, err := os.ReadFile(f)
			if err != nil {
				so.Err = err.Error()
				return
			}
			var rf replayFile
			var c C
			if err := json.Unmarshal(d, &rf); err == nil {
				err = json.Unmarshal(rf.Case, &c)
				if err != nil {
					so.Err = f + ": " + err.Error()
					return
				}
			} else {
				so.Err = f + ": " + err.Error()
				return
			}
			so.Corpus++
			if exec(c, true) != nil {
				so.Violation = best
				return
			}
		}
	}
	n := s.Quick
	if Thorough() {
		n = s.Thorough
	}
	if x := envInt("VP_PERCENT", 100); x != 100 {
		n = n * x / 100
	}
	n = (n + nsh - 1) / nsh
	if n < 1 {
		n = 1
	}
	seed := mix(Seed()*0x9e3779b97f4a7c15 + hash64(s.ID+"/"+s.Name) + uint64(shard)*0x1234567)
	if seed == 0 {
		seed = 1
	}
	_ = flag.Set("rapid.seed", strconv.FormatUint(seed, 10))
	_ = flag.Set("rapid.checks", strconv.Itoa(n))
	tb := &fakeTB{name: s.ID + "-" + s.Name}
	func() {
		defer func() {
			if p := recover(); p != nil {
				if _, ok := p.(failNow); !ok {
					so.Err = fmt.Sprintf("generator/harness panic: %v\n%s", p, trimStack(string(debug.Stack())))
				}
			}
		}()
		rapid.Check(tb, func(rt *rapid.T) {
			if best != nil && time.Since(failed) > 40*time.Second || best == nil && stopped() {
				return // enough shrinking, or the verdict is clear
			}
			c := s.Gen(rt)
			if err := exec(c, false); err != nil {
				rt.Fatalf("violation")
			}
		})
	}()
	if best != nil {
		if s.Cut != nil {
			cutDown(&s, exec, &best)
		}
		so.Violation = best
	} else if tb.failed && so.Err == "" {
		so.Err = "rapid: " + strings.Join(tb.logs, "\n")
	}
}

// stopOthers tells the other shards of this check, and the specs to come, that a failing case was found; they stop when it
// has been known for a moment, so that shards that fail at the same time all report.
func stopOthers() {
	if p := env("VP_STOP"); p != "" {
		if f, err := os.OpenFile(p, os.O_CREATE|os.O_EXCL|os.O_WRONLY, 0o600); err == nil {
			f.Close()
		}
	}
}

var (
	stopAsked time.Time
	stopSeen  bool
)

func stopped() bool {
	if !stopSeen && time.Since(stopAsked) > 500*time.Millisecond {
		stopAsked = time.Now()
		if p := env("VP_STOP"); p != "" {
			if st, err := os.Stat(p); err == nil && time.Since(st.ModTime()) > 15*time.Second {
				stopSeen = true
			}
		}
	}
	return stopSeen
}

// cutDown replaces the failing case by smaller ones while they fail too.
func cutDown[C any](s *Spec[C], exec func(C, bool) error, best **violation) {
	end := time.Now().Add(15 * time.Second)
	for again := true; again; {
		again = false
		var c C
		if json.Unmarshal((*best).Case, &c) != nil {
			return
		}
		for _, x := range s.Cut(c) {
			if time.Now().After(end) {
				return
			}
			if js, err := json.Marshal(x); err != nil || len(js) >= len((*best).Case) {
				continue
			}
			if exec(x, false) != nil {
				again = true
				break
			}
		}
	}
}

// Cuts lists the slices that miss some consecutive elements of l, the shortest ones first.
func Cuts[E any](l []E) [][]E {
	var out [][]E
	for n := (len(l) + 1) / 2; n >= 1; n /= 2 {
		for i := 0; i < len(l); i += n {
			j := min(i+n, len(l))
			out = append(out, append(append([]E(nil), l[:i]...), l[j:]...))
		}
	}
	return out
}

func replay[C any](t *testing.T, s *Spec[C], so *specOut, path string) {
	d, err := os.ReadFile(path)
	if err != nil {
		t.Fatal(err)
	}
	var rf replayFile
	if err := json.Unmarshal(d, &rf); err != nil {
		t.Fatal(err)
	}
	if rf.Property != s.ID || rf.Spec != s.Name {
		return
	}
	var c C
	if err := json.Unmarshal(rf.Case, &c); err != nil {
		t.Fatal(err)
	}
	mu.Lock()
	out.Specs = append(out.Specs, so)
	mu.Unlock()
	defer flush()
	n := 1
	if s.Concurrent {
		n = s.Retries
		if n == 0 {
			n = 200
		}
	}
	for i := 0; i < n; i++ {
		r := &Rec{T: t, Dir: scratch, Replaying: true}
		err := runOne(s, c, rf.Case, r)
		so.Evaluations++
		if ic, ok := err.(Inconclusive); ok {
			so.Inconclusive++
			so.InconcWhy = ic.Msg
			continue
		}
		if err != nil {
			so.Violation = &violation{Case: rf.Case, Error: err.Error()}
			fmt.Printf("REPLAY %s/%s fails: %v\n", s.ID, s.Name, err)
			return
		}
	}
	fmt.Printf("REPLAY %s/%s passes (%d run(s))\n", s.ID, s.Name, n)
}

// Finding records that a listed known finding was reproduced on this tree.
func Finding(s string) {
	mu.Lock()
	defer mu.Unlock()
	so := &specOut{Name: "known-finding", Labels: map[string]int{}, Findings: []string{s}}
	out.Specs = append(out.Specs, so)
}

// Short shows a byte string for messages.
func Short(s string) string {
	if len(s) > 120 {
		return fmt.Sprintf("%q...(%d bytes)", s[:100], len(s))
	}
	if !utf8.ValidString(s) {
		return strconv.QuoteToASCII(s)
	}
	return strconv.Quote(s)
}

// Together runs f(0) to f(n-1) at the same time, each again and again, and gives the first error.
func Together(n, times int, f func(i int) error) error {
	errs := make([]error, n)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := range errs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					errs[i] = fmt.Errorf("panic: %v", p)
				}
			}()
			<-start
			for k := 0; k < times && errs[i] == nil; k++ {
				errs[i] = f(i)
			}
		}()
	}
	close(start)
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return fmt.Errorf("with %d at once: %v", n, e)
		}
	}
	return nil
}
