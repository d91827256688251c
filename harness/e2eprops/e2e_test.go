package e2eprops

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/liujiangwei/xxcache"
	"github.com/sirupsen/logrus"
	"pgregory.net/rapid"

	"verif/harness/cachekit"
	"verif/harness/pbt"
	"verif/harness/rdbgen"
	"verif/harness/resp"
	"verif/harness/srv"
)

func TestMain(m *testing.M) { pbt.Main(m) }

// master is a Redis master: it answers GET and SET from its own store and hands its snapshot and
// stream to whoever synchronises.
type master struct {
	*srv.Server
	mu    sync.Mutex
	store map[string]string // what GET finds
	fail  bool              // SET is rejected
	sets  [][]string        // SET requests received
	gets  int
	first []byte // snapshot and what follows it at once
	cuts  []int
	link  *srv.Conn // the replication connection
	ready chan struct{}
	drop  bool // end the connection after that
	over  sync.Once
	gone  chan struct{} // the replication connection has ended
}

func newMaster(first []byte, cuts []int, drop bool) (*master, error) {
	m := &master{store: map[string]string{}, first: first, cuts: cuts, drop: drop, ready: make(chan struct{}), gone: make(chan struct{})}
	s, err := srv.Listen(m.serve)
	if err != nil {
		return nil, err
	}
	m.Server = s
	return m, nil
}

// newMasterAt listens at an address that other shards use in turn.
func newMasterAt(addr string, first []byte, cuts []int) (*master, error) {
	m := &master{store: map[string]string{}, first: first, cuts: cuts, ready: make(chan struct{}), gone: make(chan struct{})}
	var err error
	for i := 0; i < 300; i++ {
		if m.Server, err = srv.ListenAt(addr, m.serve); err == nil {
			return m, nil
		}
		time.Sleep(10 * time.Millisecond)
	}
	return nil, err
}

func (m *master) serve(c *srv.Conn) {
	c.Cuts = m.cuts
	for {
		a, err := c.Request()
		if err != nil {
			return
		}
		var reply resp.Msg
		switch cmd := strings.ToLower(a[0]); {
		case cmd == "ping" && len(a) == 1:
			reply = resp.Simple("PONG")
		case cmd == "sync" && len(a) == 1:
			defer m.over.Do(func() { close(m.gone) })
			if c.Put(m.first) != nil {
				return
			}
			m.mu.Lock()
			m.link = c
			m.mu.Unlock()
			close(m.ready)
			if m.drop {
				return
			}
			io.Copy(io.Discard, c.R) // acknowledgements
			return
		case cmd == "get" && len(a) == 2:
			m.mu.Lock()
			m.gets++
			v, ok := m.store[a[1]]
			m.mu.Unlock()
			reply = resp.Bulk(v)
			if !ok {
				reply = resp.Nil()
			}
		case cmd == "set" && len(a) == 3:
			m.mu.Lock()
			m.sets = append(m.sets, a)
			reply = resp.Simple("OK")
			if m.fail {
				reply = resp.Err("READONLY You can't write against a read only replica.")
			} else {
				m.store[a[1]] = a[2]
			}
			m.mu.Unlock()
		default:
			reply = resp.Err(fmt.Sprintf("ERR unknown request %q", a))
		}
		if c.Send(reply) != nil {
			return
		}
	}
}

// state of a key in the local copy.
type state struct {
	local  bool
	other  bool // not a string: not observed
	val    string
	dead   bool // has a deadline between lo and hi; no hi: not known
	lo, hi time.Time
	life   time.Duration // the deadline is this long after the command is applied
}

// step of a history.
type step struct {
	Op string  `json:"op"` // cmd, raw, get, set, remote, barrier, wait
	C  []pbt.B `json:"c,omitempty"`
	K  pbt.B   `json:"k,omitempty"`
	V  pbt.B   `json:"v,omitempty"`
	// set: the master rejects it / propagates it
	Fail bool  `json:"fail,omitempty"`
	Prop bool  `json:"prop,omitempty"`
	Ms   int64 `json:"ms,omitempty"` // PEXPIREAT relative to now
}

type e2eCase struct {
	File    rdbgen.File `json:"file"`
	Early   int         `json:"early"` // steps whose commands follow the snapshot at once
	Steps   []step      `json:"steps"`
	Cuts    []int       `json:"cuts,omitempty"`
	End     string      `json:"end"` // keep, close, partial, stop
	Readers int         `json:"readers"`
	Seq     int         `json:"seq"` // increasing values of one key, sent between the steps
	Log     bool        `json:"log,omitempty"`
}

var keys = []pbt.B{"k1", "k2", "", "\x00\xff", "12", "name"}

type world struct {
	c      e2eCase
	m      *master
	client xxcache.Client
	db     int                // selected in the stream
	keys   map[string][]state // possible states, the last is the final one
	mark   int
	r      *pbt.Rec
}

func (w *world) last(k string) state {
	l := w.keys[k]
	if len(l) == 0 {
		return state{}
	}
	return l[len(l)-1]
}

func (w *world) push(k string, s state) {
	if len(w.keys[k]) == 0 {
		w.keys[k] = []state{{}}
	}
	w.keys[k] = append(w.keys[k], s)
}

// note applies a command of the stream to the model and returns its bytes. PEXPIREAT takes a relative time.
func (w *world) note(s step) []byte {
	if s.Op == "raw" {
		return []byte(s.V)
	}
	a := pbt.Strs(s.C)
	name := strings.ToLower(a[0])
	if name == "pexpireat" && s.Ms != 0 {
		a = append(a[:2:2], strconv.FormatInt(time.Now().UnixMilli()+s.Ms, 10))
	}
	b := resp.Cmd(a...).Encode(nil)
	if name == "select" {
		if len(a) == 2 {
			if n, err := strconv.Atoi(a[1]); err == nil {
				w.db = n
			}
		}
		return b
	}
	if w.db != 0 {
		return b
	}
	switch name {
	case "set":
		if len(a) != 3 && len(a) != 5 || a[1] == "u1" || a[1] == "u2" {
			break
		}
		st := state{local: true, val: a[2]}
		if len(a) == 5 {
			n, _ := strconv.ParseInt(a[4], 10, 64)
			d := time.Duration(n) * time.Second
			if strings.EqualFold(a[3], "px") {
				d = time.Duration(n) * time.Millisecond
			}
			st.dead, st.lo, st.life = true, time.Now().Add(d), d
		}
		w.push(a[1], st)
	case "del":
		for _, k := range a[1:] {
			w.push(k, state{})
		}
	case "pexpireat":
		st := w.last(a[1])
		if st.local && s.Ms != 0 {
			n, _ := strconv.ParseInt(a[2], 10, 64)
			t := time.UnixMilli(n)
			if st.dead && st.lo.Before(time.Now().Add(time.Minute)) {
				// it may have expired before this is applied
				if t.Before(st.lo) {
					st.lo = t
				}
				w.push(a[1], state{local: true, val: st.val, other: st.other, dead: true, lo: st.lo})
				return b
			}
			w.push(a[1], state{local: true, val: st.val, dead: true, lo: t, hi: t, other: st.other})
		}
	}
	return b
}

func (w *world) send(b []byte) error {
	if err := w.m.link.Put(b); err != nil {
		return fmt.Errorf("the client closed the replication connection: %v", err)
	}
	return nil
}

// marker returns a command that shows that everything before it was applied.
func (w *world) marker() (key string, b []byte) {
	w.mark++
	key = "#marker-" + strconv.Itoa(w.mark)
	if w.db != 0 {
		b = resp.Cmd("SELECT", "0").Encode(b)
	}
	b = resp.Cmd("SET", key, "here").Encode(b)
	if w.db != 0 {
		b = resp.Cmd("SELECT", strconv.Itoa(w.db)).Encode(b)
	}
	return
}

func (w *world) await(key string) error {
	start := time.Now()
	for i := 0; ; i++ {
		v, err := w.client.Get(key)
		if err == nil && v == "here" {
			break
		}
		if err == nil {
			return fmt.Errorf("%s is %s", key, pbt.Short(v))
		}
		if time.Since(start) > 25*time.Second {
			return fmt.Errorf("%s, sent after everything else, is not there after 25 s: %v", key, err)
		}
		if i > 3 {
			time.Sleep(200 * time.Microsecond)
		}
	}
	now := time.Now()
	for k, l := range w.keys {
		s := l[len(l)-1]
		if s.life > 0 {
			s.hi, s.life = now.Add(s.life), 0
		}
		w.keys[k] = []state{s}
	}
	return nil
}

func (w *world) get(key string) error {
	w.m.mu.Lock()
	rv, rok := w.m.store[key]
	w.m.mu.Unlock()
	t0 := time.Now()
	v, err := w.client.Get(key)
	t1 := time.Now()
	remote := (rok && err == nil && v == rv) || (!rok && err != nil)
	poss := w.keys[key]
	if len(poss) == 0 {
		poss = []state{{}}
	}
	var expect []string
	for _, s := range poss {
		if s.other {
			return nil
		}
		mayLocal := s.local && (!s.dead || s.hi.IsZero() || t0.Before(s.hi.Add(2*time.Millisecond)))
		mayRemote := !s.local || s.dead && t1.After(s.lo.Add(-2*time.Millisecond))
		if mayLocal && err == nil && v == s.val || mayRemote && remote {
			return nil
		}
		if mayLocal {
			expect = append(expect, "the local "+pbt.Short(s.val))
		}
		if mayRemote {
			if rok {
				expect = append(expect, "the master's "+pbt.Short(rv))
			} else {
				expect = append(expect, "an error, as the master has none")
			}
		}
	}
	return fmt.Errorf("Get(%s) is %s with error %v, expected %s", pbt.Short(key), pbt.Short(v), err, strings.Join(expect, " or "))
}

func (w *world) all() error {
	for k := range w.keys {
		if err := w.get(k); err != nil {
			return err
		}
	}
	for _, k := range append([]pbt.B{"never"}, keys...) {
		if err := w.get(string(k)); err != nil {
			return err
		}
	}
	return nil
}

func (c e2eCase) run(r *pbt.Rec) error {
	w := &world{c: c, keys: map[string][]state{}, r: r}
	// the snapshot: deadlines of 999 ms stand for moments in the near future
	f := c.File
	f.Recs = append([]rdbgen.Rec(nil), f.Recs...)
	db := 0
	for i := range f.Recs {
		x := &f.Recs[i]
		if x.Op == "select" {
			db = int(x.N)
		}
		if x.Op != "obj" {
			continue
		}
		if x.Exp == "ms" && x.At == 999 {
			x.At = time.Now().UnixMilli() + 40
		}
		if db != 0 {
			continue
		}
		st := state{local: true, other: x.Type != rdbgen.TString}
		if x.V != nil {
			st.val = string(x.V.S)
		}
		switch x.Exp {
		case "s":
			st.dead, st.lo = true, time.Unix(x.At, 0)
		case "ms":
			if x.At < 1<<50 {
				st.dead, st.lo = true, time.UnixMilli(x.At)
			}
		}
		st.hi = st.lo
		w.keys[string(x.K.S)] = []state{st}
	}
	snap, _ := f.Bytes()
	first := []byte("$" + strconv.Itoa(len(snap)) + "\r\n")
	first = append(first, snap...)
	steps := c.Steps
	for i := 0; i < c.Early && len(steps) > 0 && (steps[0].Op == "cmd" || steps[0].Op == "raw"); i++ {
		first = append(first, w.note(steps[0])...)
		steps = steps[1:]
	}
	m, err := newMaster(first, c.Cuts, false)
	if err != nil {
		return err
	}
	defer m.Close()
	w.m = m
	opt := xxcache.Option{RedisMasterAddr: m.Addr, RedisRdbFile: filepath.Join(r.Dir, "e2e.rdb")}
	if c.Log {
		opt.LogLevel = logrus.DebugLevel
	}
	if w.client, err = xxcache.New(opt); err != nil {
		return fmt.Errorf("New: %v", err)
	}
	<-m.ready
	mk, b := w.marker()
	if err := w.send(b); err != nil {
		return err
	}
	if err := w.await(mk); err != nil {
		return err
	}
	if err := w.all(); err != nil {
		return fmt.Errorf("after the snapshot and %d commands: %w", len(c.Steps)-len(steps), err)
	}
	// readers see one key's values in the order of the stream
	var stop atomic.Bool
	var wg sync.WaitGroup
	defer wg.Wait()
	defer stop.Store(true)
	fails := make(chan error, c.Readers+1)
	for i := 0; i < c.Readers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			prev := -1
			for !stop.Load() {
				v, err := w.client.Get("#seq")
				n := -1
				if err == nil {
					if n, err = strconv.Atoi(v); err != nil {
						fails <- fmt.Errorf("the key seq is %s", pbt.Short(v))
						return
					}
				}
				if n < prev {
					fails <- fmt.Errorf("the key seq is %d after it was %d", n, prev)
					return
				}
				prev = n
				if n < 0 {
					time.Sleep(300 * time.Microsecond)
				}
				w.client.Get(string(keys[prev&1]))
			}
		}()
	}
	seq := 0
	sendSeq := func() error {
		if seq >= c.Seq || w.db != 0 {
			return nil
		}
		seq++
		return w.send(resp.Cmd("SET", "#seq", strconv.Itoa(seq)).Encode(nil))
	}
	var tail []byte // commands held back to arrive together with the end of the connection
	for i, s := range steps {
		if err := sendSeq(); err != nil {
			return err
		}
		var err error
		switch s.Op {
		case "cmd", "raw":
			b := w.note(s)
			rest := true
			for _, x := range steps[i:] {
				rest = rest && (x.Op == "cmd" || x.Op == "raw")
			}
			if rest && (c.End == "close" || c.End == "partial") {
				tail = append(tail, b...)
				continue
			}
			err = w.send(b)
		case "get":
			err = w.get(string(s.K))
		case "remote":
			m.mu.Lock()
			if len(s.V) == 0 {
				delete(m.store, string(s.K))
			} else {
				m.store[string(s.K)] = "master:" + string(s.V)
			}
			m.mu.Unlock()
		case "set":
			err = w.set(s)
		case "wait":
			time.Sleep(time.Duration(s.Ms) * time.Millisecond)
		case "barrier":
			mk, b := w.marker()
			if err = w.send(b); err == nil {
				if err = w.await(mk); err == nil {
					err = w.all()
				}
			}
		}
		if err != nil {
			return fmt.Errorf("step %d: %w", i, err)
		}
	}
	mk, b = w.marker()
	tail = append(tail, b...)
	switch c.End {
	case "partial":
		tail = append(tail, "*3\r\n$3\r\nSET\r\n$2\r\nk1\r\n$5\r\nnev"...)
	}
	if err := w.send(tail); err != nil {
		return err
	}
	if c.End == "close" || c.End == "partial" {
		m.link.EndWrite()
	}
	if err := w.await(mk); err != nil {
		return fmt.Errorf("at the end (%s): %w", c.End, err)
	}
	if c.End == "close" || c.End == "partial" {
		m.link.End()
	}
	select {
	case err := <-fails:
		return err
	default:
	}
	if c.End == "stop" {
		stop.Store(true)
		wg.Wait()
		m.mu.Lock()
		m.store = map[string]string{}
		m.mu.Unlock()
		m.Close()
	}
	for i := 0; i < 2; i++ {
		if err := w.all(); err != nil {
			return fmt.Errorf("after the end (%s): %w", c.End, err)
		}
	}
	select {
	case err := <-fails:
		return err
	default:
	}
	return nil
}

func (w *world) set(s step) error {
	m := w.m
	m.mu.Lock()
	m.fail = s.Fail
	n := len(m.sets)
	m.mu.Unlock()
	v, err := w.client.Set(string(s.K), string(s.V))
	m.mu.Lock()
	sets := m.sets[n:]
	m.fail = false
	m.mu.Unlock()
	if s.Fail {
		if err == nil {
			return fmt.Errorf("Set(%s, %s) which the master rejects returns %q", pbt.Short(string(s.K)), pbt.Short(string(s.V)), v)
		}
	} else if err != nil || v != "OK" {
		return fmt.Errorf("Set(%s, %s) returns %q, %v", pbt.Short(string(s.K)), pbt.Short(string(s.V)), v, err)
	}
	if len(sets) != 1 || sets[0][1] != string(s.K) || sets[0][2] != string(s.V) {
		return fmt.Errorf("Set(%s, %s) sends %q", pbt.Short(string(s.K)), pbt.Short(string(s.V)), sets)
	}
	if s.Prop && !s.Fail {
		var b []byte
		back := w.db
		if back != 0 {
			b = append(b, w.note(step{C: []pbt.B{"SELECT", "0"}})...)
		}
		b = append(b, w.note(step{C: []pbt.B{"SET", s.K, s.V}})...)
		if back != 0 {
			b = append(b, w.note(step{C: []pbt.B{"SELECT", pbt.B(strconv.Itoa(back))}})...)
		}
		return w.send(b)
	}
	return nil
}

func genCmd(t *rapid.T) step {
	key := rapid.SampledFrom(keys)
	w := func(s ...string) step {
		x := step{Op: "cmd"}
		for _, a := range s {
			x.C = append(x.C, pbt.B(a))
		}
		return x
	}
	k := string(key.Draw(t, "k"))
	val := func() string { return string(rdbgen.Text(t, rapid.IntRange(0, 9).Draw(t, "long") > 0)) }
	switch rapid.IntRange(0, 13).Draw(t, "ckind") {
	case 0:
		return w("SELECT", strconv.Itoa(rapid.SampledFrom([]int{0, 0, 0, 1, 15}).Draw(t, "db")))
	case 1:
		return w("PING")
	case 2, 3:
		x := w(rapid.SampledFrom([]string{"DEL", "del"}).Draw(t, "del"), k)
		if rapid.IntRange(0, 2).Draw(t, "more") == 0 {
			x.C = append(x.C, key.Draw(t, "k2"), key.Draw(t, "k3"))
		}
		return x
	case 4:
		return w("SET", k, val(), rapid.SampledFrom([]string{"EX", "ex"}).Draw(t, "ex"), rapid.SampledFrom([]string{"1000", "100000"}).Draw(t, "sec"))
	case 5:
		return w("SET", k, val(), rapid.SampledFrom([]string{"PX", "px"}).Draw(t, "px"), rapid.SampledFrom([]string{"1", "5", "30", "60", "60000"}).Draw(t, "msec"))
	case 6:
		x := w("PEXPIREAT", k)
		x.Ms = rapid.SampledFrom([]int64{-100000, -1, 10, 50, 600000}).Draw(t, "in")
		return x
	case 7:
		// not handled by the cache, on keys nobody looks at
		u := rapid.SampledFrom([]string{"u1", "u2"}).Draw(t, "u")
		return w(rapid.SampledFrom([][]string{{"INCR", u}, {"APPEND", u, "x"}, {"LPUSH", u, "a"}, {"RPUSH", u, "a", "b"}, {"RPUSH", u}, {"SADD", u, "a"}, {"ZADD", u, "1", "a"}, {"HMSET", u, "f", "v"}, {"HMSET", u, "f"}, {"MULTI"}, {"EXEC"}, {"SET", u}, {"SET"}, {"DEL"}, {"SET", u, "v", "EX", "x"}, {"SET", u, "v", "KEEPTTL", "9", "9"}, {"REPLCONF", "GETACK", "*"}, {"PUBLISH", "c", "m"}, {"PEXPIREAT", u, "soon"}, {"EVAL", "return 1", "0"}, {"SELECT"}, {"SELECT", "x"}, {"", ""}}).Draw(t, "unsupported")...)
	case 8:
		if rapid.IntRange(0, 3).Draw(t, "odd") == 0 {
			return step{Op: "raw", V: rapid.SampledFrom([]pbt.B{"+OK\r\n", ":5\r\n", "$-1\r\n", "*0\r\n", "*-1\r\n", "-ERR x\r\n", "$3\r\nabc\r\n", "*2\r\n$3\r\nDEL\r\n$-1\r\n", "*3\r\n$3\r\nSET\r\n*1\r\n$2\r\nk1\r\n$1\r\nx\r\n"}).Draw(t, "raw")}
		}
	}
	return w(rapid.SampledFrom([]string{"SET", "SET", "set"}).Draw(t, "set"), k, val())
}

func genStep(t *rapid.T) step {
	switch rapid.IntRange(0, 11).Draw(t, "skind") {
	case 0, 1:
		return step{Op: "get", K: rapid.SampledFrom(keys).Draw(t, "k")}
	case 2:
		return step{Op: "set", K: rapid.SampledFrom(keys).Draw(t, "k"), V: cachekit.Val(t), Fail: rapid.IntRange(0, 3).Draw(t, "fail") == 0, Prop: rapid.Bool().Draw(t, "prop")}
	case 3:
		return step{Op: "remote", K: rapid.SampledFrom(keys).Draw(t, "k"), V: pbt.B(rapid.StringMatching(`[a-z]{0,4}`).Draw(t, "v"))}
	case 4:
		return step{Op: "barrier"}
	case 5:
		if rapid.IntRange(0, 3).Draw(t, "w") == 0 {
			return step{Op: "wait", Ms: rapid.SampledFrom([]int64{1, 6, 35, 65}).Draw(t, "ms")}
		}
	}
	return genCmd(t)
}

type newCase struct {
	Kind string      `json:"kind"`
	File rdbgen.File `json:"file"`
	Cut  int         `json:"cut"`
}

func (c newCase) run(r *pbt.Rec) error {
	r.NonTrivial(true)
	r.Label(true, c.Kind)
	snap, n := c.File.Bytes()
	head := func(n int) []byte { return []byte("$" + strconv.Itoa(n) + "\r\n") }
	first := append(head(len(snap)), snap...)
	switch c.Kind {
	case "refused":
		first = []byte("-ERR no replication\r\n")
	case "short":
		first = first[:c.Cut*len(first)/1001]
	case "truncated":
		snap = snap[:c.Cut*n/1001]
		first = append(head(len(snap)), snap...)
	case "unsupported":
		snap = append(snap[:n-1:n-1], 15, 1, 'k', 0)
		first = append(head(len(snap)), snap...)
	}
	m, err := newMaster(first, nil, c.Kind == "short" || c.Kind == "refused")
	if err != nil {
		return err
	}
	defer m.Close()
	if c.Kind == "unreachable" {
		m.Close()
	}
	path := filepath.Join(r.Dir, "e2en.rdb")
	if c.Kind == "nowhere" {
		path = filepath.Join(r.Dir, "none", "x.rdb")
	}
	os.Remove(path)
	if _, err := xxcache.New(xxcache.Option{RedisMasterAddr: m.Addr, RedisRdbFile: path}); err == nil {
		return fmt.Errorf("%s: New reports no error", c.Kind)
	}
	if c.Kind == "truncated" || c.Kind == "unsupported" || c.Kind == "nowhere" {
		select {
		case <-m.gone:
		case <-time.After(10 * time.Second):
			return fmt.Errorf("%s: creating the client fails, but 10 s later its connection is still open", c.Kind)
		}
	}
	return nil
}

// stale shows the known finding F1: a replicated command the cache does not implement leaves the
// local value of its key as it was.
func stale(dir string) (bool, error) {
	f := rdbgen.File{Version: "0009", Recs: []rdbgen.Rec{{Op: "obj", K: &rdbgen.Str{S: "n"}, V: &rdbgen.Str{S: "1"}, Idle: -1, Freq: -1}}}
	snap, _ := f.Bytes()
	first := append([]byte("$"+strconv.Itoa(len(snap))+"\r\n"), snap...)
	first = resp.Cmd("INCR", "n").Encode(first)
	first = resp.Cmd("SET", "#marker-0", "here").Encode(first)
	m, err := newMaster(first, nil, false)
	if err != nil {
		return false, err
	}
	defer m.Close()
	m.mu.Lock()
	m.store["n"] = "2"
	m.mu.Unlock()
	c, err := xxcache.New(xxcache.Option{RedisMasterAddr: m.Addr, RedisRdbFile: filepath.Join(dir, "f1.rdb")})
	if err != nil {
		return false, err
	}
	for i := 0; ; i++ {
		if v, err := c.Get("#marker-0"); err == nil && v == "here" {
			break
		}
		if i > 20000 {
			return false, errors.New("the marker never appears")
		}
		time.Sleep(time.Millisecond)
	}
	v, err := c.Get("n")
	return err == nil && v == "1", err
}

// manyCase is a snapshot of very many keys and a long stream.
type manyCase struct {
	N     int  `json:"n"`     // strings in the snapshot
	M     int  `json:"m"`     // commands in the stream
	Span  int  `json:"span"`  // keys the stream writes
	Early bool `json:"early"` // the stream follows the snapshot at once
	Size  int  `json:"size"`  // bytes in a value, about
	Del   int  `json:"del"`   // every so manieth command deletes, 0 none
}

func (c manyCase) run(r *pbt.Rec) error {
	f := rdbgen.File{Version: "0009"}
	want := map[string]string{}
	pad := strings.Repeat("-", c.Size)
	name := func(i int) string { return "key " + strconv.Itoa(i) }
	far := time.Now().Add(time.Hour).UnixMilli()
	for i := 0; i < c.N; i++ {
		v := "snapshot " + strconv.Itoa(i) + pad
		o := rdbgen.Rec{Op: "obj", K: &rdbgen.Str{S: pbt.B(name(i))}, V: &rdbgen.Str{S: pbt.B(v)}, Idle: -1, Freq: -1}
		if i%5 == 4 {
			o.Exp, o.At = "ms", far
		}
		f.Recs = append(f.Recs, o)
		want[name(i)] = v
	}
	snap, _ := f.Bytes()
	first := append([]byte("$"+strconv.Itoa(len(snap))+"\r\n"), snap...)
	var stream []byte
	deleted := map[string]bool{}
	for i := 0; i < c.M; i++ {
		k := name(i * 7 % c.Span)
		if c.Del > 0 && i%c.Del == c.Del-1 {
			stream = resp.Cmd("DEL", k).Encode(stream)
			delete(want, k)
			deleted[k] = true
			continue
		}
		v := "stream " + strconv.Itoa(i) + pad
		if i%11 == 3 {
			stream = resp.Cmd("SET", k, v, "PX", "3600000").Encode(stream)
		} else {
			stream = resp.Cmd("SET", k, v).Encode(stream)
		}
		want[k] = v
	}
	stream = resp.Cmd("SET", "#marker-0", "here").Encode(stream)
	if c.Early {
		first = append(first, stream...)
	}
	m, err := newMaster(first, nil, false)
	if err != nil {
		return err
	}
	defer m.Close()
	path := filepath.Join(r.Dir, "many.rdb")
	defer os.Remove(path)
	type made struct {
		c   xxcache.Client
		err error
	}
	done := make(chan made, 1)
	go func() {
		c, err := xxcache.New(xxcache.Option{RedisMasterAddr: m.Addr, RedisRdbFile: path})
		done <- made{c, err}
	}()
	var client xxcache.Client
	select {
	case x := <-done:
		if x.err != nil {
			return fmt.Errorf("creating the client: %v", x.err)
		}
		client = x.c
	case <-time.After(60 * time.Second):
		return fmt.Errorf("creating the client takes more than 60 s with a snapshot of %d keys", c.N)
	}
	w := &world{m: m, client: client, r: r}
	<-m.ready
	if !c.Early {
		if err := w.send(stream); err != nil {
			return err
		}
	}
	if err := w.await("#marker-0"); err != nil {
		return err
	}
	for k, v := range want {
		if g, err := client.Get(k); err != nil || g != v {
			return fmt.Errorf("Get(%s) is %s, %v, want %s", k, pbt.Short(g), err, pbt.Short(v))
		}
	}
	n := 0
	for k := range deleted {
		if _, ok := want[k]; ok {
			continue
		}
		if g, err := client.Get(k); err == nil {
			return fmt.Errorf("Get(%s) is %s, it was deleted and the master has none", k, pbt.Short(g))
		}
		if n++; n > 300 {
			break
		}
	}
	m.mu.Lock()
	gets := m.gets
	m.mu.Unlock()
	r.Label(c.N > 10000, "more than 10000 keys in the snapshot")
	r.Label(c.M > 10000, "more than 10000 commands in the stream")
	r.Label(gets > 0, "some asked the master")
	r.NonTrivial(c.N > 3000 || c.M > 3000)
	return nil
}

// defaultCase leaves options out.
type defaultCase struct {
	Addr bool  `json:"addr"` // given
	File bool  `json:"file"`
	Cuts []int `json:"cuts,omitempty"`
	V    pbt.B `json:"v"`
	W    pbt.B `json:"w"`
}

func (c defaultCase) run(r *pbt.Rec) error {
	f := rdbgen.File{Version: "0009", Recs: []rdbgen.Rec{{Op: "obj", K: &rdbgen.Str{S: "k"}, V: &rdbgen.Str{S: c.V}, Idle: -1, Freq: -1}}}
	snap, _ := f.Bytes()
	first := append([]byte("$"+strconv.Itoa(len(snap))+"\r\n"), snap...)
	var m *master
	var err error
	if c.Addr {
		m, err = newMaster(first, c.Cuts, false)
	} else {
		m, err = newMasterAt("127.0.0.1:6379", first, c.Cuts)
	}
	if err != nil {
		return err
	}
	defer m.Close()
	m.mu.Lock()
	m.store["elsewhere"] = string(c.W)
	m.mu.Unlock()
	dir := filepath.Join(r.Dir, "default")
	if err := os.MkdirAll(dir, 0o700); err != nil {
		return pbt.Inconclusive{Msg: err.Error()}
	}
	defer os.RemoveAll(dir)
	old, err := os.Getwd()
	if err != nil {
		return pbt.Inconclusive{Msg: err.Error()}
	}
	if err := os.Chdir(dir); err != nil {
		return pbt.Inconclusive{Msg: err.Error()}
	}
	defer os.Chdir(old)
	var opt xxcache.Option
	path := filepath.Join(dir, "temp.rdb")
	if c.Addr {
		opt.RedisMasterAddr = m.Addr
	}
	if c.File {
		path = filepath.Join(dir, "given.rdb")
		opt.RedisRdbFile = path
	}
	client, err := xxcache.New(opt)
	if err != nil {
		return fmt.Errorf("creating a client with options left out: %v", err)
	}
	if b, err := os.ReadFile(path); err != nil || !bytes.Equal(b, snap) {
		return fmt.Errorf("the file %s has %d bytes, %v, the snapshot has %d", filepath.Base(path), len(b), err, len(snap))
	}
	w := &world{m: m, client: client, r: r}
	<-m.ready
	if err := w.send(resp.Cmd("SET", "#marker-0", "here").Encode(resp.Cmd("SET", "s", string(c.W)).Encode(nil))); err != nil {
		return err
	}
	if err := w.await("#marker-0"); err != nil {
		return err
	}
	for k, v := range map[string]pbt.B{"k": c.V, "s": c.W, "elsewhere": c.W} {
		if g, err := client.Get(k); err != nil || g != string(v) {
			return fmt.Errorf("Get(%s) is %s, %v, want %s", k, pbt.Short(g), err, pbt.Short(string(v)))
		}
	}
	r.Label(!c.Addr, "no address")
	r.Label(!c.File, "no file")
	r.NonTrivial(!c.Addr || !c.File)
	return nil
}

func TestC19(t *testing.T) {
	pbt.Check(t, pbt.Spec[defaultCase]{
		ID: "C19", Name: "default", Quick: 64, Thorough: 800, Concurrent: true, Retries: 5,
		Rule: "a client created without an address (a master at 127.0.0.1:6379), without a file name (temp.rdb in the working directory), or without both: the file holds the snapshot, and keys of the snapshot, of the stream and of the master alone are served; inconclusive if something else has the port; non-trivial: something is left out",
		Gen: func(t *rapid.T) defaultCase {
			return defaultCase{Addr: rapid.IntRange(0, 2).Draw(t, "addr") > 0, File: rapid.IntRange(0, 2).Draw(t, "file") == 0, Cuts: rapid.SampledFrom([][]int{nil, {1}, {7}}).Draw(t, "cuts"),
				V: pbt.B(rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "v")), W: pbt.B(rapid.SliceOfN(rapid.Byte(), 1, 20).Draw(t, "w"))}
		},
		Run: func(c defaultCase, r *pbt.Rec) error { return c.run(r) },
	})
	pbt.Check(t, pbt.Spec[manyCase]{
		ID: "C19", Name: "many", Quick: 36, Thorough: 900, Timeout: 3 * time.Minute, Concurrent: true, Retries: 5,
		Rule: "a client with a snapshot of up to 40000 strings and a stream of up to 40000 SETs and DELs, after the last of which every key is read and compared; the master has none of the keys; non-trivial: more than 3000 keys or commands",
		Gen: func(t *rapid.T) manyCase {
			sizes := []int{0, 1, 300, 4000, 11000, 25000, 40000}
			c := manyCase{N: rapid.SampledFrom(sizes).Draw(t, "n"), M: rapid.SampledFrom(sizes).Draw(t, "m"), Span: rapid.SampledFrom([]int{1, 30, 5000, 50000}).Draw(t, "span"),
				Early: rapid.Bool().Draw(t, "early"), Del: rapid.SampledFrom([]int{0, 3, 10, 100}).Draw(t, "del")}
			if c.N+c.M <= 5000 {
				c.Size = rapid.SampledFrom([]int{0, 5, 1000}).Draw(t, "size")
			}
			return c
		},
		Run: func(c manyCase, r *pbt.Rec) error { return c.run(r) },
	})
	pbt.Check(t, pbt.Spec[e2eCase]{
		ID: "C19", Name: "serve", Quick: 6000, Thorough: 15000, Timeout: 120 * time.Second, Concurrent: true, Retries: 30,
		Rule: "a client against a scripted master under the race detector: a snapshot of all types over several databases with past, near and far deadlines, then a stream of SET, SET EX/PX, DEL, PEXPIREAT, SELECT, pings, commands the cache cannot handle and stray messages, in drawn pieces, mixed with Get and Set calls, changes of the master's own answers, concurrent readers and the end of the connection; after marker commands every key must be the local one, and the master's answer where there is no local one; non-trivial: a string in database 0 and a SET or DEL of the stream",
		Gen: func(t *rapid.T) e2eCase {
			c := e2eCase{File: rdbgen.Gen(t, rdbgen.Opts{MaxObj: 6, Small: true, OnlyStr: rapid.Bool().Draw(t, "only")}), Early: rapid.SampledFrom([]int{0, 0, 1, 3, 10}).Draw(t, "early"),
				End: rapid.SampledFrom([]string{"keep", "close", "partial", "stop"}).Draw(t, "end"), Readers: rapid.IntRange(0, 3).Draw(t, "readers"), Seq: rapid.SampledFrom([]int{0, 5, 30}).Draw(t, "seq"), Log: rapid.IntRange(0, 5).Draw(t, "log") == 0}
			for i := 0; i < c.Early; i++ {
				c.Steps = append(c.Steps, genCmd(t))
			}
			c.Steps = append(c.Steps, rapid.SliceOfN(rapid.Custom(genStep), 0, 40).Draw(t, "steps")...)
			if rapid.Bool().Draw(t, "pieces") {
				c.Cuts = rapid.SliceOfN(rapid.SampledFrom([]int{1, 2, 3, 7, 20, 100}), 1, 5).Draw(t, "cuts")
			}
			return c
		},
		Run: func(c e2eCase, r *pbt.Rec) error {
			str, cmd := false, false
			for _, x := range c.File.Recs {
				str = str || x.Op == "obj" && x.Type == rdbgen.TString
			}
			for _, s := range c.Steps {
				if s.Op == "cmd" && len(s.C) > 1 {
					n := strings.ToLower(string(s.C[0]))
					cmd = cmd || n == "set" || n == "del"
					r.Label(true, "stream-"+n)
				} else {
					r.Label(true, s.Op)
				}
			}
			r.NonTrivial(str && cmd)
			r.Label(true, "end-"+c.End)
			return c.run(r)
		},
	})
	pbt.Check(t, pbt.Spec[newCase]{
		ID: "C19", Name: "new", Quick: 600, Thorough: 6000,
		Rule: "an unreachable master, a rejected or incomplete synchronisation, a snapshot that is truncated or holds an unsupported type, a snapshot file that cannot be written: creating the client returns an error; non-trivial: all",
		Gen: func(t *rapid.T) newCase {
			return newCase{Kind: rapid.SampledFrom([]string{"unreachable", "refused", "short", "truncated", "unsupported", "nowhere"}).Draw(t, "kind"), File: rdbgen.Gen(t, rdbgen.Opts{MaxObj: 4, Small: true}), Cut: rapid.IntRange(0, 1000).Draw(t, "cut")}
		},
		Run: func(c newCase, r *pbt.Rec) error { return c.run(r) },
	})
	if os.Getenv("VP_REPLAY") == "" && (os.Getenv("VP_SHARD") == "" || os.Getenv("VP_SHARD") == "0") {
		dir, err := os.MkdirTemp(os.Getenv("VP_TMP"), "f1-")
		if err != nil {
			return
		}
		defer os.RemoveAll(dir)
		if s, err := stale(dir); err == nil && s {
			pbt.Finding("F1")
		}
	}
}
