package poolprops

import (
	"context"
	"errors"
	"fmt"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/liujiangwei/xxcache/redis"
	"pgregory.net/rapid"

	"verif/harness/pbt"
	"verif/harness/resp"
	"verif/harness/srv"
)

func TestMain(m *testing.M) { pbt.Main(m) }

// step is one use of the pool.
type step struct {
	// How: cmd (a command), exec (Exec with a round trip), pipe (two requests, two replies), half (two requests, one
	// reply), fire (one request, no reply), herr (a handler that fails), get (Get with a deadline)
	How   string `json:"how"`
	Do    string `json:"do,omitempty"` // what the server does with it
	Delay int    `json:"delay,omitempty"`
}

type poolCase struct {
	Client   bool     `json:"client"` // through Redis client methods instead of the pool itself
	Cap      int      `json:"cap"`
	Workers  [][]step `json:"workers"`
	Hello    int      `json:"hello"` // milliseconds a connection takes to open
	HelloBad []int    `json:"hello_bad"`
	Cuts     []int    `json:"cuts"`
	Outage   string   `json:"outage"`
	Outages  [][]step `json:"outages"`
	Close    bool     `json:"close"`
	Repeat   int      `json:"repeat,omitempty"` // how often the callers do their uses, once by default
}

// what the server does; breaking ones leave the connection useless.
var breaking = map[string]bool{"close": true, "reset": true, "partial": true, "junk": true, "junkopen": true, "unterminated": true, "badlen": true, "extra": true}

func genStep(client bool) func(t *rapid.T) step {
	return func(t *rapid.T) step {
		s := step{How: "cmd", Do: "ok"}
		if !client {
			s.How = rapid.SampledFrom([]string{"cmd", "cmd", "cmd", "exec", "pipe", "half", "fire", "herr", "get", "get"}).Draw(t, "how")
		}
		if s.How == "cmd" || s.How == "exec" {
			s.Do = rapid.SampledFrom([]string{"ok", "ok", "ok", "ok", "error", "nil", "kind", "close", "reset", "partial", "junk", "junkopen", "unterminated", "badlen", "extra"}).Draw(t, "do")
		}
		s.Delay = rapid.SampledFrom([]int{0, 0, 0, 1, 3}).Draw(t, "delay")
		return s
	}
}

func genWorkers(t *rapid.T, client bool, maxW, maxS int, name string) [][]step {
	var out [][]step
	for i := rapid.IntRange(1, maxW).Draw(t, name); i > 0; i-- {
		out = append(out, rapid.SliceOfN(rapid.Custom(genStep(client)), 1, maxS).Draw(t, "steps"))
	}
	return out
}

func genPool(t *rapid.T) poolCase {
	var c poolCase
	c.Client = rapid.Bool().Draw(t, "client")
	c.Cap = rapid.SampledFrom([]int{1, 2, 3, 4, 1, 2, 3, 0}).Draw(t, "cap")
	switch rapid.IntRange(0, 11).Draw(t, "anycap") {
	case 10:
		c.Cap = -rapid.IntRange(1, 5).Draw(t, "negcap")
	case 11:
		c.Cap = max(1, pbt.Len(t, 40))
	}
	n := 6
	if c.Cap > 4 {
		n = c.Cap + 6
	}
	if c.Cap <= 0 {
		n = 28
	}
	c.Workers = genWorkers(t, c.Client, n, 6, "workers")
	c.Cuts = rapid.SampledFrom([][]int{nil, {1}, {2, 3}, {5}, {1, 100}}).Draw(t, "cuts")
	if !c.Client && rapid.Bool().Draw(t, "hellos") {
		c.Hello = rapid.SampledFrom([]int{0, 1, 10}).Draw(t, "hello")
		c.HelloBad = rapid.SliceOfN(rapid.IntRange(0, 6), 0, 3).Draw(t, "bad")
	} else {
		c.Hello = -1
	}
	c.Outage = rapid.SampledFrom([]string{"", "", "down", "abort", "reject"}).Draw(t, "outage")
	if c.Outage != "" {
		c.Outages = genWorkers(t, c.Client, 4, 4, "outages")
	}
	c.Close = rapid.Bool().Draw(t, "close")
	return c
}

// genLong draws a case with thousands of uses of the same few connections.
func genLong(t *rapid.T) poolCase {
	c := genPool(t)
	if len(c.Cuts) > 0 && c.Cuts[0] == 1 {
		c.Cuts = nil
	}
	c.Hello = min(c.Hello, 0)
	well := rapid.IntRange(0, 2).Draw(t, "well") > 0
	n := 0
	for _, w := range c.Workers {
		for i := range w {
			w[i].Delay = 0
			if well {
				w[i].Do = "ok"
			}
			n++
		}
	}
	c.Repeat = rapid.SampledFrom([]int{300, 3000, 9000, 24000, 70000}).Draw(t, "uses")
	if !well {
		c.Repeat = min(c.Repeat, 3000) // connections
	}
	c.Repeat = max(1, c.Repeat/n)
	return c
}

// world is the instrumented server together with what it noticed.
type world struct {
	c        poolCase
	cap      int
	s        *srv.Server
	inflight atomic.Int64
	maxIn    atomic.Int64
	hellos   atomic.Int64 // failed ones
	rejects  atomic.Bool  // connections are closed as soon as they are accepted
	calm     atomic.Bool  // no failing handshakes any more
	mu       sync.Mutex
	bad      []string
	barrier  atomic.Pointer[barrier]
}

type barrier struct {
	n    int
	have int
	mu   sync.Mutex
	done chan struct{}
}

func (b *barrier) arrive() bool {
	b.mu.Lock()
	b.have++
	if b.have == b.n {
		close(b.done)
	}
	b.mu.Unlock()
	select {
	case <-b.done:
		return true
	case <-time.After(20 * time.Second):
		return false
	}
}

func (w *world) fail(f string, a ...any) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.bad = append(w.bad, fmt.Sprintf(f, a...))
}

func (w *world) handle(c *srv.Conn) {
	if w.rejects.Load() {
		c.Abort()
		return
	}
	c.Cuts = w.c.Cuts
	for {
		a, err := c.Request()
		if err != nil {
			return
		}
		switch strings.ToLower(a[0]) {
		case "hello":
			time.Sleep(time.Duration(max(w.c.Hello, 0)) * time.Millisecond)
			for _, b := range w.c.HelloBad {
				if b == c.ID && !w.calm.Load() {
					w.hellos.Add(1)
					_ = c.Send(resp.Err("ERR no"))
					a = nil
					break
				}
			}
			if a != nil {
				_ = c.Send(resp.Simple("OK"))
			}
			continue
		case "fire":
			_ = c.Send(resp.Bulk("v:" + a[1]))
			continue
		case "pipe":
			_ = c.Send(resp.Bulk("v:" + a[1]))
			continue
		case "get":
		default:
			w.fail("unexpected request %q", a)
			return
		}
		if len(a) != 2 {
			w.fail("unexpected request %q", a)
			return
		}
		n := w.inflight.Add(1)
		for m := w.maxIn.Load(); n > m && !w.maxIn.CompareAndSwap(m, n); m = w.maxIn.Load() {
		}
		p := strings.Split(a[1], ":") // name, what, delay
		ms, _ := strconv.Atoi(p[2])
		if p[1] == "barrier" {
			if b := w.barrier.Load(); !b.arrive() {
				b.mu.Lock()
				w.fail("only %d of %d commands could run at the same time", b.have, b.n)
				b.mu.Unlock()
			}
		}
		if ms > 0 {
			time.Sleep(time.Duration(ms) * time.Millisecond)
			_ = c.SetReadDeadline(time.Now().Add(time.Millisecond))
			if _, err := c.R.Peek(1); err == nil {
				w.fail("a second request arrived on a connection whose first was not answered")
			}
			_ = c.SetReadDeadline(time.Time{})
		}
		w.inflight.Add(-1)
		full := resp.Bulk("v:" + a[1]).Encode(nil)
		switch p[1] {
		case "error":
			_ = c.Send(resp.Err("ERR for " + p[0]))
		case "nil":
			_ = c.Send(resp.Nil())
		case "kind":
			_ = c.Send(resp.Arr(resp.Bulk("v:"+a[1]), resp.Int(3)))
		case "close":
			c.End()
			return
		case "reset":
			c.Abort()
			return
		case "partial":
			_ = c.Put(full[:1+len(full)/2])
			return
		case "junk":
			_ = c.Put([]byte("?junk\r\n"))
			return
		case "junkopen":
			_ = c.Put([]byte("?junk\r\n$5\r\nwrong\r\n+OK\r\n"))
		case "unterminated":
			_ = c.Put([]byte("$3\r\nabcXY+OK\r\n$5\r\nwrong\r\n"))
		case "extra": // more than was asked for, in one piece
			if _, err := c.Conn.Write(append(full, "$5\r\nwrong\r\n"...)); err != nil {
				return
			}
		case "badlen":
			_ = c.Put([]byte("$x\r\n$5\r\nwrong\r\n"))
		default:
			_ = c.Send(resp.Bulk("v:" + a[1]))
		}
	}
}

type outcome struct {
	s   step
	err error
	key string
	v   string
}

var errHandler = errors.New("handler's own error")

type subject struct {
	pool   *redis.Pool
	client *redis.Redis
	w      *world
	seq    atomic.Int64
	out    sync.Mutex
}

func req(name, key string) redis.Message { return redis.ConvertToMessage(name, key) }

func (x *subject) do(s step) (o outcome) {
	o.s = s
	what := s.Do
	if what == "" {
		what = "ok"
	}
	o.key = fmt.Sprintf("n%d:%s:%d", x.seq.Add(1), what, s.Delay)
	if x.client != nil {
		o.v, o.err = x.client.Get(o.key)
		return
	}
	ctx := context.Background()
	text := func(m redis.Message, err error) (string, error) {
		if err != nil {
			return "", err
		}
		switch m.(type) {
		case redis.ErrorMessage, redis.NilMessage, redis.ArrayMessage:
			return "", errors.New(m.String())
		}
		return m.String(), nil
	}
	switch s.How {
	case "cmd":
		cmd := redis.StringCommand{BaseCommand: redis.NewBaseCommand("get", o.key)}
		x.pool.ExecCommand(ctx, &cmd)
		o.v, o.err = cmd.Result()
	case "exec":
		o.err = x.pool.Exec(ctx, func(c *redis.Conn) (err error) {
			o.v, err = text(c.SendAndWaitReply(req("get", o.key)))
			return err
		})
	case "pipe", "half":
		o.err = x.pool.Exec(ctx, func(c *redis.Conn) (err error) {
			k2 := o.key + ":2"
			if err = c.Send(req("pipe", o.key)); err != nil {
				return err
			}
			if err = c.Send(req("pipe", k2)); err != nil {
				return err
			}
			if o.v, err = text(c.Recv()); err != nil || s.How == "half" {
				return err
			}
			v, err := text(c.Recv())
			if err == nil && v != "v:"+k2 {
				x.w.fail("the second of two requests (%s) got the reply %q", k2, v)
			}
			return err
		})
	case "fire":
		o.v = "v:" + o.key
		o.err = x.pool.Exec(ctx, func(c *redis.Conn) error { return c.Send(req("fire", o.key)) })
	case "herr":
		o.v = "v:" + o.key
		err := x.pool.Exec(ctx, func(c *redis.Conn) error { return errHandler })
		if err == nil {
			x.w.fail("Exec hides the error of its handler")
		} else if err != errHandler {
			o.err = err
		}
	case "get":
		o.v = "v:" + o.key
		d := time.Duration(s.Delay) * time.Millisecond
		ctx, cancel := context.WithTimeout(ctx, d)
		t0 := time.Now()
		c, err := x.pool.Get(ctx)
		if el := time.Since(t0); el > d+20*time.Second {
			x.w.fail("Get returned %v after its context ended", el-d)
		}
		if err == nil && c == nil {
			x.w.fail("Get returns neither connection nor error")
		}
		if err == nil {
			x.pool.Put(c)
		} else if ctx.Err() == nil {
			o.err = err
		}
		cancel()
	}
	return
}

func (x *subject) phase(ws [][]step) (l []outcome) {
	var wg sync.WaitGroup
	for _, w := range ws {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, s := range w {
				o := x.do(s)
				x.out.Lock()
				l = append(l, o)
				x.out.Unlock()
			}
		}()
	}
	wg.Wait()
	return l
}

// check one command's outcome; unexplained tells that it failed although its own request was fine.
func check(o outcome) (unexplained bool, err error) {
	if o.err == nil && o.v != "v:"+o.key {
		return false, fmt.Errorf("the request %s got the reply %q", o.key, o.v)
	}
	switch {
	case o.s.Do == "ok" || o.s.Do == "":
		return o.err != nil, nil
	case o.s.Do == "extra":
		return false, nil
	case o.err == nil:
		return false, fmt.Errorf("%s (%s): the server's answer is no value, but the command succeeds with %q", o.key, o.s.Do, o.v)
	case o.s.Do == "error" && !strings.Contains(o.err.Error(), "ERR for "+strings.Split(o.key, ":")[0]):
		return true, nil
	}
	return false, nil
}

func runPool(c poolCase, r *pbt.Rec) error {
	w := &world{c: c, cap: c.Cap}
	if w.cap <= 0 {
		w.cap = 20
	}
	s, err := srv.Listen(w.handle)
	if err != nil {
		return err
	}
	w.s = s
	defer func() { w.s.Close() }()
	addr := s.Addr
	x := &subject{w: w}
	if c.Client {
		x.client = redis.NewClient(redis.Option{Addr: addr, PoolSize: c.Cap})
	} else {
		x.pool = new(redis.Pool)
		x.pool.Init(c.Cap, addr)
		if c.Hello >= 0 {
			x.pool.AddConnOpenHandler(func(conn *redis.Conn) error {
				m, err := conn.SendAndWaitReply(req("hello", "x"))
				if e, ok := m.(redis.ErrorMessage); err == nil && ok {
					err = errors.New(e.String())
				}
				return err
			})
		}
	}
	noticed := func() error {
		w.mu.Lock()
		defer w.mu.Unlock()
		if len(w.bad) > 0 {
			return errors.New(w.bad[0])
		}
		return nil
	}

	// 1: faults of single requests and of single handshakes
	breaks, odd, first := 0, 0, error(nil)
	workers := c.Workers
	if c.Repeat > 1 {
		workers = nil
		for _, w := range c.Workers {
			var l []step
			for i := 0; i < c.Repeat; i++ {
				l = append(l, w...)
			}
			workers = append(workers, l)
		}
	}
	uses := 0
	for _, o := range x.phase(workers) {
		uses++
		if breaking[o.s.Do] || o.s.How == "half" || o.s.How == "fire" {
			breaks++
		}
		u, err := check(o)
		if err != nil {
			return err
		}
		if u {
			odd++
			first = o.err
		}
	}
	if err := noticed(); err != nil {
		return err
	}
	bad := int(w.hellos.Load())
	if odd > bad {
		return fmt.Errorf("%d commands failed although only %d handshakes failed and their own requests were answered: %v", odd, bad, first)
	}
	if n := int(w.maxIn.Load()); n > w.cap {
		return fmt.Errorf("%d commands were running on their own connections at the same time, the pool's capacity is %d", n, w.cap)
	}
	if n := s.Accepted(); n > w.cap+breaks+bad {
		return fmt.Errorf("%d connections were opened with capacity %d, %d uses that broke their connection and %d failed handshakes", n, w.cap, breaks, bad)
	}

	for t0 := time.Now(); int(s.Open.Load()) > w.cap; time.Sleep(time.Millisecond) {
		if time.Since(t0) > 20*time.Second {
			return fmt.Errorf("%d connections stay open with capacity %d", s.Open.Load(), w.cap)
		}
	}

	// 2: the server is away
	failed := 0
	if c.Outage != "" {
		switch c.Outage {
		case "down":
			s.StopListening()
			s.AbortAll()
		case "abort":
			s.AbortAll()
		case "reject":
			w.rejects.Store(true)
			s.AbortAll()
		}
		for _, o := range x.phase(c.Outages) {
			if _, err := check(o); err != nil {
				return err
			}
			if o.err != nil {
				failed++
			}
		}
		if err := noticed(); err != nil {
			return err
		}
		switch c.Outage {
		case "down":
			n, err := srv.ListenAt(addr, w.handle)
			if err != nil {
				return err
			}
			old := w.s
			w.s = n
			defer old.Close()
		case "reject":
			w.rejects.Store(false)
		}
	}

	// 3: the server is well again
	w.calm.Store(true)
	stale := 0
	ok := step{How: "cmd", Do: "ok"}
	if c.Outage != "" {
		for i := 0; i < w.cap+1; i++ {
			if o := x.do(ok); o.err != nil {
				stale++
				first = o.err
			} else if o.v != "v:"+o.key {
				return fmt.Errorf("the request %s got the reply %q", o.key, o.v)
			}
		}
		if stale > w.cap {
			return fmt.Errorf("after the server recovered, all of %d commands failed (%v)", stale, first)
		}
	}
	for i := 0; i < 3; i++ {
		o := x.do(ok)
		if c.Outage == "" && o.err != nil {
			return fmt.Errorf("a command failed although the server is well and no idle connection was broken: %v", o.err)
		}
		if o.err != nil {
			// idle connections that broke are found one by one
			if stale++; stale > w.cap {
				return fmt.Errorf("after the server recovered, %d commands failed with a capacity of %d: %v", stale, w.cap, o.err)
			}
		} else if o.v != "v:"+o.key {
			return fmt.Errorf("the request %s got the reply %q", o.key, o.v)
		}
	}
	// the whole capacity is there
	w.barrier.Store(&barrier{n: w.cap, done: make(chan struct{})})
	if x.client != nil {
		if c.Outage == "" || stale == w.cap {
			var ws [][]step
			for i := 0; i < w.cap; i++ {
				ws = append(ws, []step{{How: "cmd", Do: "barrier"}})
			}
			for _, o := range x.phase(ws) {
				if o.err != nil || o.v != "v:"+o.key {
					return fmt.Errorf("of %d concurrent commands on the recovered pool one returns %q, %v", w.cap, o.v, o.err)
				}
			}
		}
	} else {
		var held []*redis.Conn
		for i := 0; i < w.cap; i++ {
			ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
			conn, err := x.pool.Get(ctx)
			cancel()
			if err != nil || conn == nil {
				return fmt.Errorf("capacity is lost: of %d connections, number %d could not be had: %v", w.cap, i+1, err)
			}
			for _, h := range held {
				if h == conn {
					return fmt.Errorf("two callers got the same connection")
				}
			}
			held = append(held, conn)
		}
		ctx, cancel := context.WithTimeout(context.Background(), 5*time.Millisecond)
		conn, err := x.pool.Get(ctx)
		cancel()
		if err == nil || conn != nil {
			return fmt.Errorf("Get returned %v, %v with all %d connections in use and its context ended", conn != nil, err, w.cap)
		}
		// a waiting Get gets what is returned
		got := make(chan error, 1)
		go func() {
			ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
			defer cancel()
			conn, err := x.pool.Get(ctx)
			if err == nil {
				x.pool.Put(conn)
			}
			got <- err
		}()
		keep := len(held) / 2
		for _, h := range held[keep:] {
			x.pool.Put(h)
		}
		if err := <-got; err != nil {
			return fmt.Errorf("a Get waiting for a connection failed although one was returned: %v", err)
		}
		if c.Close {
			done := make(chan error, 1)
			go func() { done <- x.pool.Close() }()
			select {
			case err := <-done:
				if err != nil && c.Outage == "" {
					return fmt.Errorf("Close: %v", err)
				}
			case <-time.After(20 * time.Second):
				return fmt.Errorf("Close did not return with %d connections in use", keep)
			}
			// only those in use stay open
			t0 := time.Now()
			for int(w.s.Open.Load()) > keep {
				if time.Since(t0) > 20*time.Second {
					return fmt.Errorf("after Close %d connections are open, %d are in use", w.s.Open.Load(), keep)
				}
				time.Sleep(time.Millisecond)
			}
			if c.Outage == "" {
				for _, h := range held[:keep] {
					if m, err := h.SendAndWaitReply(req("pipe", "x")); err != nil || m.String() != "v:x" {
						return fmt.Errorf("a connection in use is broken by Close: %v", err)
					}
				}
			}
		}
		for _, h := range held[:keep] {
			_ = h.Close()
		}
	}
	if err := noticed(); err != nil {
		return err
	}
	r.Label(uses > 5000, "more than 5000 uses")
	r.Label(c.Client, "through the client")
	r.Label(breaks > 0, "requests broke connections")
	r.Label(bad > 0, "handshakes failed")
	r.Label(c.Outage != "", "outage "+c.Outage)
	r.Label(failed > 0, "commands failed during the outage")
	r.Label(stale > 0, "stale connections after the outage")
	r.Label(int(w.maxIn.Load()) == w.cap, "whole capacity in use")
	r.NonTrivial(breaks+bad+failed > 0 || uses > 5000)
	return nil
}

func TestC11(t *testing.T) {
	pbt.Check(t, pbt.Spec[poolCase]{
		ID: "C11", Name: "pool", Quick: 6000, Thorough: 200000, Timeout: 90 * time.Second, Concurrent: true, Retries: 40,
		Rule: "1-6 (28 for the default capacity) concurrent callers of the client or of a pool with capacity 1-4 or default, each with up to 6 uses (commands, pipelined and abandoned requests, Get with deadline), the server answering each request well or breaking its connection in one of 8 ways, failing handshakes, then optionally an outage (server down, connections reset, connections rejected) and recovery, full-capacity probe and Close; non-trivial: some connection broke, handshake failed or command failed in the outage",
		Gen:  genPool, Run: runPool,
	})
	pbt.Check(t, pbt.Spec[poolCase]{
		ID: "C11", Name: "long", Quick: 48, Thorough: 1500, Timeout: 3 * time.Minute, Concurrent: true, Retries: 5,
		Rule: "as 'pool', with the uses repeated up to 70000 times on the same few connections (up to 3000 times when the uses break their connections); non-trivial: more than 5000 uses, or a request or handshake broke a connection or a command failed during an outage",
		Gen:  genLong, Run: runPool,
	})
}
