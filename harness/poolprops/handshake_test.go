package poolprops

import (
	"context"
	"errors"
	"fmt"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/liujiangwei/xxcache/redis"
	"pgregory.net/rapid"

	"verif/harness/pbt"
	"verif/harness/resp"
	"verif/harness/srv"
)

// hs is how the server treats one connection.
type hs struct {
	Auth   string `json:"auth"` // ok, bulk, error, close, junk, partial, silent (closes without reply after a while)
	Select string `json:"select"`
	Slow   int    `json:"slow"`
}

type hsCase struct {
	Password pbt.B      `json:"password"`
	DB       int        `json:"db"`
	Cap      int        `json:"cap"`
	Conns    []hs       `json:"conns"`   // treatment of the first connections, the rest are well
	Workers  [][]string `json:"workers"` // what happens to each command: ok, error, close, junk
	Cuts     []int      `json:"cuts"`
}

func genHs(t *rapid.T) hsCase {
	var c hsCase
	pw := rapid.SampledFrom([]string{"", "secret", "pass word", "\r\n", "a\r\n$1\r\nb", "\x00\xff", "0", "$6", "*2\r\n", strings.Repeat("long", 3000)})
	c.Password = pbt.B(pw.Draw(t, "pw"))
	if rapid.IntRange(0, 3).Draw(t, "rnd") == 0 {
		c.Password = pbt.B(rapid.SliceOfN(rapid.Byte(), 0, 10).Draw(t, "pwb"))
	} else if rapid.IntRange(0, 5).Draw(t, "lit") == 5 {
		c.Password = pbt.DictText(t)
	}
	c.DB = rapid.SampledFrom([]int{0, 0, 1, 2, 15, 100, 1 << 30}).Draw(t, "db")
	if rapid.IntRange(0, 5).Draw(t, "anydb") == 5 {
		c.DB = int(max(pbt.DictInt(t), 0))
	}
	c.Cap = rapid.IntRange(1, 4).Draw(t, "cap")
	if rapid.IntRange(0, 9).Draw(t, "anycap") == 9 {
		c.Cap = max(1, pbt.Len(t, 40))
	}
	verdicts := rapid.SampledFrom([]string{"ok", "ok", "ok", "bulk", "error", "error", "close", "junk", "partial"})
	c.Conns = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) hs {
		return hs{verdicts.Draw(t, "auth"), verdicts.Draw(t, "select"), rapid.SampledFrom([]int{0, 0, 0, 1, 4}).Draw(t, "slow")}
	}), 0, 8).Draw(t, "conns")
	nw := rapid.SampledFrom([]int{1, 1, 2, 5}).Draw(t, "workers")
	for i := 0; i < nw; i++ {
		c.Workers = append(c.Workers, rapid.SliceOfN(rapid.SampledFrom([]string{"ok", "ok", "ok", "error", "close", "close", "junk"}), 1, 8).Draw(t, "cmds"))
	}
	c.Cuts = rapid.SampledFrom([][]int{nil, {1}, {2, 3}}).Draw(t, "cuts")
	return c
}

type hsWorld struct {
	c      hsCase
	mu     sync.Mutex
	bad    []string
	reject []string // texts of the rejections given, "" for a broken handshake
	open   map[int]bool
	refuse map[int]bool // connections whose handshake failed
}

func (w *hsWorld) fail(f string, a ...any) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.bad = append(w.bad, fmt.Sprintf(f, a...))
}

func (w *hsWorld) failed(id int, text string) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.reject = append(w.reject, text)
	w.refuse[id] = true
}

func (w *hsWorld) rejections() []string {
	w.mu.Lock()
	defer w.mu.Unlock()
	return append([]string(nil), w.reject...)
}

// verdict answers a handshake request; false ends the conversation.
func (w *hsWorld) verdict(c *srv.Conn, name, what string) bool {
	switch what {
	case "ok":
		_ = c.Send(resp.Simple("OK"))
		return true
	case "bulk":
		_ = c.Send(resp.Bulk("OK"))
		return true
	case "error":
		text := fmt.Sprintf("%s %s rejected on %d", []string{"ERR", "WRONGPASS", "NOAUTH", "LOADING", "NOPERM", "WARNING", "OK", "+OK"}[(c.ID+len(w.c.Password))%8], name, c.ID)
		w.failed(c.ID, text)
		_ = c.Send(resp.Err(text))
	case "close":
		w.failed(c.ID, "")
		c.End()
	case "junk":
		w.failed(c.ID, "")
		_ = c.Put([]byte("?what\r\n+OK\r\n+OK\r\n$5\r\nwrong\r\n"))
	case "partial":
		w.failed(c.ID, "")
		_ = c.Put([]byte("+O"))
		c.End()
	}
	// the client must not use this connection for a command, and close it
	for {
		a, err := c.Request()
		if err != nil {
			return false
		}
		if n := strings.ToLower(a[0]); n != "auth" && n != "select" {
			w.fail("the command %q is sent on a connection whose %s was answered with %q", a, name, what)
			return false
		}
		_ = c.Send(resp.Simple("OK"))
	}
}

func (w *hsWorld) handle(c *srv.Conn) {
	defer func() {
		w.mu.Lock()
		delete(w.open, c.ID)
		w.mu.Unlock()
	}()
	w.mu.Lock()
	w.open[c.ID] = true
	w.mu.Unlock()
	c.Cuts = w.c.Cuts
	how := hs{Auth: "ok", Select: "ok"}
	if c.ID < len(w.c.Conns) {
		how = w.c.Conns[c.ID]
	}
	want := []string{}
	if w.c.Password != "" {
		want = append(want, "auth")
	}
	if w.c.DB > 0 {
		want = append(want, "select")
	}
	for _, name := range want {
		a, err := c.Request()
		if err != nil {
			return
		}
		arg, verdict := string(w.c.Password), how.Auth
		if name == "select" {
			arg, verdict = strconv.Itoa(w.c.DB), how.Select
		}
		if len(a) != 2 || !strings.EqualFold(a[0], name) || a[1] != arg {
			w.fail("connection %d: got the request %s, want %s %s first", c.ID, pbt.Short(strings.Join(a, " ")), name, pbt.Short(arg))
			return
		}
		if how.Slow > 0 {
			time.Sleep(time.Duration(how.Slow) * time.Millisecond)
			_ = c.SetReadDeadline(time.Now().Add(time.Millisecond))
			if _, err := c.R.Peek(1); err == nil {
				w.fail("connection %d: another request follows %s before it is answered", c.ID, name)
			}
			_ = c.SetReadDeadline(time.Time{})
		}
		if !w.verdict(c, name, verdict) {
			return
		}
	}
	for {
		a, err := c.Request()
		if err != nil {
			return
		}
		if len(a) != 2 || !strings.EqualFold(a[0], "get") {
			w.fail("connection %d: unexpected request %q after the handshake", c.ID, a)
			return
		}
		switch strings.SplitN(a[1], ":", 2)[0] {
		case "error":
			_ = c.Send(resp.Err("ERR for " + a[1]))
		case "close":
			c.End()
			return
		case "junk":
			_ = c.Put([]byte("?junk\r\n+OK\r\n"))
			return
		default:
			_ = c.Send(resp.Bulk("v:" + a[1]))
		}
	}
}

func runHs(c hsCase, r *pbt.Rec) error {
	w := &hsWorld{c: c, open: map[int]bool{}, refuse: map[int]bool{}}
	s, err := srv.Listen(w.handle)
	if err != nil {
		return err
	}
	defer s.Close()
	client := redis.NewClient(redis.Option{Addr: s.Addr, PoolSize: c.Cap, Password: string(c.Password), Database: c.DB})
	var mu sync.Mutex
	var first error
	unexplained, bad := 0, 0
	note := func(err error) {
		mu.Lock()
		defer mu.Unlock()
		if first == nil {
			first = err
		}
	}
	var wg sync.WaitGroup
	for i, cmds := range c.Workers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j, what := range cmds {
				key := fmt.Sprintf("%s:%d-%d", what, i, j)
				before := w.rejections()
				v, err := client.Get(key)
				after := w.rejections()
				single := len(c.Workers) == 1
				if err == nil && (what != "ok" || v != "v:"+key) {
					note(fmt.Errorf("%s returns %q", key, v))
				}
				if err != nil && strings.HasPrefix(err.Error(), "ERR") {
					// a server's error: its own, or the one of a handshake
					ok := what == "error" && strings.Contains(err.Error(), "ERR for "+key)
					for _, t := range after {
						ok = ok || t != "" && strings.Contains(err.Error(), t)
					}
					if !ok {
						note(fmt.Errorf("%s returns the error %q that the server never gave", key, err))
					}
				}
				if err != nil && what == "ok" {
					mu.Lock()
					unexplained++
					mu.Unlock()
				}
				if single {
					news := after[len(before):]
					switch {
					case len(news) == 0 && what == "ok" && err != nil:
						note(fmt.Errorf("command %d (%s) fails although no handshake failed: %v", j, key, err))
					case len(news) > 0 && err == nil:
						note(fmt.Errorf("command %d (%s) succeeds although the server rejected its connection", j, key))
					case len(news) == 1 && news[0] != "" && !strings.Contains(err.Error(), news[0]):
						note(fmt.Errorf("command %d (%s) returns %q, the server rejected its connection with %q", j, key, err, news[0]))
					}
				}
			}
		}()
	}
	wg.Wait()
	rej := w.rejections()
	bad = len(rej)
	if first != nil {
		return first
	}
	if unexplained > bad {
		return fmt.Errorf("%d commands that the server answers failed, only %d handshakes did", unexplained, bad)
	}
	// refused connections are closed
	t0 := time.Now()
	for {
		w.mu.Lock()
		left := -1
		for id := range w.refuse {
			if w.open[id] {
				left = id
			}
		}
		var e error
		if len(w.bad) > 0 {
			e = errors.New(w.bad[0])
		}
		w.mu.Unlock()
		if e != nil {
			return e
		}
		if left < 0 {
			break
		}
		if time.Since(t0) > 20*time.Second {
			return fmt.Errorf("connection %d, whose handshake failed, is still open", left)
		}
		time.Sleep(200 * time.Microsecond)
	}
	r.Label(bad > 0, "has failed handshake")
	r.Label(s.Accepted() > 1, "has several connections")
	r.Label(c.Password != "", "has password")
	r.Label(c.DB > 0, "has database")
	r.NonTrivial((c.Password != "" || c.DB > 0) && s.Accepted() > 1)
	return nil
}

func TestC12(t *testing.T) {
	pbt.Check(t, pbt.Spec[hsCase]{
		ID: "C12", Name: "handshake", Quick: 12000, Thorough: 400000, Timeout: 60 * time.Second, Concurrent: true, Retries: 40,
		Rule: "a client with any password and database (or none) and 1-4 connections, 1-5 concurrent callers whose commands may break their connection, the server accepting, rejecting, breaking, delaying or garbling AUTH and SELECT per connection and logging every request; non-trivial: AUTH or SELECT configured and more than one connection opened",
		Gen:  genHs, Run: runHs,
	})
	type hookCase struct {
		Fail []bool `json:"fail"` // per handler of the first connection
		N    int    `json:"n"`
	}
	pbt.Check(t, pbt.Spec[hookCase]{
		ID: "C12", Name: "handlers", Quick: 400, Thorough: 6000, Timeout: 60 * time.Second, Concurrent: true, Retries: 10,
		Rule: "a pool with 1-4 open handlers, each of which may fail on the first connection: all handlers run in order on every connection before it is handed out, and a connection a handler failed on is closed and not handed out; non-trivial: a handler fails",
		Gen: func(t *rapid.T) hookCase {
			return hookCase{rapid.SliceOfN(rapid.Bool(), 1, 4).Draw(t, "fail"), rapid.IntRange(1, 3).Draw(t, "n")}
		},
		Run: func(c hookCase, r *pbt.Rec) error {
			s, err := srv.Listen(func(c *srv.Conn) {
				for {
					if _, err := c.Request(); err != nil {
						return
					}
					_ = c.Send(resp.Simple("OK"))
				}
			})
			if err != nil {
				return err
			}
			defer s.Close()
			var pool redis.Pool
			pool.Init(c.N, s.Addr)
			var mu sync.Mutex
			ran := map[*redis.Conn][]int{}
			var order []*redis.Conn
			fails := -1
			boom := errors.New("handler failed")
			for i, f := range c.Fail {
				if f && fails < 0 {
					fails = i
				}
				pool.AddConnOpenHandler(func(conn *redis.Conn) error {
					mu.Lock()
					defer mu.Unlock()
					if len(ran[conn]) == 0 {
						order = append(order, conn)
					}
					ran[conn] = append(ran[conn], i)
					if c.Fail[i] && conn == order[0] {
						return boom
					}
					return nil
				})
			}
			ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
			defer cancel()
			conn, err := pool.Get(ctx)
			if fails >= 0 {
				if err == nil || !strings.Contains(err.Error(), boom.Error()) || conn != nil {
					return fmt.Errorf("Get returns %v, %v although handler %d failed", conn != nil, err, fails)
				}
				t0 := time.Now()
				for s.Open.Load() > 0 || s.Accepted() == 0 {
					if time.Since(t0) > 20*time.Second {
						return fmt.Errorf("the connection a handler failed on stays open")
					}
					time.Sleep(100 * time.Microsecond)
				}
				conn, err = pool.Get(ctx)
			}
			for i := 0; i < c.N; i++ {
				if err != nil {
					return err
				}
				mu.Lock()
				l := fmt.Sprint(ran[conn])
				mu.Unlock()
				var want []int
				for j := range c.Fail {
					want = append(want, j)
				}
				if l != fmt.Sprint(want) {
					return fmt.Errorf("handlers %s ran on a connection that is handed out, want %v", l, want)
				}
				defer conn.Close()
				if i+1 < c.N {
					conn, err = pool.Get(ctx)
				}
			}
			r.NonTrivial(fails >= 0)
			return nil
		},
	})
}
