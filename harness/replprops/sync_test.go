package replprops

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/liujiangwei/xxcache/redis"
	"pgregory.net/rapid"

	"verif/harness/cachekit"
	"verif/harness/pbt"
	"verif/harness/rdbgen"
	"verif/harness/resp"
	"verif/harness/srv"
)

// payload of a synchronisation: pieces repeated, or a snapshot.
type payload struct {
	Unit pbt.B        `json:"unit,omitempty"`
	Rep  int          `json:"rep,omitempty"`
	Tail pbt.B        `json:"tail,omitempty"`
	File *rdbgen.File `json:"file,omitempty"`
}

func (p payload) bytes() []byte {
	if p.File != nil {
		b, _ := p.File.Bytes()
		return b
	}
	return append(bytes.Repeat([]byte(p.Unit), p.Rep), p.Tail...)
}

func genPayload(t *rapid.T) payload {
	if rapid.IntRange(0, 59).Draw(t, "big") == 59 {
		// some megabytes
		return payload{Unit: pbt.B(strings.Repeat(string(rapid.SliceOfN(rapid.Byte(), 10, 30).Draw(t, "unit")), 50)), Rep: rapid.IntRange(500, 5000).Draw(t, "rep"), Tail: pbt.B(rapid.SliceOfN(rapid.Byte(), 0, 5).Draw(t, "tail"))}
	}
	switch rapid.IntRange(0, 3).Draw(t, "pkind") {
	case 0:
		return payload{Tail: pbt.B(rapid.SliceOfN(rapid.SampledFrom([]byte("\r\n$*+-:0123ab\x00\xff")), 0, 40).Draw(t, "tail"))}
	case 1:
		return payload{Unit: pbt.B(rapid.SliceOfN(rapid.Byte(), 1, 20).Draw(t, "unit")), Rep: rapid.SampledFrom([]int{1, 10, 204, 205, 410, 1000, 5000}).Draw(t, "rep"), Tail: pbt.B(rapid.SliceOfN(rapid.Byte(), 0, 5).Draw(t, "tail"))}
	case 2:
		n := rapid.SampledFrom([]int{0, 1, 2, 4095, 4096, 4097, 8192, 65536}).Draw(t, "len")
		if rapid.Bool().Draw(t, "anylen") {
			n = pbt.Len(t, 70000)
		}
		return payload{Unit: pbt.B(rapid.SampledFrom([]string{"\n", "\r\n", "x", "$5\r\n", "\x00"}).Draw(t, "u")), Rep: n}
	}
	f := rdbgen.Gen(t, rdbgen.Opts{MaxObj: 4, Small: true})
	return payload{File: &f}
}

// item of the stream: a command, a ping, a selection of a database or empty.
type item struct {
	C []pbt.B `json:"c"`
}

func genItem(t *rapid.T) item {
	w := func(s ...string) item {
		var i item
		for _, x := range s {
			i.C = append(i.C, pbt.B(x))
		}
		return i
	}
	txt := rapid.Custom(func(t *rapid.T) pbt.B {
		// words that mean something elsewhere in the protocol are plain text in an argument
		if rapid.IntRange(0, 3).Draw(t, "word") == 0 {
			return pbt.B(rapid.SampledFrom([]string{"ping", "PING", "shopping", "pings", "select", "SELECT 5", "pong", "OK", "+PING\r\n", "*1\r\n$4\r\nping\r\n", "ack", "$-1", "nil"}).Draw(t, "text"))
		}
		return rdbgen.Text(t, true)
	})
	switch rapid.IntRange(0, 9).Draw(t, "ikind") {
	case 0, 1:
		return w(rapid.SampledFrom([]string{"PING", "ping", "Ping"}).Draw(t, "ping"))
	case 2, 3:
		return w(rapid.SampledFrom([]string{"SELECT", "select", "Select"}).Draw(t, "sel"), strconv.Itoa(rapid.SampledFrom([]int{0, 0, 1, 2, 9, 10, 15, 63, 100, pbt.Len(t, 1<<20)}).Draw(t, "db")))
	case 4:
		i := w(rapid.SampledFrom([]string{"DEL", "INCR", "MULTI", "EXEC", "REPLCONF", "PEXPIREAT", "hmset", "FLUSHALL", "EVAL", "x"}).Draw(t, "cmd"))
		i.C = append(i.C, rapid.SliceOfN(txt, 0, 5).Draw(t, "args")...)
		if rapid.IntRange(0, 19).Draw(t, "many") == 19 {
			for n := pbt.Len(t, 300); n > 0; n-- {
				i.C = append(i.C, pbt.B(strconv.Itoa(n)))
			}
		}
		return i
	case 5:
		i := w("SET", "k")
		v, n := string(cachekit.Val(t)), rapid.SampledFrom([]int{1, 5, 300, 3000}).Draw(t, "rep")
		i.C = append(i.C, pbt.B(strings.Repeat(v, max(1, min(n, 1<<17/max(1, len(v)))))))
		return i
	}
	i := w(rapid.SampledFrom([]string{"SET", "set", "APPEND", "rpush"}).Draw(t, "cmd"))
	i.C = append(i.C, txt.Draw(t, "k"), txt.Draw(t, "v"))
	return i
}

type syncCase struct {
	Newlines int     `json:"newlines,omitempty"`
	Payload  payload `json:"payload"`
	Old      int     `json:"old,omitempty"` // bytes in the file before, -1 no file
	Items    []item  `json:"items"`
	Cuts     []int   `json:"cuts,omitempty"`
	Slow     bool    `json:"slow,omitempty"`
	End      string  `json:"end"` // close, abort, partial, garbage
	Partial  int     `json:"partial,omitempty"`
	Load     bool    `json:"load,omitempty"`
	Split    bool    `json:"split,omitempty"` // the stream starts a moment after the snapshot
	Rep      int     `json:"rep,omitempty"`   // the items come more than once
	Lag      int     `json:"lag,omitempty"`   // milliseconds until the receiver looks at its messages
}

// put writes in pieces, the first ones with a pause.
func put(c *srv.Conn, b []byte, cuts []int, slow bool) error {
	for i := 0; len(b) > 0; i++ {
		n := len(b)
		if len(cuts) > 0 && i < 300 {
			n = min(n, cuts[i%len(cuts)])
		}
		if _, err := c.Conn.Write(b[:n]); err != nil {
			return err
		}
		b = b[n:]
		if slow && i < 12 && len(b) > 0 {
			time.Sleep(150 * time.Microsecond)
		}
	}
	return nil
}

// master answers until the synchronisation is requested; then it calls then. seen gets every request.
func master(ping func(c *srv.Conn) bool, then func(c *srv.Conn)) (*srv.Server, error) {
	return srv.Listen(func(c *srv.Conn) {
		for {
			a, err := c.Request()
			if err != nil {
				return
			}
			switch strings.ToLower(a[0]) {
			case "ping":
				if !ping(c) {
					return
				}
			case "sync":
				then(c)
				return
			default:
				if c.Put([]byte("+OK\r\n")) != nil {
					return
				}
			}
		}
	})
}

func pong(c *srv.Conn) bool { return c.Put([]byte("+PONG\r\n")) == nil }

func (c syncCase) run(r *pbt.Rec) error { return c.with(&redis.Replication{}, r) }

// with synchronises and follows the stream with a Replication that may have done so before.
func (c syncCase) with(repl *redis.Replication, r *pbt.Rec) error {
	path := filepath.Join(r.Dir, "c18.rdb")
	os.Remove(path)
	if c.Old >= 0 {
		if err := os.WriteFile(path, bytes.Repeat([]byte("o"), c.Old), 0o600); err != nil {
			return pbt.Inconclusive{Msg: err.Error()}
		}
	}
	body := c.Payload.bytes()
	head := []byte(strings.Repeat("\n", c.Newlines) + "$" + strconv.Itoa(len(body)) + "\r\n")
	var stream []byte
	var want []command
	db := 0
	items := append([]item(nil), c.Items...)
	for i := 1; i < c.Rep && len(items) < 16000; i++ {
		items = append(items, c.Items...)
	}
	for _, i := range items {
		if len(stream) > 8<<20 {
			break
		}
		a := pbt.Strs(i.C)
		stream = append(stream, resp.Cmd(a...).Encode(nil)...)
		switch strings.ToLower(a[0]) {
		case "ping":
		case "select":
			db, _ = strconv.Atoi(a[1])
		default:
			want = append(want, command{db, a})
		}
	}
	switch c.End {
	case "partial":
		x := resp.Cmd("SET", "last", "never").Encode(nil)
		stream = append(stream, x[:1+c.Partial%(len(x)-1)]...)
	case "garbage":
		stream = append(stream, "!?\r\n"...)
	}
	goOn, allRead := make(chan struct{}), make(chan struct{})
	s, err := master(pong, func(k *srv.Conn) {
		b := append(append([]byte(nil), head...), body...)
		if !c.Split {
			b = append(b, stream...)
		}
		if put(k, b, c.Cuts, c.Slow) != nil {
			return
		}
		if c.Split {
			<-goOn
			if put(k, stream, c.Cuts, c.Slow) != nil {
				return
			}
		}
		switch c.End {
		case "abort":
			// a reset discards what has not been read: wait until everything was
			<-allRead
			k.Abort()
		case "garbage":
			io.Copy(io.Discard, k.Conn)
		default:
			k.EndWrite()
			io.Copy(io.Discard, k.Conn)
		}
	})
	if err != nil {
		return err
	}
	defer s.Close()
	start := sync.OnceFunc(func() { close(goOn) })
	release := sync.OnceFunc(func() { close(allRead) })
	defer start()
	defer release()
	repl.MasterAddr, repl.RdbFile = s.Addr, path
	if err := repl.SyncWithRedis(); err != nil {
		return fmt.Errorf("synchronising: %v", err)
	}
	if n := held(path); n > 0 {
		return fmt.Errorf("the snapshot's file is still open %d times", n)
	}
	got, err := os.ReadFile(path)
	if err != nil {
		return fmt.Errorf("the snapshot: %v", err)
	}
	if !bytes.Equal(got, body) {
		return fmt.Errorf("the file has %d bytes %s, sent were %d bytes %s", len(got), pbt.Short(string(got)), len(body), pbt.Short(string(body)))
	}
	if c.Load && c.Payload.File != nil {
		messages := repl.Messages
		cmds, loadErr, err := load(repl)
		repl.Messages = messages
		if err == nil {
			err = loadErr
		}
		if err != nil {
			return fmt.Errorf("loading the snapshot: %v", err)
		}
		d, err := exec(cmds)
		if err != nil {
			return err
		}
		w, _, _ := c.Payload.File.Want()
		if err := rdbgen.Diff(w, d); err != nil {
			return err
		}
	}
	start()
	finished := make(chan struct{})
	go func() { defer close(finished); repl.WaitForMessage() }()
	// reports are read like the client does
	reports := make(chan error, 100)
	stop := make(chan struct{})
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for {
			select {
			case e := <-repl.Err:
				reports <- e
			case <-stop:
				return
			}
		}
	}()
	defer func() { close(stop); wg.Wait() }()
	var have []command
	const idle = 25 * time.Second
	limit := time.NewTimer(idle + time.Duration(c.Lag)*time.Millisecond)
	defer limit.Stop()
	r.Label(len(want) > 10000, "more than 10000 commands")
	time.Sleep(time.Duration(c.Lag) * time.Millisecond)
	if c.End == "abort" && len(want) == 0 {
		go func() { time.Sleep(time.Millisecond); release() }()
	}
	for open := true; open; {
		select {
		case m, ok := <-repl.Messages:
			if !ok {
				open = false
				break
			}
			limit.Reset(idle)
			x, err := decode(m)
			if err != nil {
				return err
			}
			if strings.EqualFold(x.args[0], "select") {
				continue // handing over the selection itself is fine
			}
			have = append(have, x)
			if len(have) > len(want) {
				return fmt.Errorf("one more than the commands sent is delivered: %v", x)
			}
			w := want[len(have)-1]
			if fmt.Sprintf("%d %q", x.db, x.args) != fmt.Sprintf("%d %q", w.db, w.args) {
				return fmt.Errorf("command %d of the stream is %v, sent was %v", len(have)-1, x, w)
			}
			if len(have) == len(want) && c.End == "abort" {
				release()
			}
		case <-limit.C:
			return fmt.Errorf("after %d of %d commands and the end of the stream the message channel is still open", len(have), len(want))
		}
	}
	if len(have) != len(want) {
		return fmt.Errorf("%d commands are delivered, %d were sent, the first missing one is %v", len(have), len(want), want[len(have)])
	}
	select {
	case e := <-reports:
		if e == nil {
			return fmt.Errorf("the end of the stream is reported as nil")
		}
	case <-time.After(20 * time.Second):
		return fmt.Errorf("the end of the stream is not reported")
	}
	select {
	case <-finished:
	case <-time.After(20 * time.Second):
		return fmt.Errorf("WaitForMessage does not return after the end of the stream")
	}
	return nil
}

type refuseCase struct {
	Kind string `json:"kind"`
	Text pbt.B  `json:"text,omitempty"`
	Size int    `json:"size,omitempty"`
	Sent int    `json:"sent,omitempty"`
	Cuts []int  `json:"cuts,omitempty"`
}

func (c refuseCase) run(r *pbt.Rec) error {
	path := filepath.Join(r.Dir, "c18r.rdb")
	os.Remove(path)
	r.Label(true, c.Kind)
	r.NonTrivial(true)
	ping, then := pong, func(k *srv.Conn) {
		put(k, []byte("$3\r\nabc"), c.Cuts, false)
	}
	body := bytes.Repeat([]byte("r"), c.Size)
	full := append([]byte("$"+strconv.Itoa(c.Size)+"\r\n"), body...)
	switch c.Kind {
	case "no-addr", "no-file":
	case "ping-error":
		ping = func(k *srv.Conn) bool { put(k, []byte("-"+string(c.Text)+"\r\n"), c.Cuts, false); return true }
	case "ping-other":
		ping = func(k *srv.Conn) bool { put(k, []byte("+"+string(c.Text)+"x\r\n"), c.Cuts, false); return true }
	case "ping-close":
		ping = func(k *srv.Conn) bool { put(k, []byte("+PONG\r\n")[:c.Sent%7], c.Cuts, false); return false }
	case "sync-error":
		then = func(k *srv.Conn) { put(k, []byte("-"+string(c.Text)+"\r\n"), c.Cuts, false) }
	case "sync-simple":
		then = func(k *srv.Conn) { put(k, []byte("+"+string(c.Text)+"\r\n"), c.Cuts, false) }
	case "sync-other":
		then = func(k *srv.Conn) {
			put(k, []byte([]string{"$-1\r\n", ":5\r\n", "*0\r\n", "*1\r\n$1\r\nx\r\n", "$-5\r\n", "$x\r\n", "$\r\n", "\x00", "!!\r\n", "$99999999999999999999\r\n"}[c.Sent%10]), c.Cuts, false)
		}
	case "close":
		// anything less than everything, keep-alive included
		then = func(k *srv.Conn) {
			b := append([]byte("\n\n"), full...)
			put(k, b[:c.Sent*len(b)/1001], c.Cuts, false)
		}
	case "abort":
		then = func(k *srv.Conn) {
			b := append([]byte("\n\n"), full...)
			put(k, b[:c.Sent*len(b)/1001], c.Cuts, false)
			k.Abort()
		}
	case "bad-dir":
		path = filepath.Join(r.Dir, "no", "such", "dir", "x")
	case "is-dir":
		path = filepath.Join(r.Dir, "c18dir")
		if err := os.MkdirAll(path, 0o700); err != nil {
			return pbt.Inconclusive{Msg: err.Error()}
		}
	case "full":
		path = "/dev/full"
		then = func(k *srv.Conn) { put(k, full, c.Cuts, false) }
	}
	// the masters that do not close the connection wait for its end
	ended := make(chan bool, 1)
	hold := true
	switch c.Kind {
	case "no-addr", "no-file", "unreachable", "ping-close", "close", "abort":
		hold = false
	}
	sent, seen := then, ping
	then = func(k *srv.Conn) {
		sent(k)
		if hold {
			io.Copy(io.Discard, k.R)
			ended <- true
		}
	}
	ping = func(k *srv.Conn) bool {
		if !seen(k) {
			return false
		}
		if _, err := k.R.Peek(1); err != nil && hold {
			ended <- true
			return false
		}
		return true
	}
	repl := &redis.Replication{RdbFile: path}
	if c.Kind == "unreachable" {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			return pbt.Inconclusive{Msg: err.Error()}
		}
		repl.MasterAddr = l.Addr().String()
		l.Close()
	} else {
		s, err := master(ping, then)
		if err != nil {
			return err
		}
		defer s.Close()
		repl.MasterAddr = s.Addr
	}
	if c.Kind == "no-addr" {
		repl.MasterAddr = ""
	}
	if c.Kind == "no-file" {
		repl.RdbFile = ""
	}
	if err := repl.SyncWithRedis(); err == nil {
		return fmt.Errorf("%s: synchronising succeeds", c.Kind)
	}
	if n := held(repl.RdbFile); n > 0 {
		return fmt.Errorf("%s: the snapshot's file is still open %d times", c.Kind, n)
	}
	if hold {
		select {
		case <-ended:
		case <-time.After(10 * time.Second):
			return fmt.Errorf("%s: synchronising fails, but 10 s later its connection is still open", c.Kind)
		}
	}
	runtime.KeepAlive(repl)
	return nil
}

type ackCase struct {
	Offsets []int64 `json:"offsets"`
}

func (c ackCase) run(r *pbt.Rec) error {
	r.NonTrivial(len(c.Offsets) > 0)
	errs := make([]error, len(c.Offsets))
	var wg sync.WaitGroup
	for i, off := range c.Offsets {
		wg.Add(1)
		go func() {
			defer wg.Done()
			f := rdbgen.File{Version: "0009", Recs: []rdbgen.Rec{{Op: "aux", K: &rdbgen.Str{S: "repl-offset"}, V: &rdbgen.Str{S: pbt.B(strconv.FormatInt(off, 10))}},
				{Op: "obj", K: &rdbgen.Str{S: "k"}, V: &rdbgen.Str{S: "v"}, Idle: -1, Freq: -1}}}
			b, _ := f.Bytes()
			ack := make(chan error, 1)
			s, err := master(pong, func(k *srv.Conn) {
				k.Put([]byte("$" + strconv.Itoa(len(b)) + "\r\n" + string(b)))
				for n := 0; n < 2; n++ {
					a, err := k.Request()
					if err == nil && (len(a) != 3 || !strings.EqualFold(a[0], "replconf") || !strings.EqualFold(a[1], "ack") || a[2] != strconv.FormatInt(off, 10)) {
						err = fmt.Errorf("the master of offset %d receives %q", off, a)
					}
					if err != nil {
						ack <- err
						return
					}
				}
				ack <- nil
			})
			if err != nil {
				errs[i] = err
				return
			}
			defer s.Close()
			repl := &redis.Replication{MasterAddr: s.Addr, RdbFile: filepath.Join(r.Dir, fmt.Sprintf("ack%d.rdb", i))}
			if errs[i] = repl.SyncWithRedis(); errs[i] != nil {
				return
			}
			if errs[i] = repl.Load(); errs[i] != nil {
				return
			}
			go func() {
				for range repl.Err {
				}
			}()
			go repl.Ack()
			select {
			case errs[i] = <-ack:
			case <-time.After(30 * time.Second):
				errs[i] = fmt.Errorf("no acknowledgement within 30 seconds")
			}
		}()
	}
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	return nil
}

func genCuts(t *rapid.T) []int {
	if rapid.Bool().Draw(t, "whole") {
		return nil
	}
	return rapid.SliceOfN(rapid.SampledFrom([]int{1, 1, 2, 3, 5, 17, 100, 4096}), 1, 6).Draw(t, "cuts")
}

func genSync(t *rapid.T) syncCase {
	rep, lag := 0, 0
	if rapid.IntRange(0, 79).Draw(t, "long") == 79 {
		rep, lag = rapid.SampledFrom([]int{2, 100, 1000, 5000, 15000}).Draw(t, "rep"), rapid.SampledFrom([]int{0, 20, 200, 500}).Draw(t, "lag")
	}
	return syncCase{Rep: rep, Lag: lag, Newlines: rapid.SampledFrom([]int{0, 0, 1, 3, 20}).Draw(t, "newlines"), Payload: genPayload(t), Old: rapid.SampledFrom([]int{-1, 0, 10, 9000, 100000}).Draw(t, "old"),
		Items: rapid.SliceOfN(rapid.Custom(genItem), 0, 25).Draw(t, "items"), Cuts: genCuts(t), Slow: rapid.IntRange(0, 3).Draw(t, "slow") == 0,
		End: rapid.SampledFrom([]string{"close", "close", "abort", "partial", "garbage"}).Draw(t, "end"), Partial: rapid.IntRange(0, 60).Draw(t, "partial"), Load: rapid.Bool().Draw(t, "load"), Split: rapid.Bool().Draw(t, "split")}
}

func TestC18(t *testing.T) {
	pbt.Check(t, pbt.Spec[syncCase]{
		ID: "C18", Name: "stream", Quick: 9000, Thorough: 300000,
		Rule: "a scripted master sends keep-alive newlines, a snapshot of any bytes and a command stream with pings and database selections, in drawn pieces (some of more than 10000 commands, with a receiver that looks at them late), and ends by closing, resetting, a partial command or garbage; file content, delivered commands with their databases, the error report and the closed channel are compared; non-trivial: at least one command after the snapshot",
		Gen:  genSync,
		Run: func(c syncCase, r *pbt.Rec) error {
			n, sel := 0, false
			for _, i := range c.Items {
				if len(i.C) > 0 && !strings.EqualFold(string(i.C[0]), "ping") {
					n++
				}
				sel = sel || strings.EqualFold(string(i.C[0]), "select")
			}
			r.NonTrivial(n > 0)
			r.Label(sel, "select")
			r.Label(c.Newlines > 0, "keep-alive")
			r.Label(len(c.Cuts) > 0, "fragmented")
			r.Label(true, "end-"+c.End)
			return c.run(r)
		},
	})
	type againCase struct {
		Runs []syncCase `json:"runs"`
		Fail bool       `json:"fail,omitempty"` // an attempt in between meets no master
	}
	pbt.Check(t, pbt.Spec[againCase]{
		ID: "C18", Name: "again", Quick: 800, Thorough: 30000,
		Rule: "one Replication synchronises with 2-3 masters one after the other, each as in 'stream', in some cases with a failed attempt in between: nothing of an earlier stream, its database or its end carries over; non-trivial: all",
		Gen: func(t *rapid.T) againCase {
			one := rapid.Custom(func(t *rapid.T) syncCase {
				c := genSync(t)
				c.Rep, c.Lag = 0, 0
				return c
			})
			return againCase{rapid.SliceOfN(one, 2, 3).Draw(t, "runs"), rapid.IntRange(0, 2).Draw(t, "fail") == 0}
		},
		Run: func(c againCase, r *pbt.Rec) error {
			r.NonTrivial(true)
			repl := &redis.Replication{}
			for i, x := range c.Runs {
				if i > 0 && c.Fail {
					s, err := master(pong, func(*srv.Conn) {})
					if err != nil {
						return err
					}
					s.Close()
					repl.MasterAddr = s.Addr
					if repl.SyncWithRedis() == nil {
						return fmt.Errorf("synchronising with a master that is gone succeeds")
					}
				}
				if err := x.with(repl, r); err != nil {
					return fmt.Errorf("synchronisation %d of one Replication: %v", i+1, err)
				}
			}
			return nil
		},
	})
	pbt.Check(t, pbt.Spec[refuseCase]{
		ID: "C18", Name: "refused", Quick: 8000, Thorough: 250000,
		Rule: "no address or file, an unreachable master, an answer to the ping or the sync request that is an error or of another kind, a connection that ends at any byte before the announced length, a file that cannot be written: synchronising returns an error; non-trivial: all",
		Gen: func(t *rapid.T) refuseCase {
			return refuseCase{Kind: rapid.SampledFrom([]string{"no-addr", "no-file", "unreachable", "ping-error", "ping-other", "ping-close", "sync-error", "sync-simple", "sync-other", "sync-other", "close", "close", "close", "abort", "bad-dir", "is-dir", "full", "full"}).Draw(t, "kind"),
				Text: pbt.B(rapid.SampledFrom([]string{"ERR no", "NOAUTH Authentication required.", "", "PONG", "LOADING Redis is loading", "FULLRESYNC 0123456789012345678901234567890123456789 1", "NOPONG", "NOMASTERLINK x"}).Draw(t, "text")),
				Size: rapid.SampledFrom([]int{1, 2, 3, 10, 100, 4095, 4096, 4097, 10000, 70000}).Draw(t, "size"), Sent: rapid.IntRange(0, 1000).Draw(t, "sent"), Cuts: genCuts(t)}
		},
		Run: func(c refuseCase, r *pbt.Rec) error { return c.run(r) },
	})
	pbt.Check(t, pbt.Spec[ackCase]{
		ID: "C18", Name: "ack", Quick: 6, Thorough: 60,
		Rule: "12 masters at a time send snapshots with drawn replication offsets and read the first two acknowledgements; non-trivial: all",
		Gen: func(t *rapid.T) ackCase {
			return ackCase{rapid.SliceOfN(rapid.OneOf(rapid.SampledFrom([]int64{0, 1, 9, 10, 2147483647, 2147483648, 1 << 53, 1<<63 - 1}), rapid.Int64Range(0, 1<<62)), 12, 12).Draw(t, "offsets")}
		},
		Run: func(c ackCase, r *pbt.Rec) error { return c.run(r) },
	})
}
