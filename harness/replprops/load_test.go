package replprops

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/liujiangwei/xxcache/redis"
	"pgregory.net/rapid"

	"verif/harness/pbt"
	"verif/harness/rdbgen"
	"verif/harness/resp"
)

func TestMain(m *testing.M) { pbt.Main(m) }

// command is a message of the replication with the database it is tagged with.
type command struct {
	db   int
	args []string
}

func (c command) String() string {
	var p []string
	for i, a := range c.args {
		if i == 12 {
			p = append(p, fmt.Sprintf("... %d arguments", len(c.args)))
			break
		}
		p = append(p, pbt.Short(a))
	}
	return fmt.Sprintf("db%d %s", c.db, strings.Join(p, " "))
}

// canon makes commands that mean the same look the same.
func (c command) canon() string {
	a := append([]string(nil), c.args...)
	a[0] = strings.ToLower(a[0])
	switch a[0] {
	case "hset", "hmset":
		if len(a)%2 == 0 {
			var p []string
			for i := 2; i < len(a); i += 2 {
				p = append(p, fmt.Sprintf("%q=%q", a[i], a[i+1]))
			}
			sort.Strings(p)
			a = append(a[:2], p...)
		}
	case "sadd":
		sort.Strings(a[2:])
	}
	return fmt.Sprintf("%d %q", c.db, a)
}

func decode(m redis.ReplicationMessage) (command, error) {
	if m.Message == nil {
		return command{}, fmt.Errorf("a message without content")
	}
	var s string
	if a, ok := m.Message.(redis.ArrayMessage); ok && len(a) > 1000 { // an array's own serialisation copies too often
		var b strings.Builder
		b.WriteString("*" + strconv.Itoa(len(a)) + "\r\n")
		for _, x := range a {
			if x == nil {
				return command{}, fmt.Errorf("a command with an argument without content")
			}
			b.WriteString(x.Serialize())
		}
		s = b.String()
	} else {
		s = m.Message.Serialize()
	}
	r := bufio.NewReader(strings.NewReader(s))
	x, err := resp.Read(r)
	if err == nil && r.Buffered() > 0 {
		err = fmt.Errorf("trailing bytes")
	}
	if err != nil {
		return command{}, fmt.Errorf("the message %s is no protocol message: %v", pbt.Short(s), err)
	}
	args, ok := x.Args()
	if !ok || len(args) == 0 {
		return command{}, fmt.Errorf("the message %v is no command", x)
	}
	return command{m.Database, args}, nil
}

// load runs Load on a goroutine-collected channel and returns the commands emitted.
func load(repl *redis.Replication) (cmds []command, loadErr, err error) {
	return collect(repl, decode)
}

// loadOnly leaves out decoding, which costs more memory than loading.
func loadOnly(repl *redis.Replication) (loadErr, err error) {
	_, loadErr, err = collect(repl, func(redis.ReplicationMessage) (command, error) { return command{}, nil })
	return
}

func collect(repl *redis.Replication, decode func(redis.ReplicationMessage) (command, error)) (cmds []command, loadErr, err error) {
	repl.Messages = make(chan redis.ReplicationMessage)
	done := make(chan struct{})
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for {
			select {
			case m := <-repl.Messages:
				c, e := decode(m)
				if e != nil && err == nil {
					err = e
				}
				cmds = append(cmds, c)
			case <-done:
				return
			}
		}
	}()
	func() {
		defer func() {
			close(done)
			wg.Wait()
		}()
		before := held(repl.RdbFile)
		loadErr = repl.Load()
		if n := held(repl.RdbFile); n > before && err == nil {
			err = fmt.Errorf("the file is still open %d times after loading (%v)", n-before, loadErr)
		}
	}()
	return
}

// held tells how often this process has the file open.
func held(path string) (n int) {
	if path == "" {
		return 0
	}
	d, err := os.Open("/proc/self/fd")
	if err != nil {
		return 0
	}
	defer d.Close()
	names, _ := d.Readdirnames(-1)
	for _, f := range names {
		if to, err := os.Readlink("/proc/self/fd/" + f); err == nil && to == path {
			n++
		}
	}
	return n
}

func exec(cmds []command) (rdbgen.Data, error) {
	d := rdbgen.Data{}
	for _, c := range cmds {
		if err := d.Exec(c.db, c.args); err != nil {
			return nil, err
		}
	}
	return d, nil
}

// isPrefix compares up to the order of hash fields and set members.
func isPrefix(part, full []command) error {
	if len(part) > len(full) {
		return fmt.Errorf("%d messages instead of at most %d", len(part), len(full))
	}
	for i := range part {
		if a, b := part[i].canon(), full[i].canon(); a != b {
			return fmt.Errorf("message %d is %v, in the complete file it is %v", i, part[i], full[i])
		}
	}
	return nil
}

// plan is a sequence of files loaded with one Replication; all but the last may be cut.
type plan struct {
	Files []rdbgen.File `json:"files"`
	Cuts  []int         `json:"cuts,omitempty"` // per file: cut after that permille, 0 not
}

func check(name string, f rdbgen.File, repl *redis.Replication, fresh bool) error {
	want, id, offset := f.Want()
	wantID, wantOff := repl.Id, repl.Offset
	if id != "" {
		wantID = id
	}
	hasOff := false
	for _, r := range f.Recs {
		if r.Op == "aux" && r.K.S == "repl-offset" {
			hasOff = true
		}
	}
	if hasOff {
		wantOff = offset
	}
	cmds, loadErr, err := load(repl)
	if loadErr != nil {
		return fmt.Errorf("%s does not load: %v", name, loadErr)
	}
	if err != nil {
		return err
	}
	got, err := exec(cmds)
	if err != nil {
		return fmt.Errorf("executing what %s emits: %s", name, pbt.Short(err.Error()))
	}
	if err := rdbgen.Diff(want, got); err != nil {
		return err
	}
	if repl.Id != wantID || repl.Offset != wantOff {
		return fmt.Errorf("id %q and offset %d, want %q and %d", repl.Id, repl.Offset, wantID, wantOff)
	}
	return nil
}

var types = map[int]string{0: "string", 1: "list", 2: "set", 3: "zset", 4: "hash", 5: "zset2", 9: "zipmap", 10: "list-ziplist", 11: "intset", 12: "zset-ziplist", 13: "hash-ziplist", 14: "quicklist"}

func label(f rdbgen.File, r *pbt.Rec) {
	n, dbs := 0, map[uint64]bool{}
	for _, x := range f.Recs {
		switch x.Op {
		case "obj":
			n++
			r.Label(true, "type-"+types[x.Type])
			r.Label(x.Exp != "", "expiry-"+x.Exp)
			r.Label(x.Idle >= 0 || x.Freq >= 0, "eviction-data")
			r.Label(len(x.K.S) == 0, "empty-key")
		case "select":
			dbs[x.N] = true
		default:
			r.Label(true, x.Op)
		}
	}
	r.Label(len(dbs) > 1, "databases")
	r.NonTrivial(n > 0)
}

// crowdCase is a snapshot of very many objects, or with very many elements.
type crowdCase struct {
	Objs  []rdbgen.Rec `json:"objs"`
	N     int          `json:"n"`     // objects, copies of these under other keys
	Elems int          `json:"elems"` // at least that many elements in one copy of each container
	Each  int          `json:"each"`  // objects per database selection
}

func (c crowdCase) file() (f rdbgen.File) {
	f.Version = "0009"
	var big []rdbgen.Rec
	for _, o := range c.Objs {
		switch o.Type {
		case rdbgen.TList, rdbgen.TListZ, rdbgen.TQuick:
			l := o.L
			for len(l) < c.Elems {
				l = append(l[:len(l):len(l)], l...)
			}
			o.L, o.Split = l, max(1, len(l)/50)
		case rdbgen.TString:
			continue
		default:
			o.More = c.Elems
		}
		o.K = &rdbgen.Str{S: pbt.B("big#" + strconv.Itoa(len(big)))}
		big = append(big, o)
	}
	db := uint64(0)
	for i := 0; i < c.N; i++ {
		o := c.Objs[i%len(c.Objs)]
		k := *o.K
		k.S, k.Form = k.S+pbt.B("#"+strconv.Itoa(i)), 0
		o.K = &k
		if i%c.Each == 0 && i > 0 {
			db++
			f.Recs = append(f.Recs, rdbgen.Rec{Op: "select", N: db % 16})
		}
		f.Recs = append(f.Recs, o)
	}
	if c.Elems > 0 {
		f.Recs = append(f.Recs, rdbgen.Rec{Op: "select", N: 16})
		f.Recs = append(f.Recs, big...)
	}
	return f
}

type unsupCase struct {
	File rdbgen.File `json:"file"`
	At   int         `json:"at"` // records before it
	Type int         `json:"type"`
	Key  rdbgen.Str  `json:"key"`
	Body pbt.B       `json:"body"`
	Exp  bool        `json:"exp"`
}

func TestC16(t *testing.T) {
	pbt.Check(t, pbt.Spec[plan]{
		ID: "C16", Name: "load", Quick: 12000, Thorough: 600000,
		Rule: "snapshots of up to 10 (some 200) objects of every supported type and encoding in several databases with expiries, eviction metadata, auxiliary fields and size hints anywhere; one Replication loads one or several of them, earlier ones possibly cut; the commands emitted, executed by a reference interpreter, must give the dataset; non-trivial: at least one object",
		Gen: func(t *rapid.T) plan {
			var p plan
			n := rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, "files")
			for i := 0; i < n; i++ {
				o := rdbgen.Opts{MaxObj: 10}
				if rapid.IntRange(0, 39).Draw(t, "large") == 39 {
					o.MaxObj, o.Small = 200, true
				}
				p.Files = append(p.Files, rdbgen.Gen(t, o))
				cut := 0
				if i+1 < n && rapid.Bool().Draw(t, "cut?") {
					cut = rapid.IntRange(1, 999).Draw(t, "cut")
				}
				p.Cuts = append(p.Cuts, cut)
			}
			return p
		},
		Run: func(c plan, r *pbt.Rec) error {
			path := filepath.Join(r.Dir, "c16.rdb")
			repl := &redis.Replication{RdbFile: path}
			r.Label(len(c.Files) > 1, "several-loads")
			for i, f := range c.Files {
				b, n := f.Bytes()
				cut := i < len(c.Cuts) && c.Cuts[i] > 0
				if cut {
					b = b[:n*c.Cuts[i]/1000]
				}
				if err := os.WriteFile(path, b, 0o600); err != nil {
					return pbt.Inconclusive{Msg: err.Error()}
				}
				if cut {
					if _, e, _ := load(repl); e == nil {
						return fmt.Errorf("the first %d of %d bytes load", len(b), n)
					}
					continue
				}
				label(f, r)
				if err := check(fmt.Sprintf("file %d", i), f, repl, i == 0); err != nil {
					return err
				}
			}
			return nil
		},
	})
	pbt.Check(t, pbt.Spec[crowdCase]{
		ID: "C16", Name: "crowd", Quick: 60, Thorough: 2500, Timeout: 3 * time.Minute,
		Rule: "a snapshot of up to 70000 copies of 1-6 objects under their own keys in up to 17 databases, and with up to 70000 elements in a container of each kind, loaded and compared like 'load'; non-trivial: more than 5000 objects or elements",
		Gen: func(t *rapid.T) crowdCase {
			var c crowdCase
			for _, r := range rdbgen.Gen(t, rdbgen.Opts{MaxObj: 6, Small: true}).Recs {
				if r.Op == "obj" {
					c.Objs = append(c.Objs, r)
				}
			}
			if len(c.Objs) == 0 {
				c.Objs = []rdbgen.Rec{{Op: "obj", K: &rdbgen.Str{S: "k"}, V: &rdbgen.Str{S: "v"}, Idle: -1, Freq: -1}}
			}
			c.N = rapid.SampledFrom([]int{1, 300, 5000, 11000, 30000, 70000}).Draw(t, "n")
			c.Each = max(c.N/17+1, rapid.SampledFrom([]int{1, 5000, 70000}).Draw(t, "each"))
			if c.N < 20000 {
				c.Elems = rapid.SampledFrom([]int{0, 300, 1100, 5000, 17000, 33000, 70000}).Draw(t, "elems")
			}
			return c
		},
		Run: func(c crowdCase, r *pbt.Rec) error {
			f := c.file()
			path := filepath.Join(r.Dir, "c16crowd.rdb")
			defer os.Remove(path)
			b, _ := f.Bytes()
			if err := os.WriteFile(path, b, 0o600); err != nil {
				return pbt.Inconclusive{Msg: err.Error()}
			}
			r.Label(c.N > 10000, "more than 10000 objects")
			r.Label(c.Elems > 10000, "more than 10000 elements")
			r.Label(c.Elems > 65536, "more than 65536 elements")
			r.NonTrivial(c.N > 5000 || c.Elems > 5000)
			return check("a crowd", f, &redis.Replication{RdbFile: path}, true)
		},
	})
	type parCase struct {
		Files []rdbgen.File `json:"files"`
	}
	pbt.Check(t, pbt.Spec[parCase]{
		ID: "C16", Name: "parallel", Quick: 500, Thorough: 20000, Concurrent: true, Retries: 50,
		Rule: "2-5 snapshots loaded from files of their own by as many Replications at once, ten times each, every one compared like 'load'; non-trivial: at least two have an object",
		Gen: func(t *rapid.T) parCase {
			return parCase{rapid.SliceOfN(rapid.Custom(func(t *rapid.T) rdbgen.File { return rdbgen.Gen(t, rdbgen.Opts{MaxObj: 10, Small: true}) }), 2, 5).Draw(t, "files")}
		},
		Run: func(c parCase, r *pbt.Rec) error {
			n := 0
			paths := make([]string, len(c.Files))
			for i, f := range c.Files {
				if slices.ContainsFunc(f.Recs, func(x rdbgen.Rec) bool { return x.Op == "obj" }) {
					n++
				}
				paths[i] = filepath.Join(r.Dir, fmt.Sprintf("c16par%d.rdb", i))
				b, _ := f.Bytes()
				if err := os.WriteFile(paths[i], b, 0o600); err != nil {
					return pbt.Inconclusive{Msg: err.Error()}
				}
				defer os.Remove(paths[i])
			}
			r.NonTrivial(n >= 2)
			return pbt.Together(len(c.Files), 10, func(i int) error {
				return check(fmt.Sprintf("file %d", i), c.Files[i], &redis.Replication{RdbFile: paths[i]}, true)
			})
		},
	})
	pbt.Check(t, pbt.Spec[unsupCase]{
		ID: "C16", Name: "unsupported", Quick: 6000, Thorough: 250000,
		Rule: "snapshots with one object of a type that is not supported (modules, streams, listpack encodings, unassigned numbers) at any place: loading fails and emits exactly the commands of what comes before; non-trivial: objects before and after it",
		Gen: func(t *rapid.T) unsupCase {
			f := rdbgen.Gen(t, rdbgen.Opts{MaxObj: 6, Small: true})
			return unsupCase{File: f, At: rapid.IntRange(0, len(f.Recs)).Draw(t, "at"),
				Type: rapid.SampledFrom([]int{6, 7, 8, 15, 16, 17, 18, 19, 20, 21, 22, 30, 64, 100, 128, 200, 243}).Draw(t, "type"),
				Key:  rdbgen.GenStr(t, true), Body: pbt.B(rapid.SliceOfN(rapid.Byte(), 0, 30).Draw(t, "body")), Exp: rapid.Bool().Draw(t, "exp")}
		},
		Run: func(c unsupCase, r *pbt.Rec) error {
			path := filepath.Join(r.Dir, "c16u.rdb")
			at := min(c.At, len(c.File.Recs))
			before := c.File
			before.Recs = c.File.Recs[:at]
			obj := rdbgen.Rec{Op: "obj", Type: c.Type, K: &c.Key, Idle: -1, Freq: -1}
			if c.Exp {
				obj.Exp, obj.At = "ms", 4102444800000
			}
			f := c.File
			f.Recs = append(append(append([]rdbgen.Rec(nil), before.Recs...), obj, rdbgen.Rec{Op: "raw", Raw: c.Body}), c.File.Recs[at:]...)
			count := func(l []rdbgen.Rec) (n int) {
				for _, x := range l {
					if x.Op == "obj" {
						n++
					}
				}
				return
			}
			r.NonTrivial(count(before.Recs) > 0 && count(c.File.Recs[at:]) > 0)
			b, _ := f.Bytes()
			if err := os.WriteFile(path, b, 0o600); err != nil {
				return pbt.Inconclusive{Msg: err.Error()}
			}
			cmds, loadErr, err := load(&redis.Replication{RdbFile: path})
			if err != nil {
				return err
			}
			if loadErr == nil {
				return fmt.Errorf("an object of type %d loads", c.Type)
			}
			got, err := exec(cmds)
			if err != nil {
				return err
			}
			want, _, _ := before.Want()
			if err := rdbgen.Diff(want, got); err != nil {
				return fmt.Errorf("before an unsupported object: %v", err)
			}
			return nil
		},
	})
}

// ---- C17 ----

type edit struct {
	Op  string `json:"op"` // flip, set, ins, del, copy, len
	Pos int    `json:"pos"`
	N   int    `json:"n,omitempty"`
	B   pbt.B  `json:"b,omitempty"`
}

func apply(b []byte, es []edit) []byte {
	b = append([]byte(nil), b...)
	for _, e := range es {
		if len(b) == 0 {
			b = append(b, e.B...)
			continue
		}
		p := e.Pos % len(b)
		switch e.Op {
		case "flip":
			b[p] ^= 1 << (e.N & 7)
		case "set":
			copy(b[p:], e.B)
		case "ins":
			b = append(b[:p], append([]byte(e.B), b[p:]...)...)
		case "del":
			b = append(b[:p], b[min(p+e.N, len(b)):]...)
		case "copy":
			q := min(p+e.N, len(b))
			b = append(b[:q], append(append([]byte(nil), b[p:q]...), b[q:]...)...)
		}
	}
	return b
}

func genEdits(t *rapid.T) []edit {
	return rapid.SliceOfN(rapid.Custom(func(t *rapid.T) edit {
		e := edit{Op: rapid.SampledFrom([]string{"flip", "flip", "set", "set", "ins", "del", "copy"}).Draw(t, "op"), Pos: rapid.IntRange(0, 100000).Draw(t, "pos")}
		if rapid.Bool().Draw(t, "near") {
			e.Pos = rapid.IntRange(9, 60).Draw(t, "npos")
		}
		switch e.Op {
		case "flip":
			e.N = rapid.IntRange(0, 7).Draw(t, "bit")
		case "del", "copy":
			e.N = rapid.SampledFrom([]int{1, 1, 2, 3, 4, 8, 30}).Draw(t, "n")
		default:
			e.B = rapid.SampledFrom([]pbt.B{"\x00", "\xff", "\xfe", "\xfd", "\xc0", "\xc3", "\x80", "\x81", "\x81\xff\xff\xff\xff\xff\xff\xff\xff", "\x81\x7f\xff\xff\xff\xff\xff\xff\xff",
				"\x80\xff\xff\xff\xff", "\x80\x7f\xff\xff\xff", "\xff\xff\xff\xff", "\xfe\xff\xff\xff\xff", "\xc3\x01\x81\x00\x00\x00\xff\xff\xff\xff\xff", "\xc3\x05\x80\x40\x00\x00\x00", "\x81\x00\x00\x00\x01\x00\x00\x00\x00", "\x80\x20\x00\x00\x00"}).Draw(t, "bytes")
			if rapid.IntRange(0, 2).Draw(t, "rnd") == 0 {
				e.B = pbt.B(rapid.SliceOfN(rapid.Byte(), 1, 9).Draw(t, "rb"))
			}
		}
		return e
	}), 1, 6).Draw(t, "edits")
}

type cutCase struct {
	File rdbgen.File `json:"file"`
	Pos  []int       `json:"pos,omitempty"` // sampled positions, permyriads, when the file is long
}

type badCase struct {
	Kind string      `json:"kind"` // missing, empty-name, directory, empty-file, magic
	File rdbgen.File `json:"file"`
	Head pbt.B       `json:"head,omitempty"`
}

type corruptCase struct {
	File  *rdbgen.File `json:"file,omitempty"`
	Raw   pbt.B        `json:"raw,omitempty"` // instead of a file: after the header
	Edits []edit       `json:"edits"`
}

func allocated() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

func TestC17(t *testing.T) {
	pbt.Check(t, pbt.Spec[cutCase]{
		ID: "C17", Name: "truncate", Quick: 1500, Thorough: 60000,
		Rule: "snapshots cut at every byte before the end of the end marker (at sampled bytes beyond 400): loading fails and emits a prefix of the complete file's commands; non-trivial: at least one object",
		Gen: func(t *rapid.T) cutCase {
			c := cutCase{File: rdbgen.Gen(t, rdbgen.Opts{MaxObj: 5, Small: rapid.IntRange(0, 4).Draw(t, "small") > 0})}
			c.Pos = rapid.SliceOfN(rapid.IntRange(0, 9999), 60, 60).Draw(t, "pos")
			return c
		},
		Run: func(c cutCase, r *pbt.Rec) error {
			path := filepath.Join(r.Dir, "c17.rdb")
			label(c.File, r)
			b, n := c.File.Bytes()
			if err := os.WriteFile(path, b, 0o600); err != nil {
				return pbt.Inconclusive{Msg: err.Error()}
			}
			full, loadErr, err := load(&redis.Replication{RdbFile: path})
			if err == nil {
				err = loadErr
			}
			if err != nil {
				return fmt.Errorf("the complete file: %v", err)
			}
			var cuts []int
			for i := n - 1; i >= 0 && (n <= 400 || i >= n-30 || i < 60); i-- {
				cuts = append(cuts, i)
			}
			if n > 400 {
				for _, p := range c.Pos {
					cuts = append(cuts, p*n/10000)
				}
				for i := 0; i < 60; i++ {
					cuts = append(cuts, i)
				}
			}
			sort.Sort(sort.Reverse(sort.IntSlice(cuts)))
			f, err := os.OpenFile(path, os.O_WRONLY, 0)
			if err != nil {
				return pbt.Inconclusive{Msg: err.Error()}
			}
			defer f.Close()
			for _, k := range cuts {
				if err := f.Truncate(int64(k)); err != nil {
					return pbt.Inconclusive{Msg: err.Error()}
				}
				part, loadErr, err := load(&redis.Replication{RdbFile: path})
				if err != nil {
					return fmt.Errorf("cut at %d of %d: %v", k, n, err)
				}
				if loadErr == nil {
					return fmt.Errorf("the first %d of %d bytes load without error", k, n)
				}
				if err := isPrefix(part, full); err != nil {
					return fmt.Errorf("cut at %d of %d: %v", k, n, err)
				}
			}
			return nil
		},
	})
	pbt.Check(t, pbt.Spec[badCase]{
		ID: "C17", Name: "nofile", Quick: 1500, Thorough: 40000,
		Rule: "a missing file, an empty name, a directory, an empty file or a file with something else than the magic in front of a valid content: an error and no messages; non-trivial: all",
		Gen: func(t *rapid.T) badCase {
			c := badCase{Kind: rapid.SampledFrom([]string{"missing", "empty-name", "directory", "empty-file", "magic", "magic", "magic", "magic"}).Draw(t, "kind"), File: rdbgen.Gen(t, rdbgen.Opts{MaxObj: 3, Small: true})}
			if c.Kind == "magic" {
				c.Head = rapid.SampledFrom([]pbt.B{"redis0009", "REDIX0009", "\x00EDIS0009", "RED", "         ", "SIDER0009", "REDI", "DREDIS009", "RREDIS0009", "\xff\xff\xff\xff\xff\xff\xff\xff\xff"}).Draw(t, "head")
				if rapid.Bool().Draw(t, "rnd") {
					c.Head = pbt.B(rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(t, "rhead"))
				}
			}
			return c
		},
		Run: func(c badCase, r *pbt.Rec) error {
			path := filepath.Join(r.Dir, "c17b.rdb")
			b, _ := c.File.Bytes()
			r.NonTrivial(true)
			r.Label(true, c.Kind)
			if err := os.RemoveAll(path); err != nil {
				return pbt.Inconclusive{Msg: err.Error()}
			}
			var err error
			switch c.Kind {
			case "empty-name":
				path = ""
			case "directory":
				err = os.Mkdir(path, 0o700)
				defer os.RemoveAll(path)
			case "empty-file":
				err = os.WriteFile(path, nil, 0o600)
			case "magic":
				x := append([]byte(c.Head), b[9:]...)
				if bytes.HasPrefix(x, []byte("REDIS")) {
					return nil
				}
				err = os.WriteFile(path, x, 0o600)
			}
			if err != nil {
				return pbt.Inconclusive{Msg: err.Error()}
			}
			cmds, loadErr, err := load(&redis.Replication{RdbFile: path})
			if err != nil {
				return err
			}
			if loadErr == nil || len(cmds) > 0 {
				return fmt.Errorf("%s: error %v and %d messages", c.Kind, loadErr, len(cmds))
			}
			return nil
		},
	})
	pbt.Check(t, pbt.Spec[corruptCase]{
		ID: "C17", Name: "corrupt", Quick: 30000, Thorough: 2000000,
		Rule: "snapshots with 1 to 6 bit flips, overwritten, inserted, deleted or repeated bytes (among them huge lengths, record types and expiry marks), and random bytes behind a header: loading returns, without a panic, in time and with bounded allocation; non-trivial: the damaged file does not load",
		Gen: func(t *rapid.T) corruptCase {
			var c corruptCase
			if rapid.IntRange(0, 5).Draw(t, "raw") == 0 {
				types := rapid.SampledFrom([]byte{0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13, 14, 15, 247, 248, 249, 250, 251, 252, 253, 254, 255})
				b := []byte{}
				for i := rapid.IntRange(1, 6).Draw(t, "n"); i > 0; i-- {
					b = append(b, types.Draw(t, "type"))
					b = append(b, rapid.SliceOfN(rapid.Byte(), 0, 24).Draw(t, "bytes")...)
				}
				c.Raw = pbt.B(b)
			} else {
				f := rdbgen.Gen(t, rdbgen.Opts{MaxObj: 6, Small: rapid.IntRange(0, 3).Draw(t, "small") > 0})
				c.File = &f
			}
			c.Edits = genEdits(t)
			return c
		},
		Bytes: func(b []byte) corruptCase { return corruptCase{Raw: pbt.B(b)} },
		Seed: func(c corruptCase) []byte {
			if c.File == nil {
				return []byte(c.Raw)
			}
			b, _ := c.File.Bytes()
			return b[9:]
		},
		Run: func(c corruptCase, r *pbt.Rec) error {
			path := filepath.Join(r.Dir, "c17c.rdb")
			b := append([]byte("REDIS0009"), c.Raw...)
			if c.File != nil {
				b, _ = c.File.Bytes()
			}
			b = apply(b, c.Edits)
			if err := os.WriteFile(path, b, 0o600); err != nil {
				return pbt.Inconclusive{Msg: err.Error()}
			}
			before := allocated()
			loadErr, err := loadOnly(&redis.Replication{RdbFile: path})
			if err != nil {
				return err
			}
			used := allocated() - before
			r.NonTrivial(loadErr != nil)
			r.Label(loadErr == nil, "loads")
			if limit := uint64(256<<20 + 2000*len(b)); used > limit {
				return fmt.Errorf("loading %d bytes allocates %d", len(b), used)
			}
			return nil
		},
	})
	// a compact encoding of which a part is gone, inside a file that is complete
	type innerCase struct {
		Type int          `json:"type"`
		Key  rdbgen.Str   `json:"key"`
		L    []rdbgen.Str `json:"l"`
		E    []edit       `json:"e"`
		Cut  int          `json:"cut"`
	}
	pbt.Check(t, pbt.Spec[innerCase]{
		ID: "C17", Name: "inner", Quick: 30000, Thorough: 2000000,
		Rule: "an otherwise intact file whose one ziplist, intset or zipmap is damaged or cut: loading returns an error or commands, without a panic, in time and with bounded allocation; non-trivial: the damaged object does not load",
		Gen: func(t *rapid.T) innerCase {
			c := innerCase{Type: rapid.SampledFrom([]int{rdbgen.TListZ, rdbgen.TIntset, rdbgen.TZSetZ, rdbgen.THashZ, rdbgen.TZipmap, rdbgen.TQuick}).Draw(t, "type"), Key: rdbgen.GenStr(t, true)}
			n := rapid.IntRange(0, 5).Draw(t, "n")
			for i := 0; i < 2*n; i++ {
				s := rdbgen.GenStr(t, rapid.IntRange(0, 5).Draw(t, "small") > 0)
				if c.Type == rdbgen.TIntset {
					s = rdbgen.Str{S: pbt.B(fmt.Sprint(rapid.Int64().Draw(t, "int")))}
				}
				c.L = append(c.L, s)
			}
			if rapid.Bool().Draw(t, "damage") {
				c.E = genEdits(t)
				for i := range c.E {
					if rapid.Bool().Draw(t, "front") {
						c.E[i].Pos = rapid.IntRange(0, 20).Draw(t, "fpos")
					}
				}
			}
			if len(c.E) == 0 || rapid.IntRange(0, 3).Draw(t, "cut") == 0 {
				c.Cut = rapid.IntRange(1, 1000).Draw(t, "by")
			}
			return c
		},
		Run: func(c innerCase, r *pbt.Rec) error {
			path := filepath.Join(r.Dir, "c17i.rdb")
			r.Label(true, types[c.Type])
			body := rdbgen.Compact(c.Type, c.L)
			body = apply(body, c.E)
			body = body[:len(body)-len(body)*c.Cut/1000]
			b := []byte("REDIS0009")
			b = append(b, byte(c.Type))
			b = append(b, rdbgen.Bytes(c.Key)...)
			if c.Type == rdbgen.TQuick {
				b = append(b, 1)
			}
			b = append(b, 0x81)
			b = binary.BigEndian.AppendUint64(b, uint64(len(body)))
			b = append(b, body...)
			b = append(b, 255)
			if err := os.WriteFile(path, b, 0o600); err != nil {
				return pbt.Inconclusive{Msg: err.Error()}
			}
			before := allocated()
			loadErr, err := loadOnly(&redis.Replication{RdbFile: path})
			if err != nil {
				return err
			}
			used := allocated() - before
			r.NonTrivial(loadErr != nil)
			if limit := uint64(256<<20 + 2000*len(b)); used > limit {
				return fmt.Errorf("loading %d bytes allocates %d", len(b), used)
			}
			return nil
		},
	})
}
