package concprops

import (
	"fmt"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/liujiangwei/xxcache/cache"
	"pgregory.net/rapid"

	"verif/harness/cachekit"
	"verif/harness/model"
	"verif/harness/pbt"
)

func TestMain(m *testing.M) { pbt.Main(m) }

// ---- workers that start together ----

// gang runs the same index of work on n goroutines that leave a spin barrier at the same moment.
type gang struct {
	n       int
	round   atomic.Int64
	arrived atomic.Int64
	done    atomic.Int64
	work    func(worker, round int)
	wg      sync.WaitGroup
	rounds  int
}

func spin(ok func() bool) {
	for i := 0; !ok(); i++ {
		if i > 2000 {
			runtime.Gosched()
			if i > 4000 {
				time.Sleep(5 * time.Microsecond)
			}
		}
	}
}

// run executes rounds rounds; in each, all workers are released at once.
func run(n, rounds int, jitter func(worker, round int) int, work func(worker, round int)) (perr error) {
	var g gang
	g.n, g.rounds, g.work = n, rounds, work
	var mu sync.Mutex
	for w := 0; w < n; w++ {
		g.wg.Add(1)
		go func(w int) {
			defer g.wg.Done()
			for r := 0; r < rounds; r++ {
				g.arrived.Add(1)
				want := int64(n * (r + 1))
				spin(func() bool { return g.arrived.Load() >= want })
				for i := jitter(w, r); i > 0; i-- {
					sink.Add(0)
				}
				func() {
					defer func() {
						if p := recover(); p != nil {
							mu.Lock()
							if perr == nil {
								perr = fmt.Errorf("panic: %v", p)
							}
							mu.Unlock()
						}
					}()
					g.work(w, r)
				}()
			}
		}(w)
	}
	g.wg.Wait()
	return perr
}

var sink atomic.Int64

func jit(seed int) func(w, r int) int {
	return func(w, r int) int {
		x := uint64(seed)*0x9e3779b97f4a7c15 + uint64(w)*0xbf58476d1ce4e5b9 + uint64(r)*0x94d049bb133111eb
		x ^= x >> 29
		x *= 0xbf58476d1ce4e5b9
		x ^= x >> 32
		if x%3 == 0 {
			return 0
		}
		return int(x>>8) % 60
	}
}

// ---- spec "serial": k commands at once are equivalent to one of their orders ----

type serial struct {
	Setup   []model.Op   `json:"setup"`
	Expired []model.Op   `json:"expired"` // written with a lifetime that is over when the commands start
	Par     [][]model.Op `json:"par"`
	Jitter  int          `json:"jitter"`
}

var concCmds = cachekit.Weights{{"Incr", 5}, {"IncrBy", 5}, {"Set", 3}, {"Get", 3}, {"SetNX", 4}, {"SetEX", 1}, {"PSetEX", 2}, {"PExpireAt", 3}, {"GetSet", 4}, {"StrLen", 2}, {"Append", 5}, {"SetRange", 5}, {"GetRange", 2}, {"Decr", 3}, {"DecrBy", 3}, {"IncrByFloat", 5}, {"MSet", 5}, {"MSetNX", 5}, {"MGet", 6}, {"Del", 5}, {"Exists", 4}, {"Type", 3}, {"Flush", 2},
	{"HSet", 6}, {"HSetNX", 5}, {"HMSet", 6}, {"HGet", 2}, {"HMGet", 5}, {"HExists", 3}, {"HDel", 6}, {"HLen", 4}, {"HStrLen", 2}, {"HKeys", 3}, {"HVals", 3}, {"HGetAll", 5}, {"HIncrBy", 6}, {"HIncrByFloat", 5}}

var readers = map[string]bool{"Get": true, "StrLen": true, "GetRange": true, "MGet": true, "Exists": true, "Type": true, "HGet": true, "HMGet": true, "HExists": true, "HLen": true, "HStrLen": true, "HKeys": true, "HVals": true, "HGetAll": true}

func smallVal(t *rapid.T) pbt.B {
	return rapid.SampledFrom([]pbt.B{"1", "7", "x", "abc", "1.5", "-3", "0010"}).Draw(t, "v")
}

// concOp draws a command with small arguments.
func concOp(t *rapid.T, ch *rapid.Generator[string], nk int) model.Op {
	o := cachekit.One(t, ch.Draw(t, "cmd"), nk)
	for i := range o.V {
		o.V[i] = smallVal(t)
	}
	switch o.C {
	case "IncrBy", "DecrBy", "HIncrBy":
		o.I = rapid.Int64Range(-5, 100).Draw(t, "i")
	case "IncrByFloat", "HIncrByFloat":
		o.X = pbt.F(float64(rapid.IntRange(-8, 8).Draw(t, "q")) / 4)
	case "SetEX", "PSetEX":
		o.I = 100000000
	case "PExpireAt":
		o.I = rapid.SampledFrom([]int64{100000000, -100000000}).Draw(t, "at")
	case "SetRange":
		o.I = rapid.Int64Range(0, 6).Draw(t, "off")
		if o.Val() == "" {
			o.V = []pbt.B{"z"}
		}
	case "GetRange":
		o.I, o.J = rapid.Int64Range(-5, 5).Draw(t, "s"), rapid.Int64Range(-5, 5).Draw(t, "e")
	case "HSet", "HSetNX", "HGet", "HExists", "HStrLen":
		o.F = []pbt.B{rapid.SampledFrom([]pbt.B{"f", "g", "h"}).Draw(t, "f")}
	case "HDel", "HMGet":
		if len(o.F) > 6 {
			o.F = o.F[:6]
		}
	case "MGet", "Exists":
		if len(o.K) > 8 {
			o.K = o.K[:8]
		}
	}
	if o.C == "HIncrBy" || o.C == "HIncrByFloat" {
		o.F = []pbt.B{rapid.SampledFrom([]pbt.B{"f", "g"}).Draw(t, "f")}
	}
	return o
}

func rename(o model.Op, suffix string) model.Op {
	n := o
	n.K = make([]pbt.B, len(o.K))
	for i, k := range o.K {
		n.K[i] = k + pbt.B(suffix)
	}
	return n
}

// orders calls f with every merge of the sequences.
func orders(par [][]model.Op, f func(seq [][2]int)) {
	total := 0
	for _, p := range par {
		total += len(p)
	}
	pos := make([]int, len(par))
	var seq [][2]int
	var rec func()
	rec = func() {
		if len(seq) == total {
			f(seq)
			return
		}
		for w := range par {
			if pos[w] < len(par[w]) {
				seq = append(seq, [2]int{w, pos[w]})
				pos[w]++
				rec()
				pos[w]--
				seq = seq[:len(seq)-1]
			}
		}
	}
	rec()
}

// errClass folds what the model leaves open: its error class "error" accepts any non-nil error.
func outcome(res [][]model.Res, dump []model.Res) string {
	var b strings.Builder
	for _, l := range res {
		for _, r := range l {
			e := r.E
			if e == model.EType {
				e = model.EOther
			}
			if e != "" {
				b.WriteString("!" + e)
			} else {
				b.WriteString(strconv.Quote(r.V))
			}
			b.WriteByte(' ')
		}
		b.WriteByte('|')
	}
	for _, r := range dump {
		b.WriteString(r.String())
		b.WriteByte(';')
	}
	return b.String()
}

var lastProbe = model.Op{C: "Type"}

func runSerial(c serial, r *pbt.Rec) error {
	now := time.Unix(1000, 0)
	start := now
	base := model.New(func() time.Time { return now })
	keys := map[string]bool{}
	flush, n, hasExp := false, 0, len(c.Expired) > 0
	all := append(append([]model.Op{}, c.Setup...), c.Expired...)
	for _, p := range c.Par {
		all = append(all, p...)
		n += len(p)
	}
	for _, o := range all {
		for _, k := range o.K {
			keys[string(k)] = true
		}
		flush = flush || o.C == "Flush"
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	dumpOf := func(apply func(model.Op) model.Res, suffix string) (l []model.Res) {
		for _, k := range ks {
			for _, o := range cachekit.DumpOps(k) {
				l = append(l, apply(rename(o, suffix)))
			}
		}
		return l
	}
	for _, o := range c.Setup {
		if !base.Unspecified(o) {
			base.Apply(o)
		}
	}
	for _, o := range c.Expired {
		base.Apply(o)
	}
	now = start.Add(50 * time.Millisecond)
	allowed := map[string]bool{}
	unspec := false
	orders(c.Par, func(seq [][2]int) {
		m := base.Clone()
		res := make([][]model.Res, len(c.Par))
		for _, s := range seq {
			o := c.Par[s[0]][s[1]]
			if m.Unspecified(o) {
				unspec = true
				return
			}
			res[s[0]] = append(res[s[0]], m.Apply(o))
		}
		allowed[outcome(res, dumpOf(m.Apply, ""))] = true
	})
	if unspec {
		return nil
	}
	r.NonTrivial(len(allowed) > 1)
	r.Label(hasExp, "starts with an expired key")
	r.Label(flush, "with Flush")
	rounds := 60
	if pbt.Thorough() {
		rounds = 300
	}
	if flush {
		rounds /= 3
	}
	caches := make([]*cache.Cache, rounds)
	suffix := make([]string, rounds)
	shared := cache.New()
	for i := range caches {
		caches[i] = shared
		suffix[i] = "#" + strconv.Itoa(i)
		if flush {
			caches[i], suffix[i] = cache.New(), ""
		}
		m := model.New(nil)
		for _, o := range c.Setup {
			if !m.Unspecified(o) {
				m.Apply(o)
				cachekit.Apply(caches[i], rename(o, suffix[i]))
			}
		}
	}
	if hasExp {
		for i := range caches {
			for _, o := range c.Expired {
				cachekit.Apply(caches[i], rename(o, suffix[i]))
			}
		}
		time.Sleep(2500 * time.Microsecond)
	}
	results := make([][][]model.Res, rounds)
	par := make([][][]model.Op, rounds)
	for i := range results {
		results[i] = make([][]model.Res, len(c.Par))
		par[i] = make([][]model.Op, len(c.Par))
		for w, p := range c.Par {
			results[i][w] = make([]model.Res, len(p))
			for _, o := range p {
				par[i][w] = append(par[i][w], rename(o, suffix[i]))
			}
		}
	}
	if err := run(len(c.Par), rounds, jit(c.Jitter), func(w, i int) {
		for j, o := range par[i][w] {
			results[i][w][j] = cachekit.Apply(caches[i], o)
		}
	}); err != nil {
		return fmt.Errorf("%v\n%s", err, showSerial(c))
	}
	for i := range results {
		got := outcome(results[i], dumpOf(func(o model.Op) model.Res { return cachekit.Apply(caches[i], o) }, suffix[i]))
		if !allowed[got] {
			var al []string
			for a := range allowed {
				al = append(al, a)
			}
			sort.Strings(al)
			return fmt.Errorf("no order of the commands explains round %d\n%s\nobserved: %s\nallowed:\n  %s", i, showSerial(c), got, strings.Join(al, "\n  "))
		}
	}
	return nil
}

func showSerial(c serial) string {
	s := "setup: " + cachekit.Show(c.Setup) + "\nexpired: " + cachekit.Show(c.Expired)
	for i, p := range c.Par {
		s += fmt.Sprintf("\nworker %d: %s", i, cachekit.Show(p))
	}
	return s
}

// ---- spec "lin": longer histories with real-time order, checked with porcupine ----

type linCase struct {
	Setup  []model.Op   `json:"setup"`
	Par    [][]model.Op `json:"par"`
	Jitter int          `json:"jitter"`
}

func runLin(c linCase, r *pbt.Rec) error {
	rounds := 6
	if pbt.Thorough() {
		rounds = 20
	}
	base := model.New(nil)
	for _, o := range c.Setup {
		if !base.Unspecified(o) {
			base.Apply(o)
		}
	}
	var open atomic.Bool // some order reaches a command that the property leaves unspecified
	pm := porcupine.Model{
		Init: func() interface{} { return base },
		Step: func(state, input, output interface{}) (bool, interface{}) {
			s := state.(*model.Store).Clone()
			o := input.(model.Op)
			if s.Unspecified(o) {
				open.Store(true)
				return true, s
			}
			want := s.Apply(o)
			return model.Match(want, output.(model.Res)), s
		},
		Equal: func(a, b interface{}) bool {
			return a.(*model.Store).Fingerprint() == b.(*model.Store).Fingerprint()
		},
	}
	n := 0
	for _, p := range c.Par {
		n += len(p)
	}
	r.NonTrivial(n >= 6)
	caches := make([]*cache.Cache, rounds)
	for i := range caches {
		caches[i] = cache.New()
		m := model.New(nil)
		for _, o := range c.Setup {
			if !m.Unspecified(o) {
				m.Apply(o)
				cachekit.Apply(caches[i], o)
			}
		}
	}
	type ev struct {
		call, ret int64
		res       model.Res
	}
	evs := make([][][]ev, rounds)
	for i := range evs {
		evs[i] = make([][]ev, len(c.Par))
		for w, p := range c.Par {
			evs[i][w] = make([]ev, len(p))
		}
	}
	var clock atomic.Int64
	if err := run(len(c.Par), rounds, jit(c.Jitter), func(w, i int) {
		for j, o := range c.Par[w] {
			e := &evs[i][w][j]
			e.call = clock.Add(1)
			e.res = cachekit.Apply(caches[i], o)
			e.ret = clock.Add(1)
		}
	}); err != nil {
		return err
	}
	for i := range evs {
		var ops []porcupine.Operation
		for w, p := range c.Par {
			for j, o := range p {
				e := evs[i][w][j]
				ops = append(ops, porcupine.Operation{ClientId: w, Input: o, Call: e.call, Output: e.res, Return: e.ret})
			}
		}
		switch porcupine.CheckOperationsTimeout(pm, ops, 20*time.Second) {
		case porcupine.Illegal:
			if open.Load() {
				return nil
			}
			s := "setup: " + cachekit.Show(c.Setup)
			for w, p := range c.Par {
				for j, o := range p {
					e := evs[i][w][j]
					s += fmt.Sprintf("\nworker %d [%d,%d] %s = %v", w, e.call, e.ret, cachekit.Show([]model.Op{o}), e.res)
				}
			}
			return fmt.Errorf("history is not linearizable\n%s", s)
		case porcupine.Unknown:
			return pbt.Inconclusive{Msg: "linearizability search ran out of time"}
		}
	}
	return nil
}

// ---- spec "conserve": many workers, quantities that must balance ----

type conserve struct {
	Kind    string `json:"kind"`
	Workers int    `json:"workers"`
	N       int    `json:"n"`
	Keys    int    `json:"keys"`
	Readers int    `json:"readers"`
}

var kinds = []string{"incr", "decrby", "float", "hincr", "hfloat", "append", "getset", "setnx", "hsetnx", "hset", "hdel", "mset", "hmset", "setrange", "msetnx", "mixcount", "del"}

func runConserve(c conserve, r *pbt.Rec) error {
	ca := cache.New()
	stop := make(chan struct{})
	var rg sync.WaitGroup
	key := func(i int) string { return "k" + strconv.Itoa(i%c.Keys) }
	var failMu sync.Mutex
	var fail error
	report := func(format string, a ...any) {
		failMu.Lock()
		if fail == nil {
			fail = fmt.Errorf(format, a...)
		}
		failMu.Unlock()
	}
	r.NonTrivial(c.Workers >= 2)
	r.Label(true, c.Kind)
	for i := 0; i < c.Readers; i++ {
		rg.Add(1)
		go func(i int) {
			defer rg.Done()
			for j := 0; ; j++ {
				select {
				case <-stop:
					return
				default:
				}
				k := key(j)
				switch (i + j) % 6 {
				case 0:
					_, _ = ca.Get(k)
				case 1:
					ca.Exists(k, k)
					ca.Type(k)
				case 2:
					_, _ = ca.HGetAll(k)
					_, _ = ca.HLen(k)
				case 3:
					_, _ = ca.StrLen(k)
					_, _ = ca.HExists(k, "f0")
				case 4:
					ca.MGet(k, "k0")
				case 5:
					_, _ = ca.HKeys(k)
					_, _ = ca.HMGet(k, "f0", "f1")
				}
				if j%64 == 0 {
					runtime.Gosched()
				}
			}
		}(i)
	}
	var wins atomic.Int64
	type tok struct{ m map[string]int }
	toks := make([]tok, c.Workers)
	for i := range toks {
		toks[i].m = map[string]int{}
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	for w := 0; w < c.Workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					report("panic: %v", p)
				}
			}()
			<-start
			for i := 0; i < c.N; i++ {
				k := key(i)
				var err error
				switch c.Kind {
				case "incr":
					_, err = ca.Incr(k)
				case "decrby":
					_, err = ca.DecrBy(k, -3)
				case "mixcount":
					if (w+i)%2 == 0 {
						_, err = ca.IncrBy(k, 2)
					} else {
						_, err = ca.Decr(k)
					}
				case "float":
					_, err = ca.IncrByFloat(k, 0.25)
				case "hincr":
					_, err = ca.HIncrBy(k, "f0", 1)
				case "hfloat":
					_, err = ca.HIncrByFloat(k, "f0", 0.5)
				case "append":
					_, err = ca.Append(k, fmt.Sprintf("<%d.%d>", w, i))
				case "setrange":
					_, err = ca.SetRange(k, 4*(w*c.N+i), "abcd")
				case "getset":
					var old string
					if old, err = ca.GetSet(k, fmt.Sprintf("%s:%d.%d", k, w, i)); err == nil {
						toks[w].m[old]++
					} else if err == cache.ErrKeyNil {
						wins.Add(1)
						err = nil
					}
				case "setnx":
					var n int
					n, err = ca.SetNX("nx"+strconv.Itoa(i), strconv.Itoa(w))
					wins.Add(int64(n))
				case "msetnx":
					n := ca.MSetNX(map[string]string{"nx" + strconv.Itoa(i): "a", "nx" + strconv.Itoa(i+c.N): "b"})
					wins.Add(int64(n))
				case "hsetnx":
					var n int
					n, err = ca.HSetNX(k, "f"+strconv.Itoa(i), strconv.Itoa(w))
					wins.Add(int64(n))
				case "hset":
					_, err = ca.HSet(k, fmt.Sprintf("f%d.%d", w, i), "v")
				case "hdel":
					f := "f" + strconv.Itoa(i%3)
					var n int
					if w%2 == 0 {
						n, err = ca.HSet(k, f, "v")
					} else {
						n, err = ca.HDel(k, f)
						n = -n
					}
					wins.Add(int64(n))
				case "del":
					if w%2 == 0 {
						var n int
						n, err = ca.SetNX(k, "v")
						wins.Add(int64(n))
					} else {
						wins.Add(int64(-ca.Del(k)))
					}
				case "mset":
					if w%2 == 0 {
						v := fmt.Sprintf("%d.%d", w, i)
						ca.MSet(map[string]string{"m0": v, "m1": v, "m2": v, "m3": v})
					} else {
						vs := ca.MGet("m0", "m1", "m2", "m3")
						for _, v := range vs {
							if v != vs[0] {
								report("MGet saw %v although every MSet writes four equal values", vs)
								return
							}
						}
						if n := ca.Exists("m0", "m1", "m2", "m3"); n != 0 && n != 4 {
							report("Exists saw %d of the four keys that MSet creates at once", n)
							return
						}
					}
				case "hmset":
					if w%2 == 0 {
						v := fmt.Sprintf("%d.%d", w, i)
						_, err = ca.HMSet("h", map[string]string{"a": v, "b": v, "c": v, "d": v})
					} else {
						m, e := ca.HGetAll("h")
						if err = e; err == nil {
							for _, f := range m {
								if f != m["a"] || len(m) != 4 {
									report("HGetAll saw %v although every HMSet writes four equal fields", m)
									return
								}
							}
						}
						vs, e := ca.HMGet("h", "a", "b", "c", "d")
						if e == nil {
							for _, v := range vs {
								if v != vs[0] {
									report("HMGet saw %v although every HMSet writes four equal fields", vs)
									return
								}
							}
						}
						if n, _ := ca.HLen("h"); n != 0 && n != 4 {
							report("HLen saw %d of the four fields that HMSet creates at once", n)
							return
						}
					}
				}
				if err != nil {
					report("%s: unexpected error %v", c.Kind, err)
					return
				}
			}
		}(w)
	}
	close(start)
	wg.Wait()
	close(stop)
	rg.Wait()
	if fail != nil {
		return fail
	}
	// the balance
	per := func(k int) int { // calls that hit key k
		n := 0
		for i := 0; i < c.N; i++ {
			if i%c.Keys == k {
				n++
			}
		}
		return n * c.Workers
	}
	num := func(f float64) string { return model.FmtFloat(f) }
	for k := 0; k < c.Keys; k++ {
		name := "k" + strconv.Itoa(k)
		n := per(k)
		var want, got string
		switch c.Kind {
		case "incr":
			want = strconv.Itoa(n)
			got, _ = ca.Get(name)
		case "decrby":
			want = strconv.Itoa(3 * n)
			got, _ = ca.Get(name)
		case "mixcount":
			s := 0
			for w := 0; w < c.Workers; w++ {
				for i := 0; i < c.N; i++ {
					if i%c.Keys == k {
						if (w+i)%2 == 0 {
							s += 2
						} else {
							s--
						}
					}
				}
			}
			want = strconv.Itoa(s)
			got, _ = ca.Get(name)
		case "float":
			want = num(0.25 * float64(n))
			got, _ = ca.Get(name)
		case "hincr":
			want = strconv.Itoa(n)
			got, _ = ca.HGet(name, "f0")
		case "hfloat":
			want = num(0.5 * float64(n))
			got, _ = ca.HGet(name, "f0")
		case "append":
			v, _ := ca.Get(name)
			parts := strings.Split(strings.TrimSuffix(strings.TrimPrefix(v, "<"), ">"), "><")
			seen := map[string]bool{}
			for _, p := range parts {
				seen[p] = true
			}
			want = strconv.Itoa(n) + " distinct tokens"
			got = strconv.Itoa(len(seen)) + " distinct tokens"
			if len(parts) != len(seen) {
				got += ", some repeated"
			}
		case "setrange":
			v, _ := ca.Get(name)
			want = strconv.Itoa(n) + " pieces"
			got = strconv.Itoa(strings.Count(v, "abcd")) + " pieces"
		case "getset":
			seen := map[string]int{}
			for _, t := range toks {
				for v, x := range t.m {
					if strings.HasPrefix(v, name+":") {
						seen[v] += x
					}
				}
			}
			last, _ := ca.Get(name)
			seen[last]++
			total := 0
			for _, x := range seen {
				total += x
			}
			want = fmt.Sprintf("each of %d values once", n)
			got = want
			if len(seen) != n || total != n {
				got = fmt.Sprintf("%d values seen %d times", len(seen), total)
			}
		case "hset":
			want = fmt.Sprint(n, n)
			l, _ := ca.HLen(name)
			m, _ := ca.HGetAll(name)
			got = fmt.Sprint(l, len(m))
		}
		if want != got {
			return fmt.Errorf("%s by %d workers on key %s: %s, want %s", c.Kind, c.Workers, name, pbt.Short(got), want)
		}
	}
	switch c.Kind {
	case "setnx":
		if int(wins.Load()) != c.N {
			return fmt.Errorf("SetNX of %d keys by %d workers succeeded %d times", c.N, c.Workers, wins.Load())
		}
	case "msetnx":
		if int(wins.Load()) != 2*c.N {
			return fmt.Errorf("MSetNX of %d keys by %d workers created %d", 2*c.N, c.Workers, wins.Load())
		}
	case "hsetnx":
		if int(wins.Load()) != c.N {
			return fmt.Errorf("HSetNX of %d fields by %d workers succeeded %d times", c.N, c.Workers, wins.Load())
		}
		total := 0
		for k := 0; k < c.Keys; k++ {
			l, _ := ca.HLen("k" + strconv.Itoa(k))
			total += l
		}
		if total != c.N {
			return fmt.Errorf("HLen adds up to %d after %d fields were created", total, c.N)
		}
	case "hdel":
		total, seen := 0, 0
		for k := 0; k < c.Keys; k++ {
			l, _ := ca.HLen("k" + strconv.Itoa(k))
			m, _ := ca.HGetAll("k" + strconv.Itoa(k))
			total += l
			seen += len(m)
		}
		if total != int(wins.Load()) || seen != total {
			return fmt.Errorf("fields created minus deleted = %d, HLen %d, HGetAll %d", wins.Load(), total, seen)
		}
	case "del":
		total := 0
		for k := 0; k < c.Keys; k++ {
			total += ca.Exists("k" + strconv.Itoa(k))
		}
		if total != int(wins.Load()) {
			return fmt.Errorf("keys created minus deleted = %d, %d exist", wins.Load(), total)
		}
	case "getset":
		n := c.Keys
		if c.N < n {
			n = c.N
		}
		if int(wins.Load()) != n {
			return fmt.Errorf("GetSet found a missing key %d times for %d keys", wins.Load(), n)
		}
	}
	return nil
}

func TestC06(t *testing.T) {
	ch := cachekit.Chooser(concCmds)
	var wr cachekit.Weights
	for _, x := range concCmds {
		if !readers[x.C] && x.C != "Flush" {
			wr = append(wr, x)
		}
	}
	wch := cachekit.Chooser(wr)
	setup := cachekit.Chooser(cachekit.Weights{{"Set", 3}, {"HSet", 3}, {"HMSet", 3}, {"PSetEX", 1}, {"Incr", 1}, {"MSet", 1}, {"IncrByFloat", 1}})
	genOps := func(t *rapid.T, ch *rapid.Generator[string], nk, lo, hi int, name string) []model.Op {
		return rapid.SliceOfN(rapid.Custom(func(t *rapid.T) model.Op { return concOp(t, ch, nk) }), lo, hi).Draw(t, name)
	}
	pbt.Check(t, pbt.Spec[serial]{
		ID: "C06", Name: "serial", Quick: 14000, Thorough: 150000, Concurrent: true, Retries: 100, Timeout: 120 * time.Second,
		Rule: "2-3 workers leave a barrier together, each with 1-2 commands on shared keys (some expired), many rounds; every reply and the final state must equal one of the merged orders; non-trivial: the orders differ in outcome",
		Gen: func(t *rapid.T) serial {
			var c serial
			nk := rapid.IntRange(1, 2).Draw(t, "nk")
			c.Setup = genOps(t, setup, nk, 0, 2, "setup")
			if rapid.IntRange(0, 3).Draw(t, "exp") == 3 {
				for _, k := range []pbt.B{"k", "a"}[:nk] {
					c.Expired = append(c.Expired, model.Op{C: "PSetEX", K: []pbt.B{k}, V: []pbt.B{smallVal(t)}, I: 1})
				}
			}
			c.Par = append(c.Par, genOps(t, wch, nk, 1, 2, "w0"), genOps(t, ch, nk, 1, 2, "w1"))
			if rapid.IntRange(0, 2).Draw(t, "three") == 2 {
				c.Par = append(c.Par, genOps(t, ch, nk, 1, 2, "w2"))
			}
			c.Jitter = rapid.IntRange(0, 1000).Draw(t, "jitter")
			return c
		},
		Run: runSerial,
	})
	pbt.Check(t, pbt.Spec[linCase]{
		ID: "C06", Name: "lin", Quick: 6000, Thorough: 80000, Concurrent: true, Retries: 200, Timeout: 300 * time.Second,
		Rule: "3-4 workers with 2-5 commands each on 2 keys, invocation and response order recorded, linearizability of each round decided by porcupine against the cache model; non-trivial: at least 6 commands",
		Gen: func(t *rapid.T) linCase {
			var c linCase
			c.Setup = genOps(t, setup, 2, 0, 2, "setup")
			for w := rapid.IntRange(3, 4).Draw(t, "w"); w > 0; w-- {
				c.Par = append(c.Par, genOps(t, ch, 2, 2, 5, "ops"))
			}
			c.Jitter = rapid.IntRange(0, 1000).Draw(t, "jitter")
			return c
		},
		Run: runLin,
	})
	pbt.Check(t, pbt.Spec[conserve]{
		ID: "C06", Name: "conserve", Quick: 1500, Thorough: 20000, Concurrent: true, Retries: 50, Timeout: 120 * time.Second,
		Rule: "2-8 workers repeat one kind of command on 1-3 shared keys next to readers; what was added, created, removed or handed over must balance at the end; non-trivial: every case",
		Gen: func(t *rapid.T) conserve {
			return conserve{Kind: rapid.SampledFrom(kinds).Draw(t, "kind"), Workers: rapid.IntRange(2, 8).Draw(t, "workers"),
				N: rapid.IntRange(20, 400).Draw(t, "n"), Keys: rapid.IntRange(1, 3).Draw(t, "keys"), Readers: rapid.IntRange(0, 3).Draw(t, "readers")}
		},
		Run: runConserve,
	})
	pbt.Check(t, pbt.Spec[cachekit.SweepCase]{
		ID: "C06", Name: "sweep", Quick: 8, Thorough: 200, Concurrent: true, Retries: 10, Timeout: 120 * time.Second,
		Rule: "the background sweep runs while workers rewrite expired keys and others issue every kind of command and Flush another cache; nothing rewritten may disappear and no data race may occur; non-trivial: every case",
		Gen:  cachekit.GenSweep,
		Run:  cachekit.RunSweep,
	})
}
