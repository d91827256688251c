package wireprops

import (
	"errors"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/liujiangwei/xxcache/redis"
	"pgregory.net/rapid"

	"verif/harness/cachekit"
	"verif/harness/model"
	"verif/harness/pbt"
	"verif/harness/refredis"
	"verif/harness/resp"
	"verif/harness/srv"
)

// call is one client method with its arguments; result is what it returned.
type result struct {
	v   string // canonical value
	err error
}

func (r result) String() string {
	if r.err != nil {
		return fmt.Sprintf("error %q", r.err)
	}
	return pbt.Short(r.v)
}

var methods = cachekit.Weights{{"Set", 3}, {"Get", 3}, {"SetNX", 2}, {"SetEX", 2}, {"PSetEX", 2}, {"GetSet", 2}, {"StrLen", 2}, {"Append", 2}, {"SetRange", 2}, {"GetRange", 2}, {"Incr", 2}, {"IncrBy", 3}, {"Decr", 2}, {"DecrBy", 3}, {"IncrByFloat", 3}, {"MSet", 2}, {"MSetNX", 2}, {"MGet", 3}, {"Select", 1}}

func genCall(t *rapid.T, ch *rapid.Generator[string]) model.Op {
	c := ch.Draw(t, "method")
	if c == "Select" {
		return model.Op{C: c, I: int64(rapid.IntRange(0, 20).Draw(t, "db"))}
	}
	o := cachekit.One(t, c, 4)
	if rapid.IntRange(0, 9).Draw(t, "bigarg") == 9 {
		for i := range o.V {
			o.V[i] = bulkText(t)
		}
	}
	if (c == "MSet" || c == "MSetNX" || c == "MGet") && rapid.IntRange(0, 9).Draw(t, "many") == 9 {
		o.K, o.V = nil, nil
		for n := pbt.Len(t, 600); n > 0; n-- {
			o.K = append(o.K, pbt.B("k"+strconv.Itoa(n)))
			if c != "MGet" {
				o.V = append(o.V, pbt.B(strconv.Itoa(-n)))
			}
		}
	}
	if c == "IncrByFloat" && (math.IsInf(float64(o.X), 0) || math.IsNaN(float64(o.X))) {
		o.X = 0.5
	}
	return o
}

// kept is a string that a call returned, and what it was then.
type kept struct{ val, was string }

// do runs a call; keep gets the strings it returns.
func do(c *redis.Redis, o model.Op, keep func(string)) result {
	s := func(v string, err error) result { keep(v); return result{"s" + v, err} }
	n := func(v int, err error) result { return result{"i" + strconv.Itoa(v), err} }
	k, v := o.Key(), o.Val()
	switch o.C {
	case "Set":
		return s(c.Set(k, v))
	case "Get":
		return s(c.Get(k))
	case "SetNX":
		return s(c.SetNX(k, v))
	case "SetEX":
		return s(c.SetEX(k, v, uint64(o.I)))
	case "PSetEX":
		return s(c.PSetEX(k, v, uint64(o.I)))
	case "GetSet":
		return s(c.GetSet(k, v))
	case "StrLen":
		return n(c.StrLen(k))
	case "Append":
		return n(c.Append(k, v))
	case "SetRange":
		return n(c.SetRange(k, int(o.I), v))
	case "GetRange":
		return s(c.GetRange(k, int(o.I), int(o.J)))
	case "Incr":
		return n(c.Incr(k))
	case "Decr":
		return n(c.Decr(k))
	case "IncrBy":
		return n(c.IncrBy(k, int(o.I)))
	case "DecrBy":
		return n(c.DecrBy(k, int(o.I)))
	case "IncrByFloat":
		f, err := c.IncrByFloat(k, float64(o.X))
		return result{"f" + strconv.FormatFloat(f, 'g', -1, 64), err}
	case "MSet":
		kv := model.Pairs(o.K, o.V)
		defer clobber(kv)
		return altered(s(c.MSet(kv)), fmt.Sprint(kv) != fmt.Sprint(model.Pairs(o.K, o.V)))
	case "MSetNX":
		kv := model.Pairs(o.K, o.V)
		defer clobber(kv)
		return altered(n(c.MSetNX(kv)), fmt.Sprint(kv) != fmt.Sprint(model.Pairs(o.K, o.V)))
	case "MGet":
		keys := pbt.Strs(o.K)
		l, err := c.MGet(keys...)
		if fmt.Sprint(keys) != fmt.Sprint(pbt.Strs(o.K)) {
			return altered(result{}, true)
		}
		var p []string
		for _, x := range l {
			switch y := x.(type) {
			case error:
				p = append(p, "!")
			case string:
				keep(y)
				p = append(p, "s"+y)
			default:
				p = append(p, fmt.Sprintf("?%T", x))
			}
		}
		return result{model.RSlots(p).V, err}
	case "Select":
		return s(c.Select(int(o.I)))
	}
	panic(o.C)
}

// altered is the result of a call that changed what it was given.
func altered(r result, yes bool) result {
	if yes {
		return result{"?", errors.New("the call altered its arguments")}
	}
	return r
}

// clobber is what a caller may do with its map afterwards.
func clobber(kv map[string]string) {
	for k := range kv {
		kv[k] = "\x00not yours"
	}
}

// want is the request a call must produce.
func wantArgs(o model.Op) []string {
	i := strconv.FormatInt(o.I, 10)
	k, v := o.Key(), o.Val()
	switch o.C {
	case "Set", "SetNX", "GetSet", "Append":
		return []string{o.C, k, v}
	case "Get", "StrLen", "Incr", "Decr":
		return []string{o.C, k}
	case "SetEX", "PSetEX":
		return []string{o.C, k, strconv.FormatUint(uint64(o.I), 10), v}
	case "SetRange":
		return []string{o.C, k, i, v}
	case "GetRange":
		return []string{o.C, k, i, strconv.FormatInt(o.J, 10)}
	case "IncrBy", "DecrBy":
		return []string{o.C, k, i}
	case "IncrByFloat":
		return []string{o.C, k, "<float>"}
	case "MSet", "MSetNX":
		a := []string{o.C}
		for j := range o.K {
			a = append(a, string(o.K[j]), string(o.V[j]))
		}
		return a
	case "MGet":
		return append([]string{o.C}, pbt.Strs(o.K)...)
	case "Select":
		return []string{o.C, i}
	}
	panic(o.C)
}

func sameRequest(o model.Op, got []string) error {
	want := wantArgs(o)
	bad := fmt.Errorf("%s sent %q, want %q", cachekit.Show([]model.Op{o}), got, want)
	if len(got) != len(want) || !strings.EqualFold(got[0], want[0]) {
		return bad
	}
	switch o.C {
	case "MSet", "MSetNX":
		pairs := func(a []string) (l []string) {
			for i := 1; i+1 < len(a); i += 2 {
				l = append(l, strconv.Quote(a[i])+strconv.Quote(a[i+1]))
			}
			sort.Strings(l)
			return l
		}
		if strings.Join(pairs(got), " ") != strings.Join(pairs(want), " ") {
			return bad
		}
		return nil
	case "IncrByFloat":
		f, err := strconv.ParseFloat(got[2], 64)
		if got[1] != want[1] || err != nil || f != float64(o.X) || !decimalText(got[2]) {
			return fmt.Errorf("%s sent %q", cachekit.Show([]model.Op{o}), got)
		}
		return nil
	}
	for i := range want[1:] {
		if got[i+1] != want[i+1] {
			return bad
		}
	}
	return nil
}

func decimalText(s string) bool {
	return strings.Trim(s, "0123456789.-+eE") == "" && s != ""
}

// judgeReply compares what the method returned with the server's reply.
func judgeReply(o model.Op, rep resp.Msg, got result) error {
	bad := func(want string) error {
		return fmt.Errorf("%s, answered %v, returned %v, want %s", cachekit.Show([]model.Op{o}), rep, got, want)
	}
	if rep.K == "-" {
		if got.err == nil || !strings.Contains(got.err.Error(), string(rep.S)) {
			return bad("an error with the server's text")
		}
		return nil
	}
	if rep.K == "_" {
		if got.err == nil {
			return bad("an error for the nil reply")
		}
		return nil
	}
	value := func(v string) error {
		if got.err != nil || got.v != v {
			return bad(pbt.Short(v))
		}
		return nil
	}
	mustErr := func() error {
		if got.err == nil {
			return bad("an error: this command cannot have a reply of this kind")
		}
		return nil
	}
	lenient := func(v string) error {
		if got.err == nil && got.v != v {
			return bad(pbt.Short(v) + " or an error")
		}
		return nil
	}
	switch o.C {
	case "Set", "SetEX", "PSetEX", "MSet", "Select":
		if rep.K == "+" {
			if rep.S == "OK" {
				return value("sOK")
			}
			return lenient("s" + string(rep.S))
		}
		return mustErr()
	case "SetNX":
		if rep.K == ":" {
			return value("s" + strconv.FormatInt(rep.N, 10))
		}
		return mustErr()
	case "Get", "GetSet", "GetRange":
		switch rep.K {
		case "$":
			return value("s" + string(rep.S))
		case "+":
			return lenient("s" + string(rep.S))
		}
		return mustErr()
	case "StrLen", "Append", "SetRange", "Incr", "Decr", "IncrBy", "DecrBy", "MSetNX":
		if rep.K == ":" {
			return value("i" + strconv.FormatInt(rep.N, 10))
		}
		return mustErr()
	case "IncrByFloat":
		switch rep.K {
		case "$", "+", ":":
			s := string(rep.S)
			if rep.K == ":" {
				s = strconv.FormatInt(rep.N, 10)
			}
			f, err := strconv.ParseFloat(s, 64)
			if err != nil {
				return mustErr()
			}
			v := "f" + strconv.FormatFloat(f, 'g', -1, 64)
			if rep.K == "$" && decimalText(s) {
				return value(v)
			}
			return lenient(v)
		}
		return mustErr()
	case "MGet":
		if rep.K != "*" {
			return mustErr()
		}
		var p []string
		odd := false
		for _, x := range rep.A {
			switch x.K {
			case "$":
				p = append(p, "s"+string(x.S))
			case "+":
				p = append(p, "s"+string(x.S))
				odd = true
			case "_", "-":
				p = append(p, "!")
			default:
				p = append(p, "?")
				odd = true
			}
		}
		if odd {
			return nil
		}
		return value(model.RSlots(p).V)
	}
	return nil
}

// genReply draws a reply: mostly of a kind the command can have.
func genReply(t *rapid.T, o model.Op) resp.Msg {
	switch rapid.IntRange(0, 9).Draw(t, "reply") {
	case 0:
		return resp.Msg{K: "-", S: lineText(t)}
	case 1:
		return resp.Nil()
	case 2, 3:
		return anyMsg(t, 1)
	}
	switch o.C {
	case "Set", "SetEX", "PSetEX", "MSet", "Select":
		return resp.Simple("OK")
	case "SetNX", "MSetNX":
		return resp.Int(rapid.Int64Range(0, 1).Draw(t, "n"))
	case "Get", "GetSet", "GetRange":
		return resp.Msg{K: "$", S: bulkText(t)}
	case "IncrByFloat":
		return resp.Bulk(cachekit.FloatText(t))
	case "MGet":
		m := resp.Arr()
		for n := rapid.IntRange(0, 5).Draw(t, "n"); n > 0; n-- {
			switch rapid.IntRange(0, 4).Draw(t, "slot") {
			case 0:
				m.A = append(m.A, resp.Nil())
			case 1:
				m.A = append(m.A, resp.Msg{K: "-", S: lineText(t)})
			default:
				m.A = append(m.A, resp.Msg{K: "$", S: bulkText(t)})
			}
		}
		return m
	}
	return resp.Int(anyInt(t))
}

// sanitise drops what would make one server answer look like another request's.
type callCase struct {
	Ops     []model.Op `json:"ops"`
	Replies []resp.Msg `json:"replies"`
	Cuts    []int      `json:"cuts"`
	Pool    int        `json:"pool"`
}

func TestC10(t *testing.T) {
	ch := cachekit.Chooser(methods)
	run := func(c callCase, exec func([]string, int) resp.Msg, check func(i int, o model.Op, rep resp.Msg, got result) error) error {
		var mu sync.Mutex
		var reqs [][]string
		var reps []resp.Msg
		s, err := srv.Listen(func(cc *srv.Conn) {
			cc.Cuts = c.Cuts
			for {
				args, err := cc.Request()
				if err != nil {
					if err.Error() != "EOF" {
						mu.Lock()
						reqs = append(reqs, []string{"<broken request: " + err.Error() + ">"})
						mu.Unlock()
					}
					return
				}
				mu.Lock()
				rep := exec(args, len(reqs))
				reqs, reps = append(reqs, args), append(reps, rep)
				mu.Unlock()
				if cc.Send(rep) != nil {
					return
				}
			}
		})
		if err != nil {
			return err
		}
		defer s.Close()
		client := redis.NewClient(redis.Option{Addr: s.Addr, PoolSize: c.Pool})
		var results []kept
		for i, o := range c.Ops {
			got := do(client, o, func(s string) { results = append(results, kept{s, strings.Clone(s)}) })
			mu.Lock()
			n := len(reqs)
			var req []string
			var rep resp.Msg
			if n == i+1 {
				req, rep = reqs[i], resp.Msg{}
				if len(reps) == n {
					rep = reps[i]
				}
			}
			mu.Unlock()
			if n != i+1 {
				return fmt.Errorf("after call %d (%s, which returned %v) the server has seen %d requests", i, cachekit.Show([]model.Op{o}), got, n)
			}
			if err := sameRequest(o, req); err != nil {
				return fmt.Errorf("call %d: %v", i, err)
			}
			if err := check(i, o, rep, got); err != nil {
				return fmt.Errorf("call %d: %v", i, err)
			}
		}
		for _, k := range results {
			if k.val != k.was {
				return fmt.Errorf("a result %s has become %s after later calls", pbt.Short(k.was), pbt.Short(k.val))
			}
		}
		return nil
	}
	gen := func(withReplies bool) func(t *rapid.T) callCase {
		return func(t *rapid.T) callCase {
			var c callCase
			n := rapid.IntRange(1, 12).Draw(t, "n")
			if rapid.IntRange(0, 19).Draw(t, "long") == 19 {
				n = rapid.IntRange(13, 120).Draw(t, "n")
			}
			for ; n > 0; n-- {
				o := genCall(t, ch)
				c.Ops = append(c.Ops, o)
				if withReplies {
					c.Replies = append(c.Replies, genReply(t, o))
				}
			}
			if rapid.IntRange(0, 4).Draw(t, "rename") == 4 {
				cachekit.Rename(t, c.Ops)
			}
			c.Cuts = cutGen(t)
			c.Pool = rapid.SampledFrom([]int{0, 1, 2, 5}).Draw(t, "pool")
			return c
		}
	}
	pbt.Check(t, pbt.Spec[callCase]{
		ID: "C10", Name: "history", Quick: 12000, Thorough: 600000, Timeout: 60 * time.Second,
		Rule: "1-12 (some 120) client calls against a reference Redis server on the loopback; each request must be the call's command and each result what executing that command on a twin store gives; the stores must end equal; non-trivial: at least 3 calls and a non-empty store",
		Gen:  gen(false),
		Run: func(c callCase, r *pbt.Rec) error {
			server, twin := refredis.New(), refredis.New()
			err := run(c, func(a []string, i int) resp.Msg { return server.Exec(a) }, func(i int, o model.Op, rep resp.Msg, got result) error {
				a := wantArgs(o)
				if o.C == "IncrByFloat" {
					a[2] = model.FmtFloat(float64(o.X))
				}
				return judgeReply(o, twin.Exec(a), got)
			})
			if err != nil {
				return err
			}
			if !server.Equal(twin) {
				return fmt.Errorf("after %s the server holds %v, the same commands run directly give %v", cachekit.Show(c.Ops), server, twin)
			}
			r.NonTrivial(len(c.Ops) >= 3 && len(server.M) > 0)
			return nil
		},
	})
	pbt.Check(t, pbt.Spec[callCase]{
		ID: "C10", Name: "replies", Quick: 16000, Thorough: 800000, Timeout: 60 * time.Second,
		Rule: "1-12 (some 120) client calls answered by generated replies of fitting and unfitting kinds; non-trivial: at least one reply is an error, nil or of a kind the command cannot have, and another call follows it",
		Gen:  gen(true),
		Run: func(c callCase, r *pbt.Rec) error {
			for i := range c.Ops {
				k := c.Replies[i].K
				r.NonTrivial(i+1 < len(c.Ops) && (k == "-" || k == "_" || k == "*" || k == "+"))
			}
			return run(c, func(a []string, i int) resp.Msg {
				if i < len(c.Replies) {
					return c.Replies[i]
				}
				return resp.Err("ERR unexpected request")
			}, judgeReply2)
		},
	})
}

func judgeReply2(i int, o model.Op, rep resp.Msg, got result) error { return judgeReply(o, rep, got) }
