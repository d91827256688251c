package cacheprops

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/liujiangwei/xxcache/cache"
	"github.com/liujiangwei/xxcache/redis"
	"pgregory.net/rapid"

	"verif/harness/cachekit"
	"verif/harness/model"
	"verif/harness/pbt"
)

// marg is one element of a replicated message.
type marg struct {
	T string `json:"t,omitempty"` // "": bulk string, s simple, i integer, e error, n nil, z no message at all, a array, at: bulk holding now+I milliseconds
	S pbt.B  `json:"s,omitempty"`
	I int64  `json:"i,omitempty"`
	A []marg `json:"a,omitempty"`
}

// mstep is a replicated message, or an ordinary command of the cache.
type mstep struct {
	Op  *model.Op `json:"op,omitempty"`
	Msg *marg     `json:"msg,omitempty"`
}

type mcase struct {
	Steps []mstep `json:"steps"`
}

func (a marg) message() redis.Message {
	switch a.T {
	case "s":
		return redis.SimpleStringMessage(string(a.S))
	case "i":
		return redis.IntMessage(a.I)
	case "e":
		return redis.ErrorMessage(string(a.S))
	case "n":
		return redis.NilMessage{}
	case "z":
		return nil
	case "a":
		l := redis.ArrayMessage{}
		for _, x := range a.A {
			l = append(l, x.message())
		}
		return l
	case "at":
		return redis.NewBulkStringMessage(strconv.FormatInt(time.Now().UnixMilli()+a.I, 10))
	}
	return redis.NewBulkStringMessage(string(a.S))
}

func (a marg) show() string {
	switch a.T {
	case "":
		return pbt.Short(string(a.S))
	case "a":
		var p []string
		for _, x := range a.A {
			p = append(p, x.show())
		}
		return "[" + strings.Join(p, " ") + "]"
	case "at":
		return fmt.Sprintf("<now%+dms>", a.I)
	case "i":
		return fmt.Sprintf("int(%d)", a.I)
	case "n":
		return "nil"
	case "z":
		return "<none>"
	}
	return a.T + "(" + pbt.Short(string(a.S)) + ")"
}

func (c mcase) show() string {
	var p []string
	for _, s := range c.Steps {
		if s.Op != nil {
			p = append(p, cachekit.Show([]model.Op{*s.Op}))
		} else {
			p = append(p, s.Msg.show())
		}
	}
	return strings.Join(p, "; ")
}

// verdict of the model on a message.
type verdict struct {
	must  bool // it has to be applied
	may   bool // it may be applied or rejected
	free  bool // when accepted, its effect is not known here: the case ends
	exist string
	apply func(m *model.Store)
}

func strictInt(s string) (int64, bool) { return model.CanonInt(s) }
func looseInt(s string) bool           { _, err := strconv.ParseInt(s, 10, 64); return err == nil }

// args gives the texts of the arguments; plain tells whether all are bulk strings, junk whether one has no text.
func (a marg) args() (l []string, plain, junk bool) {
	plain = true
	for _, x := range a.A {
		switch x.T {
		case "":
			l = append(l, string(x.S))
		case "at":
			l = append(l, strconv.FormatInt(time.Now().UnixMilli()+x.I, 10))
		case "s", "e":
			plain = false
			l = append(l, string(x.S))
		case "i":
			plain = false
			l = append(l, strconv.FormatInt(x.I, 10))
		default:
			return nil, false, true
		}
	}
	return l, plain, false
}

var noEffect = map[string]bool{"ping": true, "select": true, "replconf": true, "multi": true, "exec": true, "publish": true, "script": true, "eval": true}

func judge(a marg, m *model.Store) (v verdict) {
	if a.T != "a" || len(a.A) == 0 {
		return
	}
	l, plain, junk := a.args()
	if junk {
		return
	}
	v = judgeArgs(l, m)
	if !plain && v.must {
		v.must, v.may = false, true
	}
	return v
}

func judgeArgs(l []string, m *model.Store) (v verdict) {
	n := len(l)
	far := func() time.Time { return m.Now().Add(math.MaxInt64) }
	switch strings.ToLower(l[0]) {
	case "set":
		if n < 3 {
			return
		}
		if n == 3 {
			return verdict{must: true, apply: func(m *model.Store) { m.M[l[1]] = &model.Ent{S: l[2]} }}
		}
		opt := strings.ToLower(l[3])
		if n == 5 && (opt == "ex" || opt == "px") {
			unit := time.Second
			if opt == "px" {
				unit = time.Millisecond
			}
			t, ok := strictInt(l[4])
			if !ok {
				if looseInt(l[4]) {
					return verdict{may: true, free: true}
				}
				return
			}
			if t <= 0 {
				return
			}
			d := far()
			big := t > math.MaxInt64/int64(unit)
			if !big {
				d = m.Now().Add(time.Duration(t) * unit)
			}
			// Redis refuses lifetimes whose deadline does not fit
			big = big || t > 1e15
			return verdict{must: !big, may: big, apply: func(m *model.Store) { m.M[l[1]] = &model.Ent{S: l[2], Deadline: d} }}
		}
		for i := 3; i < n; i++ {
			switch o := strings.ToLower(l[i]); o {
			case "nx", "xx", "get", "keepttl", "ex", "px", "exat", "pxat":
			default:
				if i == 3 {
					return // no such option
				}
			}
		}
		if n == 4 && (opt == "ex" || opt == "px" || opt == "exat" || opt == "pxat") {
			return
		}
		return verdict{may: true, free: true}
	case "hmset":
		if n < 4 || n%2 != 0 {
			return
		}
		e := m.Peek(l[1])
		if e != nil && !e.Hash {
			return
		}
		return verdict{must: true, apply: func(m *model.Store) {
			if e == nil {
				e = &model.Ent{Hash: true, H: map[string]string{}}
				m.M[l[1]] = e
			}
			for i := 2; i < n; i += 2 {
				e.H[l[i]] = l[i+1]
			}
		}}
	case "del":
		if n < 2 {
			return
		}
		return verdict{must: true, apply: func(m *model.Store) {
			for _, k := range l[1:] {
				delete(m.M, k)
			}
		}}
	case "pexpireat":
		if n < 3 {
			return
		}
		ms, ok := strictInt(l[2])
		if !ok {
			if looseInt(l[2]) {
				return verdict{may: true, free: true}
			}
			return
		}
		if n > 3 {
			return verdict{may: true, free: true}
		}
		apply := func(m *model.Store) {
			e := m.Peek(l[1])
			if e == nil {
				return
			}
			switch now := m.Now().UnixMilli(); {
			case ms <= now:
				delete(m.M, l[1])
			case ms > now+1e14:
				e.Deadline = far()
			default:
				e.Deadline = time.UnixMilli(ms)
			}
		}
		return verdict{must: true, apply: apply}
	case "rpush", "lpush", "sadd":
		if n < 3 {
			return
		}
		if e := m.Peek(l[1]); e != nil {
			return // the key holds another kind of value
		}
		return verdict{may: true, free: true, exist: l[1]}
	case "zadd":
		if n < 4 || m.Peek(l[1]) != nil {
			return
		}
		return verdict{may: true, free: true, exist: l[1]}
	case "hset", "setnx", "setex", "psetex", "mset", "append", "incr", "decr", "incrby", "hdel", "expire", "pexpire", "expireat", "persist", "flushall", "flushdb", "getset", "unlink", "hincrby", "rename", "msetnx", "decrby", "incrbyfloat", "setrange", "lpushx", "srem", "zrem", "ltrim", "lpop":
		return verdict{may: true, free: true}
	}
	if noEffect[strings.ToLower(l[0])] {
		return verdict{may: true, apply: func(*model.Store) {}}
	}
	return // not a command
}

func anyCase(t *rapid.T, s string) string {
	switch rapid.IntRange(0, 3).Draw(t, "case") {
	case 0:
		return strings.ToLower(s)
	case 1:
		return strings.ToUpper(s)
	}
	b := []byte(s)
	m := rapid.Uint32().Draw(t, "mask")
	for i := range b {
		if m>>(i%32)&1 == 1 {
			b[i] ^= 0x20
		}
	}
	return string(b)
}

func word(s string) marg { return marg{S: pbt.B(s)} }

func genMsg(t *rapid.T) marg {
	var l []marg
	key := func() {
		if rapid.IntRange(0, 24).Draw(t, "litkey") == 24 {
			l = append(l, marg{S: pbt.DictText(t)})
			return
		}
		l = append(l, marg{S: cachekit.KeyN(4).Draw(t, "key")})
	}
	val := func() { l = append(l, marg{S: cachekit.Val(t)}) }
	cmd := func(s string) { l = append(l, word(anyCase(t, s))) }
	switch k := rapid.IntRange(0, 15).Draw(t, "cmd"); k {
	case 0, 1, 2:
		cmd("set")
		key()
		val()
	case 3, 4, 5:
		cmd("set")
		key()
		val()
		opt := rapid.SampledFrom([]string{"ex", "px", "px", "ex", "nx", "xx", "keepttl", "get", "exat", "pxat", "zz", ""}).Draw(t, "opt")
		cmd(opt)
		var life string
		switch rapid.IntRange(0, 5).Draw(t, "life") {
		case 0:
			life = rapid.SampledFrom([]string{"0", "-1", "", "x", "1.5", "+5", "05", " 5", "9223372036854775808", "-9223372036854775808", "1e3", "0x10"}).Draw(t, "bad")
		case 1:
			life = strconv.FormatInt(rapid.SampledFrom([]int64{math.MaxInt64, math.MaxInt64 / 1000, 9223372036, 9223372037, 9223372036854, 9223372036855, 1e12, 1 << 40}).Draw(t, "far"), 10)
		default:
			n := cachekit.Millis(t)
			if strings.EqualFold(opt, "ex") {
				n = cachekit.Seconds(t)
			}
			life = strconv.FormatInt(n, 10)
		}
		l = append(l, word(life))
		if k == 5 && rapid.IntRange(0, 3).Draw(t, "more") == 0 {
			cmd(rapid.SampledFrom([]string{"nx", "xx", "ex"}).Draw(t, "opt2"))
		}
	case 6, 7:
		cmd("hmset")
		key()
		nf := rapid.IntRange(1, 4).Draw(t, "nf")
		if rapid.IntRange(0, 29).Draw(t, "many") == 29 {
			for n := pbt.Len(t, 12000); n > 0; n-- {
				l = append(l, word("f"+strconv.Itoa(n)), word(strconv.Itoa(n)))
			}
		}
		for i := nf; i > 0; i-- {
			l = append(l, marg{S: cachekit.Field(t)})
			val()
		}
	case 8, 9:
		cmd("del")
		nk := rapid.IntRange(1, 3).Draw(t, "nk")
		if rapid.IntRange(0, 29).Draw(t, "many") == 29 {
			for n := pbt.Len(t, 6000); n > 0; n-- {
				l = append(l, word("none"+strconv.Itoa(n)))
			}
		}
		for i := nk; i > 0; i-- {
			key()
		}
	case 10, 11, 12:
		cmd("pexpireat")
		key()
		switch rapid.IntRange(0, 4).Draw(t, "at") {
		case 0:
			l = append(l, word(rapid.SampledFrom([]string{"0", "-1", "1", "", "x", "1.5", "+5", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "4102444800000", "99999999999999"}).Draw(t, "abs")))
		default:
			n := cachekit.Millis(t)
			if n == 0 || rapid.IntRange(0, 4).Draw(t, "neg") == 0 {
				n = -1 - n%100000
			}
			if n > 1e12 {
				n = 1e12
			}
			if n < -1e12 {
				n = -1e12
			}
			if n == 0 {
				n = 1
			}
			l = append(l, marg{T: "at", I: n})
		}
	case 13:
		cmd(rapid.SampledFrom([]string{"rpush", "lpush", "sadd", "zadd", "hset", "incr", "append", "expire", "setex", "mset", "ping", "select", "flushall", "foo", "multi", "getset", "hdel", "unlink", "replconf", "lpop", "xadd"}).Draw(t, "other"))
		for i := rapid.IntRange(0, 4).Draw(t, "n"); i > 0; i-- {
			if rapid.Bool().Draw(t, "k") {
				key()
			} else {
				val()
			}
		}
	case 14:
		l = append(l, marg{S: cachekit.Val(t)})
		for i := rapid.IntRange(0, 3).Draw(t, "n"); i > 0; i-- {
			val()
		}
	default: // any message at all
		return genAny(t, 3)
	}
	// damage
	switch rapid.IntRange(0, 9).Draw(t, "damage") {
	case 0:
		l = l[:rapid.IntRange(0, len(l)-1).Draw(t, "cut")]
	case 1:
		i := rapid.IntRange(0, len(l)-1).Draw(t, "at")
		l[i] = genAny(t, 2)
	case 2:
		l = append(l, genAny(t, 1))
	}
	return marg{T: "a", A: l}
}

func genAny(t *rapid.T, depth int) marg {
	hi := 7
	if depth == 0 {
		hi = 5
	}
	switch rapid.IntRange(0, hi).Draw(t, "kind") {
	case 0:
		return marg{S: cachekit.Val(t)}
	case 1:
		return marg{T: "s", S: pbt.B(rapid.SampledFrom([]string{"OK", "set", "k", "5", "", "DEL"}).Draw(t, "simple"))}
	case 2:
		return marg{T: "i", I: cachekit.Int64(t)}
	case 3:
		return marg{T: "e", S: "ERR x"}
	case 4:
		return marg{T: "n"}
	case 5:
		return marg{T: "z"}
	}
	var l []marg
	if rapid.Bool().Draw(t, "named") {
		l = append(l, word(rapid.SampledFrom([]string{"set", "hmset", "del", "pexpireat", "rpush", "SET"}).Draw(t, "name")))
	}
	for i := rapid.IntRange(0, 4).Draw(t, "n"); i > 0; i-- {
		l = append(l, genAny(t, depth-1))
	}
	return marg{T: "a", A: l}
}

func runMessages(c mcase, r *pbt.Rec) error {
	applied, rejected := 0, 0
	err := cachekit.Bubble(r.T, func() error {
		ca := cache.New()
		m := model.New(time.Now)
		keys := map[string]bool{"k": true, "a": true, "b": true, "": true}
		for i, s := range c.Steps {
			if o := s.Op; o != nil {
				if o.C == "Sleep" {
					time.Sleep(time.Duration(o.I)*time.Millisecond + time.Microsecond)
					continue
				}
				if m.Unspecified(*o) {
					continue
				}
				want := m.Apply(*o)
				if got := cachekit.Apply(ca, *o); !model.Match(want, got) {
					return fmt.Errorf("step %d %s = %v, want %v\n%s", i, cachekit.Show([]model.Op{*o}), got, want, c.show())
				}
				continue
			}
			v := judge(*s.Msg, m)
			msg := s.Msg.message()
			list, _ := msg.(redis.ArrayMessage)
			was := append(redis.ArrayMessage(nil), list...)
			err := cache.HandleMessage(ca, msg)
			for j, x := range was {
				if _, ok := x.(redis.ArrayMessage); ok {
					continue
				}
				if _, ok := list[j].(redis.ArrayMessage); ok || list[j] != x {
					return fmt.Errorf("step %d: handling %s altered its argument %d\n%s", i, s.Msg.show(), j, c.show())
				}
			}
			for j := range list { // the caller's again
				list[j] = redis.NilMessage{}
			}
			if l, _, junk := s.Msg.args(); !junk {
				for _, k := range l {
					if len(keys) < 24 {
						keys[k] = true
					}
				}
			}
			switch {
			case err != nil && v.must:
				return fmt.Errorf("step %d: %s is rejected with %q\n%s", i, s.Msg.show(), err, c.show())
			case err == nil && !v.must && !v.may:
				return fmt.Errorf("step %d: %s is accepted\n%s", i, s.Msg.show(), c.show())
			case err == nil:
				applied++
				if v.apply != nil {
					v.apply(m)
				} else if v.free {
					if v.exist != "" && ca.Exists(v.exist) != 1 {
						return fmt.Errorf("step %d: %s is accepted and has no effect\n%s", i, s.Msg.show(), c.show())
					}
					return nil
				}
			default:
				rejected++
			}
			if err := cachekit.Dump(ca, m, keys); err != nil {
				return fmt.Errorf("after step %d %s (%v): %v\n%s", i, s.Msg.show(), err == nil, err, c.show())
			}
		}
		return nil
	})
	r.Label(rejected > 0, "has rejected message")
	r.Label(applied > 0, "has applied message")
	r.NonTrivial(applied+rejected >= 2)
	return err
}

func TestC20(t *testing.T) {
	native := cachekit.Chooser(cachekit.Weights{{"Sleep", 6}, {"HSet", 2}, {"Set", 1}, {"PSetEX", 2}, {"Append", 1}, {"Incr", 1}, {"HIncrBy", 1}, {"HDel", 1}, {"IncrByFloat", 1}})
	pbt.Check(t, pbt.Spec[mcase]{
		ID: "C20", Name: "messages", Quick: 200000, Thorough: 12000000,
		Rule: "1-12 replicated messages (SET with and without lifetimes, HMSET, DEL, PEXPIREAT in any letter case, other commands, missing, extra, malformed and non-string arguments, arbitrary messages) mixed with commands and clock advances; after each message everything observable is compared with the model; non-trivial: at least 2 messages were handled",
		Gen: func(t *rapid.T) mcase {
			var c mcase
			for i := rapid.IntRange(1, 12).Draw(t, "n"); i > 0; i-- {
				if rapid.IntRange(0, 3).Draw(t, "native") == 3 {
					o := cachekit.One(t, native.Draw(t, "c"), 4)
					c.Steps = append(c.Steps, mstep{Op: &o})
				} else {
					m := genMsg(t)
					c.Steps = append(c.Steps, mstep{Msg: &m})
				}
			}
			return c
		},
		Run: runMessages,
	})
}
