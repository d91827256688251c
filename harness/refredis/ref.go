// Package refredis executes Redis commands: the reference server.
package refredis

import (
	"math"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/harness/model"
	"verif/harness/resp"
)

type Store struct {
	M   map[string]string
	TTL map[string]time.Duration // lifetimes as given, never elapsing here
}

func New() *Store { return &Store{M: map[string]string{}, TTL: map[string]time.Duration{}} }

func (s *Store) set(k, v string) { s.M[k] = v; delete(s.TTL, k) }

func (s *Store) Equal(o *Store) bool { return s.String() == o.String() }

func (s *Store) String() string {
	var ks []string
	for k := range s.M {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		b.WriteString(strconv.Quote(k) + "=" + strconv.Quote(s.M[k]))
		if d, ok := s.TTL[k]; ok {
			b.WriteString("@" + d.String())
		}
		b.WriteByte(' ')
	}
	return b.String()
}

var argErr = resp.Err("ERR wrong number of arguments")
var notInt = resp.Err("ERR value is not an integer or out of range")

func num(s string) (int64, bool) { return model.CanonInt(s) }

// Exec runs a request.
func (s *Store) Exec(a []string) resp.Msg {
	n := len(a)
	switch strings.ToLower(a[0]) {
	case "ping":
		return resp.Simple("PONG")
	case "select", "auth":
		if n != 2 {
			return argErr
		}
		return resp.Simple("OK")
	case "set":
		if n != 3 {
			return argErr
		}
		s.set(a[1], a[2])
		return resp.Simple("OK")
	case "setnx":
		if n != 3 {
			return argErr
		}
		if _, ok := s.M[a[1]]; ok {
			return resp.Int(0)
		}
		s.set(a[1], a[2])
		return resp.Int(1)
	case "setex", "psetex":
		if n != 4 {
			return argErr
		}
		t, ok := num(a[2])
		if !ok {
			return notInt
		}
		u := time.Second
		if strings.EqualFold(a[0], "psetex") {
			u = time.Millisecond
		}
		if t <= 0 || t > math.MaxInt64/int64(u) {
			return resp.Err("ERR invalid expire time")
		}
		s.set(a[1], a[3])
		s.TTL[a[1]] = time.Duration(t) * u
		return resp.Simple("OK")
	case "get", "strlen":
		if n != 2 {
			return argErr
		}
		v, ok := s.M[a[1]]
		if strings.EqualFold(a[0], "strlen") {
			return resp.Int(int64(len(v)))
		}
		if !ok {
			return resp.Nil()
		}
		return resp.Bulk(v)
	case "getset":
		if n != 3 {
			return argErr
		}
		v, ok := s.M[a[1]]
		s.set(a[1], a[2])
		if !ok {
			return resp.Nil()
		}
		return resp.Bulk(v)
	case "append":
		if n != 3 {
			return argErr
		}
		s.M[a[1]] += a[2]
		return resp.Int(int64(len(s.M[a[1]])))
	case "setrange":
		if n != 4 {
			return argErr
		}
		off, ok := num(a[2])
		if !ok {
			return notInt
		}
		if off < 0 || off > 512<<20 {
			return resp.Err("ERR offset is out of range")
		}
		b := []byte(s.M[a[1]])
		if len(a[3]) == 0 {
			return resp.Int(int64(len(b)))
		}
		if off > 100000 {
			return resp.Err("ERR string exceeds maximum allowed size")
		}
		for len(b) < int(off)+len(a[3]) {
			b = append(b, 0)
		}
		copy(b[off:], a[3])
		s.M[a[1]] = string(b)
		return resp.Int(int64(len(b)))
	case "getrange":
		if n != 4 {
			return argErr
		}
		x, ok := num(a[2])
		y, ok2 := num(a[3])
		if !ok || !ok2 {
			return notInt
		}
		return resp.Bulk(model.GetRange(s.M[a[1]], x, y))
	case "incr", "decr", "incrby", "decrby":
		inc := int64(1)
		if c := strings.ToLower(a[0]); c == "incrby" || c == "decrby" {
			if n != 3 {
				return argErr
			}
			var ok bool
			if inc, ok = num(a[2]); !ok {
				return notInt
			}
		} else if n != 2 {
			return argErr
		}
		if strings.EqualFold(a[0][:4], "decr") {
			if inc == math.MinInt64 {
				return resp.Err("ERR decrement would overflow")
			}
			inc = -inc
		}
		var cur int64
		if v, ok := s.M[a[1]]; ok {
			var isInt bool
			if cur, isInt = num(v); !isInt {
				return notInt
			}
		}
		if (inc > 0 && cur > math.MaxInt64-inc) || (inc < 0 && cur < math.MinInt64-inc) {
			return resp.Err("ERR increment or decrement would overflow")
		}
		s.M[a[1]] = strconv.FormatInt(cur+inc, 10)
		return resp.Int(cur + inc)
	case "incrbyfloat":
		if n != 3 {
			return argErr
		}
		f, err := strconv.ParseFloat(a[2], 64)
		cur := 0.0
		var err2 error
		if v, ok := s.M[a[1]]; ok {
			cur, err2 = strconv.ParseFloat(v, 64)
		}
		if err != nil || err2 != nil {
			return resp.Err("ERR value is not a valid float")
		}
		if math.IsNaN(f+cur) || math.IsInf(f+cur, 0) {
			return resp.Err("ERR increment would produce NaN or Infinity")
		}
		s.M[a[1]] = model.FmtFloat(f + cur)
		return resp.Bulk(s.M[a[1]])
	case "mset", "msetnx":
		if n < 3 || n%2 == 0 {
			return argErr
		}
		nx := strings.EqualFold(a[0], "msetnx")
		if nx {
			for i := 1; i < n; i += 2 {
				if _, ok := s.M[a[i]]; ok {
					return resp.Int(0)
				}
			}
		}
		for i := 1; i < n; i += 2 {
			s.set(a[i], a[i+1])
		}
		if nx {
			return resp.Int(1)
		}
		return resp.Simple("OK")
	case "mget":
		if n < 2 {
			return argErr
		}
		m := resp.Arr()
		for _, k := range a[1:] {
			if v, ok := s.M[k]; ok {
				m.A = append(m.A, resp.Bulk(v))
			} else {
				m.A = append(m.A, resp.Nil())
			}
		}
		return m
	case "del":
		c := int64(0)
		for _, k := range a[1:] {
			if _, ok := s.M[k]; ok {
				c++
			}
			delete(s.M, k)
			delete(s.TTL, k)
		}
		return resp.Int(c)
	}
	return resp.Err("ERR unknown command '" + a[0] + "'")
}
