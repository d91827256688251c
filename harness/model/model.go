// Package model is the reference: a key space of exact byte strings and hashes with deadlines.
package model

import (
	"math"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/harness/pbt"
)

// Op is one command of a history.
type Op struct {
	C string  `json:"c"`
	K []pbt.B `json:"k,omitempty"` // keys
	F []pbt.B `json:"f,omitempty"` // fields
	V []pbt.B `json:"v,omitempty"` // values
	I int64   `json:"i,omitempty"`
	J int64   `json:"j,omitempty"`
	X pbt.F   `json:"x"`
}

func (o Op) Key() string {
	if len(o.K) == 0 {
		return ""
	}
	return string(o.K[0])
}
func (o Op) Field() string {
	if len(o.F) == 0 {
		return ""
	}
	return string(o.F[0])
}
func (o Op) Val() string {
	if len(o.V) == 0 {
		return ""
	}
	return string(o.V[0])
}

// Pairs zips keys (or fields) with values, later duplicates winning, as a map argument would.
func Pairs(k, v []pbt.B) map[string]string {
	m := map[string]string{}
	for i := range k {
		if i < len(v) {
			m[string(k[i])] = string(v[i])
		}
	}
	return m
}

// Error classes.
const (
	ENone  = ""
	ENil   = "nil"
	EType  = "wrongtype"
	EOther = "error"
)

// Res is a comparable reply: E is the error class, V the canonical value when there is no error.
type Res struct {
	V string
	E string
}

func (r Res) String() string {
	if r.E != "" {
		return "error(" + r.E + ")"
	}
	return pbt.Short(r.V)
}

func RInt(n int) Res        { return Res{V: "i" + strconv.Itoa(n)} }
func RStr(s string) Res     { return Res{V: "s" + s} }
func RErr(class string) Res { return Res{E: class} }
func RFloat(f float64) Res  { return Res{V: "f" + strconv.FormatFloat(f, 'g', -1, 64)} }
func RSlots(ss []string) Res {
	return Res{V: "l" + strconv.Itoa(len(ss)) + ":" + strings.Join(quoteAll(ss), ",")}
}
func RBag(ss []string) Res {
	x := append([]string(nil), ss...)
	sort.Strings(x)
	return Res{V: "b" + strings.Join(quoteAll(x), ",")}
}
func RMap(m map[string]string) Res {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var p []string
	for _, k := range ks {
		p = append(p, strconv.Quote(k)+"="+strconv.Quote(m[k]))
	}
	return Res{V: "m" + strings.Join(p, ",")}
}

func quoteAll(ss []string) []string {
	o := make([]string, len(ss))
	for i, s := range ss {
		o[i] = strconv.QuoteToASCII(s)
	}
	return o
}

// Match tells whether the observed reply is what the model wants. A model error of class "error"
// accepts any error that is not a nil reply.
func Match(want, got Res) bool {
	if want.E == EOther {
		return got.E != ENone && got.E != ENil
	}
	if want.E != got.E {
		return false
	}
	return want.E != ENone || want.V == got.V
}

type Ent struct {
	Hash     bool
	S        string
	H        map[string]string
	Deadline time.Time // zero: none
}

type Store struct {
	M   map[string]*Ent
	Now func() time.Time
	// Hits counts commands that found their key, Purged how often a command met a key past its deadline.
	Hits, Purged int
}

func New(now func() time.Time) *Store {
	if now == nil {
		t := time.Unix(0, 0)
		now = func() time.Time { return t }
	}
	return &Store{M: map[string]*Ent{}, Now: now}
}

func (s *Store) Clone() *Store {
	n := New(s.Now)
	for k, e := range s.M {
		c := *e
		if e.Hash {
			c.H = map[string]string{}
			for f, v := range e.H {
				c.H[f] = v
			}
		}
		n.M[k] = &c
	}
	return n
}

// Fingerprint identifies the state (without lifetimes' absolute values unless present).
func (s *Store) Fingerprint() string {
	var ks []string
	for k := range s.M {
		if s.get(k) != nil {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		e := s.M[k]
		b.WriteString(strconv.Quote(k))
		if e.Hash {
			b.WriteString(RMap(e.H).V)
		} else {
			b.WriteString("=" + strconv.Quote(e.S))
		}
		if !e.Deadline.IsZero() {
			b.WriteString("@" + e.Deadline.String())
		}
		b.WriteByte(';')
	}
	return b.String()
}

func (s *Store) get(k string) *Ent {
	e := s.M[k]
	if e == nil {
		return nil
	}
	if !e.Deadline.IsZero() && s.Now().After(e.Deadline) {
		delete(s.M, k)
		s.Purged++
		return nil
	}
	return e
}

// Peek returns the live entry.
func (s *Store) Peek(k string) *Ent { return s.get(k) }

var decimal = regexp.MustCompile(`^[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?$`)

// CanonInt parses a canonical decimal 64-bit integer.
func CanonInt(v string) (int64, bool) {
	n, err := strconv.ParseInt(v, 10, 64)
	if err != nil || strconv.FormatInt(n, 10) != v {
		return 0, false
	}
	return n, true
}

// floatArg classifies a value for float increments: ok, bad, or unspecified.
func floatArg(v string) (f float64, ok, unspecified bool) {
	if decimal.MatchString(v) {
		f, err := strconv.ParseFloat(v, 64)
		if err != nil {
			return 0, false, true
		}
		return f, true, false
	}
	if _, err := strconv.ParseFloat(v, 64); err == nil {
		return 0, false, true // inf, nan, hex, underscores
	} else if ne, isNum := err.(*strconv.NumError); isNum && ne.Err == strconv.ErrRange {
		return 0, false, true
	}
	return 0, false, false
}

func addInt(a, b int64) (int64, bool) {
	c := a + b
	if (b > 0 && c < a) || (b < 0 && c > a) {
		return 0, false
	}
	return c, true
}

// FmtFloat is the stored form of a float counter.
func FmtFloat(f float64) string { return strconv.FormatFloat(f, 'f', -1, 64) }

func finite(f float64) bool { return !math.IsInf(f, 0) && !math.IsNaN(f) }

// Unspecified tells whether the property leaves this command unspecified in the current state.
func (s *Store) Unspecified(o Op) bool {
	switch o.C {
	case "SetRange":
		return o.Val() == "" || o.I > 1<<20
	case "DecrBy": // the most negative decrement may be refused even where the difference fits, as Redis does
		if e := s.get(o.Key()); e != nil && !e.Hash && o.I == math.MinInt64 {
			n, ok := CanonInt(e.S)
			return ok && n < 0
		}
	case "IncrByFloat":
		if negZero(float64(o.X)) {
			return true
		}
		if e := s.get(o.Key()); e != nil && !e.Hash {
			_, _, u := floatArg(e.S)
			return u
		}
	case "HIncrByFloat":
		if negZero(float64(o.X)) {
			return true
		}
		if e := s.get(o.Key()); e != nil && e.Hash {
			if v, ok := e.H[o.Field()]; ok {
				_, _, u := floatArg(v)
				return u || v == ""
			}
		}
	case "HIncrBy":
		if e := s.get(o.Key()); e != nil && e.Hash {
			if v, ok := e.H[o.Field()]; ok {
				return v == ""
			}
		}
	}
	return false
}

func negZero(f float64) bool { return f == 0 && math.Signbit(f) }

// setStr replaces a key without lifetime.
func (s *Store) setStr(k, v string) { s.M[k] = &Ent{S: v} }

// ExpireAt is the time in milliseconds that lies d milliseconds from now.
func ExpireAt(now time.Time, d int64) int64 {
	ms := now.UnixMilli()
	if d > math.MaxInt64-ms {
		return math.MaxInt64
	}
	return ms + d
}

func (s *Store) deadline(n int64, unit time.Duration) time.Time {
	if n <= 0 {
		return time.Time{}
	}
	if n > math.MaxInt64/int64(unit) {
		return s.Now().Add(math.MaxInt64)
	}
	return s.Now().Add(time.Duration(n) * unit)
}

// getRange: bytes with index in [start,end], negatives from the end.
func GetRange(v string, start, end int64) string {
	n := int64(len(v))
	if start < 0 {
		start += n
	}
	if end < 0 {
		end += n
	}
	if start < 0 {
		start = 0
	}
	if end >= n {
		end = n - 1
	}
	if start > end {
		return ""
	}
	return v[start : end+1]
}

// Apply executes a command (which must not be Unspecified).
func (s *Store) Apply(o Op) Res {
	k := o.Key()
	e := s.get(k)
	if e != nil {
		s.Hits++
	}
	str := func() (string, *Res) { // string view of key for string commands
		if e == nil {
			return "", nil
		}
		if e.Hash {
			r := RErr(EType)
			return "", &r
		}
		return e.S, nil
	}
	put := func(v string) { // in-place modification keeps the lifetime
		if e == nil {
			s.setStr(k, v)
		} else {
			e.S = v
		}
	}
	hash := func() (map[string]string, *Res) {
		if e == nil {
			return nil, nil
		}
		if !e.Hash {
			r := RErr(EType)
			return nil, &r
		}
		return e.H, nil
	}
	mkhash := func() map[string]string {
		if e == nil {
			e = &Ent{Hash: true, H: map[string]string{}}
			s.M[k] = e
		}
		return e.H
	}
	switch o.C {
	case "Set":
		s.setStr(k, o.Val())
		return RStr("OK")
	case "SetNX":
		if e != nil {
			return RInt(0)
		}
		s.setStr(k, o.Val())
		return RInt(1)
	case "SetEX", "PSetEX":
		u := time.Second
		if o.C == "PSetEX" {
			u = time.Millisecond
		}
		d := s.deadline(o.I, u)
		s.M[k] = &Ent{S: o.Val(), Deadline: d}
		return RStr("OK")
	case "PExpireAt": // I milliseconds from now
		if e == nil {
			return RInt(0)
		}
		now := s.Now()
		ms := ExpireAt(now, o.I)
		if ms <= now.UnixMilli() {
			delete(s.M, k)
		} else {
			e.Deadline = time.UnixMilli(ms)
		}
		return RInt(1)
	case "Get":
		if e == nil {
			return RErr(ENil)
		}
		v, r := str()
		if r != nil {
			return *r
		}
		return RStr(v)
	case "GetSet":
		v, r := str()
		if r != nil {
			return *r
		}
		was := e != nil
		s.setStr(k, o.Val())
		if !was {
			return RErr(ENil)
		}
		return RStr(v)
	case "StrLen":
		v, r := str()
		if r != nil {
			return *r
		}
		return RInt(len(v))
	case "Append":
		v, r := str()
		if r != nil {
			return *r
		}
		put(v + o.Val())
		return RInt(len(v) + len(o.Val()))
	case "SetRange":
		if o.I < 0 {
			return RErr(EOther)
		}
		v, r := str()
		if r != nil {
			return *r
		}
		b := []byte(v)
		for int64(len(b)) < o.I+int64(len(o.Val())) {
			b = append(b, 0)
		}
		copy(b[o.I:], o.Val())
		put(string(b))
		return RInt(len(b))
	case "GetRange":
		v, r := str()
		if r != nil {
			return *r
		}
		return RStr(GetRange(v, o.I, o.J))
	case "Incr", "Decr", "IncrBy", "DecrBy":
		if o.C == "DecrBy" && o.I == math.MinInt64 {
			return RErr(EOther)
		}
		v, r := str()
		if r != nil {
			return *r
		}
		var cur int64
		if e != nil {
			n, ok := CanonInt(v)
			if !ok {
				return RErr(EOther)
			}
			cur = n
		}
		inc := o.I
		switch o.C {
		case "Incr":
			inc = 1
		case "Decr":
			inc = -1
		}
		var sum int64
		var ok bool
		if o.C == "DecrBy" {
			sum = cur - inc
			ok = !((inc > 0 && sum > cur) || (inc < 0 && sum < cur))
		} else {
			sum, ok = addInt(cur, inc)
		}
		if !ok {
			return RErr(EOther)
		}
		put(strconv.FormatInt(sum, 10))
		return RInt(int(sum))
	case "IncrByFloat":
		if !finite(float64(o.X)) {
			return RErr(EOther)
		}
		v, r := str()
		if r != nil {
			return *r
		}
		f := float64(o.X)
		if e != nil {
			g, ok, _ := floatArg(v)
			if !ok {
				return RErr(EOther)
			}
			f = g + f
		}
		if !finite(f) {
			return RErr(EOther)
		}
		put(FmtFloat(f))
		return RFloat(f)
	case "MSet":
		for kk, v := range Pairs(o.K, o.V) {
			s.setStr(kk, v)
		}
		return RStr("OK")
	case "MSetNX":
		n := 0
		for kk, v := range Pairs(o.K, o.V) {
			if s.get(kk) == nil {
				s.setStr(kk, v)
				n++
			}
		}
		return RInt(n)
	case "MGet":
		var slots []string
		for _, kk := range o.K {
			x := s.get(string(kk))
			switch {
			case x == nil:
				slots = append(slots, "!nil")
			case x.Hash:
				slots = append(slots, "!wrongtype")
			default:
				slots = append(slots, "s"+x.S)
			}
		}
		return RSlots(slots)
	case "Del":
		if e == nil {
			return RInt(0)
		}
		delete(s.M, k)
		return RInt(1)
	case "Exists":
		n := 0
		for _, kk := range o.K {
			if s.get(string(kk)) != nil {
				n++
			}
		}
		return RInt(n)
	case "Type":
		switch {
		case e == nil:
			return RStr("none")
		case e.Hash:
			return RStr("hash")
		}
		return RStr("string")
	case "Flush":
		s.M = map[string]*Ent{}
		return RStr("")

	case "HSet", "HSetNX":
		_, r := hash()
		if r != nil {
			return *r
		}
		h := mkhash()
		if _, ok := h[o.Field()]; ok {
			if o.C == "HSet" {
				h[o.Field()] = o.Val()
			}
			return RInt(0)
		}
		h[o.Field()] = o.Val()
		return RInt(1)
	case "HMSet":
		_, r := hash()
		if r != nil {
			return *r
		}
		m := Pairs(o.F, o.V)
		if len(m) == 0 {
			return RInt(0)
		}
		h := mkhash()
		n := 0
		for f, v := range m {
			if _, ok := h[f]; !ok {
				n++
			}
			h[f] = v
		}
		return RInt(n)
	case "HGet":
		h, r := hash()
		if r != nil {
			return *r
		}
		v, ok := h[o.Field()]
		if !ok {
			return RErr(ENil)
		}
		return RStr(v)
	case "HMGet":
		h, r := hash()
		if r != nil {
			return *r
		}
		var slots []string
		for _, f := range o.F {
			if v, ok := h[string(f)]; ok {
				slots = append(slots, "s"+v)
			} else {
				slots = append(slots, "!nil")
			}
		}
		return RSlots(slots)
	case "HExists":
		h, r := hash()
		if r != nil {
			return *r
		}
		if _, ok := h[o.Field()]; ok {
			return RInt(1)
		}
		return RInt(0)
	case "HDel":
		h, r := hash()
		if r != nil {
			return *r
		}
		n := 0
		for _, f := range o.F {
			if _, ok := h[string(f)]; ok {
				n++
				delete(h, string(f))
			}
		}
		if e != nil && len(h) == 0 {
			delete(s.M, k)
		}
		return RInt(n)
	case "HLen":
		h, r := hash()
		if r != nil {
			return *r
		}
		return RInt(len(h))
	case "HStrLen":
		h, r := hash()
		if r != nil {
			return *r
		}
		return RInt(len(h[o.Field()]))
	case "HKeys", "HVals":
		h, r := hash()
		if r != nil {
			return *r
		}
		var l []string
		for f, v := range h {
			if o.C == "HKeys" {
				l = append(l, f)
			} else {
				l = append(l, v)
			}
		}
		return RBag(l)
	case "HGetAll":
		h, r := hash()
		if r != nil {
			return *r
		}
		return RMap(h)
	case "HIncrBy":
		h, r := hash()
		if r != nil {
			return *r
		}
		var cur int64
		if v, ok := h[o.Field()]; ok {
			n, ok := CanonInt(v)
			if !ok {
				return RErr(EOther)
			}
			cur = n
		}
		sum, ok := addInt(cur, o.I)
		if !ok {
			return RErr(EOther)
		}
		mkhash()[o.Field()] = strconv.FormatInt(sum, 10)
		return RInt(int(sum))
	case "HIncrByFloat":
		if !finite(float64(o.X)) {
			return RErr(EOther)
		}
		h, r := hash()
		if r != nil {
			return *r
		}
		f := float64(o.X)
		if v, ok := h[o.Field()]; ok {
			g, ok, _ := floatArg(v)
			if !ok {
				return RErr(EOther)
			}
			f = g + f
		}
		if !finite(f) {
			return RErr(EOther)
		}
		mkhash()[o.Field()] = FmtFloat(f)
		return RFloat(f)
	}
	panic("model: unknown command " + o.C)
}

// LooksNumeric tells whether a text parses as a number in Go's wide sense.
func LooksNumeric(v string) bool {
	_, err := strconv.ParseFloat(v, 64)
	return err == nil
}
