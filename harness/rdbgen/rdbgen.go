// Package rdbgen draws datasets and writes them as snapshot files; it also executes the commands a
// loader emits and compares the outcome with the dataset.
package rdbgen

import (
	"encoding/binary"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	"pgregory.net/rapid"

	"verif/harness/cachekit"
	"verif/harness/pbt"
	"verif/harness/rdbw"
)

// Str is a string with the form it is written in.
type Str struct {
	S    pbt.B `json:"s"`
	Form int   `json:"f,omitempty"`
	Big  bool  `json:"big,omitempty"`  // ziplist: long previous-length field
	Free int   `json:"free,omitempty"` // zipmap: free space
}

// Rec is a record of the file.
type Rec struct {
	Op string `json:"op"` // aux, modaux, resize, select, obj, raw
	// aux: K, V; resize: N, M; select: N; all with length form Form
	K    *Str   `json:"k,omitempty"`
	V    *Str   `json:"v,omitempty"`
	N    uint64 `json:"n,omitempty"`
	M    uint64 `json:"m,omitempty"`
	Form int    `json:"form,omitempty"`
	// obj
	Type  int     `json:"type,omitempty"`
	L     []Str   `json:"l,omitempty"` // elements; fields and values alternating; members
	X     []pbt.F `json:"x,omitempty"` // scores
	Split int     `json:"split,omitempty"`
	Exp   string  `json:"exp,omitempty"` // "", s, ms
	At    int64   `json:"at,omitempty"`
	Idle  int64   `json:"idle,omitempty"` // -1 none
	Freq  int     `json:"freq,omitempty"` // -1 none
	Rep   int     `json:"rep,omitempty"`  // lists: repeat the elements
	More  int     `json:"more,omitempty"` // sets, sorted sets and hashes: more members are added
	Raw   pbt.B   `json:"raw,omitempty"`
}

// full is the record with its additional members written out.
func (r Rec) full() Rec {
	if r.More == 0 {
		return r
	}
	in := map[pbt.B]bool{}
	step := 1
	if r.Type == THash || r.Type == THashZ || r.Type == TZipmap {
		step = 2
	}
	for i := 0; i < len(r.L); i += step {
		in[r.L[i].S] = true
	}
	l, x := r.L[:len(r.L):len(r.L)], r.X[:len(r.X):len(r.X)]
	for i := 0; i < r.More; i++ {
		m := Str{S: pbt.B("more#" + strconv.Itoa(i)), Form: r.Form}
		if r.Type == TIntset {
			m.S = pbt.B(strconv.Itoa(i*7 - 300))
		}
		if in[m.S] {
			continue
		}
		l = append(l, m)
		if step == 2 {
			l = append(l, Str{S: pbt.B("value " + strconv.Itoa(i))})
		}
		if len(r.X) > 0 {
			x = append(x, pbt.F(float64(i)/2-20))
		}
	}
	r.L, r.X, r.More = l, x, 0
	return r
}

type File struct {
	Version string `json:"version"`
	Recs    []Rec  `json:"recs"`
	Tail    pbt.B  `json:"tail"` // checksum and whatever follows the end marker
}

const (
	TString = 0
	TList   = 1
	TSet    = 2
	TZSet   = 3
	THash   = 4
	TZSet2  = 5
	TZipmap = 9
	TListZ  = 10
	TIntset = 11
	TZSetZ  = 12
	THashZ  = 13
	TQuick  = 14
)

func str(s Str) []byte { b, _ := rdbw.Str(string(s.S), s.Form); return b }

func elems(l []Str) (out []rdbw.Elem) {
	for _, s := range l {
		out = append(out, rdbw.Elem{S: string(s.S), Form: s.Form, Big: s.Big})
	}
	return
}

// ZScore is the text of a score in a ziplist.
func ZScore(f float64) string {
	if f == math.Trunc(f) && math.Abs(f) < 1e17 && !(f == 0 && math.Signbit(f)) {
		return strconv.FormatInt(int64(f), 10)
	}
	s := strconv.FormatFloat(f, 'g', 17, 64)
	if math.IsInf(f, 0) {
		s = strings.ToLower(strings.TrimPrefix(s, "+"))
	}
	return s
}

func (r Rec) list() []Str {
	l := r.L
	size := 0
	for _, s := range r.L {
		size += len(s.S) + 1
	}
	for i := 1; i < r.Rep && len(l) < 4000 && i*size < 50000; i++ {
		l = append(l[:len(l):len(l)], r.L...)
	}
	return l
}

// Bytes writes the record.
func (r Rec) Bytes() []byte {
	blob := func(b []byte) []byte { return str(Str{S: pbt.B(b), Form: r.Form}) }
	switch r.Op {
	case "raw":
		return []byte(r.Raw)
	case "aux":
		return append(append([]byte{250}, str(*r.K)...), str(*r.V)...)
	case "modaux": // of a module that saved nothing
		b := append([]byte{247}, rdbw.Len(r.N, r.Form)...)
		b = append(append(b, rdbw.Len(2, 0)...), rdbw.Len(r.M, 0)...)
		return append(b, rdbw.Len(0, 0)...)
	case "resize":
		return append(append([]byte{251}, rdbw.Len(r.N, r.Form)...), rdbw.Len(r.M, r.Form)...)
	case "select":
		return append([]byte{254}, rdbw.Len(r.N, r.Form)...)
	}
	r = r.full()
	var b []byte
	switch r.Exp {
	case "s":
		b = binary.LittleEndian.AppendUint32([]byte{253}, uint32(int32(r.At)))
	case "ms":
		b = binary.LittleEndian.AppendUint64([]byte{252}, uint64(r.At))
	}
	if r.Idle >= 0 {
		b = append(append(b, 248), rdbw.Len(uint64(r.Idle), 0)...)
	}
	if r.Freq >= 0 {
		b = append(b, 249, byte(r.Freq))
	}
	b = append(b, byte(r.Type))
	b = append(b, str(*r.K)...)
	switch r.Type {
	case TString:
		b = append(b, str(*r.V)...)
	case TList, TSet:
		l := r.list()
		b = append(b, rdbw.Len(uint64(len(l)), r.Form)...)
		for _, s := range l {
			b = append(b, str(s)...)
		}
	case THash:
		b = append(b, rdbw.Len(uint64(len(r.L)/2), r.Form)...)
		for _, s := range r.L {
			b = append(b, str(s)...)
		}
	case TZSet, TZSet2:
		b = append(b, rdbw.Len(uint64(len(r.L)), r.Form)...)
		for i, s := range r.L {
			b = append(b, str(s)...)
			if r.Type == TZSet2 {
				b = append(b, rdbw.BinaryDouble(float64(r.X[i]))...)
			} else {
				b = append(b, rdbw.Double(float64(r.X[i]), 'g', 17)...)
			}
		}
	case TListZ:
		b = append(b, blob(rdbw.Ziplist(elems(r.list())))...)
	case TQuick:
		l := r.list()
		n := max(r.Split, 1)
		var nodes [][]byte
		for len(l) > 0 {
			k := min(n, len(l))
			nodes = append(nodes, blob(rdbw.Ziplist(elems(l[:k]))))
			l = l[k:]
		}
		b = append(b, rdbw.Len(uint64(len(nodes)), 0)...)
		for _, x := range nodes {
			b = append(b, x...)
		}
	case TIntset:
		var l []int64
		for _, s := range r.L {
			n, _ := strconv.ParseInt(string(s.S), 10, 64)
			l = append(l, n)
		}
		sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
		b = append(b, blob(rdbw.Intset(l, 2<<uint(max(r.Split, 0)%3)))...)
	case TZSetZ:
		var l []rdbw.Elem
		for i, s := range r.L {
			l = append(l, rdbw.Elem{S: string(s.S), Form: s.Form, Big: s.Big}, rdbw.Elem{S: ZScore(float64(r.X[i])), Form: 3})
		}
		b = append(b, blob(rdbw.Ziplist(l))...)
	case THashZ:
		b = append(b, blob(rdbw.Ziplist(elems(r.L)))...)
	case TZipmap:
		var l []rdbw.ZField
		for i := 0; i+1 < len(r.L); i += 2 {
			l = append(l, rdbw.ZField{F: string(r.L[i].S), V: string(r.L[i+1].S), Free: r.L[i+1].Free})
		}
		b = append(b, blob(rdbw.Zipmap(l))...)
	}
	return b
}

// Head and Bytes write the file; Complete is its length up to and including the end marker.
func (f File) Bytes() (b []byte, complete int) {
	b = []byte("REDIS" + f.Version)
	for _, r := range f.Recs {
		b = append(b, r.Bytes()...)
	}
	b = append(b, 255)
	complete = len(b)
	return append(b, f.Tail...), complete
}

// ---- generation ----

// Opts restricts what is drawn.
type Opts struct {
	MaxObj    int
	OnlyStr   bool // string objects only
	Small     bool // short texts only
	NoPast    bool // no expiries
	AuxOffset bool
}

func Text(t *rapid.T, small bool) pbt.B {
	k := rapid.IntRange(0, 12).Draw(t, "tkind")
	switch {
	case k == 12:
		return pbt.DictText(t)
	case k <= 2:
		w := rapid.SampledFrom([]uint{3, 7, 8, 15, 16, 23, 24, 31, 32, 63}).Draw(t, "w")
		n := rapid.Int64Range(-(1<<(w-1))-1, 1<<(w-1)).Draw(t, "n")
		return pbt.B(strconv.FormatInt(n, 10))
	case k <= 4:
		return cachekit.Val(t)
	case k == 5:
		return pbt.B(rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "b"))
	case k == 6 && !small:
		n := rapid.SampledFrom([]int{63, 64, 65, 200, 250, 253, 254, 255, 256, 300, 1000, 5000}).Draw(t, "len")
		if rapid.IntRange(0, 20).Draw(t, "huge") == 0 {
			n = rapid.SampledFrom([]int{16383, 16384, 70000}).Draw(t, "hlen")
		} else if rapid.Bool().Draw(t, "anylen") {
			n = pbt.Len(t, 5000)
		}
		u := rapid.SliceOfN(rapid.Byte(), 1, 30).Draw(t, "u")
		return pbt.B(strings.Repeat(string(u), n/len(u)+1)[:n])
	case k == 7:
		return pbt.B(strings.Repeat(rapid.StringMatching(`[a-z]{1,4}`).Draw(t, "r"), rapid.IntRange(1, 30).Draw(t, "rn")))
	}
	return pbt.B(rapid.StringMatching(`[a-z]{0,8}`).Draw(t, "w"))
}

func GenStr(t *rapid.T, small bool) Str {
	return Str{S: Text(t, small), Form: rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3, 4, 4, 5, 6, 7, 7}).Draw(t, "form")}
}

func genElem(t *rapid.T, small bool) Str {
	return Str{S: Text(t, small), Form: rapid.SampledFrom([]int{0, 0, 1, 2, 3, 3, 3, 4, 5, 6, 7, 8}).Draw(t, "form"), Big: rapid.IntRange(0, 9).Draw(t, "big") == 0,
		Free: rapid.SampledFrom([]int{0, 0, 0, 1, 4}).Draw(t, "free")}
}

func Score(t *rapid.T) pbt.F {
	switch rapid.IntRange(0, 4).Draw(t, "skind") {
	case 0:
		return pbt.F(rapid.SampledFrom([]float64{0, 1, -1, math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, 0.1, 1e21, 1e-7, 1 << 53}).Draw(t, "s"))
	case 1, 2:
		return pbt.F(float64(rapid.Int64Range(-100000, 100000).Draw(t, "q")) / 64)
	case 3:
		return pbt.F(rapid.Int64Range(-1000, 1000).Draw(t, "n"))
	}
	return pbt.F(rapid.Float64().Draw(t, "f"))
}

func genObj(t *rapid.T, key Str, o Opts) Rec {
	r := Rec{Op: "obj", K: &key, Idle: -1, Freq: -1}
	if o.OnlyStr {
		r.Type = TString
	} else {
		r.Type = rapid.SampledFrom([]int{TString, TList, TSet, TZSet, THash, TZSet2, TZipmap, TListZ, TIntset, TZSetZ, THashZ, TQuick}).Draw(t, "type")
	}
	r.Form = rapid.SampledFrom([]int{0, 0, 1, 2, 3, 7}).Draw(t, "form")
	switch r.Type {
	case TString:
		v := GenStr(t, o.Small)
		r.V = &v
	case TList:
		r.L = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Str { return GenStr(t, o.Small) }), 1, 8).Draw(t, "l")
	case TListZ, TQuick:
		r.L = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Str { return genElem(t, o.Small) }), 1, 10).Draw(t, "l")
		r.Split = rapid.IntRange(1, 6).Draw(t, "split")
	case TSet:
		r.L = rapid.SliceOfNDistinct(rapid.Custom(func(t *rapid.T) Str { return GenStr(t, o.Small) }), 1, 8, func(s Str) pbt.B { return s.S }).Draw(t, "l")
	case TIntset:
		r.L = rapid.SliceOfNDistinct(rapid.Custom(func(t *rapid.T) Str {
			w := rapid.SampledFrom([]uint{4, 15, 16, 31, 32, 63}).Draw(t, "w")
			return Str{S: pbt.B(strconv.FormatInt(rapid.Int64Range(-1<<w, 1<<w-1).Draw(t, "n"), 10))}
		}), 1, 10, func(s Str) pbt.B { return s.S }).Draw(t, "l")
		r.Split = rapid.IntRange(0, 2).Draw(t, "width")
	case TZSet, TZSet2, TZSetZ:
		g := GenStr
		if r.Type == TZSetZ {
			g = genElem
		}
		r.L = rapid.SliceOfNDistinct(rapid.Custom(func(t *rapid.T) Str { return g(t, o.Small) }), 1, 8, func(s Str) pbt.B { return s.S }).Draw(t, "l")
		for range r.L {
			r.X = append(r.X, Score(t))
		}
	case THash, THashZ, TZipmap:
		g := GenStr
		if r.Type != THash {
			g = genElem
		}
		for _, f := range rapid.SliceOfNDistinct(rapid.Custom(func(t *rapid.T) Str { return g(t, o.Small) }), 1, 8, func(s Str) pbt.B { return s.S }).Draw(t, "l") {
			r.L = append(r.L, f, g(t, o.Small))
		}
	}
	if (r.Type == TList || r.Type == TListZ || r.Type == TQuick) && !o.Small && rapid.IntRange(0, 40).Draw(t, "many") == 0 {
		r.Rep = rapid.SampledFrom([]int{10, 200, 2000}).Draw(t, "rep")
		r.Split = rapid.SampledFrom([]int{1, 3, 100, 5000}).Draw(t, "bigsplit")
	}
	switch r.Type {
	case TSet, TIntset, TZSet, TZSet2, TZSetZ, THash, THashZ, TZipmap:
		if !o.Small && rapid.IntRange(0, 25).Draw(t, "more") == 0 {
			r.More = pbt.Len(t, 1000)
			if rapid.IntRange(0, 15).Draw(t, "muchmore") == 0 {
				r.More = pbt.Len(t, 17000)
			}
		}
	}
	if !o.NoPast {
		switch rapid.IntRange(0, 5).Draw(t, "exp") {
		case 0:
			r.Exp, r.At = "s", rapid.SampledFrom([]int64{0, 1, 1700000000, 2000000000, math.MaxInt32, math.MaxInt32 - 1}).Draw(t, "at")
			if rapid.Bool().Draw(t, "anyat") {
				r.At = rapid.Int64Range(0, math.MaxInt32).Draw(t, "rat")
			}
		case 1:
			r.Exp, r.At = "ms", rapid.SampledFrom([]int64{0, 1, 999, 1000, 1700000000123, 4102444800000, 1<<40 + 1, 1 << 62}).Draw(t, "at")
			if rapid.Bool().Draw(t, "anyat") {
				r.At = rapid.Int64Range(0, 1<<44).Draw(t, "rat")
			}
		}
	}
	switch rapid.IntRange(0, 5).Draw(t, "evict") {
	case 0:
		r.Idle = rapid.SampledFrom([]int64{0, 63, 64, 20000, 1 << 33, int64(pbt.Len(t, 1<<20))}).Draw(t, "idle")
	case 1:
		r.Freq = rapid.SampledFrom([]int{0, 5, 250, 252, 253, 254, 255, pbt.Len(t, 255)}).Draw(t, "freq")
	}
	return r
}

func Gen(t *rapid.T, o Opts) File {
	f := File{Version: rapid.SampledFrom([]string{"0009", "0001", "0006", "0007", "0008", "0010", "0011"}).Draw(t, "version")}
	aux := func() {
		k := rapid.SampledFrom([]string{"redis-ver", "redis-bits", "ctime", "used-mem", "repl-stream-db", "aof-preamble", "repl-id", "repl-offset", "repl-offset", "lua", "", "x"}).Draw(t, "aux")
		v := GenStr(t, true)
		switch k {
		case "repl-offset":
			n := rapid.SampledFrom([]int64{0, 1, 100, 127, 128, 1234567, 1<<31 - 1, 1 << 31, 1 << 40, math.MaxInt64, -1}).Draw(t, "offset")
			v = Str{S: pbt.B(strconv.FormatInt(n, 10)), Form: v.Form}
		case "repl-id":
			v.S = pbt.B(rapid.StringMatching(`[0-9a-f]{40}`).Draw(t, "id"))
		}
		f.Recs = append(f.Recs, Rec{Op: "aux", K: &Str{S: pbt.B(k)}, V: &v})
	}
	for i := rapid.IntRange(0, 3).Draw(t, "auxs"); i > 0; i-- {
		aux()
	}
	used := map[string]bool{}
	db := uint64(0)
	for i := rapid.IntRange(0, o.MaxObj).Draw(t, "objs"); i > 0; i-- {
		switch rapid.IntRange(0, 8).Draw(t, "rec") {
		case 3:
			if rapid.IntRange(0, 2).Draw(t, "mod") == 0 {
				f.Recs = append(f.Recs, Rec{Op: "modaux", N: rapid.SampledFrom([]uint64{1, 70000, 1 << 40, math.MaxUint64}).Draw(t, "id"), M: uint64(rapid.IntRange(1, 2).Draw(t, "when")), Form: rapid.IntRange(0, 2).Draw(t, "form")})
			}
		case 0:
			db = rapid.SampledFrom([]uint64{0, 1, 2, 15, 63, 64, 1000, uint64(pbt.Len(t, 70000))}).Draw(t, "db")
			f.Recs = append(f.Recs, Rec{Op: "select", N: db, Form: rapid.IntRange(0, 2).Draw(t, "form")})
		case 1:
			f.Recs = append(f.Recs, Rec{Op: "resize", N: rapid.SampledFrom([]uint64{0, 5, 64, 20000}).Draw(t, "size"), M: rapid.SampledFrom([]uint64{0, 5, 64}).Draw(t, "exps"), Form: rapid.IntRange(0, 2).Draw(t, "form")})
		case 2:
			aux()
		}
		k := Str{S: rapid.SampledFrom([]pbt.B{"k1", "k2", "", "\x00\xff", "12", "-300", "70000", "name"}).Draw(t, "key"), Form: rapid.SampledFrom([]int{0, 0, 4, 7}).Draw(t, "kform")}
		if rapid.IntRange(0, 3).Draw(t, "anykey") == 0 {
			k = GenStr(t, o.Small)
		}
		id := fmt.Sprint(db, "/", k.S)
		if used[id] {
			continue
		}
		used[id] = true
		f.Recs = append(f.Recs, genObj(t, k, o))
	}
	f.Tail = pbt.B(rapid.SampledFrom([]string{"", "\x00\x00\x00\x00\x00\x00\x00\x00", "12345678", "\xfe\x01\x00\x01k\x01v", "\xff"}).Draw(t, "tail"))
	return f
}

// ---- dataset ----

// Obj is a value: exactly one of the members according to Kind.
type Obj struct {
	Kind string
	S    string
	L    []string
	Set  map[string]bool
	Z    map[string]float64
	H    map[string]string
	Exp  string // absolute milliseconds, "" none
}

type Data map[string]*Obj // "db/key"

func ID(db int, key string) string { return strconv.Itoa(db) + "/" + key }

// Want is the dataset the file describes, with id and offset of the replication.
func (f File) Want() (d Data, id string, offset int) {
	d = Data{}
	db := 0
	for _, r := range f.Recs {
		switch r.Op {
		case "select":
			db = int(r.N)
		case "aux":
			switch r.K.S {
			case "repl-id":
				id = string(r.V.S)
			case "repl-offset":
				offset, _ = strconv.Atoi(string(r.V.S))
			}
		case "obj":
			o := &Obj{}
			r = r.full()
			switch r.Type {
			case TString:
				o.Kind, o.S = "string", string(r.V.S)
			case TList, TListZ, TQuick:
				o.Kind = "list"
				for _, s := range r.list() {
					o.L = append(o.L, string(s.S))
				}
			case TSet, TIntset:
				o.Kind, o.Set = "set", map[string]bool{}
				for _, s := range r.L {
					o.Set[string(s.S)] = true
				}
			case TZSet, TZSet2, TZSetZ:
				o.Kind, o.Z = "zset", map[string]float64{}
				for i, s := range r.L {
					o.Z[string(s.S)] = float64(r.X[i])
				}
			default:
				o.Kind, o.H = "hash", map[string]string{}
				for i := 0; i+1 < len(r.L); i += 2 {
					o.H[string(r.L[i].S)] = string(r.L[i+1].S)
				}
			}
			switch r.Exp {
			case "s":
				o.Exp = strconv.FormatInt(r.At*1000, 10)
			case "ms":
				o.Exp = strconv.FormatInt(r.At, 10)
			}
			d[ID(db, string(r.K.S))] = o
		}
	}
	return
}

// Exec runs a command as Redis would.
func (d Data) Exec(db int, a []string) error {
	name := strings.ToLower(a[0])
	if len(a) < 3 {
		return fmt.Errorf("%q has too few arguments", a)
	}
	id := ID(db, a[1])
	o := d[id]
	kind := func(k string) error {
		if o == nil {
			o = &Obj{Kind: k, Set: map[string]bool{}, Z: map[string]float64{}, H: map[string]string{}}
			d[id] = o
		}
		if o.Kind != k {
			return fmt.Errorf("%q on a %s", a, o.Kind)
		}
		return nil
	}
	switch name {
	case "set":
		if len(a) != 3 {
			return fmt.Errorf("unexpected arguments of %q", a)
		}
		d[id] = &Obj{Kind: "string", S: a[2]}
	case "rpush":
		if err := kind("list"); err != nil {
			return err
		}
		o.L = append(o.L, a[2:]...)
	case "lpush":
		if err := kind("list"); err != nil {
			return err
		}
		for _, v := range a[2:] {
			o.L = append([]string{v}, o.L...)
		}
	case "sadd":
		if err := kind("set"); err != nil {
			return err
		}
		for _, v := range a[2:] {
			o.Set[v] = true
		}
	case "zadd":
		if len(a)%2 != 0 {
			return fmt.Errorf("%q has an odd number of arguments", a)
		}
		if err := kind("zset"); err != nil {
			return err
		}
		for i := 2; i < len(a); i += 2 {
			f, err := strconv.ParseFloat(a[i], 64)
			if err != nil {
				return fmt.Errorf("%q: the score %q is no number", name, a[i])
			}
			o.Z[a[i+1]] = f
		}
	case "hset", "hmset":
		if len(a)%2 != 0 || len(a) < 4 {
			return fmt.Errorf("%q has an odd number of arguments", a)
		}
		if err := kind("hash"); err != nil {
			return err
		}
		for i := 2; i < len(a); i += 2 {
			o.H[a[i]] = a[i+1]
		}
	case "pexpireat", "expireat":
		if len(a) != 3 {
			return fmt.Errorf("unexpected arguments of %q", a)
		}
		n, err := strconv.ParseInt(a[2], 10, 64)
		if err != nil {
			return fmt.Errorf("%q: %v", a, err)
		}
		if o == nil {
			return fmt.Errorf("%q before the key exists", a)
		}
		if name == "expireat" {
			n *= 1000
		}
		o.Exp = strconv.FormatInt(n, 10)
	default:
		return fmt.Errorf("the command %q", a[0])
	}
	return nil
}

func (o *Obj) String() string {
	if o == nil {
		return "nothing"
	}
	var p []string
	switch o.Kind {
	case "string":
		p = append(p, pbt.Short(o.S))
	case "list":
		p = append(p, strconv.Itoa(len(o.L))+":")
		for i, s := range o.L {
			if i > 30 {
				p = append(p, "...")
				break
			}
			p = append(p, pbt.Short(s))
		}
	case "set":
		for s := range o.Set {
			p = append(p, pbt.Short(s))
		}
		sort.Strings(p)
	case "zset":
		for s, f := range o.Z {
			p = append(p, pbt.Short(s)+"="+strconv.FormatFloat(f, 'g', -1, 64))
		}
		sort.Strings(p)
	case "hash":
		for s, v := range o.H {
			p = append(p, pbt.Short(s)+"="+pbt.Short(v))
		}
		sort.Strings(p)
	}
	s := o.Kind + " " + strings.Join(p, " ")
	if o.Exp != "" {
		s += " @" + o.Exp
	}
	return s
}

// equal compares exactly.
func equal(a, b *Obj) bool {
	if a.Kind != b.Kind || a.Exp != b.Exp || a.S != b.S || len(a.L) != len(b.L) || len(a.Set) != len(b.Set) || len(a.Z) != len(b.Z) || len(a.H) != len(b.H) {
		return false
	}
	for i := range a.L {
		if a.L[i] != b.L[i] {
			return false
		}
	}
	for k := range a.Set {
		if !b.Set[k] {
			return false
		}
	}
	for k, f := range a.Z {
		if g, ok := b.Z[k]; !ok || g != f {
			return false
		}
	}
	for k, f := range a.H {
		if g, ok := b.H[k]; !ok || g != f {
			return false
		}
	}
	return true
}

// Diff describes the first difference.
func Diff(want, got Data) error {
	for id, w := range want {
		if g := got[id]; g == nil || !equal(w, g) {
			return fmt.Errorf("the key %s is %v, want %v", pbt.Short(id), g, w)
		}
	}
	for id, g := range got {
		if want[id] == nil {
			return fmt.Errorf("the key %s is %v, want nothing", pbt.Short(id), g)
		}
	}
	return nil
}

// Compact is the content of an object of a compact encoding.
func Compact(typ int, l []Str) []byte {
	switch typ {
	case TIntset:
		var n []int64
		for _, s := range l {
			x, _ := strconv.ParseInt(string(s.S), 10, 64)
			n = append(n, x)
		}
		sort.Slice(n, func(i, j int) bool { return n[i] < n[j] })
		return rdbw.Intset(n, 2)
	case TZipmap:
		var f []rdbw.ZField
		for i := 0; i+1 < len(l); i += 2 {
			f = append(f, rdbw.ZField{F: string(l[i].S), V: string(l[i+1].S), Free: l[i+1].Free})
		}
		return rdbw.Zipmap(f)
	}
	return rdbw.Ziplist(elems(l))
}

// Bytes writes a string.
func Bytes(s Str) []byte { return str(s) }
