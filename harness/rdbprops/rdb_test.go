package rdbprops

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"math"
	"sort"
	"strconv"
	"strings"
	"testing"

	"github.com/liujiangwei/xxcache/redis/intset"
	"github.com/liujiangwei/xxcache/redis/rdb"
	"github.com/liujiangwei/xxcache/redis/ziplist"
	"github.com/liujiangwei/xxcache/redis/zipmap"
	"pgregory.net/rapid"

	"verif/harness/cachekit"
	"verif/harness/pbt"
	"verif/harness/rdbw"
)

func TestMain(m *testing.M) { pbt.Main(m) }

// chopped delivers the bytes in pieces.
type chopped struct {
	b    []byte
	cuts []int
	i    int
}

func (c *chopped) Read(p []byte) (int, error) {
	if len(c.b) == 0 {
		return 0, io.EOF
	}
	n := len(c.b)
	if len(c.cuts) > 0 {
		n = min(n, c.cuts[c.i%len(c.cuts)])
		c.i++
	}
	n = copy(p, c.b[:n])
	c.b = c.b[n:]
	return n, nil
}

func reader(b []byte, cuts []int, size int) *bufio.Reader {
	return bufio.NewReaderSize(&chopped{b: b, cuts: cuts}, max(16, size))
}

// texts of all kinds, integers around the widths included
func text(t *rapid.T) string {
	switch rapid.IntRange(0, 9).Draw(t, "kind") {
	case 0, 1:
		return strconv.FormatInt(integer(t), 10)
	case 2:
		return string(cachekit.Val(t))
	case 3:
		return string(rapid.SliceOfN(rapid.Byte(), 0, 80).Draw(t, "bytes"))
	case 4: // around the widths of the length forms
		n := rapid.SampledFrom([]int{0, 1, 4, 15, 16, 17, 62, 63, 64, 65, 127, 128, 252, 253, 254, 255, 256, 4095, 4096, 4097, 16382, 16383, 16384, 16385, 20000, 70000}).Draw(t, "len")
		if rapid.Bool().Draw(t, "anylen") {
			n = pbt.Len(t, 70000)
		}
		return pattern(t, n)
	case 7:
		return string(pbt.DictText(t))
	case 5, 6:
		return pattern(t, rapid.IntRange(0, 3000).Draw(t, "plen"))
	}
	return rapid.StringMatching(`[a-z]{0,12}`).Draw(t, "word")
}

// pattern is a partly repetitive string of length n.
func pattern(t *rapid.T, n int) string {
	unit := rapid.SliceOfN(rapid.Byte(), 1, 40).Draw(t, "unit")
	every := rapid.IntRange(0, 50).Draw(t, "every")
	return fill(string(unit), n, every)
}

func fill(unit string, n, every int) string {
	b := bytes.Repeat([]byte(unit), n/len(unit)+1)[:n]
	x := uint32(len(unit))*2654435761 + uint32(every)
	if every > 0 {
		for i := every; i < n; i += every {
			x = x*1664525 + 1013904223
			b[i] = byte(x >> 24)
		}
	}
	return string(b)
}

func integer(t *rapid.T) int64 {
	switch rapid.IntRange(0, 3).Draw(t, "ikind") {
	case 0:
		return rapid.Int64Range(-20, 20).Draw(t, "i")
	case 1:
		w := rapid.SampledFrom([]uint{7, 8, 15, 16, 23, 24, 31, 32, 62, 63}).Draw(t, "w")
		d := rapid.Int64Range(-2, 2).Draw(t, "d")
		n := int64(1)<<w + d
		if rapid.Bool().Draw(t, "neg") {
			n = -n
		}
		return n
	case 2:
		return rapid.SampledFrom([]int64{math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MinInt64 + 1}).Draw(t, "i")
	}
	if rapid.Bool().Draw(t, "dict") {
		return pbt.DictInt(t)
	}
	return rapid.Int64().Draw(t, "i")
}

func score(t *rapid.T) float64 {
	switch rapid.IntRange(0, 5).Draw(t, "skind") {
	case 0:
		return rapid.SampledFrom([]float64{0, 1, -1, math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, math.Copysign(0, -1), 0.1, 1e21, 1e-7, 1 << 53, 9007199254740993}).Draw(t, "s")
	case 1:
		return float64(rapid.Int64Range(-1000, 1000).Draw(t, "n"))
	case 2:
		return float64(rapid.Int64Range(-100000, 100000).Draw(t, "q")) / 64
	case 3:
		return math.Float64frombits(rapid.Uint64().Draw(t, "bits"))
	}
	return rapid.Float64().Draw(t, "f")
}

func cuts(t *rapid.T) []int {
	return rapid.SampledFrom([][]int{nil, {1}, {2}, {3, 1}, {7}, {16, 1}, {4096}}).Draw(t, "cuts")
}

// item is one encoded scalar.
type item struct {
	Kind string `json:"kind"` // len, enc, str, text, bin, op
	N    uint64 `json:"n,omitempty"`
	S    pbt.B  `json:"s,omitempty"`
	X    pbt.F  `json:"x"`
	Form int    `json:"form,omitempty"`
	Fmt  string `json:"fmt,omitempty"`
}

type scalarCase struct {
	Items []item `json:"items"`
	Cuts  []int  `json:"cuts"`
	Size  int    `json:"size"`
	Tail  pbt.B  `json:"tail"`
}

func (it item) encode() []byte {
	switch it.Kind {
	case "len":
		return rdbw.Len(it.N, it.Form)
	case "enc":
		return []byte{0xc0 | byte(it.N)&0x3f}
	case "op":
		return []byte{byte(it.N)}
	case "str":
		b, _ := rdbw.Str(string(it.S), it.Form)
		return b
	case "text":
		prec := -1
		if it.Fmt == "g17" {
			prec = 17
		}
		return rdbw.Double(float64(it.X), it.Fmt[0], prec)
	case "bin":
		return rdbw.BinaryDouble(float64(it.X))
	}
	panic(it.Kind)
}

// load reads the item and returns it in a comparable form.
func (it item) load(r *bufio.Reader) (string, error) {
	f := func(f float64, err error) (string, error) {
		if f != f {
			return "NaN", err
		}
		return fmt.Sprintf("%x", math.Float64bits(f)), err
	}
	switch it.Kind {
	case "len", "enc":
		n, e, err := rdb.LoadLen(r)
		return fmt.Sprint(n, e), err
	case "op":
		n, err := rdb.LoadOpCode(r)
		return fmt.Sprint(n), err
	case "str":
		return rdb.LoadString(r)
	case "text":
		return f(rdb.LoadDouble(r))
	}
	return f(rdb.LoadBinaryDouble(r))
}

func (it item) want() string {
	f := float64(it.X)
	switch it.Kind {
	case "len":
		return fmt.Sprint(it.N, false)
	case "enc":
		return fmt.Sprint(it.N&0x3f, true)
	case "op":
		return fmt.Sprint(it.N & 0xff)
	case "str":
		return string(it.S)
	}
	if f != f {
		return "NaN"
	}
	return fmt.Sprintf("%x", math.Float64bits(f))
}

func genItem(t *rapid.T) item {
	switch rapid.IntRange(0, 9).Draw(t, "item") {
	case 0, 1:
		if rapid.IntRange(0, 3).Draw(t, "dict") == 3 {
			return item{Kind: "len", N: uint64(pbt.DictInt(t)), Form: rapid.IntRange(0, 3).Draw(t, "form")}
		}
		n := rapid.SampledFrom([]uint64{0, 1, 62, 63, 64, 65, 255, 256, 16382, 16383, 16384, 65535, 65536, 1<<24 + 7, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<40 + 3, 1<<63 - 1, 1 << 63, 1<<64 - 1, 0x0102030405060708, 0x01020304}).Draw(t, "n")
		if rapid.Bool().Draw(t, "rnd") {
			n = rapid.Uint64().Draw(t, "nr") >> rapid.UintRange(0, 63).Draw(t, "sh")
		}
		return item{Kind: "len", N: n, Form: rapid.IntRange(0, 3).Draw(t, "form")}
	case 2:
		return item{Kind: "enc", N: rapid.Uint64Range(0, 63).Draw(t, "n")}
	case 3:
		return item{Kind: "op", N: rapid.Uint64Range(0, 255).Draw(t, "n")}
	case 4:
		return item{Kind: "bin", X: pbt.F(score(t))}
	case 5:
		return item{Kind: "text", X: pbt.F(score(t)), Fmt: rapid.SampledFrom([]string{"g17", "g", "e", "f"}).Draw(t, "fmt")}
	}
	return item{Kind: "str", S: pbt.B(text(t)), Form: rapid.SampledFrom([]int{0, 1, 2, 3, 4, 4, 5, 6, 7, 7}).Draw(t, "form")}
}

// positions at which an encoding of n bytes is cut short
func truncations(n int) (l []int) {
	if n <= 64 {
		for i := 0; i < n; i++ {
			l = append(l, i)
		}
		return
	}
	for i := 0; i < 24; i++ {
		l = append(l, i, n-1-i)
	}
	for i := 24; i < n; i += n/20 + 1 {
		l = append(l, i)
	}
	return
}

// parCase is read by several goroutines at once.
type parCase struct {
	P [][]item `json:"p"`
}

func TestC13(t *testing.T) {
	pbt.Check(t, pbt.Spec[scalarCase]{
		ID: "C13", Name: "scalars", Quick: 60000, Thorough: 2500000,
		Rule: "1-6 lengths, strings, scores and op codes written by an independent encoder in every form, read back one after the other through a fragmented reader; each value must be exact, exactly its bytes consumed, and every cut of every single encoding (all positions up to 64 bytes, else about 70) must give an error; non-trivial: contains a string or score",
		Gen: func(t *rapid.T) scalarCase {
			return scalarCase{rapid.SliceOfN(rapid.Custom(genItem), 1, 6).Draw(t, "items"), cuts(t), rapid.SampledFrom([]int{16, 17, 64, 4096}).Draw(t, "size"),
				pbt.B(rapid.SliceOfN(rapid.Byte(), 0, 5).Draw(t, "tail"))}
		},
		Run: func(c scalarCase, r *pbt.Rec) error {
			var all []byte
			for _, it := range c.Items {
				all = append(all, it.encode()...)
			}
			all = append(all, c.Tail...)
			rd := reader(all, c.Cuts, c.Size)
			for i, it := range c.Items {
				got, err := it.load(rd)
				if err != nil || got != it.want() {
					return fmt.Errorf("item %d %s of form %d reads as %s, %v, want %s", i, it.Kind, it.Form, pbt.Short(got), err, pbt.Short(it.want()))
				}
				r.Label(true, "read "+it.Kind)
				if it.Kind == "str" {
					_, used := rdbw.Str(string(it.S), it.Form)
					r.Label(true, "string form "+strconv.Itoa(used))
				}
				r.NonTrivial(it.Kind == "str" || it.Kind == "text" || it.Kind == "bin")
			}
			rest, err := io.ReadAll(rd)
			if err != nil || string(rest) != string(c.Tail) {
				return fmt.Errorf("%d bytes are left after the last item, want %d", len(rest), len(c.Tail))
			}
			for i, it := range c.Items {
				b := it.encode()
				for _, n := range truncations(len(b)) {
					got, err := it.load(reader(b[:n], c.Cuts, c.Size))
					if err == nil {
						return fmt.Errorf("item %d %s cut to %d of %d bytes reads as %s", i, it.Kind, n, len(b), pbt.Short(got))
					}
				}
			}
			return nil
		},
	})
	pbt.Check(t, pbt.Spec[parCase]{
		ID: "C13", Name: "parallel", Quick: 1000, Thorough: 40000, Concurrent: true, Retries: 100,
		Rule: "2-6 sequences of 1-6 lengths, strings, scores and op codes, each read 40 to 2000 times (more if short) from readers of its own by as many goroutines at once; non-trivial: every sequence has a string or a length",
		Gen: func(t *rapid.T) parCase {
			one := genItem
			switch rapid.IntRange(0, 3).Draw(t, "alike") {
			case 0: // integers and short strings of one form
				form := rapid.IntRange(0, 7).Draw(t, "oneform")
				one = func(t *rapid.T) item {
					return item{Kind: "str", S: pbt.B(strconv.FormatInt(integer(t), 10)), Form: form}
				}
			case 1: // lengths of one form
				form := rapid.IntRange(0, 3).Draw(t, "oneform")
				one = func(t *rapid.T) item {
					return item{Kind: "len", N: rapid.Uint64().Draw(t, "n") >> rapid.UintRange(0, 63).Draw(t, "sh"), Form: form}
				}
			}
			return parCase{rapid.SliceOfN(rapid.SliceOfN(rapid.Custom(one), 1, 6), 2, 6).Draw(t, "p")}
		},
		Run: func(c parCase, r *pbt.Rec) error {
			all, every := make([][]byte, len(c.P)), true
			size := 0
			for i, l := range c.P {
				has := false
				for _, it := range l {
					all[i] = append(all[i], it.encode()...)
					has = has || it.Kind == "str" || it.Kind == "len"
				}
				every = every && has
				size += len(all[i])
			}
			r.NonTrivial(every)
			return pbt.Together(len(c.P), min(max(40, 100000/(size+1)), 2000), func(i int) error {
				rd := bufio.NewReaderSize(bytes.NewReader(all[i]), 16)
				for k, it := range c.P[i] {
					if got, err := it.load(rd); err != nil || got != it.want() {
						return fmt.Errorf("item %d %s of form %d reads as %s, %v, want %s", k, it.Kind, it.Form, pbt.Short(got), err, pbt.Short(it.want()))
					}
				}
				return nil
			})
		},
	})
	type longCase struct {
		Unit  pbt.B `json:"unit"`
		N     int   `json:"n"`
		Noise int   `json:"noise"` // every how many bytes the repetition is broken, 0 never
		Form  int   `json:"form"`
		Cut   int   `json:"cut"` // bytes missing in the second reading
		Size  int   `json:"size"`
	}
	pbt.Check(t, pbt.Spec[longCase]{
		ID: "C13", Name: "long", Quick: 600, Thorough: 20000,
		Rule: "strings of 64 KiB to 6 MiB in all forms: read back exactly, and with some bytes missing at the end an error; non-trivial: at least 1 MiB",
		Gen: func(t *rapid.T) longCase {
			return longCase{pbt.B(rapid.SliceOfN(rapid.Byte(), 1, 40).Draw(t, "unit")), 65536 << rapid.IntRange(0, 6).Draw(t, "sh") * rapid.IntRange(1024, 1536).Draw(t, "frac") / 1024,
				rapid.SampledFrom([]int{0, 3, 50, 5000}).Draw(t, "noise"), rapid.IntRange(0, 7).Draw(t, "form"), rapid.SampledFrom([]int{1, 2, 100, 40000}).Draw(t, "cut"), rapid.SampledFrom([]int{16, 4096, 65536}).Draw(t, "size")}
		},
		Run: func(c longCase, r *pbt.Rec) error {
			s := fill(string(c.Unit), c.N, c.Noise)
			b, used := rdbw.Str(s, c.Form)
			r.Label(true, "string form "+strconv.Itoa(used))
			r.NonTrivial(len(s) >= 1<<20)
			rd := bufio.NewReaderSize(bytes.NewReader(append(b[:len(b):len(b)], "tail"...)), c.Size)
			got, err := rdb.LoadString(rd)
			if err != nil || got != s {
				return fmt.Errorf("%d bytes of form %d read as %d bytes, %v", len(s), used, len(got), err)
			}
			if rest, _ := io.ReadAll(rd); string(rest) != "tail" {
				return fmt.Errorf("after %d bytes of form %d %d bytes are left, want 4", len(s), used, len(rest))
			}
			if c.Cut < len(b) {
				if got, err = rdb.LoadString(bufio.NewReaderSize(bytes.NewReader(b[:len(b)-c.Cut]), c.Size)); err == nil {
					return fmt.Errorf("%d bytes of form %d, %d bytes missing, read as %d bytes", len(s), used, c.Cut, len(got))
				}
			}
			return nil
		},
	})
	type badCase struct {
		B    pbt.B  `json:"b"`
		Kind string `json:"kind"`
		Cuts []int  `json:"cuts"`
	}
	pbt.Check(t, pbt.Spec[badCase]{
		ID: "C13", Name: "unknown", Quick: 40000, Thorough: 1500000,
		Rule: "lengths with an unknown first byte, strings with an unknown special encoding, strings and scores announcing more than follows (up to the largest 64-bit length), score texts that are no number, each followed by arbitrary bytes: all must give an error; every case is non-trivial",
		Gen: func(t *rapid.T) badCase {
			tail := rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "tail")
			c := badCase{Cuts: cuts(t)}
			var b []byte
			switch rapid.IntRange(0, 5).Draw(t, "what") {
			case 0:
				c.Kind = rapid.SampledFrom([]string{"len", "str"}).Draw(t, "k")
				b = append([]byte{byte(rapid.IntRange(0x82, 0xbf).Draw(t, "first"))}, tail...)
			case 1:
				c.Kind = "str"
				b = append([]byte{byte(rapid.IntRange(0xc4, 0xff).Draw(t, "first"))}, tail...)
			case 2:
				c.Kind = "str"
				n := uint64(len(tail)) + 1 + rapid.Uint64Range(0, 1<<62).Draw(t, "n")>>rapid.UintRange(0, 62).Draw(t, "sh")
				if rapid.IntRange(0, 3).Draw(t, "huge") == 0 {
					n = rapid.SampledFrom([]uint64{1<<64 - 1, 1 << 63, 1<<63 - 1, 1 << 40, 1 << 32, 1<<31 - 1}).Draw(t, "hn")
				}
				b = append(rdbw.Len(n, rapid.IntRange(0, 3).Draw(t, "form")), tail...)
			case 3: // compressed string announcing more than follows
				c.Kind = "str"
				n := uint64(len(tail)) + 1 + rapid.Uint64Range(0, 1<<62).Draw(t, "n")>>rapid.UintRange(0, 62).Draw(t, "sh")
				ul := rapid.Uint64().Draw(t, "ul") >> rapid.UintRange(0, 63).Draw(t, "ush")
				b = append([]byte{0xc3}, rdbw.Len(n, 0)...)
				b = append(append(b, rdbw.Len(ul, 0)...), tail...)
			case 4:
				c.Kind = "text"
				n := rapid.IntRange(len(tail)+1, 252).Draw(t, "n")
				b = append([]byte{byte(n)}, tail...)
			default:
				c.Kind = "text"
				s := rapid.SampledFrom([]string{"", "x", "1.2.3", "--1", "1e", "abc", " ", "1 2", "\x00", "1\x00"}).Draw(t, "s")
				b = append([]byte{byte(len(s))}, s...)
			}
			c.B = pbt.B(b)
			return c
		},
		Run: func(c badCase, r *pbt.Rec) error {
			got, err := item{Kind: c.Kind}.load(reader([]byte(c.B), c.Cuts, 16))
			if err == nil {
				return fmt.Errorf("%s reads %s as %s", c.Kind, pbt.Short(string(c.B)), pbt.Short(got))
			}
			r.Label(true, c.Kind)
			r.NonTrivial(true)
			return nil
		},
	})
}

type zelem struct {
	S    pbt.B `json:"s"`
	Form int   `json:"form"`
	Big  bool  `json:"big,omitempty"`
}

type zipCase struct {
	L   []zelem `json:"l"`
	Rep int     `json:"rep"` // the list is repeated
}

func genZelem(t *rapid.T) zelem {
	e := zelem{Form: rapid.SampledFrom([]int{0, 0, 1, 2, 3, 3, 4, 5, 6, 7, 8}).Draw(t, "form"), Big: rapid.IntRange(0, 5).Draw(t, "big") == 0}
	if e.Form >= 3 && rapid.IntRange(0, 5).Draw(t, "int") > 0 {
		n := integer(t)
		if rapid.IntRange(0, 2).Draw(t, "imm") == 0 {
			n = rapid.Int64Range(-2, 14).Draw(t, "n")
		}
		e.S = pbt.B(strconv.FormatInt(n, 10))
	} else {
		e.S = pbt.B(text(t))
	}
	return e
}

func quote(l []string) string {
	var p []string
	for _, s := range l {
		p = append(p, pbt.Short(s))
	}
	return "[" + strings.Join(p, " ") + "]"
}

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func TestC14(t *testing.T) {
	pbt.Check(t, pbt.Spec[zipCase]{
		ID: "C14", Name: "ziplist", Quick: 80000, Thorough: 3000000,
		Rule: "lists of up to 12 elements (repeated up to 6000 times in some cases), strings with 6, 14 and 32 bit headers and integers of every width, with short and long previous-length fields, written by an independent encoder; decoding must give exactly the elements; non-trivial: at least 2 elements",
		Gen: func(t *rapid.T) zipCase {
			rep := 1
			if rapid.IntRange(0, 199).Draw(t, "many") == 0 {
				rep = rapid.SampledFrom([]int{30, 300, 6000}).Draw(t, "rep")
				if rapid.Bool().Draw(t, "anylen") {
					rep = pbt.Len(t, 6000)
				}
			}
			return zipCase{rapid.SliceOfN(rapid.Custom(genZelem), 0, 12).Draw(t, "l"), rep}
		},
		Run: func(c zipCase, r *pbt.Rec) error {
			var l []rdbw.Elem
			var want []string
			size := 0
			for i := 0; i < c.Rep && size < 4<<20; i++ {
				for _, e := range c.L {
					l = append(l, rdbw.Elem{S: string(e.S), Form: e.Form, Big: e.Big})
					want = append(want, string(e.S))
					size += len(e.S) + 12
				}
			}
			got := ziplist.Load(string(rdbw.Ziplist(l)))
			if !same(got, want) {
				if len(want) > 20 {
					return fmt.Errorf("%d elements decode to %d or differ", len(want), len(got))
				}
				return fmt.Errorf("decodes to %s, want %s", quote(got), quote(want))
			}
			for _, e := range c.L {
				r.Label(true, "form "+strconv.Itoa(e.Form))
				r.Label(e.Big || len(e.S) >= 250, "long previous-length field")
			}
			r.Label(len(want) >= 65535, "more than 65534 elements")
			r.NonTrivial(len(want) >= 2)
			return nil
		},
	})
	type setCase struct {
		L     []int64 `json:"l"`
		Width int     `json:"width"`
		More  int     `json:"more,omitempty"` // members behind the last one
	}
	pbt.Check(t, pbt.Spec[setCase]{
		ID: "C14", Name: "intset", Quick: 80000, Thorough: 3000000,
		Rule: "sorted sets of up to 40 (a tenth of them up to 3000, some 140000) signed integers in 16, 32 and 64 bit width; decoding must give exactly the members in order; non-trivial: a negative and a positive member",
		Gen: func(t *rapid.T) setCase {
			w := rapid.SampledFrom([]int{2, 4, 8}).Draw(t, "w")
			l := rapid.SliceOfNDistinct(rapid.Custom(func(t *rapid.T) int64 {
				n := integer(t)
				if w < 8 && rapid.IntRange(0, 9).Draw(t, "clip") > 0 {
					n = n << (64 - 8*w) >> (64 - 8*w)
				}
				return n
			}), 0, 40, rapid.ID[int64]).Draw(t, "l")
			if rapid.IntRange(0, 9).Draw(t, "many") == 0 { // more members, up to what Redis allows by default and beyond
				in := map[int64]bool{}
				for _, n := range l {
					in[n] = true
				}
				start, step := rapid.Int64Range(-3000, 3000).Draw(t, "start"), rapid.Int64Range(1, 5).Draw(t, "step")
				for n := pbt.Len(t, 3000); n > 0; n-- {
					if !in[start] {
						l = append(l, start)
					}
					start += step
				}
			}
			sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
			more := 0
			if rapid.IntRange(0, 399).Draw(t, "huge") == 399 && len(l) > 0 && l[len(l)-1] < 1<<40 {
				more = rapid.SampledFrom([]int{32767, 65534, 65535, 65536, 70000, 140000}).Draw(t, "more")
			}
			return setCase{l, w, more}
		},
		Run: func(c setCase, r *pbt.Rec) error {
			c.L = append([]int64(nil), c.L...)
			for i := 0; i < c.More; i++ {
				c.L = append(c.L, c.L[len(c.L)-1]+1)
			}
			b := rdbw.Intset(c.L, c.Width)
			got := intset.Load(string(b))
			if fmt.Sprint(got) != fmt.Sprint(c.L) {
				return fmt.Errorf("%d members decode to %s, want %s", len(c.L), pbt.Short(fmt.Sprint(got)), pbt.Short(fmt.Sprint(c.L)))
			}
			r.Label(len(c.L) > 65535, "more than 65535 members")
			r.Label(true, "width "+strconv.Itoa(int(b[0])))
			r.NonTrivial(len(c.L) >= 2 && c.L[0] < 0 && c.L[len(c.L)-1] > 0)
			return nil
		},
	})
	type zf struct {
		F    pbt.B `json:"f"`
		V    pbt.B `json:"v"`
		Free int   `json:"free,omitempty"`
	}
	type mapCase struct {
		L []zf `json:"l"`
		N int  `json:"n"` // more fields are added
	}
	pbt.Check(t, pbt.Spec[mapCase]{
		ID: "C14", Name: "zipmap", Quick: 60000, Thorough: 2000000,
		Rule: "zipmaps of up to 8 (some up to 3000) distinct fields, short and long fields and values, 0-255 free bytes; decoding must give exactly the fields; non-trivial: at least 2 fields",
		Gen: func(t *rapid.T) mapCase {
			l := rapid.SliceOfNDistinct(rapid.Custom(func(t *rapid.T) zf {
				z := zf{F: pbt.B(text(t)), V: pbt.B(text(t))}
				if rapid.IntRange(0, 2).Draw(t, "hasfree") == 0 {
					z.Free = rapid.SampledFrom([]int{1, 2, 3, 4, 10, 253, 254, 255}).Draw(t, "free")
				}
				return z
			}), 0, 8, func(z zf) pbt.B { return z.F }).Draw(t, "l")
			n := 0
			if rapid.IntRange(0, 30).Draw(t, "many") == 0 {
				n = rapid.SampledFrom([]int{240, 250, 253, 254, 255, 256, 300}).Draw(t, "n")
				if rapid.Bool().Draw(t, "anylen") {
					n = pbt.Len(t, 3000)
				}
			}
			return mapCase{l, n}
		},
		Run: func(c mapCase, r *pbt.Rec) error {
			var l []rdbw.ZField
			want := map[string]string{}
			for _, z := range c.L {
				l = append(l, rdbw.ZField{F: string(z.F), V: string(z.V), Free: z.Free})
				want[string(z.F)] = string(z.V)
			}
			for i := 0; i < c.N; i++ {
				k := "field#" + strconv.Itoa(i)
				l = append(l, rdbw.ZField{F: k, V: "v"})
				want[k] = "v"
			}
			got := zipmap.Load(string(rdbw.Zipmap(l)))
			if len(got) != len(want) {
				return fmt.Errorf("decodes to %d fields, want %d", len(got), len(want))
			}
			for f, v := range want {
				if g, ok := got[f]; !ok || g != v {
					return fmt.Errorf("field %s decodes to %s, %v, want %s", pbt.Short(f), pbt.Short(g), ok, pbt.Short(v))
				}
			}
			for _, z := range c.L {
				r.Label(len(z.F) > 253 || len(z.V) > 253, "long field or value")
				r.Label(z.Free > 0, "free space")
			}
			r.NonTrivial(len(want) >= 2)
			return nil
		},
	})
	type part struct {
		Z     []zelem `json:"z,omitempty"`
		I     []int64 `json:"i,omitempty"`
		Width int     `json:"width,omitempty"`
		M     []zf    `json:"m,omitempty"`
	}
	type parCase struct {
		P []part `json:"p"`
	}
	pbt.Check(t, pbt.Spec[parCase]{
		ID: "C14", Name: "parallel", Quick: 1600, Thorough: 60000, Concurrent: true, Retries: 100,
		Rule: "2-6 lists, integer sets and zipmaps, each decoded 20 times by as many goroutines at once; non-trivial: at least two have 2 elements",
		Gen: func(t *rapid.T) parCase {
			kind := rapid.IntRange(0, 3).Draw(t, "kinds")
			return parCase{rapid.SliceOfN(rapid.Custom(func(t *rapid.T) (p part) {
				k := kind
				if k == 3 {
					k = rapid.IntRange(0, 2).Draw(t, "kind")
				}
				switch k {
				case 0:
					p.Z = rapid.SliceOfN(rapid.Custom(genZelem), 1, 12).Draw(t, "z")
				case 1:
					p.I = rapid.SliceOfNDistinct(rapid.Custom(integer), 1, 20, rapid.ID[int64]).Draw(t, "i")
					sort.Slice(p.I, func(i, j int) bool { return p.I[i] < p.I[j] })
					p.Width = rapid.SampledFrom([]int{2, 4, 8}).Draw(t, "w")
				default:
					p.M = rapid.SliceOfNDistinct(rapid.Custom(func(t *rapid.T) zf {
						return zf{F: pbt.B(text(t)), V: pbt.B(text(t)), Free: rapid.IntRange(0, 4).Draw(t, "free")}
					}), 1, 8, func(z zf) pbt.B { return z.F }).Draw(t, "m")
				}
				return p
			}), 2, 6).Draw(t, "p")}
		},
		Run: func(c parCase, r *pbt.Rec) error {
			enc, want := make([]string, len(c.P)), make([]string, len(c.P))
			two := 0
			for i, p := range c.P {
				switch {
				case p.Z != nil:
					var l []rdbw.Elem
					var s []string
					for _, e := range p.Z {
						l = append(l, rdbw.Elem{S: string(e.S), Form: e.Form, Big: e.Big})
						s = append(s, string(e.S))
					}
					enc[i], want[i] = string(rdbw.Ziplist(l)), fmt.Sprintf("%q", s)
				case p.I != nil:
					enc[i], want[i] = string(rdbw.Intset(p.I, p.Width)), fmt.Sprint(p.I)
				default:
					var l []rdbw.ZField
					m := map[string]string{}
					for _, z := range p.M {
						l = append(l, rdbw.ZField{F: string(z.F), V: string(z.V), Free: z.Free})
						m[string(z.F)] = string(z.V)
					}
					enc[i], want[i] = string(rdbw.Zipmap(l)), fmt.Sprintf("%q", m)
				}
				if len(p.Z)+len(p.I)+len(p.M) >= 2 {
					two++
				}
			}
			r.NonTrivial(two >= 2)
			return pbt.Together(len(c.P), 20, func(i int) error {
				var got string
				switch p := c.P[i]; {
				case p.Z != nil:
					got = fmt.Sprintf("%q", ziplist.Load(enc[i]))
				case p.I != nil:
					got = fmt.Sprint(intset.Load(enc[i]))
				default:
					got = fmt.Sprintf("%q", zipmap.Load(enc[i]))
				}
				if got != want[i] {
					return fmt.Errorf("decodes to %s, want %s", pbt.Short(got), pbt.Short(want[i]))
				}
				return nil
			})
		},
	})
}
