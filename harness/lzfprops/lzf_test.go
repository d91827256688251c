package lzfprops

import (
	"bytes"
	"fmt"
	"math"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/liujiangwei/xxcache/redis/lzf"
	"pgregory.net/rapid"

	"verif/harness/pbt"
	"verif/harness/rdbw"
)

func TestMain(m *testing.M) { pbt.Main(m) }

// piece of a string: bytes repeated, optionally with noise.
type piece struct {
	Unit  pbt.B `json:"unit"`
	Rep   int   `json:"rep"`
	Noise int   `json:"noise,omitempty"` // every Noise-th byte is replaced
	Copy  int   `json:"copy,omitempty"`  // instead: repeat what was written Copy bytes ago, Rep bytes of it
}

func build(ps []piece) string {
	var b []byte
	x := uint32(12345)
	for _, p := range ps {
		if p.Copy > 0 && len(b) > 0 {
			off := min(p.Copy, len(b))
			for i := 0; i < p.Rep && len(b) < 1<<20; i++ {
				b = append(b, b[len(b)-off])
			}
			continue
		}
		y := bytes.Repeat([]byte(p.Unit), p.Rep)
		if p.Noise > 0 {
			for i := 0; i < len(y); i += p.Noise {
				x = x*1664525 + 1013904223
				y[i] = byte(x >> 23)
			}
		}
		if len(b)+len(y) < 1<<20 {
			b = append(b, y...)
		}
	}
	return string(b)
}

func genPieces(t *rapid.T) []piece {
	return rapid.SliceOfN(rapid.Custom(func(t *rapid.T) piece {
		p := piece{Rep: 1}
		switch rapid.IntRange(0, 5).Draw(t, "kind") {
		case 4:
			p.Unit = pbt.DictText(t)
			p.Rep = pbt.Len(t, 20000)
			p.Noise = pbt.Len(t, 300)
		case 0:
			p.Unit = pbt.B(rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "unit"))
		case 1:
			p.Unit = pbt.B(rapid.StringMatching(`[ab]{1,30}`).Draw(t, "unit"))
		case 2:
			p.Unit = pbt.B(rapid.SliceOfN(rapid.Byte(), 1, 4).Draw(t, "unit"))
			p.Rep = rapid.SampledFrom([]int{2, 3, 5, 31, 32, 33, 64, 87, 88, 89, 132, 263, 264, 265, 266, 528, 1000, 4096, 8191, 8192, 8193}).Draw(t, "rep")
			p.Noise = rapid.SampledFrom([]int{0, 0, 1, 2, 5, 33, 300}).Draw(t, "noise")
		case 3:
			p.Copy = rapid.SampledFrom([]int{1, 2, 3, 255, 256, 257, 8190, 8191, 8192, 8193, 8194, 20000}).Draw(t, "copy")
			p.Rep = rapid.SampledFrom([]int{1, 2, 3, 4, 8, 9, 10, 263, 264, 265, 300, 1000}).Draw(t, "len")
			if rapid.IntRange(0, 3).Draw(t, "anylen") == 3 {
				p.Copy, p.Rep = max(1, pbt.Len(t, 20000)), pbt.Len(t, 3000)
			}
		default:
			p.Unit = pbt.B(rapid.StringMatching(`[a-z ]{0,60}`).Draw(t, "unit"))
		}
		return p
	}), 0, 8).Draw(t, "pieces")
}

func roundTrip(s string) error {
	c := lzf.Compress(s)
	if len(c) > len(s) {
		return fmt.Errorf("%s of %d bytes is compressed to %d", pbt.Short(s), len(s), len(c))
	}
	if d := lzf.DeCompress(c, len(s)); d != s {
		return fmt.Errorf("%s (%d bytes) comes back as %s (%d bytes)", pbt.Short(s), len(s), pbt.Short(d), len(d))
	}
	if len(c) < len(s) {
		if d, ok := rdbw.Decode([]byte(c)); !ok || string(d) != s {
			return fmt.Errorf("the compressed form of %s is no LZF stream of it", pbt.Short(s))
		}
	} else if c != s {
		return fmt.Errorf("%s is neither compressed nor kept", pbt.Short(s))
	}
	return nil
}

type tok struct {
	Lit pbt.B `json:"lit,omitempty"`
	Off int   `json:"off,omitempty"`
	N   int   `json:"n,omitempty"`
}

func genToks(t *rapid.T) []tok {
	return rapid.SliceOfN(rapid.Custom(func(t *rapid.T) tok {
		if rapid.IntRange(0, 2).Draw(t, "lit") == 0 {
			n := rapid.SampledFrom([]int{1, 2, 3, 5, 31, 32, 33, 64, 300}).Draw(t, "n")
			u := rapid.SliceOfN(rapid.Byte(), 1, 8).Draw(t, "u")
			return tok{Lit: pbt.B(bytes.Repeat(u, n/len(u)+1)[:n])}
		}
		n := rapid.IntRange(3, 264).Draw(t, "len")
		if rapid.Bool().Draw(t, "edge") {
			n = rapid.SampledFrom([]int{3, 4, 7, 8, 9, 10, 263, 264}).Draw(t, "n")
		}
		off := rapid.IntRange(1, 8192).Draw(t, "off")
		if rapid.Bool().Draw(t, "near") {
			off = rapid.SampledFrom([]int{1, 2, 3, 4, 10, 255, 256, 257, 512, 8191, 8192}).Draw(t, "o")
		}
		return tok{Off: off, N: n}
	}), 1, 60).Draw(t, "toks")
}

func stream(ts []tok) (b, content []byte) {
	l := []rdbw.Tok{{Lit: "s"}}
	for _, x := range ts {
		l = append(l, rdbw.Tok{Lit: string(x.Lit), Off: x.Off, N: x.N})
	}
	return rdbw.Encode(l)
}

func TestC15(t *testing.T) {
	type rtCase struct {
		P []piece `json:"p"`
	}
	pbt.Check(t, pbt.Spec[rtCase]{
		ID: "C15", Name: "roundtrip", Quick: 60000, Thorough: 2500000,
		Rule: "strings built of random, repetitive, noisy and self-copying pieces (up to 1 MiB, distances and lengths around the format's limits), compressed and decompressed under the address sanitizer; the compressed form must not be longer and must be a stream an independent decoder reads; non-trivial: longer than 4 bytes",
		Gen:  func(t *rapid.T) rtCase { return rtCase{genPieces(t)} },
		Run: func(c rtCase, r *pbt.Rec) error {
			s := build(c.P)
			r.NonTrivial(len(s) > 4)
			r.Label(len(s) == 0, "empty")
			if l := len(lzf.Compress(s)); l < len(s) {
				r.Label(true, "compressible")
			} else {
				r.Label(true, "incompressible")
			}
			return roundTrip(s)
		},
	})
	type largeCase struct {
		P     []piece `json:"p"`
		Times int     `json:"times"` // the pieces' string so many times, a counter between
		Tail  []piece `json:"tail"`
	}
	pbt.Check(t, pbt.Spec[largeCase]{
		ID: "C15", Name: "large", Quick: 60, Thorough: 2500, Timeout: 2 * time.Minute,
		Rule: "strings of up to 40 MB built of many copies of a string of 'roundtrip' and a different end, compressed and decompressed; non-trivial: longer than 1 MB",
		Gen: func(t *rapid.T) largeCase {
			c := largeCase{P: genPieces(t), Tail: genPieces(t)}
			c.Times = 1 << rapid.IntRange(0, 25).Draw(t, "pow")
			if n := len(build(c.P)) + 8; c.Times*n > 40<<20 {
				c.Times = 40 << 20 / n
			}
			return c
		},
		Run: func(c largeCase, r *pbt.Rec) error {
			unit := build(c.P)
			var b strings.Builder
			for i := 0; i < c.Times; i++ {
				b.WriteString(unit)
				b.WriteString(strconv.Itoa(i * 7919))
			}
			b.WriteString(build(c.Tail))
			s := b.String()
			r.NonTrivial(len(s) > 1<<20)
			r.Label(len(s) > 1<<24, "longer than 16 MiB")
			return roundTrip(s)
		},
	})
	type tokCase struct {
		T []tok `json:"t"`
	}
	pbt.Check(t, pbt.Spec[tokCase]{
		ID: "C15", Name: "foreign", Quick: 60000, Thorough: 2500000,
		Rule: "LZF streams written token by token by an independent encoder (literal runs of 1-32, copies of 3-264 bytes from 1-8192 back, overlapping ones included), decompressed under the address sanitizer; the content must be exact (streams exactly as long as their content are left out); non-trivial: contains a copy",
		Gen:  func(t *rapid.T) tokCase { return tokCase{genToks(t)} },
		Run: func(c tokCase, r *pbt.Rec) error {
			b, content := stream(c.T)
			if len(b) == len(content) {
				return nil
			}
			if d := lzf.DeCompress(string(b), len(content)); d != string(content) {
				return fmt.Errorf("stream %q of %d bytes decompresses to %s (%d bytes)", b, len(content), pbt.Short(d), len(d))
			}
			for _, x := range c.T {
				r.NonTrivial(x.Off > 0)
				r.Label(x.Off == 1, "overlapping copy")
				r.Label(x.Off > 255, "far copy")
			}
			return nil
		},
	})
	type junkCase struct {
		B   pbt.B `json:"b"`
		T   []tok `json:"t"`
		Cut int   `json:"cut"` // bytes cut off at the end
		At  int   `json:"at"`  // changed byte
		X   byte  `json:"x"`
		Len int64 `json:"len"`
		Rel bool  `json:"rel"` // Len is relative to the true length
	}
	pbt.Check(t, pbt.Spec[junkCase]{
		ID: "C15", Name: "damaged", Quick: 80000, Thorough: 3000000,
		Rule: "arbitrary bytes, and valid streams cut short, with a byte changed or with a wrong announced length, decompressed with any length (negative, zero, too short, too long, huge) under the address sanitizer: it returns and touches nothing outside its buffers; valid results must still be exact; non-trivial: not empty",
		Gen: func(t *rapid.T) junkCase {
			var c junkCase
			if rapid.IntRange(0, 2).Draw(t, "junk") == 0 {
				c.B = pbt.B(rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "b"))
			} else {
				c.T = genToks(t)
				c.Cut = rapid.SampledFrom([]int{0, 0, 1, 2, 3, 10}).Draw(t, "cut")
				c.At = rapid.IntRange(0, 400).Draw(t, "at")
				if rapid.Bool().Draw(t, "flip") {
					c.X = rapid.Byte().Draw(t, "x")
				}
			}
			c.Rel = rapid.Bool().Draw(t, "rel")
			if c.Rel {
				c.Len = rapid.Int64Range(-40, 40).Draw(t, "dl")
			} else {
				c.Len = rapid.SampledFrom([]int64{math.MinInt64, -1, 0, 1, 2, 3, 10, 39, 40, 41, 264, 1000, 100000, 1 << 31, 1<<32 + 5, 1 << 40, math.MaxInt64}).Draw(t, "len")
			}
			return c
		},
		Bytes: func(b []byte) junkCase {
			if len(b) == 0 {
				return junkCase{}
			}
			return junkCase{B: pbt.B(b[1:]), Rel: true, Len: int64(int8(b[0])) * int64(int8(b[0]))}
		},
		Seed: func(c junkCase) []byte {
			if len(c.T) == 0 {
				return append([]byte{1}, c.B...)
			}
			b, d := stream(c.T)
			n := 0
			for n*n < len(d) && n < 127 {
				n++
			}
			return append([]byte{byte(n)}, b...)
		},
		Run: func(c junkCase, r *pbt.Rec) error {
			b := []byte(c.B)
			content := len(b)
			if len(c.T) > 0 {
				s, d := stream(c.T)
				content = len(d)
				b = s[:max(0, len(s)-c.Cut)]
				if len(b) > 0 {
					b[c.At%len(b)] ^= c.X
				}
			}
			n := c.Len
			if c.Rel {
				n += int64(content)
			}
			d := lzf.DeCompress(string(b), int(n))
			if want, ok := rdbw.Decode(b); ok && int64(len(want)) == n && len(b) != len(want) && n > 0 && d != string(want) {
				return fmt.Errorf("valid stream %q decompresses to %s, want %s", b, pbt.Short(d), pbt.Short(string(want)))
			}
			r.NonTrivial(len(b) > 0)
			return nil
		},
	})
	type parCase struct {
		P [][]piece `json:"p"`
	}
	pbt.Check(t, pbt.Spec[parCase]{
		ID: "C15", Name: "parallel", Quick: 3000, Thorough: 100000, Concurrent: true, Retries: 100,
		Rule: "2-6 strings compressed and decompressed by as many goroutines at once, each must come back; non-trivial: at least one is longer than 4 bytes",
		Gen: func(t *rapid.T) parCase {
			return parCase{rapid.SliceOfN(rapid.Custom(genPieces), 2, 6).Draw(t, "p")}
		},
		Run: func(c parCase, r *pbt.Rec) error {
			var wg sync.WaitGroup
			errs := make([]error, len(c.P))
			for i, p := range c.P {
				s := build(p)
				r.NonTrivial(len(s) > 4)
				wg.Add(1)
				go func() {
					defer wg.Done()
					for k := 0; k < 5 && errs[i] == nil; k++ {
						errs[i] = roundTrip(s + strings.Repeat("x", k))
					}
				}()
			}
			wg.Wait()
			for _, e := range errs {
				if e != nil {
					return e
				}
			}
			return nil
		},
	})
}
