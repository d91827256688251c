// Package rdbw writes the Redis snapshot format: an encoder independent of the code under test.
package rdbw

import (
	"encoding/binary"
	"math"
	"strconv"
)

// Len writes a length in the form of at least the wanted width (0: 6 bit, 1: 14, 2: 32, 3: 64).
func Len(n uint64, form int) []byte {
	switch {
	case n < 1<<6 && form <= 0:
		return []byte{byte(n)}
	case n < 1<<14 && form <= 1:
		return []byte{0x40 | byte(n>>8), byte(n)}
	case n < 1<<32 && form <= 2:
		return binary.BigEndian.AppendUint32([]byte{0x80}, uint32(n))
	}
	return binary.BigEndian.AppendUint64([]byte{0x81}, n)
}

// Forms of a string.
const (
	Raw = iota
	Raw14
	Raw32
	Raw64
	Int
	Int16
	Int32
	LZF
	NForms
)

// CanonInt parses a canonical decimal 32 bit integer.
func CanonInt(s string) (int64, bool) {
	n, err := strconv.ParseInt(s, 10, 32)
	return n, err == nil && strconv.FormatInt(n, 10) == s
}

// Str writes a string in the wanted form if it has it, raw otherwise. used is the form written.
func Str(s string, form int) (b []byte, used int) {
	switch form {
	case Int, Int16, Int32:
		n, ok := CanonInt(s)
		if !ok {
			break
		}
		switch {
		case form == Int && n >= math.MinInt8 && n <= math.MaxInt8:
			return []byte{0xc0, byte(n)}, Int
		case form <= Int16 && n >= math.MinInt16 && n <= math.MaxInt16:
			return []byte{0xc1, byte(n), byte(n >> 8)}, Int16
		}
		return binary.LittleEndian.AppendUint32([]byte{0xc2}, uint32(int32(n))), Int32
	case LZF:
		c := Compress(s)
		if len(c) >= len(s) {
			break
		}
		b = append([]byte{0xc3}, Len(uint64(len(c)), 0)...)
		b = append(b, Len(uint64(len(s)), 0)...)
		return append(b, c...), LZF
	}
	if form > Raw64 {
		form = Raw
	}
	return append(Len(uint64(len(s)), form), s...), form
}

// Double writes the text form of a score.
func Double(f float64, fmt byte, prec int) []byte {
	switch {
	case math.IsNaN(f):
		return []byte{253}
	case math.IsInf(f, 1):
		return []byte{254}
	case math.IsInf(f, -1):
		return []byte{255}
	}
	s := strconv.FormatFloat(f, fmt, prec, 64)
	if len(s) > 252 {
		s = strconv.FormatFloat(f, 'g', 17, 64)
	}
	return append([]byte{byte(len(s))}, s...)
}

// BinaryDouble writes the binary form.
func BinaryDouble(f float64) []byte {
	return binary.LittleEndian.AppendUint64(nil, math.Float64bits(f))
}

// ---- LZF ----

// Tok is an LZF token: a literal run, or a copy of N bytes from Off bytes back.
type Tok struct {
	Lit string
	Off int
	N   int
}

// Encode writes tokens, leaving out what the format cannot express, and returns the content too.
func Encode(toks []Tok) (stream, content []byte) {
	for _, t := range toks {
		if t.Lit != "" {
			for l := t.Lit; l != ""; {
				n := min(len(l), 32)
				stream = append(stream, byte(n-1))
				stream = append(stream, l[:n]...)
				l = l[n:]
			}
			content = append(content, t.Lit...)
			continue
		}
		off := min(t.Off, len(content), 8192)
		n := min(t.N, 264)
		if off < 1 || n < 3 {
			continue
		}
		if n-2 < 7 {
			stream = append(stream, byte((n-2)<<5|(off-1)>>8), byte(off-1))
		} else {
			stream = append(stream, byte(7<<5|(off-1)>>8), byte(n-2-7), byte(off-1))
		}
		for i := 0; i < n; i++ {
			content = append(content, content[len(content)-off])
		}
	}
	return
}

// Compress is a greedy LZF compressor.
func Compress(s string) []byte {
	var toks []Tok
	last := map[string]int{}
	lit := 0
	for i := 0; i < len(s); {
		if i+3 <= len(s) {
			p, ok := last[s[i:i+3]]
			last[s[i:i+3]] = i
			if ok && i-p <= 8192 {
				n := 3
				for n < 264 && i+n < len(s) && s[p+n] == s[i+n] {
					n++
				}
				if lit < i {
					toks = append(toks, Tok{Lit: s[lit:i]})
				}
				toks = append(toks, Tok{Off: i - p, N: n})
				i += n
				lit = i
				continue
			}
		}
		i++
	}
	if lit < len(s) {
		toks = append(toks, Tok{Lit: s[lit:]})
	}
	b, _ := Encode(toks)
	return b
}

// Decode is the reference decompressor; ok tells whether the stream is valid.
func Decode(b []byte) (out []byte, ok bool) {
	for i := 0; i < len(b); {
		c := int(b[i])
		i++
		if c < 32 {
			if i+c+1 > len(b) {
				return nil, false
			}
			out = append(out, b[i:i+c+1]...)
			i += c + 1
			continue
		}
		n := c >> 5
		if n == 7 {
			if i >= len(b) {
				return nil, false
			}
			n += int(b[i])
			i++
		}
		if i >= len(b) {
			return nil, false
		}
		off := (c&0x1f)<<8 | int(b[i])
		i++
		if off+1 > len(out) {
			return nil, false
		}
		for j := 0; j < n+2; j++ {
			out = append(out, out[len(out)-off-1])
		}
	}
	return out, true
}

// ---- compact encodings ----

// Elem is a ziplist element with the wanted encoding.
type Elem struct {
	S    string
	Form int  // strings: 0 smallest header, 1 14 bit, 2 32 bit; integers: 3 smallest, 4 8 bit, 5 16, 6 24, 7 32, 8 64 bit
	Big  bool // five-byte previous-length field
}

// Zip writes an element's header and content; int forms fall back to strings for other texts.
func (e Elem) body() []byte {
	if e.Form >= 3 {
		n, err := strconv.ParseInt(e.S, 10, 64)
		if err == nil && strconv.FormatInt(n, 10) == e.S {
			le := binary.LittleEndian.AppendUint64(nil, uint64(n))
			fits := func(bits uint) bool { return n >= -1<<(bits-1) && n <= 1<<(bits-1)-1 }
			switch {
			case e.Form == 3 && n >= 0 && n <= 12:
				return []byte{0xf1 + byte(n)}
			case e.Form <= 4 && fits(8):
				return []byte{0xfe, le[0]}
			case e.Form <= 5 && fits(16):
				return append([]byte{0xc0}, le[:2]...)
			case e.Form <= 6 && fits(24):
				return append([]byte{0xf0}, le[:3]...)
			case e.Form <= 7 && fits(32):
				return append([]byte{0xd0}, le[:4]...)
			}
			return append([]byte{0xe0}, le...)
		}
	}
	n := len(e.S)
	form := e.Form
	if form >= 3 {
		form = 0
	}
	var h []byte
	switch {
	case form == 0 && n < 1<<6:
		h = []byte{byte(n)}
	case form <= 1 && n < 1<<14:
		h = []byte{0x40 | byte(n>>8), byte(n)}
	default:
		h = binary.BigEndian.AppendUint32([]byte{0x80}, uint32(n))
	}
	return append(h, e.S...)
}

// Ziplist writes a ziplist.
func Ziplist(l []Elem) []byte {
	b := make([]byte, 10)
	prev, tail := 0, 10
	for _, e := range l {
		tail = len(b)
		if prev < 254 && !e.Big {
			b = append(b, byte(prev))
		} else {
			b = binary.LittleEndian.AppendUint32(append(b, 254), uint32(prev))
		}
		b = append(b, e.body()...)
		prev = len(b) - tail
	}
	b = append(b, 255)
	binary.LittleEndian.PutUint32(b, uint32(len(b)))
	binary.LittleEndian.PutUint32(b[4:], uint32(tail))
	binary.LittleEndian.PutUint16(b[8:], uint16(min(len(l), 65535)))
	return b
}

// Intset writes an intset of the wanted width (2, 4 or 8), wider when a member needs it.
func Intset(l []int64, width int) []byte {
	for _, n := range l {
		if width < 4 && (n < math.MinInt16 || n > math.MaxInt16) {
			width = 4
		}
		if width < 8 && (n < math.MinInt32 || n > math.MaxInt32) {
			width = 8
		}
	}
	b := binary.LittleEndian.AppendUint32(nil, uint32(width))
	b = binary.LittleEndian.AppendUint32(b, uint32(len(l)))
	for _, n := range l {
		b = append(b, binary.LittleEndian.AppendUint64(nil, uint64(n))[:width]...)
	}
	return b
}

// ZField is a zipmap entry with free space after its value.
type ZField struct {
	F, V string
	Free int
}

func zlen(n int) []byte {
	if n < 254 {
		return []byte{byte(n)}
	}
	return binary.LittleEndian.AppendUint32([]byte{254}, uint32(n))
}

// Zipmap writes a zipmap.
func Zipmap(l []ZField) []byte {
	b := []byte{byte(min(len(l), 254))}
	for _, f := range l {
		b = append(b, zlen(len(f.F))...)
		b = append(b, f.F...)
		b = append(b, zlen(len(f.V))...)
		b = append(b, byte(f.Free))
		b = append(b, f.V...)
		for i := 0; i < f.Free; i++ {
			b = append(b, byte(250+i%6))
		}
	}
	return append(b, 255)
}
