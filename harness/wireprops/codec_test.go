package wireprops

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"net"
	"runtime"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/liujiangwei/xxcache/redis"
	"pgregory.net/rapid"

	"verif/harness/pbt"
	"verif/harness/resp"
)

func TestMain(m *testing.M) { pbt.Main(m) }

// fake is a connection over a fixed incoming byte stream that arrives in the given pieces.
type fake struct {
	in     []byte
	cuts   []int // sizes of successive reads, repeated; empty: as much as fits
	i      int
	glue   bool // the last bytes arrive together with the end of the stream
	zero   int  // every zero-th read returns nothing
	nread  int
	out    bytes.Buffer
	writes int
}

func (f *fake) Read(p []byte) (int, error) {
	f.nread++
	if len(f.in) == 0 {
		return 0, io.EOF
	}
	if f.zero > 0 && f.nread%f.zero == 0 {
		return 0, nil
	}
	n := len(p)
	if len(f.cuts) > 0 {
		if c := f.cuts[f.i%len(f.cuts)]; c < n {
			n = c
		}
		f.i++
	}
	if n > len(f.in) {
		n = len(f.in)
	}
	copy(p, f.in[:n])
	f.in = f.in[n:]
	if len(f.in) == 0 && f.glue {
		return n, io.EOF
	}
	return n, nil
}

func (f *fake) Write(p []byte) (int, error)        { f.writes++; return f.out.Write(p) }
func (f *fake) Close() error                       { return nil }
func (f *fake) LocalAddr() net.Addr                { return &net.TCPAddr{} }
func (f *fake) RemoteAddr() net.Addr               { return &net.TCPAddr{} }
func (f *fake) SetDeadline(t time.Time) error      { return nil }
func (f *fake) SetReadDeadline(t time.Time) error  { return nil }
func (f *fake) SetWriteDeadline(t time.Time) error { return nil }

func toLib(m resp.Msg) redis.Message {
	switch m.K {
	case "+":
		return redis.SimpleStringMessage(m.S)
	case "-":
		return redis.ErrorMessage(m.S)
	case ":":
		return redis.IntMessage(m.N)
	case "$":
		return redis.NewBulkStringMessage(string(m.S))
	case "_":
		return redis.NilMessage{}
	}
	a := redis.ArrayMessage{}
	for _, x := range m.A {
		a = append(a, toLib(x))
	}
	return a
}

func fromLib(m redis.Message) (resp.Msg, error) {
	switch x := m.(type) {
	case nil:
		return resp.Msg{}, errors.New("nil message")
	case redis.SimpleStringMessage:
		return resp.Simple(string(x)), nil
	case redis.ErrorMessage:
		return resp.Err(string(x)), nil
	case redis.IntMessage:
		return resp.Int(int64(x)), nil
	case redis.NilMessage:
		return resp.Nil(), nil
	case redis.ArrayMessage:
		a := resp.Msg{K: "*"}
		for _, y := range x {
			z, err := fromLib(y)
			if err != nil {
				return a, err
			}
			a.A = append(a.A, z)
		}
		return a, nil
	}
	if m.Protocol() == redis.ProtocolBulkString {
		return resp.Bulk(m.String()), nil
	}
	return resp.Msg{}, fmt.Errorf("unknown message type %T", m)
}

// ---- generators ----

func lineText(t *rapid.T) pbt.B {
	switch rapid.IntRange(0, 7).Draw(t, "linekind") {
	case 6:
		return pbt.B(strings.NewReplacer("\r", ".", "\n", ".").Replace(string(pbt.DictText(t))))
	case 0:
		return rapid.SampledFrom([]pbt.B{"OK", "PONG", "QUEUED", "ERR unknown command", "WRONGTYPE Operation", "", " ", "-1", "$5", "*1", "+", ":1"}).Draw(t, "line")
	case 5:
		n := rapid.SampledFrom([]int{100, 4090, 4092, 4093, 4094, 4095, 4096, 4097, 5000, 9000}).Draw(t, "linelen")
		if rapid.Bool().Draw(t, "anylen") {
			n = pbt.Len(t, 20000)
		}
		return pbt.B(strings.Repeat("l", n))
	}
	b := rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "line")
	for i := range b {
		if b[i] == '\r' || b[i] == '\n' {
			b[i] = '.'
		}
	}
	return pbt.B(b)
}

func bulkText(t *rapid.T) pbt.B {
	switch rapid.IntRange(0, 10).Draw(t, "bulkkind") {
	case 10:
		return pbt.DictText(t)
	case 0:
		return rapid.SampledFrom([]pbt.B{"", "\r\n", "\r", "\n", "$-1\r\n", "*2\r\n", "abc\r\ndef", "\x00", "+OK\r\n", "\r\n\r\n", "-1"}).Draw(t, "bulk")
	case 1:
		n := rapid.SampledFrom([]int{9, 10, 99, 100, 255, 256, 1000, 4000, 4088, 4089, 4090, 4091, 4092, 4093, 4094, 4095, 4096, 4097, 5000, 8190, 8192, 10000, 65536, 70000}).Draw(t, "bulklen")
		if rapid.Bool().Draw(t, "anylen") {
			n = pbt.Len(t, 70000)
		}
		unit := rapid.SliceOfN(rapid.Byte(), 1, 5).Draw(t, "unit")
		return pbt.B(strings.Repeat(string(unit), n/len(unit)+1)[:n])
	}
	return pbt.B(rapid.SliceOfN(rapid.Byte(), 0, 24).Draw(t, "bulk"))
}

func anyInt(t *rapid.T) int64 {
	switch rapid.IntRange(0, 4).Draw(t, "intkind") {
	case 3:
		return pbt.DictInt(t)
	case 4:
		return 1<<rapid.IntRange(0, 62).Draw(t, "pow") + rapid.Int64Range(-1, 1).Draw(t, "off")
	case 0:
		return rapid.Int64Range(-12, 12).Draw(t, "n")
	case 1:
		return rapid.SampledFrom([]int64{math.MaxInt64, math.MinInt64, math.MaxInt32, math.MinInt32, math.MaxUint32, 1000000}).Draw(t, "n")
	}
	return rapid.Int64().Draw(t, "n")
}

func anyMsg(t *rapid.T, depth int) resp.Msg {
	hi := 13
	if depth == 0 {
		hi = 9
	}
	switch k := rapid.IntRange(0, hi).Draw(t, "kind"); {
	case k < 1:
		return resp.Msg{K: "+", S: lineText(t)}
	case k < 2:
		return resp.Msg{K: "-", S: lineText(t)}
	case k < 4:
		return resp.Int(anyInt(t))
	case k < 8:
		return resp.Msg{K: "$", S: bulkText(t)}
	case k < 10:
		return resp.Nil()
	}
	m := resp.Msg{K: "*"}
	n := rapid.IntRange(0, 5).Draw(t, "len")
	if rapid.IntRange(0, 30).Draw(t, "wide") == 30 {
		n = rapid.IntRange(6, 130).Draw(t, "len")
		if rapid.IntRange(0, 3).Draw(t, "wider") == 3 {
			for n, i := pbt.Len(t, 3000), 0; i < n; i++ {
				m.A = append(m.A, resp.Int(int64(i)))
			}
			return m
		}
	}
	for i := 0; i < n; i++ {
		m.A = append(m.A, anyMsg(t, depth-1))
	}
	return m
}

func cutGen(t *rapid.T) []int {
	switch rapid.IntRange(0, 3).Draw(t, "cutkind") {
	case 0:
		return nil
	case 1:
		return []int{1}
	}
	return rapid.SliceOfN(rapid.SampledFrom([]int{1, 2, 3, 5, 8, 13, 100, 1000, 1460, 4096}), 1, 6).Draw(t, "cuts")
}

func size(ms []resp.Msg) (n int) {
	for _, m := range ms {
		n += len(m.S) + 1 + size(m.A)
	}
	return n
}

func depthOf(m resp.Msg) (d int) {
	for _, x := range m.A {
		if e := depthOf(x); e > d {
			d = e
		}
	}
	if m.K == "*" {
		d++
	}
	return d
}

type rtCase struct {
	Msgs []resp.Msg `json:"msgs"`
	Cuts []int      `json:"cuts"`
	Glue bool       `json:"glue"`
	Zero int        `json:"zero"`
}

func recvAll(stream []byte, c rtCase, want []resp.Msg) error {
	f := &fake{in: append([]byte(nil), stream...), cuts: c.Cuts, glue: c.Glue, zero: c.Zero}
	conn := redis.NewConn(f)
	kept := make([]redis.Message, 0, 200)
	for i, w := range want {
		m, err := conn.Recv()
		if err != nil {
			return fmt.Errorf("message %d of %d: error %v, want %v", i, len(want), err, w)
		}
		if len(kept) < cap(kept) {
			kept = append(kept, m)
		}
		g, err := fromLib(m)
		if err != nil {
			return fmt.Errorf("message %d: %v", i, err)
		}
		if !g.Equal(w) {
			return fmt.Errorf("message %d of %d received as %v, want %v", i, len(want), g, w)
		}
	}
	if m, err := conn.Recv(); err == nil {
		return fmt.Errorf("a receive after the end of the stream returned %v", m)
	}
	for i, m := range kept {
		if g, err := fromLib(m); err != nil || !g.Equal(want[i]) {
			return fmt.Errorf("message %d of %d, received as %v, has become %v, %v after later ones", i, len(want), want[i], g, err)
		}
	}
	return nil
}

func TestC08(t *testing.T) {
	pbt.Check(t, pbt.Spec[rtCase]{
		ID: "C08", Name: "roundtrip", Quick: 60000, Thorough: 6000000, Timeout: 60 * time.Second,
		Rule: "1-6 generated message trees, sent with Send and with an independent encoder, read by an independent decoder and received with Recv from a stream cut into generated pieces; non-trivial: the stream is cut and holds a nested array, a body with line breaks, or more than one read buffer",
		Gen: func(t *rapid.T) rtCase {
			var c rtCase
			for n := rapid.IntRange(1, 6).Draw(t, "n"); n > 0; n-- {
				c.Msgs = append(c.Msgs, anyMsg(t, 3))
			}
			c.Cuts = cutGen(t)
			c.Glue = rapid.Bool().Draw(t, "glue")
			c.Zero = rapid.SampledFrom([]int{0, 0, 2, 3, 7}).Draw(t, "zero")
			return c
		},
		Run: func(c rtCase, r *pbt.Rec) error {
			var stream []byte
			f := &fake{}
			conn := redis.NewConn(f)
			special := false
			for _, m := range c.Msgs {
				stream = m.Encode(stream)
				lib := toLib(m)
				ser := lib.Serialize()
				got, err := resp.Read(bufio.NewReader(strings.NewReader(ser)))
				if err != nil || !got.Equal(m) {
					return fmt.Errorf("%v serialises to %s, which decodes to %v, %v", m, pbt.Short(ser), got, err)
				}
				if err := conn.Send(lib); err != nil {
					return fmt.Errorf("send of %v: %v", m, err)
				}
				special = special || depthOf(m) > 1 || strings.Contains(string(m.S), "\n")
			}
			br := bufio.NewReader(bytes.NewReader(f.out.Bytes()))
			for i, m := range c.Msgs {
				got, err := resp.Read(br)
				if err != nil || !got.Equal(m) {
					return fmt.Errorf("message %d sent as %v arrives as %v, %v", i, m, got, err)
				}
			}
			if rest, _ := io.ReadAll(br); len(rest) > 0 {
				return fmt.Errorf("%d bytes sent beyond the messages: %s", len(rest), pbt.Short(string(rest)))
			}
			r.NonTrivial(len(c.Cuts) > 0 && (special || len(stream) > 4096))
			r.Label(len(stream) > 4096, "more than a read buffer")
			r.Label(len(c.Cuts) > 0, "fragmented")
			if err := recvAll(stream, c, c.Msgs); err != nil {
				return err
			}
			return recvAll(f.out.Bytes(), c, c.Msgs)
		},
	})
	type largeCase struct {
		Kind string   `json:"kind"`
		Unit resp.Msg `json:"unit"` // repeated
		N    int      `json:"n"`
		Cuts []int    `json:"cuts"`
	}
	pbt.Check(t, pbt.Spec[largeCase]{
		ID: "C08", Name: "large", Quick: 400, Thorough: 12000, Timeout: 120 * time.Second,
		Rule: "a bulk string of up to 8 MiB, up to 10000 nested arrays, up to 100000 messages one after the other on one connection, a simple string or error of up to 2 MiB, or an array of up to 100000 messages, followed by another message: received from a stream in pieces, and (arrays up to 20000) serialised and read by the independent decoder; non-trivial: all",
		Gen: func(t *rapid.T) largeCase {
			c := largeCase{Kind: rapid.SampledFrom([]string{"$", "+", "-", "*", "*", "deep", "session", "session"}).Draw(t, "kind"), Cuts: rapid.SampledFrom([][]int{nil, {1460}, {4096}, {65536, 1}, {100000, 7, 4095}}).Draw(t, "cuts")}
			if c.Kind == "deep" {
				c.Unit, c.N = anyMsg(t, 1), 10<<rapid.IntRange(0, 9).Draw(t, "sh")*rapid.IntRange(1024, 2000).Draw(t, "frac")/1024
				return c
			}
			if c.Kind == "*" || c.Kind == "session" {
				c.Unit = anyMsg(t, 1)
				c.N = 1000 << rapid.IntRange(0, 6).Draw(t, "sh") * rapid.IntRange(1024, 1600).Draw(t, "frac") / 1024
				for c.N*(size([]resp.Msg{c.Unit})+4) > 16<<20 {
					c.N /= 2
				}
				return c
			}
			u := bulkText(t)
			if c.Kind != "$" || len(u) == 0 {
				u = lineText(t)
			}
			if len(u) == 0 {
				u = pbt.B("x")
			}
			c.Unit = resp.Msg{K: c.Kind, S: u}
			total := 8192 << rapid.IntRange(0, 10).Draw(t, "sh")
			if c.Kind != "$" {
				total >>= 2
			}
			c.N = total*rapid.IntRange(1024, 1600).Draw(t, "frac")/1024/len(u) + 1
			return c
		},
		Run: func(c largeCase, r *pbt.Rec) error {
			r.NonTrivial(true)
			r.Label(true, "large "+c.Kind)
			m := resp.Msg{K: c.Kind}
			if c.Kind == "*" {
				for i := 0; i < c.N; i++ {
					m.A = append(m.A, c.Unit)
				}
			} else {
				m.S = pbt.B(strings.Repeat(string(c.Unit.S), c.N))
			}
			next := resp.Bulk("next")
			if c.Kind == "deep" {
				m = c.Unit
				for i := 0; i < c.N; i++ {
					m = resp.Arr(m)
				}
			}
			if c.Kind == "session" {
				msgs := []resp.Msg{}
				var stream []byte
				f := &fake{}
				conn := redis.NewConn(f)
				for i := 0; i < c.N; i++ {
					x := c.Unit
					if i%3 == 1 {
						x = resp.Int(int64(i))
					}
					msgs = append(msgs, x)
					stream = x.Encode(stream)
					if err := conn.Send(toLib(x)); err != nil {
						return fmt.Errorf("sending message %d: %v", i, err)
					}
				}
				if !bytes.Equal(f.out.Bytes(), stream) {
					return fmt.Errorf("%d bytes are sent, want %d", f.out.Len(), len(stream))
				}
				if err := recvAll(stream, rtCase{Cuts: c.Cuts}, msgs); err != nil {
					return errors.New(pbt.Short(err.Error()))
				}
				return nil
			}
			stream := next.Encode(m.Encode(nil))
			if err := recvAll(stream, rtCase{Cuts: c.Cuts}, []resp.Msg{m, next}); err != nil {
				return errors.New(pbt.Short(err.Error()))
			}
			if len(m.A) > 20000 || len(m.A) > 0 && len(stream) > 1<<20 {
				return nil // Serialize takes quadratic time
			}
			f := &fake{}
			conn := redis.NewConn(f)
			for _, x := range []resp.Msg{m, next} {
				if err := conn.Send(toLib(x)); err != nil {
					return fmt.Errorf("send: %v", err)
				}
			}
			if !bytes.Equal(f.out.Bytes(), stream) {
				return fmt.Errorf("%d bytes are sent, want %d: %s", f.out.Len(), len(stream), pbt.Short(f.out.String()))
			}
			return nil
		},
	})
	type cmdCase struct {
		Args []pbt.B `json:"args"`
		Cuts []int   `json:"cuts"`
	}
	pbt.Check(t, pbt.Spec[cmdCase]{
		ID: "C08", Name: "command", Quick: 40000, Thorough: 3000000,
		Rule: "a command of 1-20 arguments of any bytes, built by NewBaseCommand and ConvertToMessage, read by the independent decoder and received back; non-trivial: an argument that is empty, has line breaks or is longer than 9 bytes",
		Gen: func(t *rapid.T) cmdCase {
			var c cmdCase
			for n := rapid.IntRange(1, 20).Draw(t, "n"); n > 0; n-- {
				c.Args = append(c.Args, bulkText(t))
			}
			c.Cuts = cutGen(t)
			return c
		},
		Run: func(c cmdCase, r *pbt.Rec) error {
			want := resp.Cmd(pbt.Strs(c.Args)...)
			cmd := redis.NewBaseCommand(pbt.Strs(c.Args)...)
			for _, m := range []redis.Message{cmd.Serialize(), redis.ConvertToMessage(pbt.Strs(c.Args)...)} {
				s := m.Serialize()
				got, err := resp.Read(bufio.NewReader(strings.NewReader(s)))
				if err != nil || !got.Equal(want) {
					return fmt.Errorf("command %v serialises to %s, which decodes to %v, %v", want, pbt.Short(s), got, err)
				}
				if err := recvAll([]byte(s), rtCase{Cuts: c.Cuts}, []resp.Msg{want}); err != nil {
					return err
				}
			}
			for _, a := range c.Args {
				r.NonTrivial(a == "" || len(a) > 9 || strings.Contains(string(a), "\n"))
			}
			return nil
		},
	})
}

// ---- C09 ----

// recvJudged receives everything from the stream and compares with the strict decoder.
func recvJudged(b []byte, cuts []int, glue bool) (verdict resp.Verdict, got int, err error) {
	f := &fake{in: append([]byte(nil), b...), cuts: cuts, glue: glue}
	conn := redis.NewConn(f)
	rest := b
	for i := 0; ; i++ {
		want, n, v := resp.Strict(rest)
		m, e := conn.Recv()
		switch v {
		case resp.Open:
			for j := 0; j < len(b)+2 && e == nil; j++ {
				_, e = conn.Recv()
			}
			if e == nil {
				return v, i, errors.New("receiving goes on after the stream has ended")
			}
			return v, i, nil
		case resp.Invalid:
			if e == nil {
				return v, i, fmt.Errorf("receive %d returned %v, but the rest of the stream, %s, is not a complete valid message", i, show(m), pbt.Short(string(rest)))
			}
			return v, i, nil
		}
		if e != nil {
			return v, i, fmt.Errorf("receive %d failed with %v, want %v", i, e, want)
		}
		g, e := fromLib(m)
		if e != nil || !g.Equal(want) {
			return v, i, fmt.Errorf("receive %d returned %v %v, the stream says %v", i, g, e, want)
		}
		rest = rest[n:]
	}
}

func show(m redis.Message) string {
	g, err := fromLib(m)
	if err != nil {
		return err.Error()
	}
	return g.String()
}

func allocOf(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

var lengths = []string{"-1", "-2", "-3", "-10", "-9223372036854775808", "-9223372036854775809", "0", "1", "2", "3", "5", "100", "4096", "65536", "1000000", "16777216", "33554432", "67108864", "268435456", "536870912", "536870913", "2147483647", "2147483648", "4294967295", "4294967296", "4294967301", "1099511627776", "9223372036854775805", "9223372036854775806", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999999",
	"", " ", "a", "1a", "a1", "1 ", " 1", "1.0", "1e3", "0x10", "1_0", "+1", "+0", "-0", "01", "-01", "--1", "5\r", "٣", "\x00", "-", "+", "1,000", "3\x00"}

func truncStream(t *rapid.T) []byte {
	var b []byte
	for n := rapid.IntRange(1, 3).Draw(t, "n"); n > 0; n-- {
		b = anyMsg(t, 2).Encode(b)
	}
	return b
}

func TestC09(t *testing.T) {
	type truncCase struct {
		Stream pbt.B `json:"stream"`
		Cuts   []int `json:"cuts"`
	}
	pbt.Check(t, pbt.Spec[truncCase]{
		ID: "C09", Name: "truncate", Quick: 12000, Thorough: 1000000, Timeout: 120 * time.Second,
		Rule: "a stream of 1-3 generated messages cut at every byte (at 200 places when long); what was complete is received, then an error; non-trivial: more than 10 cuts",
		Gen: func(t *rapid.T) truncCase {
			return truncCase{pbt.B(truncStream(t)), cutGen(t)}
		},
		Run: func(c truncCase, r *pbt.Rec) error {
			b := []byte(c.Stream)
			step := 1
			if len(b) > 200 {
				step = len(b)/200 + 1
			}
			n := 0
			for i := 0; i <= len(b); i++ {
				if i > 40 && i < len(b)-40 && i%step != 0 {
					continue
				}
				n++
				v, _, err := recvJudged(b[:i], c.Cuts, i%2 == 0)
				if err != nil {
					return fmt.Errorf("stream cut after %d of %d bytes: %v", i, len(b), err)
				}
				if v == resp.Open {
					return fmt.Errorf("harness: a truncated valid stream is judged open")
				}
			}
			r.NonTrivial(n > 10)
			return nil
		},
	})
	type malCase struct {
		Stream pbt.B `json:"stream"`
		Cuts   []int `json:"cuts"`
		Glue   bool  `json:"glue"`
	}
	// what the coverage-guided search varies: how the reads are cut, then the stream
	raw := func(b []byte) malCase {
		if len(b) == 0 {
			return malCase{}
		}
		c := malCase{Stream: pbt.B(b[1:]), Glue: b[0]&1 == 1}
		for x := b[0] >> 1; x > 0; x >>= 3 {
			c.Cuts = append(c.Cuts, int(x&7)+1)
		}
		return c
	}
	unraw := func(c malCase) []byte { return append([]byte{byte(len(c.Stream) % 5)}, c.Stream...) }
	judge := func(c malCase, r *pbt.Rec) error {
		var v resp.Verdict
		var n int
		var err error
		alloc := allocOf(func() { v, n, err = recvJudged([]byte(c.Stream), c.Cuts, c.Glue) })
		if err != nil {
			return err
		}
		if limit := uint64(2<<20 + 2048*len(c.Stream)); alloc > limit {
			return fmt.Errorf("receiving %d bytes allocated %d bytes", len(c.Stream), alloc)
		}
		r.Label(v == resp.Open, "left open")
		r.Label(v == resp.Invalid, "ends in an error")
		r.NonTrivial(v == resp.Invalid && len(c.Stream) > 3)
		r.Label(n > 0, "some messages before the fault")
		return nil
	}
	pbt.Check(t, pbt.Spec[malCase]{
		ID: "C09", Name: "header", Quick: 120000, Thorough: 10000000, Timeout: 120 * time.Second,
		Rule: "a stream with a generated length or integer field (negative, huge, overflowing, not a number), wrong type bytes, or a missing or wrong line break behind a body, at the top or nested; judged by a strict reference decoder, allocation measured; non-trivial: the reference decoder demands an error",
		Gen: func(t *rapid.T) malCase {
			var b []byte
			for n := rapid.IntRange(0, 2).Draw(t, "before"); n > 0; n-- {
				b = anyMsg(t, 1).Encode(b)
			}
			for n := rapid.IntRange(0, 2).Draw(t, "nest"); n > 0; n-- {
				b = append(b, fmt.Sprintf("*%d\r\n", rapid.IntRange(1, 3).Draw(t, "arr"))...)
			}
			k := rapid.SampledFrom([]string{"$", "$", "$", "*", "*", ":", "+", "-", "?", "%", "\x00", "\n", "\r", "_", "#", ",", " ", "P", "s", "\xff"}).Draw(t, "type")
			l := rapid.SampledFrom(lengths).Draw(t, "len")
			if k == "+" || k == "-" {
				l = string(lineText(t))
			}
			b = append(b, k...)
			b = append(b, l...)
			b = append(b, rapid.SampledFrom([]string{"\r\n", "\r\n", "\r\n", "\r\n", "\n", "\r", "", "\n\r", "\r\r\n", " \r\n"}).Draw(t, "eol")...)
			if k == "$" || rapid.IntRange(0, 4).Draw(t, "body") == 4 {
				n, err := strconv.Atoi(l)
				if err != nil || n > 70000 || n < 0 {
					n = rapid.IntRange(0, 30).Draw(t, "bodylen")
				} else {
					n += rapid.SampledFrom([]int{0, 0, 0, 0, -1, 1, 2}).Draw(t, "off")
				}
				for i := 0; i < n; i++ {
					b = append(b, "abc\r\n$1*"[(i*7+n)%8])
				}
				b = append(b, rapid.SampledFrom([]string{"\r\n", "\r\n", "", "\n", "\r", "\n\r", "xx", "\rx", "x\n", "\r\r", "\n\n", "  "}).Draw(t, "term")...)
			}
			for n := rapid.IntRange(0, 3).Draw(t, "after"); n > 0; n-- {
				b = anyMsg(t, 1).Encode(b)
			}
			return malCase{pbt.B(b), cutGen(t), rapid.Bool().Draw(t, "glue")}
		},
		Bytes: raw, Seed: unraw,
		Run: judge,
	})
	pbt.Check(t, pbt.Spec[malCase]{
		ID: "C09", Name: "mutate", Quick: 120000, Thorough: 10000000, Timeout: 120 * time.Second,
		Rule: "a valid stream with 1-4 bytes replaced, removed, inserted or a slice duplicated, or random protocol-like bytes; judged by a strict reference decoder, allocation measured; non-trivial: the reference decoder demands an error",
		Gen: func(t *rapid.T) malCase {
			var b []byte
			if rapid.IntRange(0, 3).Draw(t, "junk") == 3 {
				for n := rapid.IntRange(0, 40).Draw(t, "n"); n > 0; n-- {
					b = append(b, rapid.SampledFrom([]string{"$", "*", ":", "+", "-", "\r\n", "\r\n", "\r\n", "1", "2", "3", "9", "0", "-1", "a", "\r", "\n", "\x00", "\xff"}).Draw(t, "tok")...)
				}
				return malCase{pbt.B(b), cutGen(t), rapid.Bool().Draw(t, "glue")}
			}
			b = truncStream(t)
			for n := rapid.IntRange(1, 4).Draw(t, "edits"); n > 0 && len(b) > 0; n-- {
				i := rapid.IntRange(0, len(b)-1).Draw(t, "at")
				if rapid.Bool().Draw(t, "early") && len(b) > 12 {
					i %= 12
				}
				x := rapid.SampledFrom([]byte("0123456789-+$*:\r\n a\x00\xff")).Draw(t, "byte")
				switch rapid.IntRange(0, 3).Draw(t, "edit") {
				case 0:
					b[i] = x
				case 1:
					b = append(b[:i], b[i+1:]...)
				case 2:
					b = append(b[:i], append([]byte{x}, b[i:]...)...)
				case 3:
					j := i + rapid.IntRange(1, 8).Draw(t, "dup")
					if j > len(b) {
						j = len(b)
					}
					b = append(b[:j:j], b[i:]...)
				}
			}
			return malCase{pbt.B(b), cutGen(t), rapid.Bool().Draw(t, "glue")}
		},
		Bytes: raw, Seed: unraw,
		Run: judge,
	})
	pbt.Check(t, pbt.Spec[malCase]{
		ID: "C09", Name: "deep", Quick: 300, Thorough: 20000, Timeout: 120 * time.Second,
		Rule: "up to 64 KiB of repeated tokens (nested arrays, many empty elements, huge announced counts repeated at every level); judged by the strict reference decoder, allocation measured; non-trivial: an error is demanded",
		Gen: func(t *rapid.T) malCase {
			tok := rapid.SampledFrom([]string{"*1\r\n", "*2\r\n$0\r\n\r\n", "*1000000000\r\n", "*2147483647\r\n", "*65536\r\n", "$0\r\n\r\n", "*0\r\n", "$-1\r\n", "*-1\r\n", ":1\r\n", "+\r\n", "*9223372036854775807\r\n", "*3\r\n:1\r\n"}).Draw(t, "tok")
			n := rapid.IntRange(1, 65536/len(tok)).Draw(t, "n")
			b := strings.Repeat(tok, n)
			if rapid.Bool().Draw(t, "arr") {
				b = fmt.Sprintf("*%d\r\n", n+rapid.IntRange(-1, 1).Draw(t, "off")) + b
			}
			b += rapid.SampledFrom([]string{"", ":1\r\n", "$5\r\nabc", "x"}).Draw(t, "tail")
			return malCase{Stream: pbt.B(b)}
		},
		Run: judge,
	})
	type abyssCase struct {
		Tok  pbt.B `json:"tok"`
		N    int   `json:"n"` // how often
		Tail pbt.B `json:"tail"`
		Cuts []int `json:"cuts"`
	}
	pbt.Check(t, pbt.Spec[abyssCase]{
		ID: "C09", Name: "abyss", Quick: 90, Thorough: 1500, Timeout: 120 * time.Second,
		Rule: "a stream of up to 24 MB of one token repeated (array headers that open ever deeper arrays, elements, digits of a length, text without line break): an error or the message it holds, without a crash; non-trivial: more than 1 MB",
		Gen: func(t *rapid.T) abyssCase {
			c := abyssCase{Tok: pbt.B(rapid.SampledFrom([]string{"*1\r\n", "*1\r\n", "*1\r\n", "*2\r\n", "*2\r\n:1\r\n", "*01\r\n", "*9\r\n$-1\r\n", "*1000000000\r\n", "$1", "$0", "*0", "*9", "+x", "-", ":7", ":0", "$-", "*1\n", "\r\n", "$0\r\n\r\n", "*1\r\n*1\r\n*-1\r\n"}).Draw(t, "tok"))}
			c.N = rapid.SampledFrom([]int{1000, 60000, 70000, 300000, 2000000, 6000000, 6000000}).Draw(t, "n") + rapid.IntRange(0, 999).Draw(t, "more")
			c.N = min(c.N, 24<<20/len(c.Tok))
			c.Tail = pbt.B(rapid.SampledFrom([]string{"", ":1\r\n", "\r\n", "$3\r\nabc\r\n", "*0\r\n", "\r\n\r\n"}).Draw(t, "tail"))
			c.Cuts = rapid.SampledFrom([][]int{nil, {1460}, {65536, 3}}).Draw(t, "cuts")
			return c
		},
		Run: func(c abyssCase, r *pbt.Rec) error {
			stream := append(bytes.Repeat([]byte(c.Tok), c.N), c.Tail...)
			r.NonTrivial(len(stream) > 1<<20)
			first := string(c.Tok) + string(c.Tail)
			r.Label(true, "of "+strconv.Quote(string(c.Tok)))
			conn := redis.NewConn(&fake{in: stream, cuts: c.Cuts})
			m, err := conn.Recv()
			if err != nil {
				return nil
			}
			// what can be read from such a stream at all
			depth := 0
			for {
				a, ok := m.(redis.ArrayMessage)
				if !ok {
					break
				}
				if len(a) == 0 {
					if c.Tok[0] != '*' {
						return fmt.Errorf("%d times %q is received as an array", c.N, c.Tok)
					}
					break
				}
				depth++
				m = a[len(a)-1]
			}
			if depth > c.N*3+1 {
				return fmt.Errorf("%d times %q is received as %d nested arrays", c.N, c.Tok, depth)
			}
			switch {
			case string(c.Tok) == "*1\r\n" || string(c.Tok) == "*01\r\n":
				if c.Tail == "" || c.Tail == "\r\n" || c.Tail == "\r\n\r\n" {
					return fmt.Errorf("an array that never ends is received: %d times %q, %d deep", c.N, c.Tok, depth)
				}
				if depth != c.N {
					return fmt.Errorf("%d nested arrays are received as %d", c.N, depth)
				}
			case string(c.Tok) == "*2\r\n" || strings.HasPrefix(string(c.Tok), "*1000000000") || c.Tail == "" && !strings.Contains(first, "\n"):
				return fmt.Errorf("a message that never ends is received: %d times %q", c.N, c.Tok)
			}
			return nil
		},
	})
}
