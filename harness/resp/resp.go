// Package resp is an independent implementation of the Redis protocol, used as the oracle.
package resp

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"math/big"
	"strconv"
	"strings"

	"verif/harness/pbt"
)

// Msg is a protocol message: K is one of + - : $ * and _ for nil.
type Msg struct {
	K string `json:"k"`
	S pbt.B  `json:"s,omitempty"`
	N int64  `json:"n,omitempty"`
	A []Msg  `json:"a,omitempty"`
}

func Simple(s string) Msg { return Msg{K: "+", S: pbt.B(s)} }
func Err(s string) Msg    { return Msg{K: "-", S: pbt.B(s)} }
func Int(n int64) Msg     { return Msg{K: ":", N: n} }
func Bulk(s string) Msg   { return Msg{K: "$", S: pbt.B(s)} }
func Nil() Msg            { return Msg{K: "_"} }
func Arr(a ...Msg) Msg    { return Msg{K: "*", A: a} }

// Cmd is a request.
func Cmd(args ...string) Msg {
	m := Msg{K: "*"}
	for _, a := range args {
		m.A = append(m.A, Bulk(a))
	}
	return m
}

func (m Msg) Encode(b []byte) []byte {
	switch m.K {
	case "+", "-":
		b = append(b, m.K...)
		b = append(b, m.S...)
	case ":":
		b = append(b, ':')
		b = strconv.AppendInt(b, m.N, 10)
	case "$":
		b = append(b, '$')
		b = strconv.AppendInt(b, int64(len(m.S)), 10)
		b = append(b, '\r', '\n')
		b = append(b, m.S...)
	case "_":
		b = append(b, "$-1"...)
	case "*":
		b = append(b, '*')
		b = strconv.AppendInt(b, int64(len(m.A)), 10)
		b = append(b, '\r', '\n')
		for _, x := range m.A {
			b = x.Encode(b)
		}
		return b
	default:
		panic("resp: kind " + m.K)
	}
	return append(b, '\r', '\n')
}

func (m Msg) Equal(o Msg) bool {
	if m.K != o.K || m.S != o.S || m.N != o.N || len(m.A) != len(o.A) {
		return false
	}
	for i := range m.A {
		if !m.A[i].Equal(o.A[i]) {
			return false
		}
	}
	return true
}

func (m Msg) String() string {
	switch m.K {
	case ":":
		return fmt.Sprintf("int(%d)", m.N)
	case "_":
		return "nil"
	case "*":
		var p []string
		for i, x := range m.A {
			if i == 12 {
				p = append(p, fmt.Sprintf("... %d", len(m.A)))
				break
			}
			p = append(p, x.String())
		}
		return "[" + strings.Join(p, " ") + "]"
	}
	return m.K + pbt.Short(string(m.S))
}

// Args are the arguments of a request.
func (m Msg) Args() ([]string, bool) {
	if m.K != "*" {
		return nil, false
	}
	var l []string
	for _, x := range m.A {
		if x.K != "$" {
			return nil, false
		}
		l = append(l, string(x.S))
	}
	return l, true
}

// Read decodes one message from a stream that is expected to be well-formed.
func Read(r *bufio.Reader) (Msg, error) {
	line, err := r.ReadString('\n')
	if err != nil {
		if err == io.EOF && line != "" {
			err = io.ErrUnexpectedEOF
		}
		return Msg{}, err
	}
	if len(line) < 3 || line[len(line)-2] != '\r' {
		return Msg{}, fmt.Errorf("bad line %q", line)
	}
	k, rest := line[:1], line[1:len(line)-2]
	switch k {
	case "+", "-":
		return Msg{K: k, S: pbt.B(rest)}, nil
	case ":":
		n, err := strconv.ParseInt(rest, 10, 64)
		return Msg{K: k, N: n}, err
	case "$", "*":
		n, err := strconv.Atoi(rest)
		if err != nil || n < -1 || strconv.Itoa(n) != rest {
			return Msg{}, fmt.Errorf("bad length %q", line)
		}
		if n == -1 {
			return Nil(), nil
		}
		if k == "$" {
			b := make([]byte, n+2)
			if _, err := io.ReadFull(r, b); err != nil {
				return Msg{}, err
			}
			if string(b[n:]) != "\r\n" {
				return Msg{}, errors.New("bulk string without line break")
			}
			return Bulk(string(b[:n])), nil
		}
		m := Msg{K: "*"}
		for i := 0; i < n; i++ {
			x, err := Read(r)
			if err != nil {
				return Msg{}, err
			}
			m.A = append(m.A, x)
		}
		return m, nil
	}
	return Msg{}, fmt.Errorf("bad type byte %q", k)
}

// Verdict of the strict decoder on possibly malformed bytes.
type Verdict int

const (
	Valid   Verdict = iota
	Invalid         // receiving must return an error
	Open            // left open: only a clean return is required
)

// Strict decodes the first message of b, which is everything the peer ever sends.
func Strict(b []byte) (m Msg, n int, v Verdict) {
	if len(b) == 0 {
		return m, 0, Invalid
	}
	k := b[0]
	switch k {
	case '+', '-', ':', '$', '*':
	default:
		return m, 0, Invalid
	}
	i := 1
	for i < len(b) && b[i] != '\n' {
		i++
	}
	if i == len(b) {
		// the line is not complete: an error, whatever it says
		return m, 0, Invalid
	}
	line := string(b[1:i])
	n = i + 1
	if !strings.HasSuffix(line, "\r") {
		return m, n, Open // ends in a bare line feed
	}
	line = line[:len(line)-1]
	if k == '+' || k == '-' {
		if strings.Contains(line, "\r") {
			return m, n, Open
		}
		return Msg{K: string(k), S: pbt.B(line)}, n, Valid
	}
	num, v := number(line)
	if v != Valid {
		return m, n, v
	}
	switch k {
	case ':':
		return Int(num), n, Valid
	case '$':
		if num == -1 {
			return Nil(), n, Valid
		}
		if num < 0 || num > int64(len(b)-n) || num+2 > int64(len(b)-n) {
			return m, n, Invalid
		}
		end := n + int(num)
		if b[end] != '\r' || b[end+1] != '\n' {
			return m, n, Invalid
		}
		return Bulk(string(b[n:end])), end + 2, Valid
	}
	if num == -1 {
		return Nil(), n, Valid
	}
	if num < 0 {
		return m, n, Invalid
	}
	m.K = "*"
	for j := int64(0); j < num; j++ {
		x, used, v := Strict(b[n:])
		if v != Valid {
			return m, n, v
		}
		m.A = append(m.A, x)
		n += used
	}
	return m, n, Valid
}

func number(s string) (int64, Verdict) {
	n, err := strconv.ParseInt(s, 10, 64)
	if err == nil {
		if strconv.FormatInt(n, 10) == s {
			return n, Valid
		}
		return n, Open // +5, 05, -0
	}
	if z, ok := new(big.Int).SetString(strings.TrimPrefix(s, "+"), 10); ok && z.IsInt64() {
		return 0, Open
	}
	return 0, Invalid
}
