package cachekit

import (
	"strconv"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"verif/harness/model"
	"verif/harness/pbt"
)

// BulkCase is a history of very many commands, very many keys or very long values, in short form.
type BulkCase struct {
	Phases []Phase `json:"phases"`
}

// Phase is one command repeated over a range of keys, or over a range of fields of one hash, or given all of them at once.
type Phase struct {
	C    string `json:"c"`
	From int    `json:"from"`
	N    int    `json:"n"`
	Size int    `json:"size"` // bytes of padding in a value
	I    int64  `json:"i"`
	Hash string `json:"hash"` // the range is one of fields of this key
	Same bool   `json:"same"` // N times the same key or field
	Num  bool   `json:"num"`  // the values are numbers
}

func (p Phase) ops() (l []model.Op) {
	var names []pbt.B
	for i := 0; i < p.N; i++ {
		n := p.From + i
		if p.Same {
			n = p.From
		}
		names = append(names, pbt.B("n"+strconv.Itoa(n)))
	}
	pad := strings.Repeat("-", p.Size)
	val := func(i int) pbt.B {
		if p.Num {
			return pbt.B(strconv.Itoa(i))
		}
		return pbt.B("v" + strconv.Itoa(i) + pad)
	}
	values := func() (v []pbt.B) {
		for i := range names {
			v = append(v, val(i))
		}
		return
	}
	one := func(n pbt.B, i int) model.Op {
		o := model.Op{C: p.C, K: []pbt.B{n}, V: []pbt.B{val(i)}, I: p.I, J: p.I + int64(i%7), X: pbt.F(i % 9)}
		if p.C[0] == 'H' {
			o.F = []pbt.B{"f"}
			if p.Hash != "" {
				o.K, o.F = []pbt.B{pbt.B(p.Hash)}, []pbt.B{n}
			}
		}
		return o
	}
	switch p.C {
	case "Sleep":
		return []model.Op{{C: "Sleep", I: p.I}}
	case "MSet", "MSetNX":
		o := model.Op{C: p.C}
		o.K, o.V = distinct(names, values())
		return []model.Op{o}
	case "MGet", "Exists":
		return []model.Op{{C: p.C, K: names}}
	case "HMSet":
		o := model.Op{C: p.C, K: []pbt.B{pbt.B("h" + p.Hash)}}
		o.F, o.V = distinct(names, values())
		return []model.Op{o}
	case "HMGet", "HDel":
		return []model.Op{{C: p.C, K: []pbt.B{pbt.B("h" + p.Hash)}, F: names}}
	case "HLen", "HKeys", "HVals", "HGetAll":
		return []model.Op{{C: p.C, K: []pbt.B{pbt.B("h" + p.Hash)}}}
	}
	for i, n := range names {
		o := one(n, i)
		if p.Hash != "" && p.C[0] == 'H' {
			o.K = []pbt.B{pbt.B("h" + p.Hash)}
		}
		l = append(l, o)
	}
	return l
}

// GenBulk draws phases of the given commands. At most about 150000 commands and 8 MiB of values in a case.
func GenBulk(t *rapid.T, w Weights) BulkCase {
	ch := Chooser(w)
	var c BulkCase
	steps, bytes := 150000, 8<<20
	for n := rapid.IntRange(1, 8).Draw(t, "phases"); n > 0; n-- {
		p := Phase{C: ch.Draw(t, "cmd"), From: rapid.SampledFrom([]int{0, 0, 0, 1, 7, 500, 5000}).Draw(t, "from"),
			N:    rapid.SampledFrom([]int{1, 3, 40, 260, 1100, 5000, 12000, 33000, 70000}).Draw(t, "n"),
			Size: rapid.SampledFrom([]int{0, 0, 0, 5, 70, 300, 70000, 600000, 1100000, 3000000}).Draw(t, "size"), Same: rapid.IntRange(0, 4).Draw(t, "same") == 4}
		if rapid.IntRange(0, 3).Draw(t, "hash") > 0 {
			p.Hash = rapid.SampledFrom([]string{"1", "2"}).Draw(t, "name")
		}
		switch p.C {
		case "SetRange", "GetRange":
			p.I = rapid.SampledFrom([]int64{0, 1, 7, 100, 70000, 1100000, 3000000}).Draw(t, "at")
			if p.C == "SetRange" && p.I > 1000 {
				p.N, p.Same = min(p.N, 3), true
			}
		case "PSetEX", "PExpireAt", "Sleep":
			p.I = rapid.SampledFrom([]int64{1, 700, 2500, 10000, 1000000}).Draw(t, "ms")
		case "SetEX":
			p.I = rapid.SampledFrom([]int64{1, 3, 10, 1000}).Draw(t, "s")
		default:
			p.I = rapid.Int64Range(-9, 9).Draw(t, "i")
		}
		p.Num = p.Size == 0 && rapid.Bool().Draw(t, "num")
		if p.Size > 0 {
			p.N = max(1, min(p.N, bytes/(p.Size+8)))
			if p.C == "Append" && p.Same {
				p.N = min(p.N, max(3, 20000000/(p.Size*p.Size/1000+1))) // each copies what is there
			}
		} else if p.C == "Append" && p.Same {
			p.N = min(p.N, 12000)
		}
		if p.N > steps {
			p.N = max(1, steps)
		}
		steps -= p.N
		bytes -= min(bytes, p.N*p.Size)
		c.Phases = append(c.Phases, p)
	}
	return c
}

// RunBulk runs it against the model.
func RunBulk(t *testing.T, c BulkCase, opt Opts) (Stats, error) {
	var ops []model.Op
	for _, p := range c.Phases {
		ops = append(ops, p.ops()...)
	}
	opt.Terse = true
	return Run(t, ops, opt)
}

// Cuts gives smaller variants.
func (c BulkCase) Cuts() (l []BulkCase) {
	for _, p := range pbt.Cuts(c.Phases) {
		l = append(l, BulkCase{p})
	}
	return l
}
