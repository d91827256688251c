package cachekit

import (
	"math"
	"strconv"
	"strings"

	"pgregory.net/rapid"

	"verif/harness/model"
	"verif/harness/pbt"
)

// Keys: few, so that histories collide. The empty key and a binary key are included.
var keyPool = []pbt.B{"k", "a", "b", "", "\x00\xffkey", "user:1"}

func Key(t *rapid.T) pbt.B { return rapid.SampledFrom(keyPool[:4]).Draw(t, "key") }

func KeyN(n int) *rapid.Generator[pbt.B] { return rapid.SampledFrom(keyPool[:n]) }

func Keys(t *rapid.T, lo, hi int) []pbt.B {
	return rapid.SliceOfN(KeyN(len(keyPool)), lo, hi).Draw(t, "keys")
}

// ManyFields draws up to 60 distinct field names.
func ManyFields(t *rapid.T) []pbt.B {
	n := rapid.IntRange(1, 60).Draw(t, "nf")
	if rapid.IntRange(0, 5).Draw(t, "lots") == 5 {
		n = max(1, pbt.Len(t, 700))
	}
	from := rapid.IntRange(0, 20).Draw(t, "from")
	var l []pbt.B
	for i := 0; i < n; i++ {
		l = append(l, pbt.B(strconv.Itoa(from+i)))
	}
	return l
}

var fieldPool = []pbt.B{"f", "g", "h", "", "\x80\x00", "10", "field"}

func Field(t *rapid.T) pbt.B { return rapid.SampledFrom(fieldPool[:5]).Draw(t, "field") }

func Fields(t *rapid.T, lo, hi int) []pbt.B {
	return rapid.SliceOfN(rapid.SampledFrom(fieldPool), lo, hi).Draw(t, "fields")
}

// Texts that a number-compacting store can get wrong.
var numLike = []pbt.B{
	"0", "1", "-1", "5", "42", "100", "-0", "+0", "+1", "+5", "00", "01", "007", "-007", "000000000000000000001",
	"1.0", "1.00", "1.5", "1.50", "-1.5", "-1.50", "0.1", "0.10", ".5", "5.", "-.5", "+.5", "0.0", "-0.0", "00.5", "3.14", "1.10", "10.0",
	"1e5", "1E5", "1e+5", "1e-5", "1e0", "1e-7", "1e21", "1e22", "1e300", "1e400", "-1e400", "1e-400", "5e-324", "2.5e3", "1.7976931348623157e308",
	"inf", "Inf", "INF", "+inf", "+Inf", "-inf", "-Inf", "infinity", "Infinity", "-Infinity", "nan", "NaN", "NAN", "-nan",
	"0x10", "0X1P4", "0x1p-2", "0x", "0b1", "0o7", "1_000", "1__0", "0x_1p4", "1e", "e1", "1.2.3", "--1", "+-1", "+", "-", ".", "",
	"9223372036854775807", "-9223372036854775808", "9223372036854775808", "-9223372036854775809", "9223372036854775806", "-9223372036854775807",
	"18446744073709551615", "18446744073709551616", "2147483647", "2147483648", "-2147483648", "4294967295", "4294967296",
	"9007199254740992", "9007199254740993", "-9007199254740993", "123456789012345678901234567890", "1234567890123456789", "1.0000000000000000001", "0.30000000000000004", "3.0000000000000004",
	"100000000000000000000", "1000000000000000000000", "10000000000000000000000",
	" 1", "1 ", " ", "1\n", "\t1", "1\x00", "\x00", "１", "٣", "true", "null", "abc", "a1", "1a", "hello world", "Nil", "OK",
}

// Val draws a byte-string value, biased towards number-like texts.
func Val(t *rapid.T) pbt.B {
	switch k := rapid.IntRange(0, 31).Draw(t, "valkind"); k / 3 {
	case 10:
		if k == 30 {
			return pbt.DictText(t)
		}
		unit := string(rapid.SliceOfN(rapid.Byte(), 1, 3).Draw(t, "unit"))
		n := pbt.Len(t, 3000)
		if rapid.IntRange(0, 19).Draw(t, "huge") == 19 {
			n = pbt.Len(t, 150000)
		}
		return pbt.B(strings.Repeat(unit, n/len(unit)+1)[:n])
	case 9:
		if rapid.IntRange(0, 2).Draw(t, "long") == 2 { // long values
			return pbt.B(strings.Repeat(string(rapid.SliceOfN(rapid.Byte(), 1, 7).Draw(t, "unit")), rapid.IntRange(1, 400).Draw(t, "rep")))
		}
		return pbt.B(FloatText(t))
	case 0, 1, 2, 3:
		return rapid.SampledFrom(numLike).Draw(t, "val")
	case 4, 5:
		return pbt.B(strconv.FormatInt(Int64(t), 10))
	case 6:
		return pbt.B(rapid.StringMatching(`[-+]?[0-9]{0,19}(\.[0-9]{0,6})?([eE][-+]?[0-9]{1,3})?`).Draw(t, "val"))
	case 7:
		return pbt.B(rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(t, "bytes"))
	case 8:
		return pbt.B(rapid.StringMatching(`[a-c0-9]{0,6}`).Draw(t, "val"))
	}
	return pbt.B(rapid.StringMatching(`[0-9]{1,25}`).Draw(t, "val"))
}

// FloatText is a decimal text of a float, in some format.
func FloatText(t *rapid.T) string {
	f := float64(FloatInc(t))
	switch rapid.IntRange(0, 3).Draw(t, "ffmt") {
	case 0:
		return strconv.FormatFloat(f, 'f', -1, 64)
	case 1:
		return strconv.FormatFloat(f, 'e', -1, 64)
	case 2:
		return strconv.FormatFloat(f, 'f', 3, 64)
	}
	return strconv.FormatFloat(f, 'g', -1, 64)
}

// Int64 draws integers with emphasis on small ones and the extremes.
func Int64(t *rapid.T) int64 {
	switch rapid.IntRange(0, 6).Draw(t, "intkind") {
	case 6:
		return pbt.DictInt(t)
	case 0, 1, 2:
		return rapid.Int64Range(-20, 20).Draw(t, "n")
	case 3:
		return rapid.SampledFrom([]int64{math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MinInt64 + 1, math.MaxInt32, math.MinInt32, math.MaxInt32 + 1, math.MinInt32 - 1, math.MaxUint32, 1 << 53, 1<<53 + 1, -(1<<53 + 1), math.MaxInt64 / 2, math.MinInt64 / 2}).Draw(t, "n")
	case 4:
		return rapid.Int64().Draw(t, "n")
	}
	return rapid.Int64Range(-1000000, 1000000).Draw(t, "n")
}

// FloatInc draws finite float increments (no negative zero).
func FloatInc(t *rapid.T) pbt.F {
	var f float64
	switch rapid.IntRange(0, 5).Draw(t, "fkind") {
	case 0, 1:
		f = float64(rapid.IntRange(-200, 200).Draw(t, "q")) / 4
	case 2:
		f = float64(rapid.IntRange(-5, 5).Draw(t, "i"))
	case 3:
		f = float64(rapid.IntRange(-1000, 1000).Draw(t, "c")) / 100
	case 4:
		f = rapid.SampledFrom([]float64{math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, 1e300, 1e21, 1e22, 1e-7, 1 << 53, 1 << 62, 1 << 63, -(1 << 63), 9.3e18, 0.1, 1e17 + 1}).Draw(t, "f")
	default:
		f = rapid.Float64().Draw(t, "f")
	}
	if f == 0 {
		f = 0
		return 0
	}
	return pbt.F(f)
}

func nonFinite(t *rapid.T) pbt.F {
	return pbt.F(rapid.SampledFrom([]float64{math.Inf(1), math.Inf(-1), math.NaN()}).Draw(t, "nonfinite"))
}

func offset(t *rapid.T) int64 {
	switch rapid.IntRange(0, 9).Draw(t, "offkind") {
	case 9:
		return int64(pbt.Len(t, 5000))
	case 0:
		return -rapid.Int64Range(1, 5).Draw(t, "off")
	case 1:
		return rapid.SampledFrom([]int64{math.MinInt64, -1, 100, 1000, 4096, 5000}).Draw(t, "off")
	default:
		return rapid.Int64Range(0, 12).Draw(t, "off")
	}
}

func index(t *rapid.T) int64 {
	switch rapid.IntRange(0, 10).Draw(t, "idxkind") {
	case 10:
		return pbt.DictInt(t)
	case 0:
		return rapid.SampledFrom([]int64{math.MinInt64, math.MaxInt64, math.MinInt64 + 1, math.MaxInt64 - 1, math.MinInt32, math.MaxInt32, 1 << 40, -(1 << 40), -(1 << 62)}).Draw(t, "idx")
	default:
		return rapid.Int64Range(-15, 15).Draw(t, "idx")
	}
}

// Weights maps a command to its relative frequency.
type Weights []struct {
	C string
	W int
}

// Names draws n distinct names: short ones, texts that look like numbers, long and binary ones, literals.
func Names(t *rapid.T, n int) []pbt.B {
	seen := map[pbt.B]bool{}
	var l []pbt.B
	style := rapid.IntRange(0, 3).Draw(t, "namestyle")
	for i := 0; i < n; i++ {
		v := Val(t)
		switch style {
		case 0:
			v = pbt.B("key-" + strconv.Itoa(i))
		case 1:
			v = pbt.DictText(t)
		}
		for seen[v] {
			v += pbt.B(strconv.Itoa(i))
		}
		seen[v] = true
		l = append(l, v)
	}
	return l
}

// Rename gives the keys and fields of a history other names.
func Rename(t *rapid.T, ops []model.Op) {
	rename := func(get func(o *model.Op) []pbt.B) {
		var old []pbt.B
		seen := map[pbt.B]int{}
		for i := range ops {
			for _, k := range get(&ops[i]) {
				if _, ok := seen[k]; !ok {
					seen[k] = len(old)
					old = append(old, k)
				}
			}
		}
		names := Names(t, len(old))
		for i := range ops {
			l := get(&ops[i])
			for j := range l {
				l[j] = names[seen[l[j]]]
			}
		}
	}
	rename(func(o *model.Op) []pbt.B { return o.K })
	rename(func(o *model.Op) []pbt.B { return o.F })
}

// Wide draws a long history over many keys and fields with unusual names.
func Wide(t *rapid.T, w Weights) []model.Op {
	ch := Chooser(w)
	nk, nf := rapid.IntRange(1, 40).Draw(t, "nkeys"), rapid.IntRange(1, 30).Draw(t, "nfields")
	if rapid.IntRange(0, 7).Draw(t, "crowd") == 7 {
		nk, nf = pbt.Len(t, 1500), pbt.Len(t, 1500)
	}
	keys, fields := crowd(t, "key", nk), crowd(t, "field", nf)
	many := func(from []pbt.B) (to []pbt.B) {
		at := rapid.IntRange(0, len(from)-1).Draw(t, "from")
		for n := pbt.Len(t, len(from)); n > 0; n-- {
			to = append(to, from[at%len(from)])
			at++
		}
		return to
	}
	values := func(l []pbt.B) (to []pbt.B) {
		unit := Val(t)
		for i := range l {
			to = append(to, unit+pbt.B(strconv.Itoa(i)))
		}
		return to
	}
	n := rapid.SampledFrom([]int{1, 2, 5, 10, 20, 40, 80, 150, 300}).Draw(t, "n")
	pick := func(from, l []pbt.B) (to []pbt.B) {
		for range l {
			to = append(to, rapid.SampledFrom(from).Draw(t, "name"))
		}
		return to
	}
	var ops []model.Op
	for len(ops) < n {
		o := One(t, ch.Draw(t, "cmd"), 4)
		o.K = pick(keys, o.K)
		if len(o.F) > 0 {
			o.F = pick(fields, o.F)
		}
		lot := rapid.IntRange(0, 3).Draw(t, "lot") == 3
		switch o.C {
		case "MSet", "MSetNX":
			if lot {
				o.K = many(keys)
				o.V = values(o.K)
			}
			o.K, o.V = distinct(o.K, o.V)
		case "MGet", "Exists":
			if lot {
				o.K = many(keys)
			}
		case "HMGet", "HDel":
			if lot {
				o.F = many(fields)
			}
		case "HMSet":
			if lot {
				o.F = many(fields)
				o.V = values(o.F)
			}
			o.F, o.V = distinct(o.F, o.V)
		}
		ops = append(ops, o)
	}
	meet(t, ops)
	return ops
}

// crowd draws n distinct names, numbered ones when they are many.
func crowd(t *rapid.T, what string, n int) []pbt.B {
	n = max(1, n)
	if n <= 40 {
		return Names(t, n)
	}
	var l []pbt.B
	for i := 0; i < n; i++ {
		l = append(l, pbt.B(what+strconv.Itoa(i)))
	}
	return l
}

// one value per distinct name: map arguments cannot carry more
func distinct(ks, vs []pbt.B) (k2, v2 []pbt.B) {
	seen := map[pbt.B]bool{}
	for i, k := range ks {
		if !seen[k] {
			seen[k] = true
			k2, v2 = append(k2, k), append(v2, vs[i])
		}
	}
	return k2, v2
}

// Chooser draws command names by weight, the first being the shrink target.
func Chooser(w Weights) *rapid.Generator[string] {
	var l []string
	for _, x := range w {
		for i := 0; i < x.W; i++ {
			l = append(l, x.C)
		}
	}
	return rapid.SampledFrom(l)
}

// One draws the arguments of command c over the first nk keys.
func One(t *rapid.T, c string, nk int) model.Op {
	o := model.Op{C: c}
	key := func() { o.K = []pbt.B{KeyN(nk).Draw(t, "key")} }
	field := func() { o.F = []pbt.B{Field(t)} }
	val := func() { o.V = []pbt.B{Val(t)} }
	switch c {
	case "Set", "SetNX", "GetSet", "Append":
		key()
		val()
	case "SetEX":
		key()
		val()
		o.I = Seconds(t)
	case "PSetEX":
		key()
		val()
		o.I = Millis(t)
	case "PExpireAt":
		key()
		if o.I = Millis(t); o.I == 0 {
			o.I = -1
		}
	case "Get", "StrLen", "Incr", "Decr", "Del", "Type", "HLen", "HKeys", "HVals", "HGetAll":
		key()
	case "SetRange":
		key()
		val()
		o.I = offset(t)
	case "GetRange":
		key()
		o.I, o.J = index(t), index(t)
	case "IncrBy", "DecrBy":
		key()
		o.I = Int64(t)
	case "IncrByFloat":
		key()
		o.X = FloatInc(t)
		if rapid.IntRange(0, 24).Draw(t, "nf") == 24 {
			o.X = nonFinite(t)
		}
	case "MSet", "MSetNX":
		o.K = rapid.SliceOfN(KeyN(nk), 0, 4).Draw(t, "keys")
		for range o.K {
			o.V = append(o.V, Val(t))
		}
		o.K, o.V = distinct(o.K, o.V)
	case "MGet", "Exists":
		o.K = rapid.SliceOfN(KeyN(nk), 0, 5).Draw(t, "keys")
		if rapid.IntRange(0, 19).Draw(t, "many") == 19 {
			o.K = append(o.K, rapid.SliceOfN(KeyN(nk), 10, 40).Draw(t, "morekeys")...)
		}
	case "Flush":
	case "HSet", "HSetNX":
		key()
		field()
		val()
	case "HMSet":
		key()
		seen := map[pbt.B]bool{}
		fs := Fields(t, 0, 5)
		if rapid.IntRange(0, 14).Draw(t, "many") == 14 {
			fs = ManyFields(t)
			for _, f := range fs {
				o.F, o.V = append(o.F, f), append(o.V, "v"+f)
			}
			break
		}
		for _, f := range fs {
			if !seen[f] {
				seen[f] = true
				o.F = append(o.F, f)
				o.V = append(o.V, Val(t))
			}
		}
	case "HGet", "HExists", "HStrLen":
		key()
		field()
	case "HMGet", "HDel":
		key()
		o.F = Fields(t, 0, 4)
		if rapid.IntRange(0, 19).Draw(t, "many") == 19 {
			o.F = ManyFields(t)
		}
	case "HIncrBy":
		key()
		field()
		o.I = Int64(t)
	case "HIncrByFloat":
		key()
		field()
		o.X = FloatInc(t)
		if rapid.IntRange(0, 24).Draw(t, "nf") == 24 {
			o.X = nonFinite(t)
		}
	case "Sleep": // clock advance in milliseconds (plus one microsecond, so no deadline is hit exactly)
		if rapid.IntRange(0, 4).Draw(t, "anyms") == 4 {
			o.I = rapid.Int64Range(0, 20000).Draw(t, "ms")
			break
		}
		o.I = rapid.SampledFrom([]int64{0, 1, 2, 5, 10, 50, 200, 400, 999, 1000, 1500, 2000, 3000, 5000, 60000}).Draw(t, "ms")
	default:
		panic("gen: unknown command " + c)
	}
	return o
}

// Millis / Seconds draw lifetimes: mostly short, some huge or non-positive.
func Millis(t *rapid.T) int64 {
	if rapid.IntRange(0, 9).Draw(t, "mskind") == 9 {
		return rapid.SampledFrom([]int64{0, -1, -1000, math.MinInt64, math.MaxInt64, math.MaxInt64 / 1000, 9223372036854, 9223372036855, 9223372036856, 18446744073709, 18446744073710, 18446744074000, 1 << 53, 1 << 62}).Draw(t, "ms")
	}
	switch rapid.IntRange(0, 5).Draw(t, "anyms") {
	case 4:
		return rapid.Int64Range(1, 10000).Draw(t, "ms")
	case 5: // of any magnitude
		return max(1, rapid.Int64Range(0, math.MaxInt64).Draw(t, "msbits")>>rapid.IntRange(0, 62).Draw(t, "shift"))
	}
	return rapid.SampledFrom([]int64{1, 2, 5, 10, 50, 100, 300, 999, 1000, 1001, 2500, 5000, 100000}).Draw(t, "ms")
}

func Seconds(t *rapid.T) int64 {
	if rapid.IntRange(0, 6).Draw(t, "skind") == 6 {
		return rapid.SampledFrom([]int64{0, -1, -100, math.MinInt64, math.MaxInt64, 9223372036, 9223372037, 10000000000, 18446744073, 18446744074, 18446744075, 27670116111, 36893488148, 1 << 53, 1 << 62}).Draw(t, "s")
	}
	switch rapid.IntRange(0, 7).Draw(t, "anys") {
	case 6:
		return rapid.Int64Range(1, 100).Draw(t, "s")
	case 7:
		return max(1, rapid.Int64Range(0, math.MaxInt64).Draw(t, "sbits")>>rapid.IntRange(0, 62).Draw(t, "shift"))
	}
	return rapid.SampledFrom([]int64{1, 2, 3, 5, 60, 100000}).Draw(t, "s")
}

// History draws a history of lo..hi commands over nk keys.
func History(t *rapid.T, w Weights, lo, hi, nk int) []model.Op {
	ch := Chooser(w)
	ops := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) model.Op {
		return One(t, ch.Draw(t, "cmd"), nk)
	}), lo, hi).Draw(t, "history")
	if rapid.IntRange(0, 9).Draw(t, "rename") == 9 {
		Rename(t, ops)
	}
	meet(t, ops)
	return ops
}

// meet makes some clock advances end around a deadline set before.
func meet(t *rapid.T, ops []model.Op) {
	var lives []int64
	for i, o := range ops {
		ms := o.I
		switch o.C {
		case "SetEX":
			ms = min(ms, math.MaxInt64/1000) * 1000
			fallthrough
		case "PSetEX", "PExpireAt":
			if ms > 0 && ms <= 1000000 {
				lives = append(lives, ms)
			}
		case "Sleep":
			if len(lives) > 0 && rapid.IntRange(0, 2).Draw(t, "meet") == 2 {
				ops[i].I = max(0, lives[len(lives)-1-rapid.IntRange(0, len(lives)-1).Draw(t, "life")]+rapid.Int64Range(-1, 1).Draw(t, "off"))
			}
		}
	}
}
