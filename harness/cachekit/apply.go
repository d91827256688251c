// Package cachekit applies model operations to the real cache and generates them.
package cachekit

import (
	"errors"
	"fmt"
	"sort"
	"time"

	"github.com/liujiangwei/xxcache/cache"

	"verif/harness/model"
	"verif/harness/pbt"
)

func Class(err error) string {
	switch {
	case err == nil:
		return model.ENone
	case errors.Is(err, cache.ErrKeyNil):
		return model.ENil
	case errors.Is(err, cache.ErrWrongType):
		return model.EType
	}
	return model.EOther
}

func rs(v string, err error) model.Res {
	if err != nil {
		return model.RErr(Class(err))
	}
	return model.RStr(v)
}
func ri(n int, err error) model.Res {
	if err != nil {
		return model.RErr(Class(err))
	}
	return model.RInt(n)
}
func rf(f float64, err error) model.Res {
	if err != nil {
		return model.RErr(Class(err))
	}
	return model.RFloat(f)
}

func slots(vs []interface{}) model.Res {
	var out []string
	for _, v := range vs {
		switch x := v.(type) {
		case string:
			out = append(out, "s"+x)
		case error:
			out = append(out, "!"+Class(x))
		default:
			out = append(out, fmt.Sprintf("?%T(%v)", v, v))
		}
	}
	for i := range vs {
		vs[i] = clobbered
	}
	return model.RSlots(out)
}

// clobbered is what the caller writes into its own slices and maps after a call: neither what it passed nor what it
// received belongs to the cache.
const clobbered = "\x00not yours\x00"

func clobber(m map[string]string) {
	if m != nil && len(m) == 0 {
		m[clobbered] = clobbered
	}
	for k := range m {
		m[k] = clobbered
	}
}

// listArg calls f with the values, which must not be altered.
func listArg(v []pbt.B, f func([]string) model.Res) model.Res {
	a := pbt.Strs(v)
	res := f(a)
	for i := range a {
		if a[i] != string(v[i]) {
			return model.RErr(fmt.Sprintf("argument %d altered", i))
		}
		a[i] = clobbered
	}
	return res
}

// mapArg calls f with the pairs, which must not be altered.
func mapArg(k, v []pbt.B, f func(map[string]string) model.Res) model.Res {
	a, want := model.Pairs(k, v), model.Pairs(k, v)
	res := f(a)
	same := len(a) == len(want)
	for x, y := range want {
		z, ok := a[x]
		same = same && ok && y == z
	}
	if !same {
		return model.RErr("argument altered")
	}
	clobber(a)
	return res
}

// Apply runs one command on the real cache.
func Apply(c *cache.Cache, o model.Op) model.Res {
	k, f, v := o.Key(), o.Field(), o.Val()
	switch o.C {
	case "Set":
		return rs(c.Set(k, v))
	case "SetNX":
		return ri(c.SetNX(k, v))
	case "SetEX":
		return rs(c.SetEX(k, v, o.I))
	case "PSetEX":
		return rs(c.PSetEX(k, v, o.I))
	case "PExpireAt":
		return ri(c.PExpireAt(k, model.ExpireAt(time.Now(), o.I)), nil)
	case "Get":
		return rs(c.Get(k))
	case "GetSet":
		return rs(c.GetSet(k, v))
	case "StrLen":
		return ri(c.StrLen(k))
	case "Append":
		return ri(c.Append(k, v))
	case "SetRange":
		return ri(c.SetRange(k, int(o.I), v))
	case "GetRange":
		return rs(c.GetRange(k, int(o.I), int(o.J)))
	case "Incr":
		return ri(c.Incr(k))
	case "Decr":
		return ri(c.Decr(k))
	case "IncrBy":
		return ri(c.IncrBy(k, o.I))
	case "DecrBy":
		return ri(c.DecrBy(k, o.I))
	case "IncrByFloat":
		return rf(c.IncrByFloat(k, float64(o.X)))
	case "MSet":
		return mapArg(o.K, o.V, func(kv map[string]string) model.Res { return model.RStr(c.MSet(kv)) })
	case "MSetNX":
		return mapArg(o.K, o.V, func(kv map[string]string) model.Res { return model.RInt(c.MSetNX(kv)) })
	case "MGet":
		return listArg(o.K, func(l []string) model.Res { return slots(c.MGet(l...)) })
	case "Del":
		return model.RInt(c.Del(k))
	case "Exists":
		return listArg(o.K, func(l []string) model.Res { return model.RInt(c.Exists(l...)) })
	case "Type":
		return model.RStr(c.Type(k))
	case "Flush":
		c.Flush()
		return model.RStr("")
	case "HSet":
		return ri(c.HSet(k, f, v))
	case "HSetNX":
		return ri(c.HSetNX(k, f, v))
	case "HMSet":
		return mapArg(o.F, o.V, func(kv map[string]string) model.Res { return ri(c.HMSet(k, kv)) })
	case "HGet":
		return rs(c.HGet(k, f))
	case "HMGet":
		return listArg(o.F, func(l []string) model.Res {
			vs, err := c.HMGet(k, l...)
			if err != nil {
				return model.RErr(Class(err))
			}
			return slots(vs)
		})
	case "HExists":
		return ri(c.HExists(k, f))
	case "HDel":
		return listArg(o.F, func(l []string) model.Res { return ri(c.HDel(k, l...)) })
	case "HLen":
		return ri(c.HLen(k))
	case "HStrLen":
		return ri(c.HStrLen(k, f))
	case "HKeys", "HVals":
		fn := c.HKeys
		if o.C == "HVals" {
			fn = c.HVals
		}
		l, err := fn(k)
		if err != nil {
			return model.RErr(Class(err))
		}
		res := model.RBag(append([]string(nil), l...))
		for i := range l {
			l[i] = clobbered
		}
		return res
	case "HGetAll":
		m, err := c.HGetAll(k)
		if err != nil {
			return model.RErr(Class(err))
		}
		res := model.RMap(m)
		clobber(m)
		return res
	case "HIncrBy":
		return ri(c.HIncrBy(k, f, int(o.I)))
	case "HIncrByFloat":
		return rf(c.HIncrByFloat(k, f, float64(o.X)))
	}
	panic("apply: unknown command " + o.C)
}

// DumpOps observes everything about one key.
func DumpOps(k string) []model.Op {
	kk := []pbt.B{pbt.B(k)}
	return []model.Op{
		{C: "Type", K: kk}, {C: "Exists", K: kk}, {C: "Get", K: kk}, {C: "StrLen", K: kk},
		{C: "HLen", K: kk}, {C: "HGetAll", K: kk}, {C: "HKeys", K: kk},
	}
}

// Dump compares everything observable about the keys with the model.
func Dump(c *cache.Cache, m *model.Store, keys map[string]bool) error {
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		for _, o := range DumpOps(k) {
			want, got := m.Apply(o), Apply(c, o)
			if !model.Match(want, got) {
				return fmt.Errorf("%s(%s) = %v, want %v", o.C, pbt.Short(k), got, want)
			}
		}
	}
	return nil
}
