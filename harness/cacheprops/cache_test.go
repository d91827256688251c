package cacheprops

import (
	"testing"
	"time"

	"pgregory.net/rapid"

	"verif/harness/cachekit"
	"verif/harness/model"
	"verif/harness/pbt"
)

func TestMain(m *testing.M) { pbt.Main(m) }

type hist struct {
	Ops []model.Op `json:"ops"`
}

func histGen(w cachekit.Weights, lo, hi, nk int) func(t *rapid.T) hist {
	return func(t *rapid.T) hist { return hist{cachekit.History(t, w, lo, hi, nk)} }
}

// wide checks long histories over many keys and fields with unusual names.
func wide(t *testing.T, id string, w cachekit.Weights, opt cachekit.Opts) {
	pbt.Check(t, pbt.Spec[hist]{
		ID: id, Name: "wide", Quick: 9000, Thorough: 600000,
		Rule: "a history of up to 300 of the property's commands over up to 40 keys and 30 fields with arbitrary names (texts like numbers, long and binary ones, literals of the code under test), replies and final state compared with the model; non-trivial: at least 20 commands on at least 5 keys, 10 of which found their key",
		Gen:  func(t *rapid.T) hist { return hist{cachekit.Wide(t, w)} },
		Cut: func(c hist) (l []hist) {
			for _, ops := range pbt.Cuts(c.Ops) {
				l = append(l, hist{ops})
			}
			return l
		},
		Run: func(c hist, r *pbt.Rec) error {
			st, err := cachekit.Run(r.T, c.Ops, opt)
			keys := map[pbt.B]bool{}
			for _, o := range c.Ops {
				for _, k := range o.K {
					keys[k] = true
				}
			}
			r.Label(len(keys) > 16, "more than 16 keys")
			r.Label(st.Ops > 100, "more than 100 commands")
			r.Label(st.Purged > 0, "command met an expired key")
			r.NonTrivial(st.Ops >= 20 && len(keys) >= 5 && st.Hits >= 10)
			return err
		},
	})
}

// bulk checks histories of very many commands, keys or fields and very long values.
func bulk(t *testing.T, id string, w cachekit.Weights, opt cachekit.Opts) {
	pbt.Check(t, pbt.Spec[cachekit.BulkCase]{
		ID: id, Name: "bulk", Quick: 240, Thorough: 12000, Timeout: 3 * time.Minute,
		Rule: "up to 8 phases, each one of the property's commands over up to 70000 keys, or fields of one hash, or so many times on one, with values of up to 3 MB, compared with the model command by command and at the end; non-trivial: more than 10000 commands or a value of more than 1 MB, and at least 3 commands found their key",
		Gen:  func(t *rapid.T) cachekit.BulkCase { return cachekit.GenBulk(t, w) },
		Cut:  func(c cachekit.BulkCase) []cachekit.BulkCase { return c.Cuts() },
		Run: func(c cachekit.BulkCase, r *pbt.Rec) error {
			st, err := cachekit.RunBulk(r.T, c, opt)
			big := false
			for _, p := range c.Phases {
				big = big || p.Size > 1<<20 || p.C == "SetRange" && p.I > 1<<20
				r.Label(p.N > 10000 && p.Hash != "" && p.C[0] == 'H', "more than 10000 fields in one command or hash")
				r.Label(p.N > 10000 && p.Same, "more than 10000 times the same")
			}
			r.Label(st.Ops > 10000, "more than 10000 commands")
			r.Label(big, "value of more than 1 MB")
			r.Label(st.Purged > 0, "command met an expired key")
			r.NonTrivial((st.Ops > 10000 || big) && st.Hits >= 3)
			return err
		},
	})
}

var stringCmds = cachekit.Weights{{"Set", 6}, {"Get", 4}, {"SetNX", 2}, {"GetSet", 3}, {"StrLen", 2}, {"Append", 5}, {"SetRange", 5}, {"GetRange", 4}, {"MSet", 2}, {"MSetNX", 2}, {"MGet", 2}, {"Del", 1}}

func TestC01(t *testing.T) {
	pbt.Check(t, pbt.Spec[hist]{
		ID: "C01", Name: "history", Quick: 240000, Thorough: 15000000,
		Rule: "a history of 1-25 string commands over 4 keys, each reply compared with the map model and all keys read at the end; non-trivial: at least 3 commands found their key and at least 2 kinds of writing commands ran",
		Gen:  histGen(stringCmds, 1, 25, 4),
		Run: func(c hist, r *pbt.Rec) error {
			st, err := cachekit.Run(r.T, c.Ops, cachekit.Opts{DumpEnd: true})
			w := 0
			for _, k := range []string{"Set", "SetNX", "GetSet", "Append", "SetRange", "MSet", "MSetNX"} {
				if st.Cmds[k] > 0 {
					w++
				}
				r.Label(st.Cmds[k] > 0, "has "+k)
			}
			r.Label(st.Cmds["GetRange"] > 0, "has GetRange")
			r.Label(st.Errs > 0, "has error reply")
			r.NonTrivial(st.Hits >= 3 && w >= 2)
			return err
		},
	})
	// One value through every writer: the text must come back exactly.
	type valCase struct {
		V pbt.B `json:"v"`
		W pbt.B `json:"w"`
	}
	pbt.Check(t, pbt.Spec[valCase]{
		ID: "C01", Name: "fidelity", Quick: 240000, Thorough: 15000000,
		Rule: "one text stored through each writing command (Set, SetNX, GetSet, Append in two parts, SetRange, MSet, MSetNX, SetEX, PSetEX) and read back; non-trivial: the text parses as a number",
		Gen: func(t *rapid.T) valCase {
			return valCase{cachekit.Val(t), cachekit.Val(t)}
		},
		Run: func(c valCase, r *pbt.Rec) error {
			k := []pbt.B{"k"}
			one := func(ops ...model.Op) error {
				_, err := cachekit.Run(r.T, ops, cachekit.Opts{DumpEnd: true})
				return err
			}
			v, w := []pbt.B{c.V}, []pbt.B{c.W}
			for i := 0; i <= len(c.V); i++ {
				if err := one(model.Op{C: "Set", K: k, V: []pbt.B{c.V[:i]}}, model.Op{C: "Append", K: k, V: []pbt.B{c.V[i:]}}); err != nil {
					return err
				}
				if i > 8 {
					break
				}
			}
			for _, cmd := range []string{"Set", "SetNX", "GetSet", "MSet", "MSetNX", "Append", "SetRange", "SetEX", "PSetEX"} {
				o := model.Op{C: cmd, K: k, V: v}
				if cmd == "SetEX" || cmd == "PSetEX" {
					o.I = 100000
				}
				if err := one(o, model.Op{C: "Get", K: k}); err != nil {
					return err
				}
				if cmd != "SetNX" && cmd != "MSetNX" {
					if err := one(model.Op{C: "Set", K: k, V: w}, o, model.Op{C: "Get", K: k}, model.Op{C: "GetSet", K: k, V: w}); err != nil {
						return err
					}
				}
			}
			_, isNum := model.CanonInt(string(c.V))
			r.Label(isNum, "canonical integer")
			r.NonTrivial(model.LooksNumeric(string(c.V)))
			return nil
		},
	})
	wide(t, "C01", stringCmds, cachekit.Opts{DumpEnd: true})
	bulk(t, "C01", stringCmds, cachekit.Opts{DumpEnd: true})
}

var counterCmds = cachekit.Weights{{"Incr", 3}, {"Decr", 3}, {"IncrBy", 6}, {"DecrBy", 5}, {"IncrByFloat", 6}, {"Set", 4}, {"Get", 2}, {"Append", 1}, {"SetRange", 1}, {"GetSet", 1}, {"Del", 1}, {"SetNX", 1}, {"MSet", 1}, {"PSetEX", 1}, {"Sleep", 1}}

func TestC02(t *testing.T) {
	pbt.Check(t, pbt.Spec[hist]{
		ID: "C02", Name: "history", Quick: 240000, Thorough: 15000000,
		Rule: "a history of 1-25 counter and writing commands over 3 keys under a fake clock, each reply and the final state compared with the exact model; non-trivial: at least 3 counter commands met an existing key",
		Gen:  histGen(counterCmds, 1, 25, 3),
		Run: func(c hist, r *pbt.Rec) error {
			st, err := cachekit.Run(r.T, c.Ops, cachekit.Opts{DumpEnd: true, Clock: true})
			r.Label(st.Errs > 0, "has refused increment")
			r.Label(st.Cmds["IncrByFloat"] > 0, "has float increment")
			n := st.Cmds["Incr"] + st.Cmds["Decr"] + st.Cmds["IncrBy"] + st.Cmds["DecrBy"] + st.Cmds["IncrByFloat"]
			r.NonTrivial(n >= 3 && st.Hits >= 3)
			return err
		},
	})
	type incCase struct {
		V   pbt.B    `json:"v"`
		Has bool     `json:"has"`
		Op  model.Op `json:"op"`
		Op2 model.Op `json:"op2"`
	}
	ch := cachekit.Chooser(cachekit.Weights{{"Incr", 1}, {"Decr", 1}, {"IncrBy", 3}, {"DecrBy", 3}, {"IncrByFloat", 3}})
	pbt.Check(t, pbt.Spec[incCase]{
		ID: "C02", Name: "pair", Quick: 480000, Thorough: 30000000,
		Rule: "two counter commands on a key holding one given text (or missing), everything observable compared after each; non-trivial: the text is numeric or extreme enough that one of them must be refused",
		Gen: func(t *rapid.T) incCase {
			return incCase{cachekit.Val(t), rapid.Bool().Draw(t, "has"), cachekit.One(t, ch.Draw(t, "c1"), 1), cachekit.One(t, ch.Draw(t, "c2"), 1)}
		},
		Run: func(c incCase, r *pbt.Rec) error {
			var ops []model.Op
			if c.Has {
				ops = append(ops, model.Op{C: "Set", K: c.Op.K, V: []pbt.B{c.V}})
			}
			ops = append(ops, c.Op, c.Op2)
			st, err := cachekit.Run(r.T, ops, cachekit.Opts{DumpEach: true})
			r.NonTrivial(c.Has && (model.LooksNumeric(string(c.V)) || st.Errs > 0))
			r.Label(st.Errs > 0, "refused")
			return err
		},
	})
	wide(t, "C02", counterCmds, cachekit.Opts{DumpEnd: true, Clock: true})
	bulk(t, "C02", counterCmds, cachekit.Opts{DumpEnd: true, Clock: true})
}

var ttlCmds = cachekit.Weights{{"PSetEX", 6}, {"PExpireAt", 5}, {"SetEX", 4}, {"Sleep", 10}, {"Set", 3}, {"Get", 4}, {"SetNX", 2}, {"GetSet", 3}, {"StrLen", 2}, {"Append", 3}, {"SetRange", 3}, {"GetRange", 2}, {"Incr", 2}, {"IncrBy", 1}, {"DecrBy", 1}, {"IncrByFloat", 2}, {"MSet", 2}, {"MSetNX", 2}, {"MGet", 2}, {"Del", 1}, {"Exists", 2}, {"Type", 2},
	{"HSet", 3}, {"HSetNX", 2}, {"HGet", 1}, {"HMSet", 2}, {"HLen", 1}, {"HExists", 1}, {"HIncrBy", 2}, {"HGetAll", 1}, {"HDel", 2}, {"HIncrByFloat", 1}, {"HKeys", 1}, {"HVals", 1}, {"HStrLen", 1}, {"HMGet", 1}, {"Decr", 1}, {"Flush", 1}}

func TestC03(t *testing.T) {
	run := func(opt cachekit.Opts) func(c hist, r *pbt.Rec) error {
		return func(c hist, r *pbt.Rec) error {
			st, err := cachekit.Run(r.T, c.Ops, opt)
			r.Label(st.Purged > 0, "command met an expired key")
			r.Label(st.Sleeps > 0, "time passes")
			r.NonTrivial(st.Purged > 0)
			return err
		}
	}
	pbt.Check(t, pbt.Spec[hist]{
		ID: "C03", Name: "history", Quick: 240000, Thorough: 15000000,
		Rule: "a history of 2-30 commands with lifetimes and clock advances over 2 keys, replies compared with the model under the fake clock (no observation between commands); non-trivial: some command met a key whose deadline had passed",
		Gen:  histGen(ttlCmds, 2, 30, 2),
		Run:  run(cachekit.Opts{DumpEnd: true, Clock: true}),
	})
	type life struct {
		Pre   []model.Op `json:"pre"`
		First model.Op   `json:"first"`
		Mid   []model.Op `json:"mid"`
		Ms    int64      `json:"ms"`
		Mid2  []model.Op `json:"mid2"`
		Ms2   int64      `json:"ms2"`
		Probe model.Op   `json:"probe"`
	}
	var probes cachekit.Weights
	for _, x := range ttlCmds {
		if x.C != "Sleep" {
			probes = append(probes, struct {
				C string
				W int
			}{x.C, 1})
		}
	}
	pc := cachekit.Chooser(probes)
	pbt.Check(t, pbt.Spec[life]{
		ID: "C03", Name: "lifecycle", Quick: 320000, Thorough: 20000000,
		Rule: "one key gets a lifetime (a string with one, or any kind of key and then a deadline), optional commands and clock advances around its deadline, then one probe of any command and a full comparison; non-trivial: the key's first deadline passes during the case",
		Gen: func(t *rapid.T) life {
			var l life
			l.First = cachekit.One(t, rapid.SampledFrom([]string{"PSetEX", "SetEX", "PExpireAt", "PExpireAt"}).Draw(t, "first"), 1)
			if l.First.C == "PExpireAt" {
				l.Pre = []model.Op{cachekit.One(t, rapid.SampledFrom([]string{"HMSet", "HSet", "HIncrBy", "HSetNX", "Set", "Append", "Incr", "PSetEX"}).Draw(t, "pre"), 1)}
			} else if rapid.Bool().Draw(t, "num") {
				l.First.V = []pbt.B{pbt.B(rapid.SampledFrom([]string{"5", "1.5", "9223372036854775807"}).Draw(t, "nv"))}
			}
			mid := func(n int, name string) []model.Op {
				return rapid.SliceOfN(rapid.Custom(func(t *rapid.T) model.Op { return cachekit.One(t, pc.Draw(t, "mid"), 1) }), 0, n).Draw(t, name)
			}
			l.Mid = mid(2, "m1")
			if len(l.Pre) > 0 && l.Pre[0].C[0] == 'H' && rapid.IntRange(0, 7).Draw(t, "bulk") == 7 {
				o := model.Op{C: "HMSet", K: l.First.K, F: cachekit.ManyFields(t)}
				for _, f := range o.F {
					o.V = append(o.V, "v"+f)
				}
				if rapid.Bool().Draw(t, "before") {
					l.Pre = append(l.Pre, o)
				} else {
					l.Mid = append(l.Mid, o)
				}
			}
			ms := l.First.I
			if l.First.C == "SetEX" && ms > 0 && ms < 1e9 {
				ms *= 1000
			}
			around := func() int64 {
				if ms <= 0 || ms > 1e12 {
					return rapid.SampledFrom([]int64{0, 1, 300, 1000, 3600000}).Draw(t, "adv")
				}
				return rapid.SampledFrom([]int64{0, ms / 2, ms - 1, ms, ms + 1, ms - ms%1000 + 1, ms + 500, 2 * ms}).Draw(t, "adv")
			}
			l.Ms = around()
			l.Mid2 = mid(2, "m2")
			l.Ms2 = around()
			l.Probe = cachekit.One(t, pc.Draw(t, "probe"), 1)
			return l
		},
		Run: func(l life, r *pbt.Rec) error {
			ops := append(append([]model.Op(nil), l.Pre...), l.First)
			ops = append(ops, l.Mid...)
			ops = append(ops, model.Op{C: "Sleep", I: l.Ms})
			ops = append(ops, l.Mid2...)
			ops = append(ops, model.Op{C: "Sleep", I: l.Ms2}, l.Probe)
			st, err := cachekit.Run(r.T, ops, cachekit.Opts{DumpEnd: true, Clock: true})
			r.Label(st.Purged > 0, "command met an expired key")
			r.NonTrivial(st.Purged > 0)
			return err
		},
	})
	wide(t, "C03", ttlCmds, cachekit.Opts{DumpEnd: true, Clock: true})
	bulk(t, "C03", ttlCmds, cachekit.Opts{DumpEnd: true, Clock: true})
}

var hashCmds = cachekit.Weights{{"HSet", 6}, {"HSetNX", 3}, {"HMSet", 3}, {"HGet", 3}, {"HMGet", 2}, {"HExists", 3}, {"HDel", 4}, {"HLen", 3}, {"HStrLen", 2}, {"HKeys", 2}, {"HVals", 2}, {"HGetAll", 3}, {"HIncrBy", 4}, {"HIncrByFloat", 4}, {"Del", 1}, {"Exists", 1}, {"Type", 1}}

func TestC04(t *testing.T) {
	pbt.Check(t, pbt.Spec[hist]{
		ID: "C04", Name: "history", Quick: 320000, Thorough: 20000000,
		Rule: "a history of 1-25 hash commands over 2 keys and 5 fields, each reply compared with the map-of-maps model and everything read at the end; non-trivial: at least 4 commands found their hash",
		Gen:  histGen(hashCmds, 1, 25, 2),
		Run: func(c hist, r *pbt.Rec) error {
			st, err := cachekit.Run(r.T, c.Ops, cachekit.Opts{DumpEnd: true})
			for _, k := range []string{"HIncrBy", "HIncrByFloat", "HDel", "HExists", "HMSet"} {
				r.Label(st.Cmds[k] > 0, "has "+k)
			}
			r.Label(st.Errs > 0, "has error reply")
			r.NonTrivial(st.Hits >= 4)
			return err
		},
	})
	type fieldCase struct {
		V   pbt.B      `json:"v"`
		How string     `json:"how"`
		Ops []model.Op `json:"ops"`
	}
	ch := cachekit.Chooser(cachekit.Weights{{"HIncrBy", 3}, {"HIncrByFloat", 3}, {"HSetNX", 1}, {"HSet", 1}, {"HExists", 1}, {"HDel", 1}})
	pbt.Check(t, pbt.Spec[fieldCase]{
		ID: "C04", Name: "field", Quick: 320000, Thorough: 20000000,
		Rule: "one text stored in a field by HSet, HSetNX or HMSet, then 1-4 commands on fields of that hash, everything compared after each; non-trivial: the text is numeric",
		Gen: func(t *rapid.T) fieldCase {
			return fieldCase{cachekit.Val(t), rapid.SampledFrom([]string{"HSet", "HSetNX", "HMSet"}).Draw(t, "how"),
				rapid.SliceOfN(rapid.Custom(func(t *rapid.T) model.Op {
					o := cachekit.One(t, ch.Draw(t, "c"), 1)
					if rapid.Bool().Draw(t, "same") {
						o.F = []pbt.B{"f"}
					}
					return o
				}), 1, 4).Draw(t, "ops")}
		},
		Run: func(c fieldCase, r *pbt.Rec) error {
			ops := append([]model.Op{{C: c.How, K: []pbt.B{"k"}, F: []pbt.B{"f"}, V: []pbt.B{c.V}}}, c.Ops...)
			st, err := cachekit.Run(r.T, ops, cachekit.Opts{DumpEach: true})
			r.Label(st.Errs > 0, "refused")
			r.NonTrivial(model.LooksNumeric(string(c.V)))
			return err
		},
	})
	wide(t, "C04", hashCmds, cachekit.Opts{DumpEnd: true})
	bulk(t, "C04", hashCmds, cachekit.Opts{DumpEnd: true})
}

var allCmds = cachekit.Weights{{"Set", 3}, {"Get", 1}, {"SetNX", 2}, {"SetEX", 1}, {"PSetEX", 4}, {"PExpireAt", 4}, {"GetSet", 2}, {"StrLen", 1}, {"Append", 2}, {"SetRange", 2}, {"GetRange", 1}, {"Incr", 1}, {"Decr", 1}, {"IncrBy", 2}, {"DecrBy", 1}, {"IncrByFloat", 2}, {"MSet", 2}, {"MSetNX", 2}, {"MGet", 2}, {"Del", 2}, {"Exists", 2}, {"Type", 2}, {"Flush", 1},
	{"HSet", 3}, {"HSetNX", 2}, {"HMSet", 2}, {"HGet", 1}, {"HMGet", 1}, {"HExists", 1}, {"HDel", 3}, {"HLen", 1}, {"HStrLen", 1}, {"HKeys", 1}, {"HVals", 1}, {"HGetAll", 1}, {"HIncrBy", 2}, {"HIncrByFloat", 2}, {"Sleep", 6}}

func TestC05(t *testing.T) {
	pbt.Check(t, pbt.Spec[hist]{
		ID: "C05", Name: "types", Quick: 160000, Thorough: 10000000,
		Rule: "a history of 1-20 commands of every kind over 3 shared keys under a fake clock; after every command Type, Exists, Get, StrLen, HLen, HGetAll and HKeys of every key are compared with the model; non-trivial: at least one command failed and at least 3 found their key",
		Gen:  histGen(allCmds, 1, 20, 3),
		Run: func(c hist, r *pbt.Rec) error {
			st, err := cachekit.Run(r.T, c.Ops, cachekit.Opts{DumpEach: true, Clock: true})
			r.Label(st.Errs > 0, "has error reply")
			r.Label(st.Purged > 0, "command met an expired key")
			r.NonTrivial(st.Errs > 0 && st.Hits >= 3)
			return err
		},
	})
	// Without observation between commands, so that leftovers of expired keys stay.
	pbt.Check(t, pbt.Spec[hist]{
		ID: "C05", Name: "blind", Quick: 160000, Thorough: 10000000,
		Rule: "as 'types' but over 2-30 commands on 2 keys and compared only through the replies and at the end; non-trivial: at least one command failed and at least 3 found their key",
		Gen:  histGen(allCmds, 2, 30, 2),
		Run: func(c hist, r *pbt.Rec) error {
			st, err := cachekit.Run(r.T, c.Ops, cachekit.Opts{DumpEnd: true, Clock: true})
			r.Label(st.Errs > 0, "has error reply")
			r.NonTrivial(st.Errs > 0 && st.Hits >= 3)
			return err
		},
	})
	wide(t, "C05", allCmds, cachekit.Opts{DumpEnd: true, Clock: true})
	bulk(t, "C05", allCmds, cachekit.Opts{DumpEnd: true, Clock: true})
}

func TestC07(t *testing.T) {
	w := append(cachekit.Weights{{"Sleep", 14}}, ttlCmds...)
	pbt.Check(t, pbt.Spec[cachekit.ReclaimCase]{
		ID: "C07", Name: "reclaim", Quick: 800, Thorough: 30000,
		Rule: "16-48 keys of 128-256 KiB, written in 7 ways with and without lifetimes, are left alone for 90 seconds of sweeps; the memory in use must be that of the living keys, which must read back; non-trivial: at least 2 MiB expire and a key stays",
		Gen:  cachekit.GenReclaim,
		Run: func(c cachekit.ReclaimCase, r *pbt.Rec) error {
			return cachekit.RunReclaim(r.T, c, r)
		},
	})
	pbt.Check(t, pbt.Spec[hist]{
		ID: "C07", Name: "sweep", Quick: 120000, Thorough: 6000000,
		Rule: "a history of 2-30 commands with lifetimes and clock advances with the sweep service running, replies compared with the model that knows no sweep; non-trivial: more than one sweep period passes and at least 3 commands found their key",
		Gen:  histGen(w, 2, 30, 3),
		Run: func(c hist, r *pbt.Rec) error {
			st, err := cachekit.Run(r.T, c.Ops, cachekit.Opts{DumpEnd: true, Clock: true, Cron: true})
			var ms int64
			for _, o := range c.Ops {
				if o.C == "Sleep" {
					ms += o.I
				}
			}
			r.Label(ms > 2000, "a sweep period passed")
			r.Label(st.Purged > 0, "a key expired")
			r.NonTrivial(ms > 2000 && st.Hits >= 3)
			return err
		},
	})
	pbt.Check(t, pbt.Spec[cachekit.SweepCase]{
		ID: "C07", Name: "parallel", Quick: 18, Thorough: 240, Timeout: 3 * time.Minute, Concurrent: true, Retries: 30,
		Rule: "2000-20000 keys expire, then are rewritten by 1-3 goroutines in the milliseconds around a sweep running in real time; every rewritten key must still be there after it; every case is non-trivial",
		Gen:  cachekit.GenSweep,
		Run:  cachekit.RunSweep,
	})
	wide(t, "C07", w, cachekit.Opts{DumpEnd: true, Clock: true, Cron: true})
	bulk(t, "C07", w, cachekit.Opts{DumpEnd: true, Clock: true, Cron: true})
}
