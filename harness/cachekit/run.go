package cachekit

import (
	"fmt"
	"strconv"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/liujiangwei/xxcache/cache"

	"verif/harness/model"
	"verif/harness/pbt"
)

// Opts of a history run.
type Opts struct {
	DumpEach bool // compare everything observable after every command
	DumpEnd  bool
	Clock    bool // run under the fake clock
	Cron     bool // with the background sweep
	Terse    bool // no history in the message
}

// Stats of a run, used to classify cases.
type Stats struct {
	Ops, Hits, Errs, Purged, Skipped, Sleeps int
	Cmds                                     map[string]int
}

func show(o model.Op) string {
	var p []string
	for _, k := range o.K {
		p = append(p, pbt.Short(string(k)))
	}
	for _, k := range o.F {
		p = append(p, pbt.Short(string(k)))
	}
	for _, k := range o.V {
		p = append(p, pbt.Short(string(k)))
	}
	switch o.C {
	case "SetEX", "PSetEX", "PExpireAt", "SetRange", "IncrBy", "DecrBy", "HIncrBy", "Sleep":
		p = append(p, fmt.Sprint(o.I))
	case "GetRange":
		p = append(p, fmt.Sprint(o.I), fmt.Sprint(o.J))
	case "IncrByFloat", "HIncrByFloat":
		p = append(p, fmt.Sprint(float64(o.X)))
	}
	return o.C + "(" + strings.Join(p, ", ") + ")"
}

// Show renders a history.
func Show(ops []model.Op) string {
	var p []string
	for _, o := range ops {
		p = append(p, show(o))
	}
	return strings.Join(p, "; ")
}

func runOps(ops []model.Op, opt Opts, now func() time.Time, sleep func(time.Duration)) (st Stats, err error) {
	c := cache.New()
	m := model.New(now)
	if opt.Cron {
		c.Cron()
	}
	Show := func(ops []model.Op) string {
		if opt.Terse {
			return strconv.Itoa(len(ops)) + " commands"
		}
		return Show(ops)
	}
	show := func(o model.Op) string {
		if opt.Terse && len(o.K)+len(o.F) > 4 {
			return fmt.Sprintf("%s(%d names)", o.C, len(o.K)+len(o.F))
		}
		return show(o)
	}
	st.Cmds = map[string]int{}
	keys := map[string]bool{}
	for i, o := range ops {
		for _, k := range o.K {
			keys[string(k)] = true
		}
		if o.C == "Sleep" {
			sleep(time.Duration(o.I)*time.Millisecond + time.Microsecond)
			st.Sleeps++
			continue
		}
		if m.Unspecified(o) {
			st.Skipped++
			continue
		}
		st.Ops++
		st.Cmds[o.C]++
		want := m.Apply(o)
		got := Apply(c, o)
		if want.E != "" {
			st.Errs++
		}
		if !model.Match(want, got) {
			return st, fmt.Errorf("step %d %s = %v, want %v\nhistory: %s", i, show(o), got, want, Show(ops[:i+1]))
		}
		if opt.DumpEach {
			if err := Dump(c, m, keys); err != nil {
				return st, fmt.Errorf("after step %d %s: %v\nhistory: %s", i, show(o), err, Show(ops[:i+1]))
			}
		}
	}
	if opt.DumpEnd {
		if err := Dump(c, m, keys); err != nil {
			return st, fmt.Errorf("at the end: %v\nhistory: %s", err, Show(ops))
		}
	}
	st.Hits, st.Purged = m.Hits, m.Purged
	return st, nil
}

// Run executes a history on a fresh cache and the model.
func Run(t *testing.T, ops []model.Op, opt Opts) (st Stats, err error) {
	if !opt.Clock {
		return runOps(ops, opt, nil, nil)
	}
	err = Bubble(t, func() error {
		var e error
		st, e = runOps(ops, opt, time.Now, time.Sleep)
		return e
	})
	return st, err
}

// Bubble runs f under the fake clock. Goroutines the code leaves behind (the endless sweep) are no error.
func Bubble(t *testing.T, f func() error) (err error) {
	finished := false
	defer func() {
		if p := recover(); p != nil {
			if finished && strings.Contains(fmt.Sprint(p), "deadlock: main bubble goroutine has exited") {
				return
			}
			panic(p)
		}
	}()
	synctest.Test(t, func(t *testing.T) {
		defer func() {
			if p := recover(); p != nil {
				err = fmt.Errorf("panic: %v", p)
			}
			finished = true
		}()
		err = f()
	})
	return err
}
