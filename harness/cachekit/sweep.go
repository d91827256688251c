package cachekit

import (
	"fmt"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"github.com/liujiangwei/xxcache/cache"
	"pgregory.net/rapid"

	"verif/harness/pbt"
)

// SweepCase: real time, real parallelism; keys expire before a sweep and are rewritten around it.
type SweepCase struct {
	Keys    int `json:"keys"`
	Workers int `json:"workers"`
	Flusher int `json:"flusher"` // 1: another cache with its own sweep is flushed and used at random meanwhile
	Hash    int `json:"hash"`    // every Hash-th key is rewritten as a hash
}

func GenSweep(t *rapid.T) SweepCase {
	return SweepCase{Keys: rapid.IntRange(2000, 20000).Draw(t, "keys"), Workers: rapid.IntRange(1, 3).Draw(t, "workers"),
		Flusher: rapid.IntRange(0, 1).Draw(t, "flusher"), Hash: rapid.IntRange(2, 5).Draw(t, "hash")}
}

// RunSweep checks that a sweep never removes what was written after the old value expired.
func RunSweep(c SweepCase, r *pbt.Rec) (err error) {
	r.NonTrivial(true)
	ca, other := cache.New(), cache.New()
	ca.Cron()
	other.Cron()
	t0 := time.Now()
	for i := 0; i < c.Keys; i++ {
		_, _ = ca.PSetEX("k"+strconv.Itoa(i), "old", 500)
	}
	var stop atomic.Bool
	var wg sync.WaitGroup
	if c.Flusher == 1 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; !stop.Load(); i++ {
				k := "k" + strconv.Itoa(i%50)
				_, _ = other.PSetEX(k, "v", 1)
				_, _ = other.HSet("h"+k, "f", "v")
				_, _ = other.Get(k)
				if i%97 == 0 {
					other.Flush()
				}
				if i%10 == 0 {
					time.Sleep(50 * time.Microsecond)
				}
			}
		}()
	}
	write := func(i int) {
		k := "k" + strconv.Itoa(i)
		switch {
		case i%c.Hash == 0:
			_, _ = ca.HSet(k, "f", "new")
		case i%3 == 0:
			_, _ = ca.SetNX(k, "new")
		case i%7 == 0:
			_, _ = ca.SetEX(k, "new", 100)
		default:
			_, _ = ca.Set(k, "new")
		}
	}
	next := atomic.Int64{}
	for w := 0; w < c.Workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			// spread the rewrites over the sweep's moment
			time.Sleep(time.Until(t0.Add(1985 * time.Millisecond)))
			for {
				i := int(next.Add(1)) - 1
				if i >= c.Keys {
					return
				}
				if at := t0.Add(1985*time.Millisecond + time.Duration(i)*40*time.Millisecond/time.Duration(c.Keys)); time.Now().Before(at) {
					for time.Now().Before(at) {
					}
				}
				write(i)
			}
		}()
	}
	time.Sleep(time.Until(t0.Add(2150 * time.Millisecond)))
	stop.Store(true)
	wg.Wait()
	for i := 0; i < c.Keys; i++ {
		k := "k" + strconv.Itoa(i)
		if i%c.Hash == 0 {
			if v, e := ca.HGet(k, "f"); v != "new" || e != nil {
				return fmt.Errorf("the hash %s, created after the old value expired, reads %q, %v after the sweep", k, v, e)
			}
			continue
		}
		if v, e := ca.Get(k); v != "new" || e != nil {
			return fmt.Errorf("%s, written after the old value expired, reads %q, %v after the sweep", k, v, e)
		}
	}
	return nil
}
