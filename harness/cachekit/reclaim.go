package cachekit

import (
	"fmt"
	"runtime"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/liujiangwei/xxcache/cache"
	"pgregory.net/rapid"

	"verif/harness/pbt"
)

// ReclaimCase: big keys of several kinds, most of which expire and are never looked at again.
type ReclaimCase struct {
	Keys []ReclaimKey `json:"keys"`
	Size int          `json:"size"` // KiB per key
	Step int          `json:"step"` // milliseconds between two writes
	Many int          `json:"many"` // small keys with a far deadline besides
}

// ReclaimKey is written in one of these ways: "ex" and "px" with a lifetime, "over" first with the lifetime and again with
// another one, "hash" and "at" with a deadline, "again" with a lifetime and then without, "plain" without.
type ReclaimKey struct {
	How string `json:"how"`
	Ms  int64  `json:"ms"`
}

var reclaimHow = []string{"ex", "px", "over", "hash", "at", "again", "plain"}

// GenReclaim draws a case in which enough expires to be seen.
func GenReclaim(t *rapid.T) ReclaimCase {
	c := ReclaimCase{Size: rapid.IntRange(128, 256).Draw(t, "size"), Step: rapid.SampledFrom([]int{0, 1, 300}).Draw(t, "step")}
	key := rapid.Custom(func(t *rapid.T) ReclaimKey {
		k := ReclaimKey{How: rapid.SampledFrom(reclaimHow).Draw(t, "how"), Ms: rapid.Int64Range(1, 30000).Draw(t, "ms")}
		if rapid.IntRange(0, 3).Draw(t, "long") == 0 {
			k.Ms = rapid.Int64Range(3600, 1000000).Draw(t, "s") * 1000
		}
		return k
	})
	c.Keys = rapid.SliceOfN(key, 16, 48).Draw(t, "keys")
	c.Many = rapid.SampledFrom([]int{0, 0, 30, 300, 3000}).Draw(t, "many")
	return c
}

func heap() int64 {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

// RunReclaim checks that the memory of expired keys is released although nobody asks for them.
func RunReclaim(t *testing.T, c ReclaimCase, r *pbt.Rec) error {
	return Bubble(t, func() error {
		ca := cache.New()
		ca.Cron()
		val := func(i int, s string) string {
			return s + strconv.Itoa(i) + strings.Repeat("-", c.Size<<10)
		}
		before := heap()
		var live, expired int64
		t0 := time.Now()
		alive := map[int]string{}
		for i := 0; i < c.Many; i++ {
			_, _ = ca.SetEX("m"+strconv.Itoa(i), "many", 100000)
		}
		live += int64(c.Many) << 8
		r.Label(c.Many > 100, "among many keys")
		for i, k := range c.Keys {
			name := "k" + strconv.Itoa(i)
			size := int64(c.Size) << 10
			stays := k.Ms >= 3600000
			switch k.How {
			case "ex":
				_, _ = ca.SetEX(name, val(i, "v"), (k.Ms+999)/1000)
			case "px":
				_, _ = ca.PSetEX(name, val(i, "v"), k.Ms)
			case "over":
				_, _ = ca.SetEX(name, val(i, "o"), 100000)
				_, _ = ca.PSetEX(name, val(i, "v"), k.Ms)
			case "hash":
				_, _ = ca.HSet(name, "f", val(i, "v"))
				ca.PExpireAt(name, time.Now().UnixMilli()+k.Ms)
			case "at":
				_, _ = ca.Set(name, val(i, "v"))
				ca.PExpireAt(name, time.Now().UnixMilli()+k.Ms)
			case "again":
				_, _ = ca.PSetEX(name, val(i, "o"), k.Ms)
				_, _ = ca.Set(name, val(i, "v"))
				stays = true
			default:
				_, _ = ca.Set(name, val(i, "v"))
				stays = true
			}
			if stays {
				live += size
				alive[i] = k.How
			} else {
				expired += size
			}
			time.Sleep(time.Duration(c.Step) * time.Millisecond)
		}
		r.Label(live > 0, "keys stay")
		r.NonTrivial(expired >= 2<<20 && live > 0)
		// all deadlines but the long ones, and many sweeps
		time.Sleep(90 * time.Second)
		if used := heap() - before; used > live+expired/2+1<<20 {
			return fmt.Errorf("%v after the first write %d KiB of keys are alive and %d KiB have expired for more than 30 seconds, but %d KiB are in use", time.Since(t0), live>>10, expired>>10, used>>10)
		}
		for i, how := range alive {
			name := "k" + strconv.Itoa(i)
			var v string
			var err error
			if how == "hash" {
				v, err = ca.HGet(name, "f")
			} else {
				v, err = ca.Get(name)
			}
			if err != nil || v != val(i, "v") {
				return fmt.Errorf("the key %s (%s), which is alive, reads %d bytes, %v", name, how, len(v), err)
			}
		}
		for i := 0; i < c.Many; i++ {
			if v, err := ca.Get("m" + strconv.Itoa(i)); err != nil || v != "many" {
				return fmt.Errorf("the key m%d, which is alive, reads %s, %v", i, pbt.Short(v), err)
			}
		}
		ca.Flush()
		return nil
	})
}
