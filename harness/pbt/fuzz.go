package pbt

// Coverage-guided search (thorough tier): Go's fuzzer mutates the bytes a spec's generator draws from, so that cases
// reaching new code of the repository (the binary is built with coverage counters) are kept and varied further.
// Several worker processes run; each keeps its own journal and counts in VP_FUZZ_OUT, and writes failing cases there.

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

var (
	collecting bool
	fuzzSpec   string
	fuzzFn     func(t *testing.T, data []byte)
	fuzzMu     sync.Mutex
	fuzzSeeds  [][]byte
)

type fuzzStats struct {
	Rule         string            `json:"rule"`
	Evaluations  int               `json:"evaluations"`
	Nontrivial   int               `json:"nontrivial"`
	Inconclusive int               `json:"inconclusive"`
	Hashes       int               `json:"distinct"`
	Samples      []json.RawMessage `json:"samples"`
}

func collect[C any](s Spec[C]) {
	if s.ID+"/"+s.Name != fuzzSpec {
		return
	}
	var st fuzzStats
	st.Rule = s.Rule
	seen := map[uint64]bool{}
	last := time.Now()
	dir := env("VP_FUZZ_OUT")
	stats := filepath.Join(dir, fmt.Sprintf("stats-%d.json", os.Getpid()))
	fails := 0
	if s.Bytes != nil {
		for i := 0; i < 60; i++ {
			if b := s.Seed(rapid.Custom(s.Gen).Example(int(Seed())*1000 + i)); len(b) < 4000 {
				fuzzSeeds = append(fuzzSeeds, b)
			}
		}
	} else {
		for i := uint64(0); i < 24; i++ {
			fuzzSeeds = append(fuzzSeeds, stream(mix(Seed())+i, 16<<(i%6)))
		}
	}
	fuzzFn = func(t *testing.T, data []byte) {
		fuzzMu.Lock()
		defer fuzzMu.Unlock()
		if journal == nil && dir != "" {
			journal, _ = os.Create(filepath.Join(dir, fmt.Sprintf("journal-%d", os.Getpid())))
		}
		bad := ""
		one := func(c C) {
			js, err := json.Marshal(c)
			if err != nil {
				return
			}
			r := &Rec{T: t, Dir: scratch}
			err = runOne(&s, c, js, r)
			st.Evaluations++
			if _, ok := err.(Inconclusive); ok {
				st.Inconclusive++
				return
			}
			if err != nil {
				bad = err.Error()
				if fails++; fails <= 200 && dir != "" {
					d, _ := json.Marshal(violation{Case: js, Error: bad})
					_ = os.WriteFile(filepath.Join(dir, fmt.Sprintf("fail-%d-%d.json", os.Getpid(), fails)), d, 0o644)
				}
				return
			}
			if r.nontrivial {
				st.Nontrivial++
				h := hash64(string(js))
				if !seen[h] {
					seen[h] = true
					if len(st.Samples) < 3 && len(js) < 3000 {
						st.Samples = append(st.Samples, js)
					}
				}
			}
		}
		if s.Bytes != nil {
			one(s.Bytes(data))
		} else {
			rapid.MakeFuzz(func(rt *rapid.T) { one(s.Gen(rt)) })(t, padded(data))
		}
		if dir != "" && time.Since(last) > time.Second/2 {
			last = time.Now()
			st.Hashes = len(seen)
			d, _ := json.Marshal(st)
			if os.WriteFile(stats+".tmp", d, 0o644) == nil {
				_ = os.Rename(stats+".tmp", stats)
			}
		}
		if bad != "" {
			t.Fatal(bad)
		}
	}
}

var fuzzTail = stream(12345, 1<<13)

func stream(seed uint64, words int) []byte {
	b := make([]byte, 0, 8*words)
	for i := 0; i < words; i++ {
		b = binary.LittleEndian.AppendUint64(b, mix(seed+uint64(i)*0x9e3779b97f4a7c15))
	}
	return b
}

// padded makes any input long enough to draw a case from: what the fuzzer does not give comes from a fixed stream.
func padded(data []byte) []byte {
	d := append([]byte(nil), data...)
	for len(d)%8 != 0 {
		d = append(d, 0)
	}
	return append(d, fuzzTail...)
}

// Fuzz is called from each package's fuzz target with its tests; VP_FUZZ=ID/spec names what to search.
func Fuzz(f *testing.F, tests ...func(*testing.T)) {
	fuzzSpec = env("VP_FUZZ")
	if fuzzSpec == "" {
		f.Skip("VP_FUZZ is not set")
	}
	collecting = true
	for _, t := range tests {
		t(nil)
	}
	collecting = false
	if fuzzFn == nil {
		f.Fatalf("no spec %s", fuzzSpec)
	}
	for _, b := range fuzzSeeds {
		f.Add(b)
	}
	f.Fuzz(fuzzFn)
}
