package pbt

import (
	"go/scanner"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"

	"pgregory.net/rapid"
)

// The dictionary: string and integer literals of the code under test (its non-test Go files, comments
// excluded). Generators mix them in, so that values the code treats specially are met, whatever they are.

var (
	dictOnce sync.Once
	dictStr  []B
	dictInt  []int64
)

func loadDict() {
	strs, ints := map[string]bool{}, map[int64]bool{}
	root := env("VP_REPO")
	if root == "" {
		root = "/repo"
	}
	_ = filepath.Walk(root, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if info.IsDir() {
			if n := info.Name(); n == ".git" || n == "vendor" || n == "testdata" {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") || info.Size() > 1<<20 {
			return nil
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return nil
		}
		fset := token.NewFileSet()
		var s scanner.Scanner
		s.Init(fset.AddFile(path, fset.Base(), len(src)), src, func(token.Position, string) {}, 0)
		imports := false
		for {
			_, tok, lit := s.Scan()
			switch tok {
			case token.EOF:
				return nil
			case token.IMPORT:
				imports = true
			case token.CONST, token.VAR, token.FUNC, token.TYPE:
				imports = false
			case token.STRING:
				if v, err := strconv.Unquote(lit); err == nil && !imports && len(v) <= 64 {
					strs[v] = true
				}
			case token.CHAR:
				if v, err := strconv.Unquote(lit); err == nil {
					strs[v] = true
				}
			case token.INT:
				if v, err := strconv.ParseInt(strings.ReplaceAll(lit, "_", ""), 0, 64); err == nil {
					for d := int64(-1); d <= 1; d++ {
						ints[v+d] = true
					}
				}
			}
		}
	})
	for v := range strs {
		dictStr = append(dictStr, B(v))
	}
	for v := range ints {
		dictInt = append(dictInt, v)
	}
	sort.Slice(dictStr, func(i, j int) bool { return dictStr[i] < dictStr[j] })
	sort.Slice(dictInt, func(i, j int) bool { return dictInt[i] < dictInt[j] })
	if len(dictStr) == 0 {
		dictStr = []B{""}
	}
	if len(dictInt) == 0 {
		dictInt = []int64{0}
	}
}

// DictStrings are the string literals of the code under test.
func DictStrings() []B { dictOnce.Do(loadDict); return dictStr }

// DictInts are its integer literals and their neighbours.
func DictInts() []int64 { dictOnce.Do(loadDict); return dictInt }

// DictText draws a literal, as it is or embedded in other text.
func DictText(t *rapid.T) B {
	v := rapid.SampledFrom(DictStrings()).Draw(t, "literal")
	switch rapid.IntRange(0, 7).Draw(t, "litkind") {
	case 4:
		return B(strings.ToUpper(string(v)))
	case 5:
		return B(strings.ToLower(string(v)))
	case 6:
		return v + B(rapid.SampledFrom([]string{"x", "1", " ", "\r\n", "\x00"}).Draw(t, "suffix"))
	case 7:
		return B(rapid.SampledFrom([]string{"x", "1", " ", "\r\n", "\x00"}).Draw(t, "prefix")) + v
	}
	return v
}

// DictInt draws an integer literal or a neighbour, either sign.
func DictInt(t *rapid.T) int64 {
	n := rapid.SampledFrom(DictInts()).Draw(t, "intlit")
	if rapid.IntRange(0, 3).Draw(t, "neg") == 3 {
		return -n
	}
	return n
}

// Len draws a length up to max: small, a literal of the code, or around a power of two.
func Len(t *rapid.T, max int) int {
	n := 0
	switch rapid.IntRange(0, 3).Draw(t, "lenkind") {
	case 0:
		n = rapid.IntRange(0, 20).Draw(t, "len")
	case 1:
		n = int(rapid.SampledFrom(DictInts()).Draw(t, "len"))
	case 2:
		n = 1<<rapid.IntRange(0, 20).Draw(t, "pow") + rapid.IntRange(-1, 1).Draw(t, "off")
	default:
		n = rapid.IntRange(0, max).Draw(t, "len")
	}
	if n < 0 {
		return 0
	}
	if n > max {
		return max
	}
	return n
}
