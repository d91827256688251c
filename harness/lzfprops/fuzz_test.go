package lzfprops

import (
	"testing"

	"verif/harness/pbt"
)

func FuzzSpec(f *testing.F) { pbt.Fuzz(f, TestC15) }
