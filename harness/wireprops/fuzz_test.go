package wireprops

import (
	"testing"

	"verif/harness/pbt"
)

func FuzzSpec(f *testing.F) { pbt.Fuzz(f, TestC08, TestC09, TestC10) }
