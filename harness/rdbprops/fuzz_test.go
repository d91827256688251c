package rdbprops

import (
	"testing"

	"verif/harness/pbt"
)

func FuzzSpec(f *testing.F) { pbt.Fuzz(f, TestC13, TestC14) }
