package replprops

import (
	"testing"

	"verif/harness/pbt"
)

func FuzzSpec(f *testing.F) { pbt.Fuzz(f, TestC16, TestC17, TestC18) }
