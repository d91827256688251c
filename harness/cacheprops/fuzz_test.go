package cacheprops

import (
	"testing"

	"verif/harness/pbt"
)

func FuzzSpec(f *testing.F) {
	pbt.Fuzz(f, TestC01, TestC02, TestC03, TestC04, TestC05, TestC07, TestC20)
}
