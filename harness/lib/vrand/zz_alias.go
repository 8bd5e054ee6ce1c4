package vrand

// The rest of package math/rand, unchanged.

import "math/rand"

type (
	Rand     = rand.Rand
	Source   = rand.Source
	Source64 = rand.Source64
	Zipf     = rand.Zipf
)

var (
	ExpFloat64  = rand.ExpFloat64
	New         = rand.New
	NewSource   = rand.NewSource
	NewZipf     = rand.NewZipf
	NormFloat64 = rand.NormFloat64
)
