package vrand2

// The rest of package math/rand/v2, unchanged.

import "math/rand/v2"

type (
	ChaCha8 = rand.ChaCha8
	PCG = rand.PCG
	Rand = rand.Rand
	Source = rand.Source
	Zipf = rand.Zipf
)

var (
	ExpFloat64 = rand.ExpFloat64
	Float32 = rand.Float32
	Float64 = rand.Float64
	Int = rand.Int
	Int32 = rand.Int32
	Int32N = rand.Int32N
	Int64 = rand.Int64
	Int64N = rand.Int64N
	IntN = rand.IntN
	New = rand.New
	NewChaCha8 = rand.NewChaCha8
	NewPCG = rand.NewPCG
	NewZipf = rand.NewZipf
	NormFloat64 = rand.NormFloat64
	Perm = rand.Perm
	Shuffle = rand.Shuffle
	Uint = rand.Uint
	Uint32 = rand.Uint32
	Uint32N = rand.Uint32N
	Uint64N = rand.Uint64N
	UintN = rand.UintN
)
