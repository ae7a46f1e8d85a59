//go:build go1.22

// Package vrand2 stands in for math/rand/v2: its top-level functions draw from a
// source the harness enumerates. Generated by tools/genvrand.py.
package vrand2

import (
	real "math/rand/v2"
	"vimagination.zapto.org/limage/zzverif/venum"
)

var src = real.New(venum.Source{})

// ExpFloat64 draws from the enumerated source.
func ExpFloat64() float64 { return src.ExpFloat64() }

// Float32 draws from the enumerated source.
func Float32() float32 { return src.Float32() }

// Float64 draws from the enumerated source.
func Float64() float64 { return src.Float64() }

// Int draws from the enumerated source.
func Int() int { return src.Int() }

// Int32 draws from the enumerated source.
func Int32() int32 { return src.Int32() }

// Int32N draws from the enumerated source.
func Int32N(n int32) int32 { return src.Int32N(n) }

// Int64 draws from the enumerated source.
func Int64() int64 { return src.Int64() }

// Int64N draws from the enumerated source.
func Int64N(n int64) int64 { return src.Int64N(n) }

// IntN draws from the enumerated source.
func IntN(n int) int { return src.IntN(n) }

// N draws below n.
func N[Int ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](n Int) Int {
	if n <= 0 {
		panic("invalid argument to N")
	}
	return Int(src.Uint64N(uint64(n)))
}

// NormFloat64 draws from the enumerated source.
func NormFloat64() float64 { return src.NormFloat64() }

// Perm draws from the enumerated source.
func Perm(n int) []int { return src.Perm(n) }

// Shuffle draws from the enumerated source.
func Shuffle(n int, swap func(i, j int)) { src.Shuffle(n, swap) }

// Uint draws from the enumerated source.
func Uint() uint { return src.Uint() }

// Uint32 draws from the enumerated source.
func Uint32() uint32 { return src.Uint32() }

// Uint32N draws from the enumerated source.
func Uint32N(n uint32) uint32 { return src.Uint32N(n) }

// Uint64 draws from the enumerated source.
func Uint64() uint64 { return src.Uint64() }

// Uint64N draws from the enumerated source.
func Uint64N(n uint64) uint64 { return src.Uint64N(n) }

// UintN draws from the enumerated source.
func UintN(n uint) uint { return src.UintN(n) }

type ChaCha8 = real.ChaCha8

var NewChaCha8 = real.NewChaCha8

type PCG = real.PCG

var NewPCG = real.NewPCG

type Rand = real.Rand

var New = real.New

type Source = real.Source

type Zipf = real.Zipf

var NewZipf = real.NewZipf
