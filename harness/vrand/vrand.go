//go:build go1.22

// Package vrand stands in for math/rand: its top-level functions draw from a
// source the harness enumerates. Generated by tools/genvrand.py.
package vrand

import (
	real "math/rand"
	"vimagination.zapto.org/limage/zzverif/venum"
)

var src = real.New(venum.Source{})

// ExpFloat64 draws from the enumerated source.
func ExpFloat64() float64 { return src.ExpFloat64() }

// Float32 draws from the enumerated source.
func Float32() float32 { return src.Float32() }

// Float64 draws from the enumerated source.
func Float64() float64 { return src.Float64() }

// Int draws from the enumerated source.
func Int() int { return src.Int() }

// Int31 draws from the enumerated source.
func Int31() int32 { return src.Int31() }

// Int31n draws from the enumerated source.
func Int31n(n int32) int32 { return src.Int31n(n) }

// Int63 draws from the enumerated source.
func Int63() int64 { return src.Int63() }

// Int63n draws from the enumerated source.
func Int63n(n int64) int64 { return src.Int63n(n) }

// Intn draws from the enumerated source.
func Intn(n int) int { return src.Intn(n) }

// NormFloat64 draws from the enumerated source.
func NormFloat64() float64 { return src.NormFloat64() }

// Perm draws from the enumerated source.
func Perm(n int) []int { return src.Perm(n) }

// Read draws from the enumerated source.
func Read(p []byte) (n int, err error) { return src.Read(p) }

// Seed does nothing.
func Seed(seed int64) {}

// Shuffle draws from the enumerated source.
func Shuffle(n int, swap func(i, j int)) { src.Shuffle(n, swap) }

// Uint32 draws from the enumerated source.
func Uint32() uint32 { return src.Uint32() }

// Uint64 draws from the enumerated source.
func Uint64() uint64 { return src.Uint64() }

type Rand = real.Rand

var New = real.New

type Source = real.Source

var NewSource = real.NewSource

type Source64 = real.Source64

type Zipf = real.Zipf

var NewZipf = real.NewZipf
