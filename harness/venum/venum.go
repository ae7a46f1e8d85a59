//go:build go1.22

// Package venum is the enumerated source of random bits. It is not safe for
// concurrent use.
package venum

var (
	// Next gives the bits of a draw.
	Next = func() uint64 { return 0 }
	// Draws counts the draws made.
	Draws int
)

// Source implements Source and Source64 of math/rand and Source of math/rand/v2.
type Source struct{}

// Uint64 gives 64 bits.
func (Source) Uint64() uint64 { Draws++; return Next() }

// Int63 gives 63 bits.
func (Source) Int63() int64 { Draws++; return int64(Next() >> 1) }

// Seed does nothing.
func (Source) Seed(int64) {}
