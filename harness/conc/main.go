//go:build go1.22

// Command conc checks that uses of the library that have nothing to do with
// each other, or that only read the same picture, may overlap.
package main

import (
	"runtime/debug"

	"vimagination.zapto.org/limage/zzverif/vh"
)

func main() {
	debug.SetGCPercent(800)
	vh.Main(c29)
}
