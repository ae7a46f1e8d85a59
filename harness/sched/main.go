//go:build go1.22

// Command sched checks what happens concurrently, under every schedule up to a
// number of preemptions.
package main

import (
	"runtime/debug"

	"vimagination.zapto.org/limage/zzverif/vh"
)

func main() {
	debug.SetGCPercent(800)
	vh.Main(c23, c24)
}
