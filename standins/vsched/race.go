//go:build race

package vsched

import (
	"runtime"
	"unsafe"
)

// Built with the race detector, the synchronisation of the scheduler itself is
// hidden from it, so that only that of the code under control orders anything.

// Racing says whether the race detector watches.
const Racing = true

func hide()   { runtime.RaceDisable() }
func unhide() { runtime.RaceEnable() }

// Acquire, Release and ReleaseMerge tell of synchronisation.
func Acquire(p unsafe.Pointer)      { runtime.RaceAcquire(p) }
func Release(p unsafe.Pointer)      { runtime.RaceRelease(p) }
func ReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
