//go:build !race

package vsched

import "unsafe"

// Racing says whether the race detector watches.
const Racing = false

func hide()   {}
func unhide() {}

// Acquire, Release and ReleaseMerge tell of synchronisation.
func Acquire(p unsafe.Pointer)      {}
func Release(p unsafe.Pointer)      {}
func ReleaseMerge(p unsafe.Pointer) {}
