//go:build !race

package simrt

import "unsafe"

// RaceEnabled reports whether the race detector is on.
const RaceEnabled = false

func quiet() {}
func loud()  {}

// RaceAcquire, RaceRelease annotate the synchronisation of the sync shims.
func RaceAcquire(unsafe.Pointer) {}
func RaceRelease(unsafe.Pointer) {}
