//go:build race

package simrt

import (
	"runtime"
	"unsafe"
)

// RaceEnabled reports whether the race detector is on.
const RaceEnabled = true

// quiet makes the race detector ignore the synchronisation of the current goroutine
// until loud is called: the hand-offs of the simulator are not synchronisation of
// the code under test.
func quiet() { runtime.RaceDisable() }
func loud()  { runtime.RaceEnable() }

// RaceAcquire, RaceRelease annotate the synchronisation of the sync shims.
func RaceAcquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }
func RaceRelease(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
