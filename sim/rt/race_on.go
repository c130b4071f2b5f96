//go:build race

package rt

import (
	"runtime"
	"unsafe"
)

// RaceBuild reports whether this is a race build.
const RaceBuild = true

func RaceAcquire(p unsafe.Pointer)      { runtime.RaceAcquire(p) }
func RaceRelease(p unsafe.Pointer)      { runtime.RaceRelease(p) }
func RaceReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
