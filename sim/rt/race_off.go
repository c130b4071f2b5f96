//go:build !race

package rt

import "unsafe"

// RaceBuild reports whether this is a race build.
const RaceBuild = false

func RaceAcquire(p unsafe.Pointer)      {}
func RaceRelease(p unsafe.Pointer)      {}
func RaceReleaseMerge(p unsafe.Pointer) {}
