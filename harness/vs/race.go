//go:build go1.22 && race

package vs

import (
	"runtime"
	"unsafe"
)

const raceOn = true

func raceDisable()                           { runtime.RaceDisable() }
func raceEnable()                            { runtime.RaceEnable() }
func raceAcquire(p unsafe.Pointer)           { runtime.RaceAcquire(p) }
func raceRelease(p unsafe.Pointer)           { runtime.RaceRelease(p) }
func raceReleaseMerge(p unsafe.Pointer)      { runtime.RaceReleaseMerge(p) }
func raceReadRange(p unsafe.Pointer, n int)  { runtime.RaceReadRange(p, n) }
func raceWriteRange(p unsafe.Pointer, n int) { runtime.RaceWriteRange(p, n) }
