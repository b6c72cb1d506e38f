//go:build go1.22 && !race

package vs

import "unsafe"

const raceOn = false

func raceDisable()                           {}
func raceEnable()                            {}
func raceAcquire(p unsafe.Pointer)           {}
func raceRelease(p unsafe.Pointer)           {}
func raceReleaseMerge(p unsafe.Pointer)      {}
func raceReadRange(p unsafe.Pointer, n int)  {}
func raceWriteRange(p unsafe.Pointer, n int) {}
