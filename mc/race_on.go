//go:build race

package mc

import (
	"runtime"
	"unsafe"
)

const RaceBuild = true

func raceDisable()                      { runtime.RaceDisable() }
func raceEnable()                       { runtime.RaceEnable() }
func raceAcquire(p unsafe.Pointer)      { runtime.RaceAcquire(p) }
func raceRelease(p unsafe.Pointer)      { runtime.RaceRelease(p) }
func raceReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
func raceRead(p unsafe.Pointer, n int) {
	if n > 0 {
		runtime.RaceReadRange(p, n)
	}
}
func raceWrite(p unsafe.Pointer, n int) {
	if n > 0 {
		runtime.RaceWriteRange(p, n)
	}
}
func raceErrors() int { return runtime.RaceErrors() }
