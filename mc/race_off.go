//go:build !race

package mc

import "unsafe"

const RaceBuild = false

func raceDisable()                      {}
func raceEnable()                       {}
func raceAcquire(p unsafe.Pointer)      {}
func raceRelease(p unsafe.Pointer)      {}
func raceReleaseMerge(p unsafe.Pointer) {}
func raceRead(p unsafe.Pointer, n int)  {}
func raceWrite(p unsafe.Pointer, n int) {}
func raceErrors() int                   { return 0 }
