//go:build race

package vsim

import (
	"runtime"
	"unsafe"
)

const RaceEnabled = true

func raceOff()                          { runtime.RaceDisable() }
func raceOn()                           { runtime.RaceEnable() }
func raceAcquire(s *Sim)                { runtime.RaceAcquire(unsafe.Pointer(s)) }
func raceRelease(s *Sim)                { runtime.RaceReleaseMerge(unsafe.Pointer(s)) }
func raceAcquireP(p unsafe.Pointer)     { runtime.RaceAcquire(p) }
func raceReleaseP(p unsafe.Pointer)     { runtime.RaceReleaseMerge(p) }
func RaceAcquire(p unsafe.Pointer)      { runtime.RaceAcquire(p) }
func RaceRelease(p unsafe.Pointer)      { runtime.RaceRelease(p) }
func RaceReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
func RaceErrors() int                   { return runtime.RaceErrors() }
