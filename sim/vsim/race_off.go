//go:build !race

package vsim

import "unsafe"

const RaceEnabled = false

func raceOff()                          {}
func raceOn()                           {}
func raceAcquire(s *Sim)                {}
func raceRelease(s *Sim)                {}
func raceAcquireP(p unsafe.Pointer)     {}
func raceReleaseP(p unsafe.Pointer)     {}
func RaceAcquire(p unsafe.Pointer)      {}
func RaceRelease(p unsafe.Pointer)      {}
func RaceReleaseMerge(p unsafe.Pointer) {}
func RaceErrors() int                   { return 0 }
