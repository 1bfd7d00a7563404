//go:build race

package simrt

import (
	"runtime"
	"unsafe"
)

// RaceEnabled tells whether the race detector watches the simulated program.
const RaceEnabled = true

func raceDisable()               { runtime.RaceDisable() }
func raceEnable()                { runtime.RaceEnable() }
func raceAcquire(p *uint64)      { runtime.RaceAcquire(unsafe.Pointer(p)) }
func raceRelease(p *uint64)      { runtime.RaceRelease(unsafe.Pointer(p)) }
func raceReleaseMerge(p *uint64) { runtime.RaceReleaseMerge(unsafe.Pointer(p)) }
func raceReadRange(b []byte) {
	if len(b) > 0 {
		runtime.RaceReadRange(unsafe.Pointer(&b[0]), len(b))
	}
}
func raceWriteRange(b []byte) {
	if len(b) > 0 {
		runtime.RaceWriteRange(unsafe.Pointer(&b[0]), len(b))
	}
}

// RaceErrors is the number of data races reported so far.
func RaceErrors() int { return runtime.RaceErrors() }
