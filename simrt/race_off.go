//go:build !race

package simrt

// RaceEnabled tells whether the race detector watches the simulated program.
const RaceEnabled = false

func raceDisable()               {}
func raceEnable()                {}
func raceAcquire(p *uint64)      {}
func raceRelease(p *uint64)      {}
func raceReleaseMerge(p *uint64) {}
func raceReadRange(b []byte)     {}
func raceWriteRange(b []byte)    {}

// RaceErrors is the number of data races reported so far.
func RaceErrors() int { return 0 }
