// Package runtime is package runtime with a simulated number of cores.
package runtime

import "simmod/simrt"

func NumCPU() int          { return simrt.NumCPU() }
func GOMAXPROCS(n int) int { return simrt.GOMAXPROCS(n) }
func NumGoroutine() int    { return simrt.NumG() }
func Gosched()             { simrt.Gosched() }
func GC()                  {}
