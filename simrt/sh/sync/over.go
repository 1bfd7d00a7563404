// Package sync is package sync under the simulated scheduler.
package sync

import "simmod/simrt"

type (
	Mutex     = simrt.Mutex
	RWMutex   = simrt.RWMutex
	WaitGroup = simrt.WaitGroup
	Once      = simrt.Once
	Cond      = simrt.Cond
	Pool      = simrt.Pool
	Map       = simrt.Map
	Locker    = simrt.Locker
)

func NewCond(l Locker) *Cond   { return simrt.NewCond(l) }
func OnceFunc(f func()) func() { return simrt.OnceFunc(f) }
