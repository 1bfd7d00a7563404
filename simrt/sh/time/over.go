// Package time is package time on the simulated clock.
package time

import (
	"time"

	"simmod/simrt"
)

type (
	Timer  = simrt.Timer
	Ticker = simrt.Ticker
)

func Now() time.Time                               { return simrt.Now() }
func Since(t time.Time) time.Duration              { return simrt.Now().Sub(t) }
func Until(t time.Time) time.Duration              { return t.Sub(simrt.Now()) }
func Sleep(d time.Duration)                        { simrt.Sleep(d) }
func After(d time.Duration) *simrt.Chan[time.Time] { return simrt.After(d) }
func Tick(d time.Duration) *simrt.Chan[time.Time]  { return simrt.Tick(d) }
func NewTimer(d time.Duration) *Timer              { return simrt.NewTimer(d) }
func NewTicker(d time.Duration) *Ticker            { return simrt.NewTicker(d) }
func AfterFunc(d time.Duration, f func()) *Timer   { return simrt.AfterFunc(d, f) }
