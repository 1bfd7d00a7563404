// Package signal delivers no signals: process death is the simulator's.
package signal

import (
	"os"

	"simmod/simrt"
)

func Notify(c *simrt.Chan[os.Signal], sig ...os.Signal) {}
func Stop(c *simrt.Chan[os.Signal])                     {}
func Ignore(sig ...os.Signal)                           {}
func Reset(sig ...os.Signal)                            {}
