// Command simlib runs the checks that call the library.
package main

import (
	"simmod/harness/core"
	"simmod/harness/libp"
)

func main() { core.Main(libp.Props) }
