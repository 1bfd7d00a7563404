// Command simcli runs the checks that need the command-line tools only.
package main

import (
	"simmod/harness/clip"
	"simmod/harness/core"
)

func main() { core.Main(clip.Props) }
