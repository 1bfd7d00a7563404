// Generated by tools/aliases.go; do not edit.

package rand

import real "math/rand"

type (
	Rand     = real.Rand
	Source   = real.Source
	Source64 = real.Source64
	Zipf     = real.Zipf
)

var (
	New       = real.New
	NewSource = real.NewSource
	NewZipf   = real.NewZipf
)
