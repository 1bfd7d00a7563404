// Generated by tools/aliases.go; do not edit.

package filepath

import real "path/filepath"

type (
	WalkFunc = real.WalkFunc
)

const (
	ListSeparator = real.ListSeparator
	Separator     = real.Separator
)

var (
	Base          = real.Base
	Clean         = real.Clean
	Dir           = real.Dir
	ErrBadPattern = real.ErrBadPattern
	Ext           = real.Ext
	FromSlash     = real.FromSlash
	HasPrefix     = real.HasPrefix
	IsAbs         = real.IsAbs
	IsLocal       = real.IsLocal
	Join          = real.Join
	Localize      = real.Localize
	Match         = real.Match
	Rel           = real.Rel
	SkipAll       = real.SkipAll
	SkipDir       = real.SkipDir
	Split         = real.Split
	SplitList     = real.SplitList
	ToSlash       = real.ToSlash
	VolumeName    = real.VolumeName
)
