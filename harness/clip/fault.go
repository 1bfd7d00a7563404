package clip

import (
	"strings"

	"simmod/harness/core"
	"simmod/simrt"
)

// dry runs the case's job in its first schedule without faults.
func dry(c *core.Case) *Res {
	x := core.NewCtx()
	j := job(c, 0)
	j.Faults = nil
	j.World.MaxSteps = maxSteps
	return run(x, 0, j)
}

// mkFault draws an error for a recorded system call.
func mkFault(r *core.Rng, s simrt.SysRec) simrt.Fault {
	f := simrt.Fault{Kind: s.Kind, Path: s.Path, Occ: s.Occ, Action: "err"}
	switch s.Kind {
	case "open":
		f.Errno = core.Pick(r, "EACCES", "EMFILE", "EIO", "ENFILE", "ENOMEM", "ESTALE", "EPERM", "ELOOP")
	case "create", "openw":
		f.Errno = core.Pick(r, "EACCES", "ENOSPC", "EROFS", "EDQUOT", "EMFILE", "EIO", "ENOENT", "ETXTBSY")
	case "read":
		f.Errno = core.Pick(r, "EIO", "ESTALE", "ETIMEDOUT", "ENOMEM")
	case "write":
		f.Errno = core.Pick(r, "ENOSPC", "EIO", "EDQUOT", "EFBIG")
		if r.P(60) && s.Arg > 1 {
			f.Arg = int64(r.N(int(s.Arg)))
		}
	case "close":
		f.Errno = core.Pick(r, "EIO", "ENOSPC", "EDQUOT")
		if r.P(60) {
			f.Arg = int64(r.LogN(1, 5000))
		}
	default:
		f.Errno = core.Pick(r, "EIO", "EACCES", "ENOMEM")
	}
	return f
}

// pickSys draws one of the recorded calls for which ok holds; every kind of
// call and every path gets a fair share.
func pickSys(r *core.Rng, log []simrt.SysRec, ok func(s simrt.SysRec) bool) (simrt.SysRec, bool) {
	groups := map[string][]simrt.SysRec{}
	var keys []string
	for _, s := range log {
		if ok == nil || ok(s) {
			k := s.Kind + "|" + s.Path
			if groups[k] == nil {
				keys = append(keys, k)
			}
			groups[k] = append(groups[k], s)
		}
	}
	if len(keys) == 0 {
		return simrt.SysRec{}, false
	}
	g := groups[keys[r.N(len(keys))]]
	return g[r.N(len(g))], true
}

// optional files: their loss is tolerated by design.
func optional(c *core.Case, p string) bool {
	return p == abs("data/config.yaml") || p == debugFile(c)
}

func debugOn(c *core.Case) bool {
	return strings.Contains(c.Texts["data/config.yaml"], "debug: true")
}

// debugFile is the trace file the configuration names ("" when there is none).
func debugFile(c *core.Case) string {
	t, ok := c.Texts["data/config.yaml"]
	if !ok {
		return "/dbg/debug.txt"
	}
	for _, l := range strings.Split(t, "\n") {
		if strings.HasPrefix(l, "debug_file:") {
			return abs(strings.TrimSpace(strings.TrimPrefix(l, "debug_file:")))
		}
	}
	return ""
}

// written lists the files a process wrote to.
func written(p *simrt.Proc) map[string]bool {
	m := map[string]bool{}
	for _, u := range p.Muts {
		m[u.Path] = true
	}
	return m
}

// hardErr tells whether an injected error hit a call that must not fail
// unnoticed: opening or reading a needed file, creating, writing, closing or
// renaming a written one.
func hardErr(c *core.Case, r *Res) (simrt.SysRec, bool) {
	w := written(r.P)
	for _, s := range r.P.Log {
		if s.Fault == "" || s.Err == "" || optional(c, s.Path) {
			continue
		}
		switch s.Kind {
		case "open", "read", "create", "openw", "write", "rename", "sync":
			return s, true
		case "close":
			if w[s.Path] {
				return s, true
			}
		}
	}
	return simrt.SysRec{}, false
}
