package core

import (
	"time"

	"simmod/simrt"
)

// minimise shrinks a failing case while the same class of violation persists.
func minimise(p *Prop, c *Case, x *Ctx, lim time.Duration) *Case {
	end := time.Now().Add(lim)
	class := x.Viol.Class
	tries := 0
	fails := func(d *Case) bool {
		tries++
		y := runCase(p, d, false)
		if y.Err == "" && y.Viol != nil && y.Viol.Class == class {
			x = y
			return true
		}
		return false
	}
	cur := c
	for changed := true; changed && time.Now().Before(end) && tries < 4000; {
		changed = false
		for _, d := range Shrinks(p, cur) {
			if time.Now().After(end) {
				return cur
			}
			if fails(d) {
				cur = d
				changed = true
				break
			}
		}
	}
	// schedules: replace the random policy by its trace, then drop switches
	if !fails(cur) {
		return cur
	}
	for i := range cur.Worlds {
		w := cur.Worlds[i]
		o := x.Tr[i]
		if w.Policy == "none" || o == nil || !o.TraceFull || len(o.Trace) > 100000 {
			continue
		}
		if w.Policy != "trace" {
			d := cur.Clone()
			d.Worlds[i].Policy = "trace"
			d.Worlds[i].Trace = o.Trace
			if !fails(d) {
				continue
			}
			cur = d
		}
		tr := cur.Worlds[i].Trace
		for n := len(tr); n >= 1 && len(tr) > 0 && time.Now().Before(end); {
			dropped := false
			for s := 0; s < len(tr) && time.Now().Before(end); {
				e := s + n
				if e > len(tr) {
					e = len(tr)
				}
				nt := append(append([]simrt.Switch{}, tr[:s]...), tr[e:]...)
				d := cur.Clone()
				d.Worlds[i].Trace = nt
				if fails(d) {
					cur = d
					tr = nt
					dropped = true
				} else {
					s = e
				}
			}
			if n == 1 && !dropped {
				break
			}
			if n > 1 {
				n /= 2
			}
		}
	}
	return cur
}
