package clip

import (
	"fmt"

	"simmod/harness/core"
	"simmod/simrt"
)

// C13: the simplifier's budget, closedness and extent.
var C13 = &core.Prop{
	ID: "C13", Quick: 100000, Thorough: 300000, QuickS: 60, Level: "exploration",
	Rule:    "the simplifier exited with status 0 and its output was checked",
	Measure: "(input size, budget, output size, output bytes)",
	Real:    realAll, Stub: stubAll,
	Gen: func(r *core.Rng, i int) *core.Case {
		c := GenSimp(r, core.Pick(r, 5, 8, 12))
		c.Kind = "reduce"
		n := len(core.Mesh(c.Mesh))
		if r.P(20) {
			c.Kind = "keep"
			setOpt(c, "triangles", fmt.Sprint(n+core.Pick(r, 0, 0, 1, 5, 1000)))
			if n < 700 && r.P(20) {
				delete(c.Opts, "triangles") // default 800
			}
		} else if r.P(25) {
			setOpt(c, "triangles", fmt.Sprint(core.Pick(r, 0, 1, 2, 3, 4, 6, 8, 12)))
		} else if r.P(15) {
			setOpt(c, "triangles", fmt.Sprint(core.Pick(r, n-1, n-2, n-3)))
		}
		if r.P(12) { // a small model
			f := core.Pick(r, .125, .015625, .00390625)
			for i := range c.Mesh {
				c.Mesh[i].S, c.Mesh[i].P = c.Mesh[i].S.Mul(f), c.Mesh[i].P.Mul(f)
			}
		}
		if r.P(8) && len(c.Mesh) > 0 {
			c.Mesh[0].Drop = 1 + r.N(6)
		}
		c.Worlds = []simrt.Config{core.GenSched(r, 12)}
		if r.P(80) {
			c.Worlds[0].MapSeed = r.U() | 1
		}
		if r.P(30) {
			c.ShortR = r.In(5, 100)
		}
		if r.P(30) {
			c.ShortW = r.In(5, 100)
		}
		if r.P(12) {
			d := dry(c)
			if s, ok := pickSys(r, d.P.Log, func(s simrt.SysRec) bool { return s.Err == "" }); ok {
				c.Faults = append(c.Faults, mkFault(r, s))
				c.Kind += "+fault"
			}
		}
		return c
	},
	Run: func(c *core.Case, x *core.Ctx) {
		j := job(c, 0)
		j.World.MaxSteps = maxSteps
		r := run(x, 0, j)
		in := core.Mesh(c.Mesh)
		budget := 800
		if s, ok := c.Opts["triangles"]; ok {
			fmt.Sscan(s, &budget)
		}
		if r.Out.Kind == "steps" {
			x.Probe("too long")
			return
		}
		if r.Code != 0 {
			if len(c.Faults) == 0 && len(in) <= budget {
				x.Fail("keep-fails", "the simplifier exits %d on a model within its budget: %s", r.Code, tailOf(r.P.Stderr))
			}
			x.Probe("non-zero exit")
			return
		}
		x.Nontriv = true
		b, _ := r.file(outFiles(c)[0])
		out, err := core.ParseBin(b)
		if err != nil {
			x.Fail("bad-output", "the simplifier exits 0 but its output is not a complete model: %v", err)
			return
		}
		x.State(len(in), budget, len(out), core.HashBytes(b))
		if len(out) > budget {
			x.Fail("budget", "%d triangles in the output, %d requested (input %d)", len(out), budget, len(in))
			return
		}
		if len(in) <= budget {
			for i := range in {
				if len(out) != len(in) || out[i] != in[i] {
					x.Fail("keep", "input of %d triangles is within the budget of %d but the output (%d) differs at triangle %d", len(in), budget, len(out), i)
					return
				}
			}
			x.Probe("kept")
			return
		}
		if core.EdgeBalance(in) == 0 {
			if n := core.EdgeBalance(out); n != 0 {
				x.Fail("open", "closed input of %d triangles, but %d edges of the output (%d) are not used equally often in both directions", len(in), n, len(out))
				return
			}
			x.Probe("closed")
		}
		lo, hi := core.Bounds(in)
		l2, h2 := core.Bounds(out)
		d := hi.Sub(lo).Len()
		for k := 0; k < 3 && len(out) > 0; k++ {
			if !(l2[k] >= lo[k]-d && h2[k] <= hi[k]+d) {
				x.Fail("extent", "input extends from %v to %v, output from %v to %v", lo, hi, l2, h2)
				return
			}
		}
	},
}
