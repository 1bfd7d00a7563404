package clip

import (
	"simmod/harness/core"
	"simmod/simrt"
)

// GenC18 draws a tool run with a fault.
func GenC18(r *core.Rng) *core.Case {
	c := GenTool(r, tools[r.N(len(tools))], SliceOpt{Planes: 50, MaxLayers: 5, MaxSeg: 5, Retract: 10})
	c.Kind = "tool"
	c.Worlds = []simrt.Config{core.GenSched(r, 4)}
	if r.P(70) {
		d := dry(c)
		for k := r.In(1, 2); k > 0; k-- {
			if s, ok := pickSys(r, d.P.Log, nil); ok {
				c.Faults = append(c.Faults, mkFault(r, s))
			}
		}
	}
	if r.P(30) {
		c.ShortR = r.In(5, 100)
	}
	if r.P(30) {
		c.ShortW = r.In(5, 100)
	}
	return c
}

// RunC18 looks for uses of closed handles.
func RunC18(c *core.Case, x *core.Ctx) {
	j := job(c, 0)
	j.World.MaxSteps = maxSteps
	r := run(x, 0, j)
	if len(r.P.DoubleClose) > 0 {
		x.Fail("closed", "%s uses a closed handle: %v", c.Tool, r.P.DoubleClose)
		return
	}
	n := 0
	for _, s := range r.P.Log {
		if s.Kind == "close" {
			n++
		}
	}
	x.Nontriv = n > 0
	x.State("tool", c.Tool, r.Code, n, len(c.Faults))
}
