package clip

import (
	"fmt"
	"math"

	"simmod/harness/core"
	"simmod/simrt"
)

// verdict of one triangle: 0, 1, or 2 when both are acceptable.
func verdict(t core.Tri, angle float64, v core.V3) byte {
	n := t[1].Sub(t[0]).Cross(t[2].Sub(t[0]))
	if n.Len() == 0 || v.Len() == 0 {
		return 2
	}
	// right angles and opposite directions along an axis leave nothing to rounding
	axis := func(u core.V3) bool {
		return u[0] == 0 && u[1] == 0 || u[0] == 0 && u[2] == 0 || u[1] == 0 && u[2] == 0
	}
	if angle == 0 && n[0]*v[0] == 0 && n[1]*v[1] == 0 && n[2]*v[2] == 0 {
		return 0
	}
	if angle == 90 && axis(n) && axis(v) && v.Len() == 1 {
		return 0
	}
	cos := -n.Dot(v) / (n.Len() * v.Len())
	cos = math.Max(-1, math.Min(1, cos))
	a := math.Acos(cos) * 180 / math.Pi
	if math.Abs(a-(90-angle)) < 1e-5 {
		return 2
	}
	if a < 90-angle {
		return 1
	}
	return 0
}

// C12: one verdict byte per triangle.
var C12 = &core.Prop{
	ID: "C12", Quick: 100000, Thorough: 300000, QuickS: 60, Level: "fault_enumeration",
	Rule:    "the colorizer exited with status 0 and its output was compared with independently computed verdicts, or a fault made it exit non-zero",
	Measure: "(triangles, verdicts of 1, fault, exit status)",
	Real:    realAll, Stub: stubAll,
	Gen: func(r *core.Rng, i int) *core.Case {
		c := GenColor(r, core.Pick(r, 6, 10, 16))
		c.Kind = "plain"
		if r.P(6) { // more than one output buffer
			c.Mesh = []core.Shape{{Kind: "sphere", N: core.Pick(r, r.In(40, 60), r.In(60, 100)), S: core.V3{10, 10, 10}, Shuf: r.U()}}
			c.Kind = "large"
		}
		if r.N(600) == 0 { // more triangles than 16 bits count
			c.Mesh = []core.Shape{{Kind: "sphere", N: r.In(262, 290), S: core.V3{10, 10, 10}, Shuf: r.U()}}
			c.Kind = "huge"
		}
		if r.P(15) {
			setOpt(c, "angle", core.Pick(r, "0", "0", "90", "90", "45", "-30", "120", "89.99", "0.5"))
		}
		if r.P(10) {
			setVec(c, "normal", "ijk", unitVec(r).Mul(r.Fr(0.1, 40)))
		}
		c.Worlds = []simrt.Config{core.GenSched(r, 12)}
		if r.P(40) {
			c.ShortR = r.In(5, 100)
		}
		if r.P(40) {
			c.ShortW = r.In(5, 100)
		}
		if r.P(35) {
			c.Kind += "+fault"
			d := dry(c)
			for n := 1 + r.N(2); n > 0; n-- {
				if s, ok := pickSys(r, d.P.Log, func(s simrt.SysRec) bool { return s.Err == "" }); ok {
					f := mkFault(r, s)
					if s.Kind == "read" && c.Format == "bin" && s.Path == abs("in.stl") && r.P(25) {
						f.Action, f.Errno, f.Arg = core.Pick(r, "trunc", "grow"), "", int64(r.LogN(1, 3000))
					}
					c.Faults = append(c.Faults, f)
				}
			}
		} else if r.P(10) {
			c.Kind += "+disk-full"
			c.Set("free", 1+int64(r.N(len(core.Mesh(c.Mesh))+2)))
		}
		return c
	},
	Run: func(c *core.Case, x *core.Ctx) {
		j := job(c, 0)
		j.World.MaxSteps = maxSteps
		if f := c.Int("free"); f > 0 {
			j.FS.Free = f - 1
		}
		r := run(x, 0, j)
		if r.Out.Kind == "steps" {
			x.Probe("too long")
			return
		}
		what := ""
		for _, s := range r.P.Log {
			if s.Fault != "" {
				what += s.Fault + ";"
			}
		}
		var inj int64
		for _, v := range r.P.Injected {
			inj += v
		}
		x.Nontriv = r.Code == 0 || inj > 0
		ts := core.Mesh(c.Mesh)
		if r.Code != 0 {
			x.State(len(ts), what, r.Code)
			x.Probe("non-zero exit")
			if what == "" && c.Int("free") == 0 {
				x.Fail("color-fails", "the colorizer exits %d without a fault: %s", r.Code, tailOf(r.P.Stderr))
			}
			return
		}
		f := outFiles(c)[0]
		b, ok := r.file(f)
		if !ok || len(b) != len(ts) {
			x.Fail("verdicts", "the colorizer exits 0 and %s holds %d bytes (exists %v) for %d triangles; faults: %s", f, len(b), ok, len(ts), what)
			return
		}
		angle := 30.0
		if s, ok := c.Opts["angle"]; ok {
			fmt.Sscan(s, &angle)
		}
		v := vec(c, "normal", "ijk", core.V3{0, 0, 1})
		ones := 0
		for i, t := range ts {
			w := verdict(t, angle, v)
			if b[i] == 1 {
				ones++
			}
			if b[i] > 1 || w != 2 && w != b[i] {
				x.Fail("verdicts", "triangle %d of %d %v: verdict byte %d, want %d (angle %v, direction %v); faults: %s", i, len(ts), t, b[i], w, angle, v, what)
				return
			}
		}
		x.State(len(ts), ones, what)
		if ones > 0 && ones < len(ts) {
			x.Probe("both verdicts")
		}
	},
}
