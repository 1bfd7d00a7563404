package clip

import (
	"fmt"
	"math"

	"simmod/harness/core"
	"simmod/simrt"
)

func vec(c *core.Case, pre, axes string, def core.V3) core.V3 {
	for i := range def {
		if s, ok := c.Opts[pre+axes[i:i+1]]; ok {
			fmt.Sscan(s, &def[i])
		}
	}
	return def
}

// C11: cutting conserves the surface.
var C11 = &core.Prop{
	ID: "C11", Quick: 120000, Thorough: 300000, QuickS: 60, Level: "exploration",
	Rule:    "the cutter exited with status 0 and its outputs were compared with the clipped input",
	Measure: "(number of triangles in front, crossing, behind and in the plane; fault kind)",
	Real:    realAll, Stub: stubAll,
	Gen: func(r *core.Rng, i int) *core.Case {
		c := GenCut(r, core.Pick(r, 5, 8, 14))
		c.Kind = "general"
		if r.P(45) { // contact: faces, edges or vertices exactly in the plane
			c.Kind = "contact"
			if r.P(60) {
				for i := range c.Mesh { // axis-parallel shapes on a common grid
					c.Mesh[i].R = core.V3{}
					for k := 0; k < 3; k++ {
						c.Mesh[i].P[k] = math.Round(c.Mesh[i].P[k]*4) / 4
						c.Mesh[i].S[k] = math.Max(0.5, math.Round(c.Mesh[i].S[k]*2)/2)
					}
				}
				n := core.Pick(r, core.V3{0, 0, 1}, core.V3{0, 0, -1}, core.V3{1, 0, 0}, core.V3{0, 1, 0}, core.V3{0, -1, 0}, core.V3{0, 0.6, 0.8}, core.V3{1, 1, 0}, core.V3{0, 0, 2.5})
				setVec(c, "normal", "ijk", n)
			}
			ts := core.Mesh(c.Mesh)
			near := 0.0
			if r.P(30) { // almost in contact
				c.Kind = "near contact"
				near = core.Pick(r, -1, 1.0) * math.Pow(10, r.Fr(-5, -1))
			}
			if len(ts) > 0 {
				t := ts[r.N(len(ts))]
				setVec(c, "point", "xyz", t[r.N(3)])
				if r.P(25) { // the plane of a triangle
					n := t[1].Sub(t[0]).Cross(t[2].Sub(t[0]))
					if n.Len() > 1e-3 {
						n = n.Norm()
						if r.P(50) {
							n = n.Mul(-1)
						}
						setVec(c, "normal", "ijk", n)
					}
				} else if r.P(25) { // through an edge
					n := t[1].Sub(t[0]).Cross(unitVec(r))
					if n.Len() > 1e-3 {
						setVec(c, "normal", "ijk", n.Norm())
						setVec(c, "point", "xyz", t[0])
					}
				}
				if n := vec(c, "normal", "ijk", core.V3{0, 0, 1}); near != 0 && n.Len() > 0 {
					setVec(c, "point", "xyz", vec(c, "point", "xyz", core.V3{}).Add(n.Norm().Mul(near)))
				}
			}
		}
		if r.P(15) { // a small model
			f := core.Pick(r, .0625, .125, .25)
			for i := range c.Mesh {
				c.Mesh[i].S, c.Mesh[i].P = c.Mesh[i].S.Mul(f), c.Mesh[i].P.Mul(f)
			}
			setVec(c, "point", "xyz", vec(c, "point", "xyz", core.V3{}).Mul(f))
		}
		if r.P(12) { // the normal's length has no meaning
			setVec(c, "normal", "ijk", vec(c, "normal", "ijk", core.V3{0, 0, 1}).Mul(core.Pick(r, .125, .25, .5, 2, 8, 64)))
		}
		if r.P(10) && len(c.Mesh) > 0 { // an open surface is cut just the same
			c.Mesh[0].Drop = 1 + r.N(6)
		}
		c.Worlds = []simrt.Config{core.GenSched(r, 12)}
		if r.P(30) {
			c.ShortR = r.In(5, 100)
		}
		if r.P(30) {
			c.ShortW = r.In(5, 100)
		}
		if r.P(15) {
			d := dry(c)
			if s, ok := pickSys(r, d.P.Log, func(s simrt.SysRec) bool { return s.Err == "" }); ok {
				c.Faults = append(c.Faults, mkFault(r, s))
				c.Kind += "+fault"
			}
		}
		return c
	},
	Run: func(c *core.Case, x *core.Ctx) {
		j := job(c, 0)
		j.World.MaxSteps = maxSteps
		r := run(x, 0, j)
		if r.Out.Kind == "steps" {
			x.Probe("too long")
			return
		}
		if r.Code != 0 {
			if len(c.Faults) == 0 {
				x.Fail("cut-fails", "the cutter exits %d on a well-formed model: %s", r.Code, tailOf(r.P.Stderr))
			}
			x.Probe("failed run")
			return
		}
		var out [2][]core.Tri
		for k, f := range outFiles(c) {
			b, ok := r.file(f)
			ts, err := core.ParseBin(b)
			if !ok || err != nil {
				x.Fail("bad-output", "the cutter exits 0 but %s is not a complete model: %v", f, err)
				return
			}
			out[k] = ts
		}
		checkCut(c, x, core.Mesh(c.Mesh), out[0], out[1])
	},
}

// checkCut compares both halves with the clipped input.
func checkCut(c *core.Case, x *core.Ctx, in, up, down []core.Tri) {
	P := vec(c, "point", "xyz", core.V3{})
	N := vec(c, "normal", "ijk", core.V3{0, 0, 1})
	if N.Len() == 0 {
		return
	}
	N = N.Norm()
	d0 := P.Dot(N)
	S := 1.0
	for _, t := range in {
		for _, p := range t {
			for _, v := range p {
				S = math.Max(S, math.Abs(v))
			}
		}
	}
	lo, hi := core.Bounds(in)
	o := lo.Add(hi).Mul(0.5)
	unit := math.Max(hi.Sub(lo).Len()/2, 1e-3)
	eps := 3e-7*S + 1e-7
	delta := 4*eps + 1e-6
	// how much the rounding of coordinates may change areas
	tol, tolAll := 0.0, 0.0
	var nf, nb, nc, np int
	for _, t := range in {
		per := t[0].Dist(t[1]) + t[1].Dist(t[2]) + t[2].Dist(t[0])
		mn, mx := math.Inf(1), math.Inf(-1)
		for _, p := range t {
			d := p.Dot(N) - d0
			mn, mx = math.Min(mn, d), math.Max(mx, d)
		}
		tolAll += 1e-10 * per * per
		tol += 1e-10 * per * per
		switch {
		case mn >= 2*delta:
			nf++
			continue
		case mx <= -2*delta:
			nb++
			continue
		case mn >= -delta && mx <= delta:
			np++
		default:
			nc++
		}
		tolAll += 3*eps*per + 2e-6
		n := t[1].Sub(t[0]).Cross(t[2].Sub(t[0]))
		if n.Len() < 1e-12 {
			continue
		}
		sin := n.Norm().Cross(N).Len()
		if mx > delta || mn < -delta {
			if sin < 1e-3 {
				x.Probe("nearly parallel triangle: skipped")
				return
			}
			tol += 3*eps*per*(1+1/sin) + 2e-6
		}
	}
	scale := 6 / (unit * unit)
	tol *= scale
	tolAll *= scale
	var inF, inB, inAll, upF, upB, upAll, dnF, dnB, dnAll core.Moments
	part := func(ts []core.Tri, f, b, all *core.Moments) {
		for _, t := range ts {
			p := []core.V3{t[0], t[1], t[2]}
			all.Add(p, o, unit)
			f.Add(core.Clip(p, N, d0+delta), o, unit)
			b.Add(core.Clip(p, N.Mul(-1), -(d0-delta)), o, unit)
		}
	}
	part(in, &inF, &inB, &inAll)
	part(up, &upF, &upB, &upAll)
	part(down, &dnF, &dnB, &dnAll)
	x.Nontriv = true
	x.State(nf, nb, nc, np, c.Kind)
	if np > 0 {
		x.Probe("triangles in the plane")
	}
	if nc > 0 && (nf > 0 || nb > 0) {
		x.Probe("real cut")
	}
	var zero core.Moments
	chk := func(what string, a, b *core.Moments, lo int, tl float64) bool {
		if d := a.Diff(b, lo); d > tl {
			x.Fail("surface", "%s: largest difference of the surface integrals %.3g (tolerance %.3g, unit %.3g); areas %.9g and %.9g; input of %d triangles: %d in front, %d behind, %d crossing, %d in the plane; outputs %d and %d", what, d, tl, unit, a[0]*unit*unit, b[0]*unit*unit, len(in), nf, nb, nc, np, len(up), len(down))
			return false
		}
		return true
	}
	_ = chk("in front of the plane, upper output against input", &upF, &inF, 0, tol) &&
		chk("behind the plane, lower output against input", &dnB, &inB, 0, tol) &&
		chk("behind the plane, upper output against nothing", &upB, &zero, 0, tol) &&
		chk("in front of the plane, lower output against nothing", &dnF, &zero, 0, tol) &&
		func() bool {
			both := upAll
			both.AddM(&dnAll)
			return chk("both outputs together (oriented) against input", &both, &inAll, 10, tolAll+1e-9*scale)
		}()
}
