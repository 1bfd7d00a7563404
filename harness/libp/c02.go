package libp

import (
	"fmt"
	"math"

	. "simmod/goosli/primitives"
	"simmod/goosli/slicers"
	"simmod/harness/core"
	"simmod/simrt"
)

// loop is one closed outline of a cross-section.
type loop struct {
	p    []core.V3
	area float64 // signed, seen along the direction
	per  float64
}

func mkLoop(p []core.V3, n core.V3) loop {
	l := loop{p: p}
	var a core.V3
	for i := range p {
		q := p[(i+1)%len(p)]
		a = a.Add(p[i].Sub(p[0]).Cross(q.Sub(p[0])))
		l.per += p[i].Dist(q)
	}
	l.area = a.Dot(n) / 2
	return l
}

// section chains the cross-section of a mesh through the edges its triangles
// share. ok is false when the plane is too close to a vertex or the section is
// not a set of simple closed loops.
func section(ts []core.Tri, n core.V3, z float64) (ls []loop, ok bool) {
	type edge struct{ a, b core.V3 }
	key := func(a, b core.V3) edge {
		for i := 0; i < 3; i++ {
			if a[i] != b[i] {
				if a[i] > b[i] {
					a, b = b, a
				}
				break
			}
		}
		return edge{a, b}
	}
	next := map[edge]edge{}
	var order []edge
	ins := map[edge]bool{}
	for _, t := range ts {
		var d [3]float64
		up := 0
		for k := range t {
			d[k] = t[k].Dot(n) - z
			if math.Abs(d[k]) < 4e-6 {
				return nil, false
			}
			if d[k] > 0 {
				up++
			}
		}
		if up == 0 || up == 3 {
			continue
		}
		// the corner alone on its side
		k := 0
		for ; k < 3; k++ {
			if (d[k] > 0) == (up == 1) {
				break
			}
		}
		e1, e2 := key(t[k], t[(k+1)%3]), key(t[k], t[(k+2)%3])
		if up == 2 { // always the same side on the left
			e1, e2 = e2, e1
		}
		if _, dup := next[e1]; dup || ins[e2] {
			return nil, false
		}
		next[e1] = e2
		ins[e2] = true
		order = append(order, e1)
	}
	at := func(e edge) core.V3 {
		a, b := e.a.Dot(n)-z, e.b.Dot(n)-z
		return e.a.Add(e.b.Sub(e.a).Mul(a / (a - b)))
	}
	done := map[edge]bool{}
	for _, s := range order {
		if done[s] {
			continue
		}
		var p []core.V3
		for e := s; !done[e]; {
			done[e] = true
			p = append(p, at(e))
			f, have := next[e]
			if !have {
				return nil, false
			}
			e = f
			if done[e] && e != s {
				return nil, false
			}
		}
		l := mkLoop(p, n)
		if l.per < 0.05 || math.Abs(l.area) < 1e-4 {
			return nil, false
		}
		for i := range p { // corners that vanish when nearly straight lines are merged
			a, b := p[(i+len(p)-1)%len(p)], p[(i+1)%len(p)]
			if p[i].Sub(a).Cross(b.Sub(p[i])).Len() < 1e-5 && distTo(p[i], []core.V3{a, b}) > 1e-4 {
				return nil, false
			}
		}
		ls = append(ls, l)
	}
	// outlines that nearly touch are no general position either
	for i := range ls {
		for j := range ls {
			for k, p := range ls[j].p {
				if i != j && distTo(p, ls[i].p) < 1e-3 {
					return nil, false
				}
				if i == j {
					for m := range ls[j].p {
						if g := (m - k + len(ls[j].p)) % len(ls[j].p); g > 1 && g < len(ls[j].p)-1 && ls[j].p[m].Dist(p) < 1e-4 {
							return nil, false
						}
					}
				}
			}
		}
	}
	return ls, true
}

// distTo is the distance from a point to a closed polyline.
func distTo(p core.V3, l []core.V3) float64 {
	d := math.Inf(1)
	for i := range l {
		a, b := l[i], l[(i+1)%len(l)]
		ab := b.Sub(a)
		t := 0.0
		if q := ab.Dot(ab); q > 0 {
			t = math.Max(0, math.Min(1, p.Sub(a).Dot(ab)/q))
		}
		d = math.Min(d, p.Dist(a.Add(ab.Mul(t))))
	}
	return d
}

func sameLoop(a, b loop) bool {
	const tol = 2e-3
	if math.Abs(math.Abs(a.area)-math.Abs(b.area)) > tol*(a.per+b.per)/2 || math.Abs(a.per-b.per) > 0.05*(a.per+b.per) {
		return false
	}
	for _, p := range a.p {
		if distTo(p, b.p) > tol {
			return false
		}
	}
	for _, p := range b.p {
		if distTo(p, a.p) > tol {
			return false
		}
	}
	return true
}

// checkLayers compares sliced layers with the sections of the mesh. sign is
// the orientation of outlines, 0 while unknown.
func checkLayers(x *core.Ctx, ts []core.Tri, n core.V3, t float64, ls []Layer, sign *float64) {
	lo, hi := core.MinMax(ts, n)
	f := (hi - lo) / t
	cnt := int(math.Ceil(f))
	cnts := []int{cnt}
	if len(ts) == 0 || hi <= lo {
		cnt = 0
	} else if math.Abs(f-math.Round(f)) < 1e-9*math.Max(1, math.Abs(lo)+math.Abs(hi)) {
		x.Probe("height is a multiple of the layer height")
		cnts = []int{int(math.Round(f)), int(math.Round(f)) + 1} // as rounding has it
	}
	if cnt == 0 {
		if len(ls) != 0 {
			x.Fail("count", "a mesh without height gives %d layers", len(ls))
		}
		return
	}
	var first, short string
	for _, cnt := range cnts {
		type sec struct {
			ls []loop
			ok bool
			z  float64
		}
		secs := make([]sec, cnt)
		for i := range secs {
			z := lo + (float64(i)+.5)*(hi-lo)/float64(cnt)
			l, ok := section(ts, n, z)
			secs[i] = sec{l, ok, z}
		}
		for skip := 0; skip <= 1; skip++ {
			drop := cnt - skip - len(ls)
			if drop < 0 || drop > 1 || skip == 1 && secs[0].ok && len(secs[0].ls) > 0 || drop == 1 && secs[cnt-1].ok && len(secs[cnt-1].ls) > 0 {
				continue
			}
			sg := *sign
			msg, cmp := "", 0
			for i := range ls {
				if msg != "" {
					break
				}
				s := secs[i+skip]
				var got []loop
				for _, p := range ls[i].Paths {
					var q []core.V3
					for _, r := range p.Points {
						v := v3(r)
						if math.Abs(v.Dot(n)-s.z) > 1e-5 || math.IsNaN(v.Dot(n)) {
							msg = fmt.Sprintf("layer %d of %d should lie at %.6f but has a point at %.6f", i+skip, cnt, s.z, v.Dot(n))
						}
						q = append(q, v)
					}
					if len(q) < 4 || q[0].Dist(q[len(q)-1]) > 1e-5 {
						if s.ok && msg == "" {
							msg = fmt.Sprintf("layer %d of %d has an outline of %d points that is not closed", i+skip, cnt, len(q))
						}
						continue
					}
					got = append(got, mkLoop(q[:len(q)-1], n))
				}
				if !s.ok || msg != "" {
					continue
				}
				if len(got) != len(s.ls) {
					msg = fmt.Sprintf("layer %d of %d at height %.6f has %d outlines, the cross-section %d", i+skip, cnt, s.z, len(got), len(s.ls))
					break
				}
				used := make([]bool, len(got))
				for _, e := range s.ls {
					hit := false
					for k, g := range got {
						if used[k] || !sameLoop(e, g) {
							continue
						}
						used[k], hit = true, true
						o := 1.0
						if e.area*g.area < 0 {
							o = -1
						}
						if sg == 0 {
							sg = o
						}
						if sg != o {
							msg = fmt.Sprintf("layer %d of %d: an outline around %v of area %.4f is oriented against the others", i+skip, cnt, e.p[0], math.Abs(e.area))
						}
						break
					}
					if !hit {
						for _, g := range got {
							m1, m2 := 0.0, 0.0
							for _, p := range e.p {
								m1 = math.Max(m1, distTo(p, g.p))
							}
							for _, p := range g.p {
								m2 = math.Max(m2, distTo(p, e.p))
							}
							x.Note("candidate: area %v perimeter %v (expected %v %v), distances %v %v", g.area, g.per, e.area, e.per, m1, m2)
						}
						msg = fmt.Sprintf("layer %d of %d at height %.6f: no outline matches the cross-section's loop through %v (area %.4f, perimeter %.4f)", i+skip, cnt, s.z, e.p[0], e.area, e.per)
						break
					}
				}
				cmp++
			}
			if msg == "" {
				*sign = sg
				if cmp > 0 {
					x.Nontriv = true
					x.Probes["layers compared"] += int64(cmp)
				}
				x.Probes["layers not in general position"] += int64(len(ls) - cmp)
				return
			}
			if first == "" {
				first = msg
			}
		}
		if short == "" {
			short = fmt.Sprintf("%d layers instead of %d (extent %.6f, layer height %v)", len(ls), cnt, hi-lo, t)
		}
	}
	if first == "" {
		x.Fail("count", "%s", short)
		return
	}
	x.Fail("layers", "%s", first)
}

// wobble moves every vertex a little, as rounding in other programs does.
func wobble(ts []core.Tri, seed uint64, amp float64) []core.Tri {
	if seed == 0 {
		return ts
	}
	m := map[core.V3]core.V3{}
	r := make([]core.Tri, len(ts))
	for i, t := range ts {
		for k, p := range t {
			q, ok := m[p]
			if !ok {
				g := core.NewRng(core.Mix(seed, uint64(len(m))))
				q = p.Add(core.V3{g.Fr(-amp, amp), g.Fr(-amp, amp), g.Fr(-amp, amp)})
				m[p] = q
			}
			r[i][k] = q
		}
	}
	return core.F32(r)
}

func caseMesh(c *core.Case) []core.Tri {
	return wobble(core.Mesh(c.Mesh), uint64(c.Int("wobble")), getF(c, "amp", 1e-6))
}

func genDir(r *core.Rng) core.V3 {
	if r.P(45) {
		return core.Pick(r, core.V3{0, 0, 1}, core.V3{0, 0, 1}, core.V3{1, 0, 0}, core.V3{0, 1, 0}, core.V3{0, 0, -1}, core.V3{-1, 0, 0}, core.V3{0, 0, 2.5})
	}
	for {
		v := core.V3{r.Fr(-1, 1), r.Fr(-1, 1), r.Fr(-1, 1)}
		if l := v.Len(); l > .2 {
			if r.P(50) {
				v = v.Norm()
			}
			return v
		}
	}
}

// nearContact moves a solid along the direction of slicing so that it begins
// or ends very near to the height of a layer.
func nearContact(r *core.Rng, c *core.Case, n core.V3, cnt int) {
	lo, hi := core.MinMax(caseMesh(c), n)
	if len(c.Mesh) < 2 {
		b, e := core.Bounds(core.Mesh(c.Mesh))
		c.Mesh = append(c.Mesh, core.Shape{Kind: core.Pick(r, "box", "box", "pyramid", "prism"), N: 5, S: core.V3{1, 1, 1}.Mul((hi - lo) * r.Fr(.1, .5)), P: core.V3{e[0] + 2 + (hi - lo), b[1], b[2]}})
	}
	old := append([]core.Shape(nil), c.Mesh...)
	k := r.N(len(c.Mesh))
	a, e := core.MinMax(core.Mesh(c.Mesh[k:k+1]), n)
	if r.P(70) {
		a = e
	}
	z := lo + (float64(r.N(cnt))+.5)*(hi-lo)/float64(cnt) + math.Pow(10, r.Fr(-5.2, -2))*float64(core.Pick(r, 1, -1))
	c.Mesh[k].P = c.Mesh[k].P.Add(n.Mul(z - a))
	if l, h := core.MinMax(caseMesh(c), n); math.Abs(l-lo) > 1e-12 || math.Abs(h-hi) > 1e-12 {
		c.Mesh = old
	}
}

// C02: the layers are the cross-sections.
var C02 = &core.Prop{
	ID: "C02", Quick: 60000, Thorough: 300000, QuickS: 90, Level: "exploration",
	Rule:    "at least one layer was in general position and compared with an independently computed cross-section",
	Measure: "(layers, outlines, triangles, workers)",
	Real:    realAll, Stub: stubAll,
	Gen: func(r *core.Rng, i int) *core.Case {
		c := &core.Case{Kind: "slice"}
		size := core.Pick(r, 1., 10, 10, 10, 40, 120)
		c.Mesh = core.GenMesh(r, core.GenOpt{MaxShapes: 4, MaxSeg: core.Pick(r, 5, 8, 16, 30), Size: size, Upright: 55})
		if r.P(35) {
			c.Set("wobble", int64(r.N(1<<30)+1))
			setF(c, "amp", core.Pick(r, 1e-9, 1e-8, 1e-7, 4e-7, 1e-6, 3e-6, 1e-5))
		}
		d := genDir(r)
		c.V = []float64{d[0], d[1], d[2]}
		lo, hi := core.MinMax(caseMesh(c), d.Norm())
		n := core.Pick(r, 1, 2, 3, r.In(2, 12), r.In(2, 12), r.In(5, 40), r.In(20, 90))
		if r.N(80) == 0 && len(core.Mesh(c.Mesh)) < 300 {
			n = r.LogN(90, 1500)
		}
		short := r.Fr(.02, .98)
		if r.P(10) {
			short = 0
		} else if r.P(30) { // just above or below a whole number of layers
			short = math.Pow(10, r.Fr(-7, -1.5))
			if r.P(70) {
				short = 1 - short
			}
		}
		setF(c, "layer_height", (hi-lo)/(float64(n)-short))
		if r.P(35) {
			nearContact(r, c, d.Norm(), n)
		}
		c.Worlds = []simrt.Config{core.GenSched(r, 64)}
		return c
	},
	Run: func(c *core.Case, x *core.Ctx) {
		ts := caseMesh(c)
		d := core.V3{c.V[0], c.V[1], c.V[2]}
		n := d.Norm()
		s := settings(c)
		var ls []Layer
		o, _ := sim(x, 0, Env{FS: newDisk(c), Cfg: c.World(0)}, func() {
			ls = slicers.SliceByVector(goMesh(ts), vec(d), s)
		})
		if o.Kind == "steps" {
			x.Probe("too long")
			return
		}
		if o.Kind != "return" {
			x.Fail("panic", "slicing ends with %s %s", o.Kind, o.Panic)
			return
		}
		x.See(core.HashStr(layersText(ls)))
		np := 0
		for _, l := range ls {
			np += len(l.Paths)
		}
		x.State(len(ls), np, len(ts), c.World(0).CPU)
		sign := 0.0
		checkLayers(x, ts, n, s.LayerHeight, ls, &sign)
	},
}
