package clip

import (
	"fmt"
	"math"
	"strings"

	"simmod/harness/core"
	"simmod/simrt"
)

// turnZ and turnX turn a point the way the slicer turns meshes.
func turnZ(p core.V3, d float64) core.V3 {
	s, k := math.Sincos(d * math.Pi / 180)
	return core.V3{p[0]*k + p[1]*s, -p[0]*s + p[1]*k, p[2]}
}

func turnX(p core.V3, d float64) core.V3 {
	s, k := math.Sincos(d * math.Pi / 180)
	return core.V3{p[0], p[1]*k + p[2]*s, -p[1]*s + p[2]*k}
}

// convex is a solid made of convex ones.
type convex [][]struct {
	n core.V3
	d float64
}

func newConvex(ss []core.Shape, off core.V3) (c convex) {
	for _, s := range ss {
		for _, piece := range s.Pieces() {
			var f []struct {
				n core.V3
				d float64
			}
			for _, t := range piece {
				n := t[1].Sub(t[0]).Cross(t[2].Sub(t[0]))
				if l := n.Len(); l > 0 {
					n = n.Mul(1 / l)
					f = append(f, struct {
						n core.V3
						d float64
					}{n, n.Dot(t[0].Add(off))})
				}
			}
			c = append(c, f)
		}
	}
	return
}

// depth is how far inside the solid a point is, negative outside, and which
// of its convex parts it is in or nearest to.
func (c convex) depth(p core.V3) (float64, int) {
	best, which := math.Inf(-1), 0
	for i, f := range c {
		d := math.Inf(1)
		for _, h := range f {
			d = math.Min(d, h.d-h.n.Dot(p))
		}
		if d > best {
			best, which = d, i
		}
	}
	return best, which
}

// upright tells whether nothing overhangs on a model.
func upright(c *core.Case) bool {
	for _, s := range c.Mesh {
		switch s.Kind {
		case "box", "prism", "pyramid", "star", "ell", "ring":
			if s.R[0] != 0 || s.R[1] != 0 {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// deep tells whether a ball is inside the solid; its pieces may touch.
func (c convex) deep(p core.V3, r float64) bool {
	if d, _ := c.depth(p); d > r || d < 0 || len(c) == 1 {
		return d > r
	}
	for x := -2; x <= 2; x++ {
		for y := -2; y <= 2; y++ {
			for z := -2; z <= 2; z++ {
				v := core.V3{float64(x), float64(y), float64(z)}
				if l := v.Len(); l > 0 {
					if d, _ := c.depth(p.Add(v.Mul(r / l))); d < -1e-9 {
						return false
					}
				}
			}
		}
	}
	return true
}

// printed is one layer as it was printed, put back on the model.
type printed struct {
	m     core.GMove // its first move
	loops [][]core.V3
	raw   [][]core.V3 // on the bed
	n     core.V3
	d     float64
	seg   int
}

// GenC22 draws convex models and jobs that turn the bed.
func genC22(r *core.Rng) *core.Case {
	st := core.Pick(r, "vip", "vip", "vip", "vip", "vip", "5axes", "3axes", "5axes_by_profile")
	c := GenSlice(r, SliceOpt{Types: []string{st}, Planes: 0, MaxLayers: 14, MaxSeg: 6})
	delete(c.Opts, "planes_file")
	delete(c.Opts, "supports_on")
	c.Texts = nil
	setOpt(c, "slicing_type", st)
	setOpt(c, "skirt_line_count", "0")
	if r.P(50) { // walls and fill only cost time here
		setOpt(c, "wall_thickness", "0.1")
		setOpt(c, "fill_density", "6")
	}
	c.Kind = "auto"
	solid := func(kind string) core.Shape {
		s := core.Shape{Kind: kind, N: r.In(3, 9), S: core.V3{r.Fr(3, 10), r.Fr(3, 10), r.Fr(5, 15)}}
		s.Q = r.Fr(.3, 2) * s.S[2] / s.S[0]
		if kind == "cup" || kind == "flare" {
			s.N = r.In(15, 20)
			s.Q = r.Fr(.05, .3)
			if kind == "flare" {
				s.Q = r.Fr(.2, .8)
			}
			s.S[0] *= 2
			s.S[1] = s.S[0]
			s.S[2] = s.S[0] * r.Fr(.15, .6)
		}
		if r.P(75) {
			s.R = core.V3{0, 0, r.Fr(-180, 180)}
		}
		if r.P(60) {
			s.P = core.V3{r.Fr(-10, 10), r.Fr(-10, 10), r.Fr(0, 2)}
		}
		if r.P(50) {
			s.Shuf = r.U() | 1
		}
		return s
	}
	tip := 0
	switch k := r.N(20); {
	case st == "vip" && k < 6:
		c.Kind = "planes"
		c.Mesh = []core.Shape{solid(core.Pick(r, "box", "prism", "pyramid", "octa", "sphere", "lean"))}
		if r.P(12) { // many triangles
			c.Mesh[0].Kind, c.Mesh[0].N = core.Pick(r, "sphere", "prism"), r.In(12, 40)
		}
	case st == "vip" && k < 9:
		c.Kind = "analyse"
		c.Mesh = []core.Shape{solid(core.Pick(r, "lean", "octa", "lean"))}
		if r.P(40) { // standing on a corner or in the air
			c.Mesh = []core.Shape{solid(core.Pick(r, "box", "octa", "prism", "sphere", "pyramid"))}
			c.Mesh[0].R = core.V3{r.Fr(-180, 180), r.Fr(-180, 180), r.Fr(-180, 180)}
			lo, _ := core.Bounds(core.Mesh(c.Mesh))
			c.Mesh[0].P[2] += core.Pick(r, 0, r.Fr(0, 5)) - lo[2]
		}
		if r.P(40) { // any model, for the analyzer alone
			c.Kind = "faces"
			c.Mesh = core.GenMesh(r, core.GenOpt{MaxShapes: 3, MaxSeg: 8, Size: r.Fr(4, 20), Upright: 40})
		}
	case st == "vip" && k < 11:
		c.Mesh = []core.Shape{solid(core.Pick(r, "cup", "flare"))}
	case st == "vip" && k < 13: // two legs leaning to each other, or elsewhere
		a, b := solid("lean"), solid("lean")
		a.S, b.S = core.V3{a.S[0] / 2, a.S[1] / 2, a.S[2]}, core.V3{b.S[0] / 2, b.S[1] / 2, a.S[2]}
		dir := r.Fr(-180, 180)
		si, co := math.Sincos(dir * math.Pi / 180)
		dist := r.Fr(8, 40)
		a.R, b.R = core.V3{0, 0, dir}, core.V3{0, 0, dir + 180}
		b.P = a.P.Add(core.V3{co * dist, si * dist, 0})
		most := (dist-8)/2 - .2 // they do not touch
		a.Q = math.Min(r.Fr(.3, 2)*a.S[2], most) / a.S[0]
		b.Q = math.Min(r.Fr(.3, 2)*b.S[2], most) / b.S[0]
		c.Mesh = []core.Shape{a, b}
	case st == "vip" && k < 14 || st == "5axes" && k < 4: // nothing overhangs
		c.Kind = "upright"
		c.Mesh = []core.Shape{solid(core.Pick(r, "pyramid", "star", "ell", "ring", "prism"))}
		c.Mesh[0].Q = r.Fr(.1, .9)
		if m := &c.Mesh[0]; r.P(25) { // round: flat or steep
			m.Kind, m.N = core.Pick(r, "pyramid", "pyramid", "prism"), r.In(15, 24)
			m.S[1] = m.S[0]
			m.S[2] = m.S[0] * r.Fr(.2, 1.2)
		}
		if r.P(30) { // two next to each other
			b := solid(core.Pick(r, "pyramid", "star", "ell", "prism", "box"))
			b.Q = r.Fr(.1, .9)
			b.P[0] += c.Mesh[0].P[0] + 21*float64(r.In(0, 1)*2-1)
			b.P[2] = c.Mesh[0].P[2]
			c.Mesh = append(c.Mesh, b)
		}
		if r.P(25) { // a tip exactly at, or next to, the height a layer is taken at
			n := 8 << r.N(2)
			a, b := &c.Mesh[0], solid(core.Pick(r, "star", "ell", "prism", "box"))
			a.Kind, a.S[2] = "pyramid", 8*(float64(r.In(n/2, n-2))+.5)/float64(n)+core.Pick(r, 0, 0, 0, r.Fr(-1e-5, 1e-5))
			if a.N < 3 {
				a.N = 3
			}
			b.Q = r.Fr(.1, .9)
			b.S[2] = 8
			a.P[2], b.P[2] = 0, 0
			b.P[0] += a.P[0] + 21*float64(r.In(0, 1)*2-1)
			c.Mesh = append(c.Mesh[:1], b)
			if r.P(30) {
				d := b
				d.P[1] += 21
				c.Mesh = append(c.Mesh, d)
			}
			tip = n
		}
	case st == "5axes_by_profile":
		c.Mesh = []core.Shape{solid(core.Pick(r, "lean", "lean", "box", "prism"))}
	default:
		kind := "lean"
		if r.P(20) {
			kind = core.Pick(r, "box", "prism", "pyramid", "octa", "sphere")
		}
		c.Mesh = []core.Shape{solid(kind)}
	}
	lo, hi := core.Bounds(core.Mesh(c.Mesh))
	setOpt(c, "layer_height", num((hi[2]-lo[2])/(float64(r.In(6, 24))-r.Fr(.1, .9))))
	if tip > 0 {
		setOpt(c, "layer_height", num(8/(float64(tip)-r.Fr(.1, .9))))
	}
	switch c.Kind {
	case "planes":
		c.Lines = nil
		setText(c, "planes_file.txt", strings.Join(GenPlanes(r, core.Mesh(c.Mesh), c, r.In(1, 4)), "\n"))
	case "analyse", "faces":
		setOpt(c, "overhang", ftoa(math.Round(r.Fr(20, 60))))
	}
	c.Worlds = []simrt.Config{core.GenSched(r, 8)}
	if c.Kind == "analyse" || c.Kind == "faces" {
		c.Worlds = append(c.Worlds, core.GenSched(r, 8))
	}
	return c
}

func runC22(c *core.Case, x *core.Ctx) {
	if c.Opts["skirt_line_count"] != "0" {
		return // the skirt is printed beside the model
	}
	off := vec(c, "origin", "xyz", core.V3{})
	cen := vec(c, "rotc", "xyz", core.V3{})
	t := optF(c, "layer_height", .2)
	solid := newConvex(c.Mesh, off)
	disk := newDisk(c)
	o := map[string]string{}
	for k, v := range c.Opts {
		if k != "overhang" {
			o[k] = v
		}
	}
	planes := c.Kind == "planes" || c.Kind == "analyse"
	if c.Kind == "analyse" || c.Kind == "faces" {
		a := Job{Tool: "goosli_analyzer", World: c.World(1), FS: disk, Args: []string{"--stl=" + stlArg(c), "--out=planes_file.txt", "--angle=" + c.Opts["overhang"]}}
		for _, k := range []string{"originx", "originy", "originz"} {
			if v, ok := c.Opts[k]; ok {
				a.Args = append(a.Args, "--"+k+"="+v)
			}
		}
		a.World.MaxSteps = maxSteps
		r := run(x, 1, a)
		if r.Code != 0 {
			x.Probe(fmt.Sprintf("analyser exit %d", r.Code))
			return
		}
		b, _ := r.file("planes_file.txt")
		if len(b) == 0 {
			if msg := low(c, nil, core.V3{0, 0, 1}, off, math.Inf(1)); msg != "" {
				x.Fail("no plane", "no plane is written, but %s", msg)
				return
			}
			x.Probe("analyser: no planes")
			planes = false
		} else if strings.Contains(string(b), "NaN") {
			x.Fail("plane", "the analyser proposes undefined planes: %q", b)
			return
		} else if msg := faces(c, string(b), off); msg != "" {
			x.Fail("turned away", "%s", msg)
			return
		}
		if c.Kind == "faces" {
			x.Probe("faces")
			x.Nontriv = len(b) > 0
			x.State("faces", len(c.Mesh), len(b)/20)
			return
		}
	}
	j := Job{Tool: c.Tool, Args: append([]string{"--stl=" + stlArg(c)}, flags(o)...), World: c.World(0), FS: disk}
	j.World.MaxSteps = maxSteps
	r := run(x, 0, j)
	if r.Code != 0 {
		x.Probe(fmt.Sprintf("exit %d", r.Code))
		return
	}
	b, _ := r.file(outFiles(c)[0])
	_, text, _, ok := core.Job(string(b))
	if !ok {
		x.Probe("no usable job")
		return
	}
	var p core.Printer
	p.Exec(text)
	if p.Err != "" {
		x.Fail("gcode", "%s", p.Err)
		return
	}
	if upright(c) && !planes && c.Opts["slicing_type"] != "5axes_by_profile" {
		for _, m := range p.Moves {
			if m.T1 != 0 || m.T2 != 0 || m.Bed[0] != 0 || m.Bed[1] != 0 {
				x.Fail("needless", "line %d: the bed is turned and tilted by %v and %v for a model without overhangs", m.Line, m.T1+m.Bed[1], m.T2+m.Bed[0])
				return
			}
		}
		if c.Kind == "upright" {
			x.Probe("upright")
			x.Nontriv = len(p.Moves) > 0
			x.State("upright", len(c.Mesh), len(p.Moves)/50)
			return
		}
	}
	// where a point of the bed is on the model and the other way round
	back := func(m core.GMove, q core.V3) core.V3 {
		if planes {
			return turnZ(turnX(q.Sub(cen), m.T2), -m.T1).Add(cen)
		}
		return turnZ(turnX(q, -m.T2-m.Bed[0]), -m.T1-m.Bed[1])
	}
	onBed := func(m core.GMove, q core.V3) core.V3 {
		if planes {
			return turnX(turnZ(q.Sub(cen), m.T1), -m.T2).Add(cen)
		}
		return turnX(turnZ(q, m.T1+m.Bed[1]), m.T2+m.Bed[0])
	}
	tilt := func(m core.GMove) float64 { return m.T2 + m.Bed[0] }
	same := func(a, b core.GMove) bool { return a.T1 == b.T1 && a.T2 == b.T2 && a.Bed == b.Bed }
	var ls []*printed
	prev := -1
	var at core.V3
	for _, m := range p.Moves {
		if m.Tool != 0 || m.Section != "OUTER_PATHES" || !(m.HasE && m.HasXYZ && m.From != m.To && m.E1 > m.E0) {
			continue
		}
		q := back(m, m.To)
		if d, _ := solid.depth(q); d < -0.02 {
			x.Fail("outside", "line %d: with the bed at %v/%v the outline at %v is %.3f outside the model (%v on it)", m.Line, m.T1+m.Bed[1], tilt(m), m.To, -d, q)
			return
		}
		if m.Layer != prev {
			ls = append(ls, &printed{m: m})
			prev = m.Layer
		}
		l := ls[len(ls)-1]
		if len(l.loops) == 0 || at != m.From {
			l.loops = append(l.loops, []core.V3{back(m, m.From)})
			l.raw = append(l.raw, []core.V3{m.From})
		}
		k := len(l.loops) - 1
		l.loops[k] = append(l.loops[k], q)
		l.raw[k] = append(l.raw[k], m.To)
		at = m.To
	}
	if len(ls) == 0 {
		x.Probe("nothing printed")
		return
	}
	// parts: evenly spaced parallel layers
	seg := 0
	step := []float64{0}
	count := []int{0}
	for i, l := range ls {
		for _, lp := range l.loops {
			for k := range lp {
				l.n = l.n.Add(lp[k].Sub(lp[0]).Cross(lp[(k+1)%len(lp)].Sub(lp[0])))
			}
		}
		up := back(l.m, core.V3{0, 0, 1}).Sub(back(l.m, core.V3{}))
		if g := l.n.Len(); g > 1e-6 {
			l.n = l.n.Mul(1 / g)
			if l.n.Dot(up) < 0 {
				l.n = l.n.Mul(-1)
			}
			if l.n.Dist(up) < .05 {
				l.n = up
			}
		} else {
			l.n = up
		}
		l.d = l.n.Dot(l.loops[0][0])
		if i > 0 {
			q := ls[i-1]
			d := l.d - q.d
			if !same(q.m, l.m) || l.n.Dist(q.n) > .05 || d <= 0 || l.m.Layer != q.m.Layer+1 || step[seg] > 0 && math.Abs(d-step[seg]) > 0.004 {
				seg++
				step, count = append(step, 0), append(count, 0)
			} else if step[seg] == 0 {
				step[seg] = d
			}
		}
		l.seg = seg
		count[seg]++
	}
	// slicing by profile stands the model's axis upright
	if c.Opts["slicing_type"] == "5axes_by_profile" && len(c.Mesh) == 1 {
		s := c.Mesh[0]
		axis := core.V3{0, 0, 1}
		if s.Kind == "lean" {
			axis = turnZ(core.V3{s.Q * s.S[0], 0, s.S[2]}, -s.R[2]).Norm()
		}
		for _, l := range ls {
			up := back(l.m, core.V3{0, 0, 1}).Sub(back(l.m, core.V3{}))
			if d := up.Dist(axis); d > .1 {
				x.Fail("profile", "line %d: with the bed at %v/%v the model's axis is %.2f off the vertical", l.m.Line, l.m.Bed[1], l.m.Bed[0], d)
				return
			}
		}
	}
	// a tilt lays the cut flat: the part printed before it is below the one printed after it
	tilts := 0
	for i := 1; i < len(ls); i++ {
		l, q := ls[i], ls[i-1]
		if !(tilt(q.m) == 0 && tilt(l.m) != 0) || planes || c.Opts["slicing_type"] == "5axes_by_profile" || l.n.Dist(back(l.m, core.V3{0, 0, 1}).Sub(back(l.m, core.V3{}))) > .01 {
			continue
		}
		tilts++
		above := make([]float64, len(solid)) // per solid: how far the older part reaches above the new one's first layer
		high, all := make([]int, len(solid)), make([]int, len(solid))
		first := make([]float64, len(solid))
		for k := range above {
			above[k], first[k] = math.Inf(-1), math.Inf(1)
		}
		for _, n := range ls[i:] {
			if n.seg != l.seg {
				break
			}
			for a, lp := range n.raw {
				for b := range lp {
					_, s := solid.depth(n.loops[a][b])
					first[s] = math.Min(first[s], lp[b][2])
				}
			}
		}
		for k := i - 1; k >= 0 && ls[k].seg == q.seg; k-- {
			for _, lp := range ls[k].loops {
				for _, v := range lp {
					_, s := solid.depth(v)
					h := onBed(l.m, v)[2]
					above[s] = math.Max(above[s], h)
					all[s]++
					if h > first[s] {
						high[s]++
					}
				}
			}
		}
		worst := math.Inf(1)
		for k := range above {
			if !math.IsInf(above[k], 0) && !math.IsInf(first[k], 0) {
				if (len(solid) > 1 || c.Opts["slicing_type"] == "5axes") && (2*high[k] <= all[k] || above[k]-first[k] < 2*t) {
					// these cut the layers below the overhang off level first, so that some of them reach beyond the tilted cut
					worst = 0
				}
				worst = math.Min(worst, above[k]-first[k])
			}
		}
		if worst > 0.02 && !math.IsInf(worst, 0) {
			x.Fail("tilt", "line %d: the bed tilts to %v/%v although the part printed before then reaches %.3f above the first layer of the next part", l.m.Line, l.m.T1+l.m.Bed[1], tilt(l.m), worst)
			return
		}
	}
	// a strategy that tilts leaning solids brings one it goes on with closer to the vertical
	for i := 1; i < len(ls) && !planes && c.Opts["slicing_type"] != "5axes_by_profile"; i++ {
		if tilt(ls[i-1].m) != 0 || tilt(ls[i].m) == 0 {
			continue
		}
		printedNow := make([]bool, len(solid))
		for _, n := range ls[i:] {
			if n.seg != ls[i].seg {
				break
			}
			for _, lp := range n.loops {
				for _, v := range lp {
					_, s := solid.depth(v)
					printedNow[s] = true
				}
			}
		}
		known, better, worst := 0, false, 0.0
		for k, s := range c.Mesh {
			if !printedNow[k] {
				continue
			}
			if s.Kind != "lean" || s.Q*s.S[0] < .84*s.S[2] { // it leans less than what needs support
				known = -9
				continue
			}
			known++
			axis := turnZ(core.V3{s.Q * s.S[0], 0, s.S[2]}, -s.R[2]).Norm()
			on := onBed(ls[i].m, axis).Sub(onBed(ls[i].m, core.V3{}))
			worst = math.Max(worst, axis[2]-on[2])
			better = better || on[2] > axis[2]-.001
		}
		if known > 0 && !better {
			x.Fail("tilt away", "line %d: the bed tilts to %v/%v although everything printed then overhangs more than before (%.2f)", ls[i].m.Line, ls[i].m.T1+ls[i].m.Bed[1], tilt(ls[i].m), worst)
			return
		}
		break
	}
	// no region larger than a layer is left out or printed twice
	cover := func(q core.V3) (sure, maybe int) {
		for _, l := range ls {
			s := step[l.seg]
			if count[l.seg] == 1 {
				s = t
			}
			h := l.n.Dot(q) - l.d
			if math.Abs(h) > s/2+.002 {
				continue
			}
			f := onBed(l.m, q.Add(l.n.Mul(-h)))
			in := false
			for _, lp := range l.raw {
				for k := range lp {
					a, b := lp[k], lp[(k+1)%len(lp)]
					if (a[1] > f[1]) != (b[1] > f[1]) && f[0] < a[0]+(b[0]-a[0])*(f[1]-a[1])/(b[1]-a[1]) {
						in = !in
					}
				}
			}
			if in {
				maybe++
				if count[l.seg] > 1 {
					sure++
				}
			}
		}
		return
	}
	lo, hi := core.Bounds(core.Mesh(c.Mesh))
	lo, hi = lo.Add(off), hi.Add(off)
	rg := core.NewRng(77)
	// parallel layers after each other are not further apart than two layers
	for i := 1; i < len(ls) && len(c.Mesh) == 1; i++ {
		l, q := ls[i], ls[i-1]
		lo1, hi0 := math.Inf(1), math.Inf(-1) // along the normal: where the upper one starts, where the lower one ends
		for _, lp := range l.loops {
			for _, v := range lp {
				lo1 = math.Min(lo1, q.n.Dot(v))
			}
		}
		for _, lp := range q.loops {
			for _, v := range lp {
				hi0 = math.Max(hi0, q.n.Dot(v))
			}
		}
		if l.n.Dist(q.n) > .02 || lo1-hi0 < 1.9*t || lo1-hi0 > 20*t {
			continue
		}
		x.Probe("far apart")
		for n := 0; n < 60; n++ {
			p := core.V3{rg.Fr(lo[0], hi[0]), rg.Fr(lo[1], hi[1]), rg.Fr(lo[2], hi[2])}
			p = p.Add(q.n.Mul((lo1+hi0)/2 - q.n.Dot(p)))
			if !solid.deep(p, t*1.6+.01) {
				continue
			}
			if _, m := cover(p); m == 0 {
				x.Fail("layers", "lines %d and %d: two layers after each other are %.2f layers apart, nothing is printed between them at %v", q.m.Line, l.m.Line, (lo1-hi0)/t, p)
				return
			}
		}
	}
	ball := []core.V3{{}}
	for k := 0; k < 3; k++ {
		var v core.V3
		v[k] = t
		ball = append(ball, v, v.Mul(-1))
	}
	for k := 0; k < 8; k++ {
		v := core.V3{1, 1, 1}
		for b := range v {
			if k>>b&1 == 1 {
				v[b] = -1
			}
		}
		ball = append(ball, v.Mul(t/math.Sqrt(3)))
	}
	deep := 0
	for n := 0; n < 600 && deep < 80; n++ {
		q := core.V3{rg.Fr(lo[0], hi[0]), rg.Fr(lo[1], hi[1]), rg.Fr(lo[2], hi[2])}
		if !solid.deep(q, t*1.6+.01) {
			continue
		}
		deep++
		none, twice := true, true
		for _, v := range ball {
			s, m := cover(q.Add(v))
			none = none && m == 0
			twice = twice && s > 1
			if !none && !twice {
				break
			}
		}
		if none {
			x.Fail("gap", "nothing is printed within %.3f of %v inside the model (%d parts)", t, q, len(step))
			return
		}
		if twice {
			x.Fail("twice", "everything within %.3f of %v is printed more than once (%d parts)", t, q, len(step))
			return
		}
	}
	if deep > 0 {
		x.Probe("interior probed")
	}
	for ; tilts > 0; tilts-- {
		x.Probe("tilts")
	}
	kind := c.Kind
	if kind == "auto" {
		kind = c.Opts["slicing_type"]
	}
	x.Probe(kind)
	x.Nontriv = true
	x.State(kind, len(c.Mesh), len(p.Turns), len(ls), len(step))
}

// faces tells whether the proposed planes start at overhangs of the model and
// are turned to them.
func faces(c *core.Case, text string, off core.V3) string {
	ps, ok := parsePlanes(text)
	if !ok {
		return fmt.Sprintf("no planes in %q", text)
	}
	angle := optF(c, "overhang", 0)
	up := core.V3{0, 0, 1}
	for i, p := range ps {
		if p.tilt == (i%2 == 1) {
			return fmt.Sprintf("the bed is tilted twice or brought back twice in %q", text)
		}
		best := math.Inf(1)
		for _, tr := range core.Mesh(c.Mesh) {
			n := tr[1].Sub(tr[0]).Cross(tr[2].Sub(tr[0]))
			if n.Len() == 0 {
				continue
			}
			n = n.Norm()
			if math.Acos(-n.Dot(up))*180/math.Pi > 90-angle+.5 || toTri(p.p.Sub(off), tr) > .02 {
				continue
			}
			if !p.tilt || math.Hypot(n[0], n[1]) < 1e-3 { // every direction is as good
				best = 0
				break
			}
			d := math.Abs(math.Mod(math.Atan2(n[1], n[0])*180/math.Pi-90-p.rot, 360))
			best = math.Min(best, math.Min(d, 360-d))
		}
		if math.IsInf(best, 0) {
			return fmt.Sprintf("nothing overhangs where plane %d of %q starts", i+1, text)
		}
		if msg := low(c, ps[:i], up, off, p.p.Dot(up)-.03); msg != "" {
			return fmt.Sprintf("plane %d of %q starts at height %.3f, but %s", i+1, text, p.p.Dot(up), msg)
		}
		if best > .5 {
			return fmt.Sprintf("plane %d of %q is %.1f degrees off the overhangs that start there", i+1, text, best)
		}
		up = core.V3{0, 0, 1}
		if p.tilt {
			si, co := math.Sincos((p.rot + 90) * math.Pi / 180)
			up = core.V3{co * math.Sqrt(3) / 2, si * math.Sqrt(3) / 2, .5}
		}
	}
	if len(ps) < 6 {
		if msg := low(c, ps, up, off, math.Inf(1)); msg != "" {
			return fmt.Sprintf("no more planes follow %q, but %s", text, msg)
		}
	}
	return ""
}

// low finds a face that certainly overhangs below the given height and lies
// neither on the bed nor on the cuts: the piece that holds a point well above
// all of these lies on none of them.
func low(c *core.Case, cuts []plane, up, off core.V3, height float64) string {
	angle := optF(c, "overhang", 0)
	for _, tr := range core.Mesh(c.Mesh) {
		n := tr[1].Sub(tr[0]).Cross(tr[2].Sub(tr[0]))
		if n.Len() < 1e-3 || math.Acos(-n.Norm().Dot(up))*180/math.Pi > 90-angle-.5 {
			continue
		}
		poly := []core.V3{tr[0].Add(off), tr[1].Add(off), tr[2].Add(off)}
		if len(cuts) == 0 { // the whole face, unless it lies on the bed
			if math.Max(poly[0][2], math.Max(poly[1][2], poly[2][2])) < .05 {
				continue
			}
		} else {
			poly = above(poly, core.V3{0, 0, 1}, .1)
			for _, cut := range cuts {
				cn := core.V3{0, 0, 1}
				if cut.tilt {
					si, co := math.Sincos((cut.rot + 90) * math.Pi / 180)
					cn = core.V3{co * math.Sqrt(3) / 2, si * math.Sqrt(3) / 2, .5}
				}
				poly = above(poly, cn, cut.p.Dot(cn)+.1)
			}
		}
		if area(poly) < .02 {
			continue
		}
		least := math.Inf(1)
		for _, q := range poly {
			least = math.Min(least, q.Dot(up))
		}
		if least < height {
			return fmt.Sprintf("the face %.3v (less the origin), which overhangs and lies neither on the bed nor on a cut, starts at height %.3f", tr, least)
		}
	}
	return ""
}

// above is the part of a convex polygon with n*p >= d.
func above(poly []core.V3, n core.V3, d float64) (res []core.V3) {
	for k, a := range poly {
		b := poly[(k+1)%len(poly)]
		da, db := n.Dot(a)-d, n.Dot(b)-d
		if da >= 0 {
			res = append(res, a)
		}
		if da >= 0 != (db >= 0) {
			res = append(res, a.Add(b.Sub(a).Mul(da/(da-db))))
		}
	}
	return res
}

func area(poly []core.V3) float64 {
	var s core.V3
	for k := 2; k < len(poly); k++ {
		s = s.Add(poly[k-1].Sub(poly[0]).Cross(poly[k].Sub(poly[0])))
	}
	return s.Len() / 2
}

// toTri is the distance of a point to a triangle.
func toTri(p core.V3, t core.Tri) float64 {
	n := t[1].Sub(t[0]).Cross(t[2].Sub(t[0]))
	best := math.Inf(1)
	if l := n.Len(); l > 0 {
		n = n.Mul(1 / l)
		best = math.Abs(n.Dot(p.Sub(t[0])))
		for k := range t {
			if n.Dot(t[(k+1)%3].Sub(t[k]).Cross(p.Sub(t[k]))) < 0 {
				best = math.Inf(1)
			}
		}
	}
	for k := range t {
		d := t[(k+1)%3].Sub(t[k])
		u := 0.0
		if l := d.Dot(d); l > 0 {
			u = math.Min(1, math.Max(0, d.Dot(p.Sub(t[k]))/l))
		}
		best = math.Min(best, p.Dist(t[k].Add(d.Mul(u))))
	}
	return best
}

// C22: the printed parts fit together on the model.
var C22 = &core.Prop{
	ID: "C22", Quick: 25000, Thorough: 200000, QuickS: 120, Level: "exploration",
	Rule:    "the slicer exited with status 0, its G-code was executed by the simulated printer, and every outline was put back on the model",
	Measure: "(strategy, solids, turns of the bed, layers, parts)",
	Real:    realAll, Stub: stubAll,
	Gen: func(r *core.Rng, i int) *core.Case { return genC22(r) },
	Run: runC22,
}
