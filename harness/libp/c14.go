package libp

import (
	"bytes"
	"fmt"
	"math"
	"strings"

	"simmod/goosli/gcode"
	. "simmod/goosli/primitives"
	"simmod/goosli/slicers"
	"simmod/goosli/slicers/vip"
	"simmod/harness/clip"
	"simmod/harness/core"
	"simmod/simrt"
)

// jobOf builds the job a case lists.
func jobOf(ops []core.Op, s gcode.GcodeSettings) gcode.Gcode {
	g := gcode.NewGcode(s)
	var ls []Layer
	open := false
	flush := func() {
		if open {
			g.AddLayers(ls)
		}
		ls, open = nil, false
	}
	for _, o := range ops {
		switch o.Kind {
		case "L":
			flush()
			open = true
		case "l":
			open = true
			ls = append(ls, Layer{Order: len(ls), Norm: V(0, 0, 1)})
		case "p":
			if len(ls) == 0 || len(o.F) < 3 {
				continue
			}
			var p Path
			for i := 0; i+2 < len(o.F); i += 3 {
				p.Points = append(p.Points, Point{X: o.F[i], Y: o.F[i+1], Z: o.F[i+2]})
			}
			l := &ls[len(ls)-1]
			switch o.A {
			case 0:
				l.Paths = append(l.Paths, p)
			case 1:
				l.MiddlePs = append(l.MiddlePs, p)
			case 2:
				l.InnerPs = append(l.InnerPs, p)
			default:
				l.Fill = append(l.Fill, p)
			}
		case "z":
			flush()
			g.Add(gcode.RotateZ{Angle: o.F[0]})
		case "x":
			flush()
			g.Add(gcode.InclineX{})
		case "b":
			flush()
			g.Add(gcode.InclineXBack{})
		case "g":
			flush()
			g.Add(gcode.RotateXZ{AngleX: o.F[0], AngleZ: o.F[1]})
		}
	}
	flush()
	return g
}

// one layer a printer has to make, and what it has to hold while doing so
type want struct {
	paths  []Path
	wall   []bool
	t1, t2 float64
}

func str3(p Point) string {
	return strings.ReplaceAll(fmt.Sprintf("%.3f,%.3f,%.3f,", p.X, p.Y, p.Z), "-0.000,", "0.000,")
}

// expect lists the layers and bed turns of a job; ok is false when it holds
// commands this model does not know.
func expect(g *gcode.Gcode) (ws []want, g62 []string, turns []core.Turn, ok bool) {
	t1, t2 := 0.0, 0.0
	for _, c := range g.Cmds {
		switch c := c.(type) {
		case gcode.LayersMoving:
			for _, l := range c.Layers {
				w := want{t1: t1, t2: t2}
				for k, ps := range [][]Path{l.Paths, l.MiddlePs, l.InnerPs, l.Fill} {
					for _, p := range ps {
						w.paths = append(w.paths, p)
						w.wall = append(w.wall, k < 3)
					}
				}
				ws = append(ws, w)
			}
		case gcode.RotateZ:
			t1 = c.Angle
			turns = append(turns, core.Turn{Tool: 1, To: c.Angle, Layer: len(ws)})
		case gcode.InclineX:
			t2 = 60
			turns = append(turns, core.Turn{Tool: 2, To: 60, Layer: len(ws)})
		case gcode.InclineXBack:
			t2 = 0
			turns = append(turns, core.Turn{Tool: 2, Layer: len(ws)})
		case gcode.RotateXZ:
			g62 = append(g62, fmt.Sprintf("%.2f %.2f %d", c.AngleX+0, c.AngleZ+0, len(ws)))
		default:
			return nil, nil, nil, false
		}
	}
	return ws, g62, turns, true
}

// judge executes the G-code and compares it with the job.
func judge(x *core.Ctx, text string, ws []want, s gcode.GcodeSettings) {
	const tol = 0.0012
	var p core.Printer
	p.Exec(text)
	if p.Err != "" {
		x.Fail("gcode", "%s", p.Err)
		return
	}
	if len(p.Marks) != len(ws) {
		x.Fail("layers", "the job has %d layers, the G-code %d", len(ws), len(p.Marks))
		return
	}
	for i, m := range p.Marks {
		if m.N != i {
			x.Fail("layers", "layer mark number %d of the job reads %d", i, m.N)
			return
		}
	}
	rate := 4 * s.LineWidth * s.LayerHeight / (s.BarDiameter * s.BarDiameter * math.Pi)
	high := 0.0   // filament fed so far at most
	pulled := 0.0 // back since the last printing move
	mi := 0
	if len(p.Marks) > 0 { // nothing is printed before the first layer
		for ; mi < p.Marks[0].Move; mi++ {
			m := p.Moves[mi]
			if m.Tool == 0 && m.HasE {
				x.Fail("early", "line %d extrudes before the first layer", m.Line)
				return
			}
		}
	}
	for li, w := range ws {
		end := len(p.Moves)
		if li+1 < len(p.Marks) {
			end = p.Marks[li+1].Move
		}
		// the state of the walk along the expected paths
		pi, k := -1, 0
		var pts []Point   // of the current path, runs of equal text merged
		var cum []float64 // length up to each of them
		total := 0.0
		done := 0.0 // length of the paths before it
		base := high
		next := func() bool {
			done += total
			total = 0
			for pi++; pi < len(w.paths); pi++ {
				q := w.paths[pi].Points
				if len(q) < 2 {
					continue
				}
				pts, cum, total = []Point{q[0]}, []float64{0}, 0
				for i := 1; i < len(q); i++ {
					total += v3(q[i]).Dist(v3(q[i-1]))
					if str3(q[i]) != str3(q[i-1]) {
						pts = append(pts, q[i])
						cum = append(cum, total)
					}
				}
				k = 0
				return true
			}
			return false
		}
		where := func(m core.GMove) string {
			return fmt.Sprintf("layer %d of %d, path %d of %d, line %d", li, len(ws), pi, len(w.paths), m.Line)
		}
		finish := func(m core.GMove) bool { // the current path must be complete
			if pi >= 0 && pi < len(w.paths) {
				if k < len(pts)-1 {
					x.Fail("path", "%s: only %d of %d points of the path were printed", where(m), k+1, len(pts))
					return false
				}
			}
			return true
		}
		var last core.GMove
		for ; mi < end; mi++ {
			m := p.Moves[mi]
			if m.Tool != 0 {
				continue
			}
			last = m
			fil := m.Fil + m.E1 - m.E0
			dep := math.Max(0, fil-high)
			moved := m.From != m.To
			printing := m.HasE && m.HasXYZ && moved
			if !printing {
				// travel, retraction, or a step below the output precision
				if dep > 1e-6 {
					if moved || dep > rate*0.0018+tol {
						x.Fail("travel", "%s: a move that prints nothing feeds %.4f of filament", where(m), dep)
						return
					}
					high = fil
				}
				pulled = math.Max(pulled, high-fil)
				continue
			}
			if pi < 0 || k == len(pts)-1 { // a new path
				if !finish(m) {
					return
				}
				if !next() {
					x.Fail("path", "%s: prints more than the layer's %d paths", where(m), len(w.paths))
					return
				}
				for len(pts) < 2 { // the whole path is below the precision
					if !next() {
						x.Fail("path", "%s: prints more than the layer's %d paths", where(m), len(w.paths))
						return
					}
				}
				for a := 0; a < 3; a++ {
					if math.Abs(m.From[a]-v3(pts[0])[a]) > 0.0006 {
						x.Fail("start", "%s: the path starts at %v, the printer is at %v", where(m), v3(pts[0]), m.From)
						return
					}
				}
				if math.Abs(m.Fil-high) > tol {
					x.Fail("retraction", "%s: printing resumes with the filament %.4f behind where printing stopped", where(m), high-m.Fil)
					return
				}
				if s.Retraction && math.Abs(pulled-s.RetractionDistance) > tol || !s.Retraction && pulled > 1e-6 {
					x.Fail("retraction", "%s: before the path the filament was pulled back by %.4f, configured: %v %v", where(m), pulled, s.Retraction, s.RetractionDistance)
					return
				}
			}
			k++
			for a := 0; a < 3; a++ {
				if math.Abs(m.To[a]-v3(pts[k])[a]) > 0.0006 {
					x.Fail("path", "%s: point %d of the path is %v, the printer goes to %v", where(m), k, v3(pts[k]), m.To)
					return
				}
			}
			if fil > high {
				high = fil
			}
			pulled = 0
			if d := fil - base - rate*(done+cum[k]); math.Abs(d) > tol {
				x.Fail("extrusion", "%s: the layer took %.4f of filament up to point %d of the path, %.4f expected for length %.4f", where(m), fil-base, k, rate*(done+cum[k]), done+cum[k])
				return
			}
			f := s.PrintSpeed
			kind := "fill"
			if w.wall[pi] {
				f, kind = s.PrintSpeedWall, "wall"
			}
			if li == 0 {
				f, kind = s.PrintSpeedLayer1, "first layer"
			}
			if m.F != float64(f) {
				x.Fail("speed", "%s: %s printed at F%v, configured %d", where(m), kind, m.F, f)
				return
			}
			if fan := !(li == 0 && s.FanOffLayer1); m.Fan != fan {
				x.Fail("fan", "%s: fan on is %v", where(m), m.Fan)
				return
			}
			if math.Abs(m.T1-w.t1) > 0.006 || math.Abs(m.T2-w.t2) > 1e-6 {
				x.Fail("bed", "%s: the bed is rotated by %v and tilted by %v, the job says %v and %v", where(m), m.T1, m.T2, w.t1, w.t2)
				return
			}
		}
		if !finish(last) {
			return
		}
		for next() {
			if len(pts) > 1 {
				x.Fail("path", "layer %d of %d: path %d of %d (%d points) is not printed", li, len(ws), pi, len(w.paths), len(pts))
				return
			}
		}
		if d := high - base - rate*done; math.Abs(d) > tol {
			x.Fail("extrusion", "layer %d of %d took %.4f of filament, %.4f expected", li, len(ws), high-base, rate*done)
			return
		}
	}
}

// beds compares the angles of the bed after every number of layers (whichever
// moves lead there) and the general rotations.
func beds(x *core.Ctx, text string, g62 []string, turns []core.Turn) {
	var p core.Printer
	p.Exec(text)
	n := len(p.Marks)
	for _, t := range turns {
		if t.Layer > n {
			n = t.Layer
		}
	}
	got, want := angles(p.Turns, n), angles(turns, n)
	for k := range want {
		for i := range want[k] {
			if math.Abs(got[k][i]-want[k][i]) > .011 {
				x.Fail("turns", "after %d layers the bed is turned by %v and tilted by %v, the job has %v and %v", k, got[k][0], got[k][1], want[k][0], want[k][1])
				return
			}
		}
	}
	if len(p.G62) != len(g62) {
		x.Fail("turns", "%d general rotations, the job has %d", len(p.G62), len(g62))
		return
	}
	for i, l := range p.G62 {
		var a, b, c, d float64
		fmt.Sscanf(l, "G62 X%g Z%g", &a, &b)
		fmt.Sscanf(g62[i], "%g %g", &c, &d)
		if math.Abs(a-c) > .011 || math.Abs(b-d) > .011 {
			x.Fail("turns", "general rotation %d is %q, the job has %s", i, l, g62[i])
		}
	}
}

// angles is the turn and the tilt of the bed after 0..n layers.
func angles(turns []core.Turn, n int) [][2]float64 {
	out := make([][2]float64, n+1)
	var cur [2]float64
	i := 0
	for k := range out {
		for ; i < len(turns) && turns[i].Layer <= k; i++ {
			if t := turns[i].Tool; t == 1 || t == 2 {
				cur[t-1] = turns[i].To
			}
		}
		out[k] = cur
	}
	return out
}

func genJob(r *core.Rng, c *core.Case) {
	scale := core.Pick(r, 20., 100, 100, 300)
	if r.P(20) { // much filament
		setF(c, "line_width", r.Fr(2, 20))
		setF(c, "layer_height", r.Fr(1, 8))
		setF(c, "bar", core.Pick(r, 1.75, 1.))
		c.Kind += "+much"
	}
	var ops []core.Op
	co := func() float64 {
		f := r.Fr(-scale, scale)
		switch r.N(4) {
		case 0:
			return math.Round(f)
		case 1:
			return math.Round(f*1000) / 1000
		}
		return f
	}
	var lastZ float64
	prev := core.V3{}
	path := func(kind int) {
		n := r.In(2, 7)
		switch {
		case r.P(3):
			n = 1
		case r.P(8):
			n = r.In(8, 40)
		}
		step := 0.0
		if r.P(25) { // short steps
			step = core.Pick(r, .0001, .0003, .0005, .0009, .002, .05)
		}
		p := core.V3{co(), co(), lastZ}
		if r.P(25) { // where the last one ended
			p = prev
		}
		var dir core.V3
		for a := range dir {
			dir[a] = r.Fr(-1, 1)
		}
		if r.P(50) {
			dir[r.N(3)] = 0
		}
		o := core.Op{Kind: "p", A: kind}
		first := p
		for i := 0; i < n; i++ {
			o.F = append(o.F, p[0], p[1], p[2])
			switch {
			case i == n-2 && i > 0 && r.P(50):
				p = first // closed
			case step > 0:
				p = p.Add(dir.Mul(step))
			default:
				q := core.V3{co(), co(), p[2]}
				if r.P(15) {
					q[2] += r.Fr(-3, 3)
				}
				if r.P(30) {
					a := r.N(2)
					q[a] = p[a]
				}
				p = q
			}
		}
		prev = core.V3{o.F[len(o.F)-3], o.F[len(o.F)-2], o.F[len(o.F)-1]}
		ops = append(ops, o)
	}
	for gi := r.In(1, 5); gi > 0; gi-- {
		ops = append(ops, core.Op{Kind: "L"})
		for n := core.Pick(r, 0, 1, 1, 2, 3, 4, r.In(5, 12)); n > 0; n-- {
			ops = append(ops, core.Op{Kind: "l"})
			lastZ = math.Abs(co())
			for k := 0; k < 4; k++ {
				for j := core.Pick(r, 0, 1, 1, 2, 3); j > 0; j-- {
					path(k)
				}
			}
		}
		for n := core.Pick(r, 0, 1, 1, 2, 3); n > 0; n-- {
			switch r.N(7) {
			case 0, 1, 2:
				ops = append(ops, core.Op{Kind: "z", F: []float64{core.Pick(r, 0, 90, -90, 180, r.Fr(-180, 180), math.Round(r.Fr(-360, 360)))}})
			case 3, 4:
				ops = append(ops, core.Op{Kind: "x"})
			case 5:
				ops = append(ops, core.Op{Kind: "b"})
			default:
				ops = append(ops, core.Op{Kind: "g", F: []float64{r.Fr(-90, 90), r.Fr(-180, 180)}})
			}
		}
	}
	c.Ops = [][]core.Op{ops}
}

func m0(c *core.Case) *Mesh { return goMesh(core.Mesh(c.Mesh)) }

// C14: the printer's state stays consistent with the job.
var C14 = &core.Prop{
	ID: "C14", Quick: 25000, Thorough: 600000, QuickS: 60, Level: "exploration",
	Rule:    "the G-code was executed by the simulated printer and at least one path of its job was printed",
	Measure: "(case kind, layers, groups, paths, bed turns, retraction, fan, extruder resets)",
	Real:    append([]string{"cmd/goosli in cases of kind tool"}, realAll...), Stub: append([]string{"the printer: a model executing G0/G1/G92/T/M106/M107/G62"}, stubAll...),
	Gen: func(r *core.Rng, i int) *core.Case {
		c := &core.Case{}
		switch k := r.N(20); {
		case k < 11:
			c.Kind = "job"
			genSettings(r, c, math.Round(r.Fr(.05, .6)*1000)/1000)
			for _, k := range []string{"s1", "sw", "sf"} {
				if r.P(20) {
					c.Set(k, 5) // the speed of bed moves
				}
				if r.P(10) {
					c.Set("rspeed", c.Int(k)*60)
				}
			}
			genJob(r, c)
			c.Worlds = []simrt.Config{core.BaseSched()}
		case k < 16:
			c.Kind = "slice"
			c.Mesh = core.GenMesh(r, core.GenOpt{MaxShapes: 3, MaxSeg: 7, Size: r.Fr(4, 12), Upright: 70})
			lo, hi := core.Bounds(core.Mesh(c.Mesh))
			genSettings(r, c, math.Ceil((hi[2]-lo[2])/(float64(r.In(2, 9))-r.Fr(.1, .9))*1e4)/1e4)
			c.Set("how", int64(r.N(7)))
			if c.Int("how") >= 5 && r.P(60) { // one shape the automatic strategies know
				c.Mesh = []core.Shape{{Kind: core.Pick(r, "box", "prism", "prism"), N: core.Pick(r, 4, 6, 14, 20), S: core.V3{r.Fr(4, 12), r.Fr(4, 12), r.Fr(4, 12)}, P: core.V3{r.Fr(-9, 9), r.Fr(-9, 9), 0}}}
				if r.P(40) {
					q := c.Mesh[0]
					q.P = q.P.Add(core.V3{30, 3, 0})
					c.Mesh = append(c.Mesh, q)
				}
				lo, hi = core.Bounds(core.Mesh(c.Mesh))
				setF(c, "layer_height", math.Ceil((hi[2]-lo[2])/(float64(core.Pick(r, 1, 1, 2, 3, r.In(4, 9)))-r.Fr(.1, .9))*1e4)/1e4)
			}
			if k := c.Int("how"); k == 3 || k == 4 {
				for _, l := range clip.GenPlanes(r, core.Mesh(c.Mesh), c, r.In(1, 4)) {
					c.Lines = append(c.Lines, l)
				}
			}
			c.Worlds = []simrt.Config{core.GenSched(r, 8)}
		default:
			return clip.GenC14(r)
		}
		return c
	},
	Run: func(c *core.Case, x *core.Ctx) {
		if c.Tool != "" {
			clip.RunC14(c, x)
			return
		}
		var g gcode.Gcode
		var text string
		s := settings(c)
		lines := c.Lines
		cnt := 0
		straight := false
		var outlines []Path
		var orders int
		o, _ := sim(x, 0, Env{FS: newDisk(c), Cfg: c.World(0)}, func() {
			if len(c.Mesh) == 0 {
				var ops []core.Op
				if len(c.Ops) > 0 {
					ops = c.Ops[0]
				}
				g = jobOf(ops, *s.GcodeSettings)
			} else {
				m := goMesh(core.Mesh(c.Mesh))
				switch c.Int("how") {
				case 0:
					g = slicers.SliceByVectorToGcode(m, AxisZ, s)
				case 1:
					g = slicers.SliceByProfile(m, s)
				case 2:
					g = slicers.Slice5Axes(m, s)
				case 5, 6:
					s.PlanesFile = "none.txt"
					g = vip.Slice(m, s)
				default:
					var ps []vip.AnalyzedPlane
					for _, l := range lines {
						ps = append(ps, vip.ParsePlane(l))
					}
					g = vip.SliceByPlanes(m, s, ps)
				}
			}
			if h := c.Int("how"); len(c.Mesh) > 0 && (h == 0 || h == 2 || h >= 5) {
				straight = true
				for _, c := range g.Cmds {
					if _, ok := c.(gcode.LayersMoving); !ok {
						straight = false // the bed moves
					}
				}
				if straight {
					ls := slicers.SliceByVector(m0(c), AxisZ, s)
					orders = len(ls)
					for _, l := range ls {
						outlines = append(outlines, l.Paths...)
					}
				}
			}
			cnt = g.LayerCount()
			var b bytes.Buffer
			g.ToOutput(&b)
			text = b.String()
		})
		if o.Kind != "return" {
			x.Probe("no G-code: " + o.Kind)
			if len(c.Mesh) == 0 && o.Kind != "steps" {
				x.Fail("panic", "emitting the job ends with %s %s", o.Kind, o.Panic)
			}
			return
		}
		x.See(core.HashStr(text))
		ws, g62, turns, ok := expect(&g)
		if !ok {
			x.Probe("unknown command")
			return
		}
		if cnt != len(ws) {
			x.Fail("layers", "the job counts %d layers but holds %d", cnt, len(ws))
			return
		}
		if straight {
			// nothing but layers: they must be the model's
			var got []Path
			for _, c := range g.Cmds {
				for _, l := range c.(gcode.LayersMoving).Layers {
					got = append(got, l.Paths...)
				}
			}
			var a, b strings.Builder
			pathsText(&a, got)
			pathsText(&b, outlines)
			if cnt != orders || a.String() != b.String() {
				x.Fail("model", "the bed never moves and the model has %d layers with %d outlines, but the job has %d with %d", orders, len(outlines), cnt, len(got))
				return
			}
			x.Probe("without bed moves")
		}
		np := 0
		for _, w := range ws {
			for _, p := range w.paths {
				for _, q := range p.Points {
					if math.IsNaN(q.X+q.Y+q.Z) || math.IsInf(q.X+q.Y+q.Z, 0) || math.Abs(q.X)+math.Abs(q.Y)+math.Abs(q.Z) > 1e7 {
						x.Probe("job with NaN or huge coordinates")
						return
					}
				}
				if len(p.Points) > 1 {
					np++
				}
			}
		}
		x.Nontriv = np > 0
		resets := strings.Count(text, "G92 E0\n")
		x.State(c.Kind, len(ws), len(g.Cmds), np, len(turns), len(g62), s.GcodeSettings.Retraction, s.GcodeSettings.FanOffLayer1, resets)
		if resets > 0 {
			x.Probe("extruder resets")
		}
		if len(turns) > 0 {
			x.Probe("bed turns")
		}
		judge(x, text, ws, *s.GcodeSettings)
		if x.Viol == nil {
			beds(x, text, g62, turns)
		}
	},
}
