package libp

import (
	"bytes"
	"fmt"
	"math"
	"strings"

	"simmod/goosli/gcode"
	"simmod/goosli/helpers"
	. "simmod/goosli/primitives"
	"simmod/goosli/slicers"
	"simmod/goosli/slicers/vip"
	"simmod/harness/core"
)

// The operations of library workloads. A is the mesh an operation gets (an
// index into what its caller holds, modulo), B a count, F numbers, S a file.
const (
	opLoad     = "load"
	opCopy     = "copy"
	opMeasure  = "measure"
	opSlice    = "slice"
	opGcode    = "gcode"
	opCut      = "cut"
	opRotate   = "rotate"
	opSimplify = "simplify"
	opColor    = "colorize"
	opFilter   = "filter"
	opAnalyze  = "analyze"
	opPlanes   = "planes"
	opVip      = "vip"
	opProfile  = "profile"
	op5axes    = "5axes"
	opLine     = "line"
	opSave     = "save"
	opParse    = "parse"
	opShift    = "shift" // the only one that changes its mesh
)

// what is one operation's outcome.
type opRes struct {
	text   string        // as seen when the call returned
	again  func() string // the same, rendered from the returned values anew
	meshes []*Mesh       // meshes it returned
	err    bool
	moved  bool // one of the meshes was changed by its owner since
}

// gcodeText emits a job.
func gcodeText(g gcode.Gcode) string {
	var b bytes.Buffer
	g.ToOutput(&b)
	return fmt.Sprintf("%d layers\n%s", g.LayerCount(), b.String())
}

func boolsText(bs []bool) string {
	b := make([]byte, len(bs))
	for i, v := range bs {
		b[i] = '0'
		if v {
			b[i] = '1'
		}
	}
	return string(b)
}

func trisText(ts []Triangle) string { m := NewMesh(ts); return meshText(&m) }

// call performs an operation. readFile gives the content of a simulated file.
func call(op core.Op, m *Mesh, s slicers.Settings, readFile func(string) string) (r opRes) {
	defer func() {
		if p := recover(); p != nil {
			if t := fmt.Sprintf("%T", p); strings.Contains(t, "simrt") { // not a panic of the program
				panic(p)
			}
			t := fmt.Sprint("panic: ", p)
			r = opRes{text: t, again: func() string { return t }, err: true}
		}
	}()
	f := func(i int) float64 {
		if i < len(op.F) {
			return op.F[i]
		}
		return 0
	}
	dir := V(f(0), f(1), f(2))
	if len(op.F) < 3 {
		dir = AxisZ
	}
	if op.V != 0 {
		s = vary(s, op.V)
		before := *s.GcodeSettings
		defer func() {
			if after := *s.GcodeSettings; after != before {
				t := fmt.Sprintf("the settings were changed from %+v to %+v", before, after)
				r = opRes{text: t, again: func() string { return t }}
			}
		}()
	}
	s.LayerHeight = math.Max(s.LayerHeight, 1e-3)
	switch op.Kind {
	case opLoad:
		l, err := LoadSTL(op.S)
		if err != nil {
			t := "error: " + err.Error()
			return opRes{text: t, again: func() string { return t }, err: true}
		}
		r.again = func() string { return meshText(l) }
		r.meshes = []*Mesh{l}
	case opCopy:
		ts := m.CopyTriangles()
		r.again = func() string { return trisText(ts) }
		c := NewMesh(append([]Triangle(nil), ts...))
		r.meshes = []*Mesh{&c}
	case opMeasure:
		lo, hi := m.MinMaxZ(dir)
		r.again = func() string { var b strings.Builder; bits(&b, lo, hi); return b.String() }
	case opSlice:
		ls := slicers.SliceByVector(m, dir, s)
		r.again = func() string { return layersText(ls) }
	case opGcode:
		g := slicers.SliceByVectorToGcode(m, dir, s)
		r.again = func() string { return gcodeText(g) }
	case opCut:
		up, down, err := helpers.CutMesh(m, Plane{P: Point{X: f(3), Y: f(4), Z: f(5)}, N: dir})
		r.again = func() string { return fmt.Sprint(err, "\n", meshText(up), "\n", meshText(down)) }
		r.err = err != nil
		if err == nil {
			r.meshes = []*Mesh{up, down}
		}
	case opRotate:
		rm := RotationAroundZ(f(3))
		if op.B%2 == 1 {
			rm = RotationAroundX(f(3))
		}
		q := m.Rotate(rm, Point{X: f(0), Y: f(1), Z: f(2)})
		r.again = func() string { return meshText(q) }
		r.meshes = []*Mesh{q}
	case opSimplify:
		q, err := helpers.SimplifyMesh(m, op.B)
		r.again = func() string { return fmt.Sprint(err, "\n", meshText(q)) }
		r.err = err != nil
		if err == nil {
			r.meshes = []*Mesh{q}
		}
	case opColor:
		c := helpers.ColorizeTriangles(*m, f(3), dir)
		r.again = func() string { return boolsText(c) }
	case opFilter:
		ts := helpers.FilterTrianglesByColor(*m, f(3), dir)
		r.again = func() string { return trisText(ts) }
	case opAnalyze:
		ps := vip.Analyze(m, f(3))
		r.again = func() string {
			var b strings.Builder
			for _, p := range ps {
				fmt.Fprint(&b, p.String(), " ")
				bits(&b, p.P.X, p.P.Y, p.P.Z, p.N.X, p.N.Y, p.N.Z)
			}
			return b.String()
		}
	case opPlanes:
		var ps []vip.AnalyzedPlane
		for _, l := range strings.Split(op.S, "\n") {
			ps = append(ps, vip.ParsePlane(l))
		}
		before := fmt.Sprint(ps)
		g := vip.SliceByPlanes(m, s, ps)
		if after := fmt.Sprint(ps); after != before {
			r.meshes = nil
			r.text = "the planes were changed from " + before + " to " + after
		}
		r.again = func() string { return gcodeText(g) }
	case opVip:
		s.PlanesFile = op.S
		g := vip.Slice(m, s)
		r.again = func() string { return gcodeText(g) }
	case opProfile:
		g := slicers.SliceByProfile(m, s)
		r.again = func() string { return gcodeText(g) }
	case op5axes:
		g := slicers.Slice5Axes(m, s)
		r.again = func() string { return gcodeText(g) }
	case opLine:
		var pts []Point
		for i := 0; i+2 < len(op.F); i += 3 {
			pts = append(pts, Point{X: op.F[i], Y: op.F[i+1], Z: op.F[i+2]})
		}
		before := append([]Point(nil), pts...)
		q := helpers.SimplifyLine(pts, float64(op.B)/10)
		r.again = func() string {
			t := fmt.Sprint(q)
			for i := range pts {
				if pts[i] != before[i] {
					t += " and the line it was given was changed"
				}
			}
			return t
		}
	case opSave:
		err := SaveSTL(op.S, m)
		t := fmt.Sprint(err, " ", readFile(op.S))
		r.again = func() string { return t }
		r.err = err != nil
	case opShift:
		m.Shift(dir)
		r.again = func() string { return meshText(m) }
		r.meshes = []*Mesh{m}
	case opParse:
		p := vip.ParsePlane(op.S)
		r.again = func() string { return p.String() }
	default:
		t := "unknown operation " + op.Kind
		r.again = func() string { return t }
	}
	r.text += r.again()
	return r
}

// vary gives a call settings of its own.
func vary(s slicers.Settings, seed int) slicers.Settings {
	r := core.NewRng(uint64(seed))
	g := *s.GcodeSettings
	s.GcodeSettings = &g
	if r.P(50) {
		s.LayerHeight *= r.Fr(.8, 1.6)
		g.LayerHeight = s.LayerHeight
	}
	if r.P(40) {
		g.LineWidth *= r.Fr(.8, 1.5)
	}
	if r.P(50) {
		s.WallThickness = g.LineWidth * (float64(r.In(0, 3)) + .5)
	}
	if r.P(40) {
		s.FillDensity = r.In(6, 60)
		if r.P(25) {
			s.FillDensity = core.Pick(r, r.In(61, 100), 100, 101, 150, 200, r.N(6))
		}
	}
	if r.P(40) {
		s.FillingType = core.Pick(r, "Lines", "Squares", "Triangles")
	}
	if r.P(50) {
		s.TopLayers, s.BottomLayers, s.SkirtLineCount = r.N(4), r.N(4), r.N(4)
	}
	if r.P(50) {
		s.Epsilon = r.Fr(.01, 5)
	}
	if r.P(50) {
		g.FanOffLayer1 = !g.FanOffLayer1
	}
	if r.P(50) {
		g.Retraction, g.RetractionSpeed, g.RetractionDistance = !g.Retraction, r.In(200, 3000), r.Fr(.1, 6)
	}
	if r.P(40) {
		g.PrintSpeed, g.PrintSpeedLayer1, g.PrintSpeedWall = r.In(300, 7200), r.In(300, 7200), r.In(300, 7200)
	}
	if r.P(30) {
		g.BarDiameter = core.Pick(r, 1.75, 2.85, 3)
	}
	if r.P(25) {
		s.SupportsOn, s.SupportOffset, s.ColorizedAngle = !s.SupportsOn, core.Pick(r, 0, .5), r.Fr(0, 90)
	}
	if r.P(25) {
		s.RotationCenter = Point{X: r.Fr(-5, 5), Y: r.Fr(-5, 5), Z: r.Fr(-5, 5)}
	}
	return s
}

// genOp draws an operation. files are models it may load, planes planes files.
func genOp(r *core.Rng, heavy bool, size float64, files, planes []string, out string) core.Op {
	op := core.Op{A: r.N(8)}
	d := genDir(r)
	z := r.Fr(-.6, .6) * size
	kinds := []string{opLoad, opCopy, opMeasure, opSlice, opSlice, opCut, opCut, opRotate, opColor, opFilter, opSave, opLine, opParse, opGcode}
	if out == "" {
		out = "out.stl"
	} else {
		kinds = append(kinds, opShift)
	}
	if heavy {
		kinds = append(kinds, opGcode, opPlanes, opProfile, opAnalyze, opSimplify, op5axes, opVip)
	}
	op.Kind = kinds[r.N(len(kinds))]
	switch op.Kind {
	case opSlice, opGcode, opPlanes, opVip, opProfile, op5axes:
		if r.P(30) {
			op.V = r.In(1, 1<<30)
		}
	}
	switch op.Kind {
	case opLoad:
		op.S = files[r.N(len(files))]
	case opSave:
		op.S = out
	case opMeasure, opSlice, opGcode, opShift:
		op.F = d[:]
	case opCut:
		op.F = []float64{d[0], d[1], d[2], r.Fr(-.3, .3) * size, r.Fr(-.3, .3) * size, z}
	case opRotate:
		op.F = []float64{r.Fr(-5, 5), r.Fr(-5, 5), r.Fr(-5, 5), core.Pick(r, 90, -60, 60, r.Fr(-360, 360))}
		op.B = r.N(2)
	case opColor, opFilter:
		op.F = []float64{d[0], d[1], d[2], core.Pick(r, 30, 45, 0, r.Fr(-10, 100))}
	case opAnalyze:
		op.F = []float64{0, 0, 1, core.Pick(r, 30, 45, r.Fr(10, 80))}
	case opSimplify:
		op.B = r.In(4, 60)
	case opLine:
		for i := r.In(2, 8); i > 0; i-- {
			op.F = append(op.F, r.Fr(-3, 3), r.Fr(-3, 3), float64(i))
		}
		op.B = r.N(20)
	case opPlanes, opParse:
		op.S = planeLine(r, size)
		if op.Kind == opPlanes && r.P(50) {
			op.S += "\n" + planeLine(r, size)
		}
	case opVip:
		op.S = planes[r.N(len(planes))]
	}
	return op
}

func planeLine(r *core.Rng, size float64) string {
	return fmt.Sprintf("X%.3f Y%.3f Z%.3f T%v R%d", r.Fr(-.1, .1)*size, r.Fr(-.1, .1)*size, r.Fr(-.4, .4)*size, r.P(50), r.In(0, 359))
}
