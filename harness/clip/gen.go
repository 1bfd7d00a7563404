package clip

import (
	"fmt"
	"math"
	"strings"

	"simmod/harness/core"
)

func setOpt(c *core.Case, k, v string) {
	if c.Opts == nil {
		c.Opts = map[string]string{}
	}
	c.Opts[k] = v
}

func setText(c *core.Case, k, v string) {
	if c.Texts == nil {
		c.Texts = map[string]string{}
	}
	c.Texts[k] = v
}

// unitVec draws a direction; often an axis.
func unitVec(r *core.Rng) core.V3 {
	if r.P(30) {
		return core.Pick(r, core.V3{0, 0, 1}, core.V3{0, 0, -1}, core.V3{1, 0, 0}, core.V3{0, -1, 0}, core.V3{0, 1, 0})
	}
	for {
		v := core.V3{r.Fr(-1, 1), r.Fr(-1, 1), r.Fr(-1, 1)}
		if l := v.Len(); l > 0.2 && l < 1 {
			v = v.Norm()
			return core.V3{math.Round(v[0]*1e4) / 1e4, math.Round(v[1]*1e4) / 1e4, math.Round(v[2]*1e4) / 1e4}
		}
	}
}

// SliceOpt steers GenSlice.
type SliceOpt struct {
	Types     []string // slicing types to draw from
	Planes    int      // percentage of vip jobs with a planes file
	MaxLayers int
	MaxSeg    int
	Debug     int // percentage with debug tracing on
	Supports  int
	Retract   int
}

// bigger makes one job in fifty much larger than the others.
func bigger(r *core.Rng, seg int) int {
	if r.N(50) == 0 {
		return r.In(2*seg, 6*seg)
	}
	return seg
}

// GenSlice draws a slicing job.
func GenSlice(r *core.Rng, o SliceOpt) *core.Case {
	c := &core.Case{Tool: "goosli", Format: core.Pick(r, "bin", "bin", "bin", "ascii")}
	if len(o.Types) == 0 {
		o.Types = []string{"vip", "vip", "vip", "vip", "3axes", "3axes", "5axes_by_profile", "5axes", "5axes"}
	}
	if o.MaxLayers == 0 {
		o.MaxLayers = 16
	}
	if o.MaxSeg == 0 {
		o.MaxSeg = 10
	}
	if r.N(40) == 0 {
		o.MaxLayers = r.In(o.MaxLayers, 12*o.MaxLayers)
	} else {
		o.MaxSeg = bigger(r, o.MaxSeg)
	}
	st := o.Types[r.N(len(o.Types))]
	if st != "vip" || r.P(50) {
		setOpt(c, "slicing_type", st)
	}
	size := r.Fr(4, 12)
	planes := st == "vip" && r.P(o.Planes)
	switch {
	case st == "vip" && !planes && r.P(75):
		// one shape that selects a strategy
		k := core.Pick(r, "bridge", "flare", "hang", "hang", "mushroom", "box", "flare", "bridge")
		s := core.Shape{Kind: k, N: r.In(4, 9), Q: r.Fr(0.35, 0.65), S: core.V3{size * r.Fr(.8, 1.2), size * r.Fr(.8, 1.2), size * r.Fr(.8, 1.4)}}
		if k == "flare" {
			s.N = r.In(15, 18)
			s.S[1] = s.S[0]
		}
		if r.P(50) {
			s.P = core.V3{r.Fr(-3, 3), r.Fr(-3, 3), 0}
		}
		if r.P(30) {
			s.Shuf = r.U() | 1
		}
		c.Mesh = []core.Shape{s}
		if r.P(15) { // another body above it, with or without layers between them that hold nothing
			if r.P(30) {
				s.Kind = core.Pick(r, "bridge", "hang", "mushroom", "box")
				s.N = r.In(4, 9)
			}
			_, hi := core.Bounds(core.Mesh(c.Mesh))
			low, _ := core.Bounds(core.Mesh([]core.Shape{s}))
			s.P[2] += hi[2] - low[2] + core.Pick(r, r.Fr(.001, .2), r.Fr(.2, 6))
			c.Mesh = append(c.Mesh, s)
		}
	default:
		c.Mesh = core.GenMesh(r, core.GenOpt{MaxShapes: 3, MaxSeg: o.MaxSeg, Size: size, Upright: 75})
	}
	ts := core.Mesh(c.Mesh)
	lo, hi := core.Bounds(ts)
	if r.P(25) {
		setOpt(c, "originx", num(r.Fr(-20, 20)))
		setOpt(c, "originy", num(r.Fr(-20, 20)))
		setOpt(c, "originz", num(r.Fr(-5, 5)))
	}
	h := (hi[2] - lo[2]) / (float64(r.In(2, o.MaxLayers)) - r.Fr(0.05, 0.95))
	h = math.Ceil(h*1e4) / 1e4
	setOpt(c, "layer_height", num(h))
	lw := r.Fr(0.3, 0.8)
	setOpt(c, "line_width", fmt.Sprintf("%.3f", lw))
	if r.P(60) {
		setOpt(c, "wall_thickness", fmt.Sprintf("%.3f", lw*(float64(r.In(0, 3))+0.5)))
	}
	if r.P(60) {
		d := r.In(6, 60)
		switch { // nearly or quite solid, or next to nothing
		case d > 55:
			d = r.In(61, 100)
		case d == 55:
			d = core.Pick(r, 100, 100, 120, 200)
		case d == 54:
			d = r.N(6)
		}
		setOpt(c, "fill_density", fmt.Sprint(d))
	}
	if r.P(50) {
		setOpt(c, "filling_type", core.Pick(r, "Lines", "Squares", "Triangles"))
	}
	if r.P(40) {
		setOpt(c, "top_layers", fmt.Sprint(r.N(4)))
		setOpt(c, "bottom_layers", fmt.Sprint(r.N(4)))
	}
	if r.P(40) {
		setOpt(c, "bed_temperature", fmt.Sprint(r.In(0, 120)))
		setOpt(c, "extruder_temperature", fmt.Sprint(r.In(150, 280)))
	}
	if r.P(60) {
		setOpt(c, "print_speed", fmt.Sprint(r.In(5, 120)))
		if r.P(70) {
			setOpt(c, "print_speed_layer1", fmt.Sprint(r.In(5, 120)))
		}
		if r.P(70) {
			setOpt(c, "print_speed_wall", fmt.Sprint(r.In(5, 120)))
		}
	}
	if r.P(30) {
		setOpt(c, "fan_off_layer1", "")
	}
	if o.Retract == 0 {
		o.Retract = 25
	}
	if r.P(o.Retract) {
		setOpt(c, "retraction_on", "")
		setOpt(c, "retraction_speed", fmt.Sprint(r.In(200, 3000)))
		setOpt(c, "retraction_distance", fmt.Sprintf("%.2f", r.Fr(0.1, 6)))
		if r.P(15) { // nothing is pulled back unless told how far
			delete(c.Opts, "retraction_distance")
		}
	}
	if r.P(30) {
		setOpt(c, "bar_diameter", core.Pick(r, "1.75", "2.85", "3"))
	}
	if r.P(30) {
		setOpt(c, "skirt_line_count", fmt.Sprint(r.N(5)))
	}
	if r.P(30) {
		setOpt(c, "epsilon", num(r.Fr(0.01, 5)))
	}
	if r.P(o.Supports) {
		setOpt(c, "supports_on", "")
		if r.P(50) {
			setOpt(c, "support_offset", num(r.Fr(0, 1)))
		}
	}
	if r.P(20) {
		setOpt(c, "rotcx", num(r.Fr(-5, 5)))
		setOpt(c, "rotcz", num(r.Fr(-5, 5)))
	}
	name := "planes_file.txt"
	if r.P(30) {
		name = "my_planes.txt"
		setOpt(c, "planes_file", name)
	}
	if planes {
		c.Lines = GenPlanes(r, ts, c, r.In(1, 4))
		t := strings.Join(c.Lines, "\n")
		if r.P(60) {
			t += "\n"
		}
		c.Lines = nil
		setText(c, name, t)
	} else if r.P(20) {
		setText(c, name, "")
	}
	if r.P(o.Debug) {
		setText(c, "data/config.yaml", "debug: true\ndebug_file: "+core.Pick(r, "/dbg/debug.txt", "trace.txt")+"\n")
	}
	if r.P(30) {
		setOpt(c, "gcode", core.Pick(r, "result.gcode", "/work/job.gcode", "./sub.gcode"))
	}
	return c
}

// GenPlanes draws planes file lines for a mesh (in the shifted position).
func GenPlanes(r *core.Rng, ts []core.Tri, c *core.Case, n int) []string {
	lo, hi := core.Bounds(ts)
	var off core.V3
	for i, k := range []string{"originx", "originy", "originz"} {
		if s, ok := c.Opts[k]; ok {
			fmt.Sscan(s, &off[i])
		}
	}
	var ls []string
	var last core.V3
	for i := 0; i < n; i++ {
		f := (float64(i) + r.Fr(0.6, 1.4)) / float64(n+1)
		p := core.V3{lo[0] + (hi[0]-lo[0])*r.Fr(.2, .8), lo[1] + (hi[1]-lo[1])*r.Fr(.2, .8), lo[2] + (hi[2]-lo[2])*f}.Add(off)
		if i > 0 && r.P(12) { // through the same point as the one before
			p = last
		}
		last = p
		sep := core.Pick(r, " ", " ", " ", "  ", "\t")
		ls = append(ls, fmt.Sprintf("X%.3f%sY%.3f%sZ%.3f%sT%s%sR%.3f", p[0], sep, p[1], sep, p[2], sep, core.Pick(r, "true", "false"), sep, core.Pick(r, 0, 90, -90, 180, 45*float64(r.In(-8, 8)), r.Fr(-180, 180), r.Fr(-180, 180), r.Fr(-180, 180))))
	}
	return ls
}

// GenCut draws a cutter job.
func GenCut(r *core.Rng, seg int) *core.Case {
	c := &core.Case{Tool: "goosli_cutter", Format: core.Pick(r, "bin", "bin", "ascii")}
	c.Mesh = core.GenMesh(r, core.GenOpt{MaxShapes: 4, MaxSeg: bigger(r, seg), Size: r.Fr(2, 60), Upright: 50})
	ts := core.Mesh(c.Mesh)
	lo, hi := core.Bounds(ts)
	n := unitVec(r)
	var p core.V3
	for i := range p {
		p[i] = lo[i] + (hi[i]-lo[i])*r.Fr(-0.1, 1.1)
	}
	if r.P(60) {
		for i := range p {
			p[i] = lo[i] + (hi[i]-lo[i])*r.Fr(0.3, 0.7)
		}
	}
	if r.P(25) && len(ts) > 0 { // through a vertex
		p = ts[r.N(len(ts))][r.N(3)]
		if r.P(50) { // or close to it
			p = p.Add(n.Mul(core.Pick(r, -1, 1.0) * math.Pow(10, r.Fr(-5, -1))))
		}
	}
	setVec(c, "point", "xyz", p)
	setVec(c, "normal", "ijk", n)
	if r.P(30) {
		setOpt(c, "out1", "upper.stl")
		setOpt(c, "out2", core.Pick(r, "lower.stl", "/work/down.stl"))
	}
	return c
}

func setVec(c *core.Case, pre, axes string, v core.V3) {
	for i := range v {
		setOpt(c, pre+axes[i:i+1], ftoa(v[i]))
	}
}

func ftoa(f float64) string {
	s := fmt.Sprintf("%v", f)
	if strings.Contains(s, "e") {
		s = fmt.Sprintf("%.12f", f)
	}
	return s
}

// GenColor draws a colorizer job.
func GenColor(r *core.Rng, seg int) *core.Case {
	c := &core.Case{Tool: "goosli_colorizer", Format: core.Pick(r, "bin", "bin", "ascii")}
	c.Mesh = core.GenMesh(r, core.GenOpt{MaxShapes: 4, MaxSeg: bigger(r, seg), Size: r.Fr(2, 60), Upright: 40})
	if r.P(70) {
		setVec(c, "normal", "ijk", unitVec(r))
	}
	if r.P(80) {
		setOpt(c, "angle", ftoa(math.Round(r.Fr(0, 90)*100)/100))
	}
	if r.P(30) {
		setOpt(c, "out", "colors.bin")
	}
	return c
}

// GenSimp draws a simplifier job.
func GenSimp(r *core.Rng, seg int) *core.Case {
	c := &core.Case{Tool: "goosli_simplifier", Format: core.Pick(r, "bin", "bin", "ascii")}
	c.Mesh = core.GenMesh(r, core.GenOpt{MaxShapes: 3, MaxSeg: bigger(r, seg), Size: r.Fr(2, 60), Upright: 40, NoCavity: true})
	n := len(core.Mesh(c.Mesh))
	k := r.In(1, n+n/4+2)
	if r.P(10) {
		k = core.Pick(r, n, n-1, n+1)
	}
	if k < 1 {
		k = 1
	}
	setOpt(c, "triangles", fmt.Sprint(k))
	if r.P(30) {
		setOpt(c, "out", "small.stl")
	}
	return c
}

// GenAna draws an analyser job.
func GenAna(r *core.Rng, seg int) *core.Case {
	c := &core.Case{Tool: "goosli_analyzer", Format: core.Pick(r, "bin", "bin", "ascii")}
	c.Mesh = core.GenMesh(r, core.GenOpt{MaxShapes: 3, MaxSeg: bigger(r, seg), Size: r.Fr(4, 40), Upright: 60})
	if r.P(60) {
		setOpt(c, "angle", ftoa(math.Round(r.Fr(0, 80)*100)/100))
	}
	if r.P(40) {
		setOpt(c, "originz", num(r.Fr(-5, 20)))
		setOpt(c, "originx", num(r.Fr(-5, 20)))
	}
	if r.P(30) {
		setOpt(c, "out", "planes_found.txt")
	}
	return c
}

// GenTool draws a job of any tool.
func GenTool(r *core.Rng, tool string, o SliceOpt) *core.Case {
	seg := 8
	switch tool {
	case "goosli_cutter":
		return GenCut(r, seg)
	case "goosli_colorizer":
		return GenColor(r, seg)
	case "goosli_simplifier":
		return GenSimp(r, seg)
	case "goosli_analyzer":
		return GenAna(r, seg)
	}
	return GenSlice(r, o)
}

// job is the invocation the case describes.
func job(c *core.Case, wi int) Job {
	a := []string{"--stl=" + stlArg(c)}
	return Job{Tool: c.Tool, Args: append(a, flags(c.Opts)...), World: c.World(wi), FS: newDisk(c), Faults: c.Faults, ShortR: c.ShortR, ShortW: c.ShortW}
}

func stlArg(c *core.Case) string {
	if s, ok := c.Opts["stl"]; ok {
		return s
	}
	return "in.stl"
}
