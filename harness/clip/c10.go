package clip

import (
	"strings"

	"simmod/harness/core"
	"simmod/simrt"
)

// entry points whose start means that the result is not ready yet
var computing = map[string]bool{}

func init() {
	for _, n := range strings.Fields(`primitives.LoadSTL primitives.PrepareDataFile helpers.CutMesh helpers.SimplifyMesh
		helpers.ColorizeTriangles helpers.SimplifyLine helpers.FilterTrianglesByColor slicers.SliceByVector slicers.SliceByVectorToGcode
		slicers.SliceByProfile slicers.Slice5Axes slicers.FillLayers slicers.LayersToGcode slicers.CalcFillPlanes slicers.CalculateFails vip.Analyze
		vip.Slice vip.SliceBridge vip.SliceByPlanes vip.SliceDefault2 vip.SliceRotation vip.PrepareLayers vip.SkirtPathes vip.MakeOffset
		vip.ParsePlane goosli.CommandsWithTemplates`) {
		computing[n] = true
	}
}

func isInput(c *core.Case, p string) bool {
	return p == abs(stlArg(c)) || p == abs("data/header_template.txt") || p == abs("data/footer_template.txt") || p == planesPath(c)
}

func planesPath(c *core.Case) string {
	if c.Tool != "goosli" || slicingType(c) != "vip" {
		return ""
	}
	if n, ok := c.Opts["planes_file"]; ok {
		return abs(n)
	}
	return abs("planes_file.txt")
}

// ready is the step at which a fault-free run last read an input or started a
// computation.
func ready(c *core.Case, d *Res) int64 {
	var t int64
	for _, s := range d.P.Log {
		if s.Kind == "read" && isInput(c, s.Path) && s.Step > t {
			t = s.Step
		}
	}
	for _, e := range d.Ent {
		if computing[e.Name] && e.Step > t {
			t = e.Step
		}
	}
	return t
}

// C10: old outputs survive failures before the result is ready.
var C10 = &core.Prop{
	ID: "C10", Quick: 25000, Thorough: 200000, QuickS: 60, Level: "fault_enumeration",
	Rule:    "the run failed or was killed before its result was ready, or completed with its input as output",
	Measure: "(tool, case kind, failed call or phase of the kill, exit status)",
	Real:    realAll, Stub: stubAll,
	Gen: func(r *core.Rng, i int) *core.Case {
		tool := tools[r.N(len(tools))]
		if r.P(25) {
			tool = "goosli"
		}
		c := GenTool(r, tool, SliceOpt{Planes: 50, MaxLayers: 6, MaxSeg: 6, Supports: 20})
		if r.P(60) {
			c.Worlds = []simrt.Config{core.BaseSched()}
		} else {
			c.Worlds = []simrt.Config{core.GenSched(r, 8)}
		}
		c.Set("oldsize", int64(r.N(50)))
		if r.P(30) {
			c.ShortR = r.In(5, 100)
		}
		input := func(s simrt.SysRec) bool {
			return isInput(c, s.Path) && s.Err == "" && (s.Kind == "open" || s.Kind == "read" || s.Kind == "fstat" || s.Kind == "stat" || s.Kind == "seek")
		}
		switch k := r.N(20); {
		case k < 6:
			c.Kind = "input-fault"
			d := dry(c)
			if s, ok := pickSys(r, d.P.Log, input); ok {
				f := mkFault(r, s)
				if s.Kind == "read" && r.P(30) {
					f.Action, f.Errno, f.Arg = "trunc", "", int64(r.N(200))
				}
				c.Faults = append(c.Faults, f)
			}
		case k < 11:
			c.Kind = "kill"
			if t := ready(c, dry(c)); t > 0 {
				s := 1 + int64(r.U()%uint64(t))
				if r.P(40) { // close to the end of the computation
					if s = t - int64(r.LogN(1, 2000)); s < 1 {
						s = 1
					}
				}
				c.Worlds[0].CrashStep = s
			}
		case k < 13:
			c.Kind = "bad-model"
			switch r.N(4) {
			case 0:
				setText(c, "bad.stl", "solid x\nfacet normal 0 0 1\nouter loop\nvertex 1 2 3\n"+strings.Repeat("vertex 0 0 z\n", 20))
			case 1:
				setText(c, "bad.stl", strings.Repeat("\x00", 80)+"\xff\xff\x00\x00"+strings.Repeat("x", r.N(300)))
			case 2:
				setText(c, "bad.stl", "tiny")
			case 3:
				setText(c, "bad.stl", string(model(c))+"trailing bytes")
			}
			setOpt(c, "stl", "bad.stl")
		case k < 15:
			c.Kind = "bad-option"
			badOption(r, c)
		case k < 16 && c.Tool == "goosli":
			c.Kind = "bad-aux"
			switch r.N(3) {
			case 0:
				setText(c, core.Pick(r, "data/header_template.txt", "data/footer_template.txt"), "\x00absent")
			case 1:
				delete(c.Opts, "slicing_type")
				setOpt(c, "planes_file", core.Pick(r, "data", "pl.txt"))
				setText(c, "pl.txt", core.Pick(r, "X1 Y2\n", "hello\n\n", strings.Repeat("X1 ", 30000)+"\n", "X1 Y1 Z5 Ttrue Rfoo\n"))
			case 2:
				setText(c, "data/config.yaml", "debug: [\n")
			}
		default:
			c.Kind = "same-file"
			in := "in.stl"
			if c.Tool == "goosli" && r.P(40) {
				in = core.Pick(r, "data/header_template.txt", "data/footer_template.txt")
				if p := planesPath(c); p != "" && r.P(60) {
					in = p
				}
			}
			c.Set("in", int64(len(in)))
			o := outs[c.Tool][r.N(len(outs[c.Tool]))]
			setText(c, "same", in)
			setOpt(c, o[0], core.Pick(r, "", "./", "data/../")+in)
			if strings.HasPrefix(in, "/") {
				setOpt(c, o[0], in)
			}
		}
		return c
	},
	Run: func(c *core.Case, x *core.Ctx) {
		if c.Kind == "same-file" {
			runSame(c, x)
			return
		}
		j := job(c, 0)
		oldFiles(c, j.FS)
		if c.Int("nostl") == 1 {
			j.Args = j.Args[1:]
		}
		j.World.MaxSteps = maxSteps
		before := snapshot(j.FS)
		r := run(x, 0, j)
		if r.Out.Kind == "steps" {
			x.Probe("too long")
			return
		}
		what := ""
		for _, s := range r.P.Log {
			if s.Fault != "" {
				what += " [" + s.Fault + "]"
			}
		}
		isOut := map[string]bool{}
		for _, f := range outFiles(c) {
			isOut[f] = true
		}
		// nothing is replaced while the result is still being computed
		if early(c, x, r, isOut) {
			return
		}
		if r.Code == 0 {
			x.Probe("no failure")
			return
		}
		x.Nontriv = true
		ph := ""
		if n := len(r.Ent); n > 0 {
			ph = r.Ent[n-1].Name
		}
		x.State(c.Tool, c.Kind, r.Code, what, ph)
		x.Probe("kind " + c.Kind)
		after := snapshot(r.P.FS)
		for _, f := range outFiles(c) {
			b, ok := before[f]
			a, ok2 := after[f]
			if ok != ok2 || a != b {
				if c.Kind == "kill" {
					// did the kill come before the result was ready? The same
					// execution without the kill tells
					j.FS = job(c, 0).FS
					oldFiles(c, j.FS)
					j.World.CrashStep = 0
					if full := run(x, 1, j); !early(c, x, full, isOut) {
						x.Probe("killed after the result was ready")
					}
					return
				}
				x.Fail("old-output-lost", "%s failed (exit %d, %s%s) before its result was ready, but %s no longer holds its old content (%d bytes, now %d, exists %v)", c.Tool, r.Code, c.Kind, what, f, len(b), len(a), ok2)
				return
			}
		}
	},
}

// early reports that an output was touched before the result was ready.
func early(c *core.Case, x *core.Ctx, r *Res, isOut map[string]bool) bool {
	for i, m := range r.P.Muts {
		if !isOut[m.Path] {
			continue
		}
		for _, e := range r.Ent {
			if computing[e.Name] && e.Muts > i {
				x.Fail("early-replace", "%s touches its output %s (%s) before the result is computed: %s starts afterwards", c.Tool, m.Path, m.Kind, e.Name)
				return true
			}
		}
		for _, s := range r.P.Log {
			if s.N > m.Sys && isInput(c, s.Path) && !isOut[s.Path] && (s.Kind == "open" || s.Kind == "read") {
				x.Fail("early-replace", "%s touches its output %s (%s) before it has read %s", c.Tool, m.Path, m.Kind, s.Path)
				return true
			}
		}
		return false
	}
	return false
}

// runSame compares a run whose output is its input with one that has a
// separate output file.
func runSame(c *core.Case, x *core.Ctx) {
	in := abs(c.Texts["same"])
	name := ""
	d := c.Clone()
	for _, o := range outs[c.Tool] {
		if abs(d.Opts[o[0]]) == in && d.Opts[o[0]] != "" {
			setOpt(d, o[0], "separate.out")
			name = o[0]
		}
	}
	if name == "" {
		return
	}
	ja, jb := job(d, 0), job(c, 0)
	ja.World.MaxSteps, jb.World.MaxSteps = maxSteps, maxSteps
	a := run(x, 0, ja)
	b := run(x, 1, jb)
	if !a.ended() || !b.ended() {
		x.Probe("too long")
		return
	}
	x.Nontriv = true
	x.State(c.Tool, "same", name, in == abs("in.stl"), a.Code)
	if a.Code != b.Code {
		x.Fail("same-file", "%s exits %d with a separate output and %d with --%s naming its input %s: %s", c.Tool, a.Code, b.Code, name, in, tailOf(b.P.Stderr))
		return
	}
	if a.Code != 0 {
		return
	}
	fa, fb := outFiles(d), outFiles(c)
	for i := range fa {
		p, _ := a.file(fa[i])
		q, _ := b.file(fb[i])
		sp, sq := string(p), string(q)
		if c.Tool == "goosli" {
			sp, sq = stripTime(p), stripTime(q)
		}
		if sp != sq {
			x.Fail("same-file", "%s with --%s naming its input %s writes another result than with a separate file: %s", c.Tool, name, in, diffAt(sp, sq))
			return
		}
	}
}
