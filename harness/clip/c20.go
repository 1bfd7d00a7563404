package clip

import (
	"fmt"
	"strings"

	"simmod/harness/core"
	"simmod/simrt"
)

// dying adds a kill or a failure to the case: in world wi by step, otherwise as
// a fault. end biases the point towards the writing of the results.
func dying(r *core.Rng, c *core.Case, wi int, d *Res, end bool) {
	w := written(d.P)
	isOut := map[string]bool{}
	for _, f := range outFiles(c) {
		isOut[f] = true
	}
	onOut := func(s simrt.SysRec) bool { return isOut[s.Path] && w[s.Path] && s.Err == "" }
	any := func(s simrt.SysRec) bool { return s.Err == "" && !optional(c, s.Path) }
	ok := any
	if end {
		ok = onOut
	}
	var first int64
	for _, s := range d.P.Log {
		if onOut(s) {
			first = s.Step
			break
		}
	}
	switch r.N(6) {
	case 0:
		lo := int64(0)
		if end && first > 0 {
			lo = first - 1
		}
		c.Worlds[wi].CrashStep = lo + 1 + int64(r.U()%uint64(d.Out.Steps-lo+1))
	case 1, 2:
		if s, ok := pickSys(r, d.P.Log, ok); ok {
			f := simrt.Fault{Kind: s.Kind, Path: s.Path, Occ: s.Occ, Action: core.Pick(r, "crash-before", "crash-after", "crash-mid")}
			if f.Action == "crash-mid" && s.Arg > 1 {
				f.Arg = int64(r.N(int(s.Arg)))
			}
			c.Faults = append(c.Faults, f)
		}
	case 3:
		n := 0
		for _, f := range outFiles(c) {
			b, _ := d.file(f)
			n += len(b)
		}
		c.Set("full", 1+int64(r.N(n+n/8+2)))
	default:
		if s, ok := pickSys(r, d.P.Log, ok); ok {
			c.Faults = append(c.Faults, mkFault(r, s))
		}
	}
}

// C20: a torn model is not taken for a whole one.
var C20 = &core.Prop{
	ID: "C20", Quick: 25000, Thorough: 200000, QuickS: 80, Level: "fault_enumeration",
	Rule:    "the first run died or failed and left a model file that is neither whole nor the old one",
	Measure: "(writer, case kind, reader, exit statuses, length class of the file left)",
	Real:    realAll, Stub: stubAll,
	Gen: func(r *core.Rng, i int) *core.Case {
		var c *core.Case
		if r.P(60) {
			c = GenCut(r, 8)
		} else {
			c = GenSimp(r, 8)
		}
		c.Kind = "hand-over"
		if r.P(60) {
			c.Worlds = []simrt.Config{core.BaseSched()}
		} else {
			c.Worlds = []simrt.Config{core.GenSched(r, 8)}
		}
		if r.P(40) {
			c.ShortW = r.In(5, 100)
		}
		c.Set("reader", int64(r.N(10)))
		c.Set("old", int64(r.N(4)))
		dying(r, c, 0, dry(c), r.P(85))
		return c
	},
	Run: func(c *core.Case, x *core.Ctx) {
		put := func(fs *simrt.FS) {
			var b []byte
			switch c.Int("old") {
			case 1: // smaller than nearly every result
				b = core.STL(core.Mesh([]core.Shape{{Kind: "box", S: core.V3{2, 3, 4}}}), "bin", 1)
			case 2:
				b = core.STL(core.Mesh([]core.Shape{{Kind: "torus", N: 12, S: core.V3{20, 20, 9}}}), "bin", 1)
			case 3:
				b = []byte("old\n")
			default:
				return
			}
			for _, f := range outFiles(c) {
				fs.Put(f, b)
			}
		}
		rj := job(c, 0)
		rj.Faults, rj.ShortW, rj.World.CrashStep = nil, 0, 0
		rj.World.MaxSteps = maxSteps
		put(rj.FS)
		old := snapshot(rj.FS)
		ref := run(x, 0, rj)
		if !ref.ended() {
			x.Probe("too long")
			return
		}
		j := job(c, 0)
		j.World.MaxSteps = maxSteps
		put(j.FS)
		if n := c.Int("full"); n > 0 {
			j.FS.Free = n - 1
		}
		r := run(x, 1, j)
		if r.Out.Kind == "steps" {
			x.Probe("too long")
			return
		}
		if r.Code == 0 || ref.Code != 0 {
			x.Probe("no failure")
			return
		}
		r.P.FS.Free = -1
		for k, f := range outFiles(c) {
			b, ok := r.file(f)
			want, _ := ref.file(f)
			if o, had := old[f]; !ok || string(b) == string(want) || had && o == string(b) {
				continue
			}
			x.Nontriv = true
			n := "torn"
			switch {
			case len(b) == 0:
				n = "empty"
			case len(b) < 84:
				n = "part of header"
			case len(b) == 84:
				n = "header only"
			case (len(b)-84)%50 == 0:
				n = "whole triangles"
			}
			d := &core.Case{Format: "bin", Opts: map[string]string{"stl": f}}
			d.Tool = tools[c.Int("reader")%int64(len(tools))]
			switch d.Tool {
			case "goosli":
				d.Opts["slicing_type"] = "3axes"
				d.Opts["layer_height"] = "4"
				d.Opts["gcode"] = "second.gcode"
			case "goosli_cutter":
				d.Opts["out1"], d.Opts["out2"] = "second1.stl", "second2.stl"
			case "goosli_simplifier":
				d.Opts["out"], d.Opts["triangles"] = "second.stl", "100000"
			default:
				d.Opts["out"] = "second.out"
			}
			d.Worlds = []simrt.Config{core.BaseSched()}
			a := flags(d.Opts)
			j2 := Job{Tool: d.Tool, Args: a, World: d.World(0), FS: r.P.FS}
			j2.World.MaxSteps = maxSteps
			q := run(x, 2+k, j2)
			x.State(c.Tool, c.Kind, d.Tool, r.Code, q.Code, n)
			x.Probe("left " + n)
			if q.Code == 0 {
				x.Fail("torn-accepted", "%s ended with status %d and left %s with %d of %d bytes (%s); %s then took it for a whole model and ended with status 0", c.Tool, r.Code, f, len(b), len(want), n, d.Tool)
				return
			}
		}
	},
}

// C21: a run after dead ones gives what a first run gives.
var C21 = &core.Prop{
	ID: "C21", Quick: 25000, Thorough: 200000, QuickS: 80, Level: "fault_enumeration",
	Rule:    "at least one earlier run died or failed and the last one ended",
	Measure: "(tool, how the earlier runs ended, exit status, files they left)",
	Real:    realAll, Stub: stubAll,
	Gen: func(r *core.Rng, i int) *core.Case {
		tool := tools[r.N(len(tools))]
		if r.P(20) {
			tool = "goosli"
		}
		c := GenTool(r, tool, SliceOpt{Planes: 50, MaxLayers: 6, MaxSeg: 6, Supports: 20})
		genConfig(r, c)
		c.Kind = "rerun"
		if r.P(60) {
			c.Worlds = []simrt.Config{core.BaseSched()}
		} else {
			c.Worlds = []simrt.Config{core.GenSched(r, 8)}
		}
		c.Set("oldsize", int64(r.N(50)))
		if r.P(40) {
			c.Set("noold", 1)
		}
		n := 1 + r.N(3)
		d := dry(c)
		for k := 1; k <= n; k++ {
			w := c.Worlds[0]
			if r.P(50) {
				w = core.GenSched(r, 8)
			}
			c.Worlds = append(c.Worlds, w)
			if k > 1 {
				if r.P(70) {
					c.Worlds[k].CrashStep = 1 + int64(r.U()%uint64(d.Out.Steps+1))
				}
				continue
			}
			dying(r, c, k, d, r.P(60))
		}
		if r.P(40) { // the earlier runs had another model, often with a larger result
			c.Set("other", int64(r.In(1, 3)))
		}
		return c
	},
	Run: func(c *core.Case, x *core.Ctx) {
		prep := func(wi int) Job {
			j := job(c, wi)
			j.Faults, j.ShortR, j.ShortW = nil, 0, 0
			j.World.MaxSteps = maxSteps
			oldFiles(c, j.FS)
			return j
		}
		rj := prep(0)
		ref := run(x, 0, rj)
		if !ref.ended() {
			x.Probe("too long")
			return
		}
		last := prep(0)
		fs := last.FS
		inputs := map[string][]byte{}
		in := abs(stlArg(c))
		if b, ok := fs.Get(in); ok {
			inputs[in] = b
		}
		if o := c.Int("other"); o > 0 {
			fs.Put(in, core.STL(core.Mesh([]core.Shape{{Kind: "torus", N: int(3 + 5*o), S: core.V3{9, 9, 3}}}), "bin", 1))
		}
		hist := ""
		for k := 1; k < len(c.Worlds); k++ {
			j := prep(k)
			j.FS = fs
			if k == 1 {
				j.Faults = c.Faults
				if n := c.Int("full"); n > 0 {
					fs.Free = n - 1
				}
			}
			r := run(x, k, j)
			fs = r.P.FS
			fs.Free = -1
			if r.Out.Kind == "steps" {
				x.Probe("too long")
				return
			}
			hist += fmt.Sprintf(" %d", r.Code)
			if r.Code != 0 {
				x.Nontriv = true
			}
		}
		for f, b := range inputs {
			fs.Put(f, b)
		}
		last.FS = fs
		r := run(x, len(c.Worlds), last)
		if !r.ended() {
			x.Fail("rerun-differs", "%s after runs that ended with%s does not end within %d steps; alone it takes %d", c.Tool, hist, maxSteps, ref.Out.Steps)
			return
		}
		x.State(c.Tool, hist, r.Code, len(fs.List()))
		if r.Code != ref.Code {
			x.Fail("rerun-differs", "%s ends with status %d on a fresh disk and %d after runs that ended with%s: %s", c.Tool, ref.Code, r.Code, hist, tailOf(r.P.Stderr))
			return
		}
		for _, f := range append(outFiles(c), traceFile(c)...) {
			a, ok1 := ref.file(f)
			b, ok2 := r.file(f)
			sa, sb := string(a), string(b)
			if c.Tool == "goosli" {
				sa, sb = stripTime(a), stripTime(b)
			}
			if r.Code == 0 && (ok1 != ok2 || sa != sb) {
				x.Fail("rerun-differs", "%s writes %s differently on a fresh disk and after runs that ended with%s: %s", c.Tool, f, hist, diffAt(sa, sb))
				return
			}
		}
	},
}

// traceFile is the file the configuration asks for, if it turns tracing on.
func traceFile(c *core.Case) []string {
	s := c.Texts["data/config.yaml"]
	if !strings.HasPrefix(s, "debug: true\ndebug_file: ") {
		return nil
	}
	return []string{abs(strings.TrimSpace(strings.TrimPrefix(s, "debug: true\ndebug_file: ")))}
}
