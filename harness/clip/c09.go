package clip

import (
	"fmt"
	"strings"

	"simmod/harness/core"
	"simmod/simrt"
)

// oldFiles puts files of earlier runs and bystanders on the disk.
func oldFiles(c *core.Case, fs *simrt.FS) {
	if _, ok := fs.Get("/dbg/debug.txt"); !ok {
		fs.Put("/dbg/debug.txt", []byte("line Red 0 0 0 1 1 1\n"))
	}
	for _, t := range tools {
		for _, o := range outs[t] {
			if _, ok := fs.Get(abs(o[1])); !ok {
				fs.Put(abs(o[1]), []byte("old "+o[1]+"\n"))
			}
		}
	}
	for _, f := range outFiles(c) {
		if _, ok := fs.Get(f); !ok && !fs.IsDir(f) && c.Int("noold") == 0 {
			fs.Put(f, []byte(strings.Repeat("old content of "+f+"\n", int(1+c.Int("oldsize")))))
		}
	}
	for _, f := range []string{"notes.txt", "in.stl.bak", "data/other_template.txt", "out.stl~", "/tmp/x"} {
		fs.Put(abs(f), []byte("bystander "+f))
	}
	if n, ok := c.Opts["planes_file"]; ok && n != "planes_file.txt" {
		fs.Put(abs("planes_file.txt"), []byte("X1 Y2 Z3 Tfalse R45\n"))
	}
}

// configs draws a configuration file.
func genConfig(r *core.Rng, c *core.Case) {
	switch r.N(8) {
	case 0:
		setText(c, "data/config.yaml", "\x00absent")
	case 1:
		setText(c, "data/config.yaml", "debug: false\ndebug_file: trace.txt\n")
	case 2, 3:
		setText(c, "data/config.yaml", "debug: true\ndebug_file: /dbg/debug.txt\n")
	case 4:
		setText(c, "data/config.yaml", "debug: true\ndebug_file: trace.txt\n")
	case 5:
		setText(c, "data/config.yaml", "debug_file: notes.txt\n")
	case 6:
		setText(c, "data/config.yaml", core.Pick(r, "debug: [\n", "", "debug: maybe\ndebug_file: notes.txt\n", "debug: no\ndebug_file: in.stl\n"))
	}
}

// badOption breaks the command line.
func badOption(r *core.Rng, c *core.Case) {
	switch r.N(6) {
	case 0:
		setOpt(c, "no_such_option", "1")
	case 1:
		switch c.Tool {
		case "goosli":
			setOpt(c, core.Pick(r, "layer_height", "fill_density", "originx", "print_speed"), core.Pick(r, "abc", "1,5", "--", "1e"))
		case "goosli_cutter":
			setOpt(c, core.Pick(r, "pointx", "normalk"), "up")
		case "goosli_simplifier":
			setOpt(c, "triangles", core.Pick(r, "many", "1.5"))
		default:
			setOpt(c, "angle", "steep")
		}
	case 2:
		setOpt(c, "stl", "missing.stl")
	case 3:
		setOpt(c, "stl", "notes.txt") // not a model
	case 4:
		if c.Tool == "goosli" {
			setOpt(c, "slicing_type", "7axes")
		} else {
			setOpt(c, "stl", "data")
		}
	case 5:
		c.Set("nostl", 1)
	}
}

// genFaulty adds a fault, a kill or a bad option to a job.
func genFaulty(r *core.Rng, c *core.Case) {
	switch k := r.N(20); {
	case k < 4:
		c.Kind = "fault-free"
	case k < 9:
		c.Kind = "fault"
		d := dry(c)
		for n := 1 + r.N(2); n > 0; n-- {
			if s, ok := pickSys(r, d.P.Log, func(s simrt.SysRec) bool { return s.Err == "" }); ok {
				c.Faults = append(c.Faults, mkFault(r, s))
			}
		}
	case k < 12:
		c.Kind = "kill-sys"
		d := dry(c)
		if s, ok := pickSys(r, d.P.Log, nil); ok {
			f := simrt.Fault{Kind: s.Kind, Path: s.Path, Occ: s.Occ, Action: core.Pick(r, "crash-before", "crash-after", "crash-mid")}
			if f.Action == "crash-mid" && s.Arg > 1 {
				f.Arg = int64(r.N(int(s.Arg)))
			}
			c.Faults = append(c.Faults, f)
		}
	case k < 16:
		c.Kind = "kill-step"
		d := dry(c)
		c.Worlds[0].CrashStep = 1 + int64(r.U()%uint64(d.Out.Steps+1))
	case k < 18:
		c.Kind = "bad-option"
		badOption(r, c)
	default:
		c.Kind = "short-transfers"
		c.ShortR, c.ShortW = r.In(5, 100), r.In(5, 100)
	}
}

// C09: only the named files change.
var C09 = &core.Prop{
	ID: "C09", Quick: 25000, Thorough: 200000, QuickS: 60, Level: "fault_enumeration",
	Rule:    "the process made at least one change to the disk, or ended early by a fault, a kill or a bad option",
	Measure: "(tool, case kind, exit status, set of changed files, configuration)",
	Real:    realAll, Stub: stubAll,
	Gen: func(r *core.Rng, i int) *core.Case {
		tool := tools[r.N(len(tools))]
		if r.P(25) {
			tool = "goosli"
		}
		c := GenTool(r, tool, SliceOpt{Planes: 50, MaxLayers: 6, MaxSeg: 6, Supports: 20})
		genConfig(r, c)
		if r.P(60) {
			c.Worlds = []simrt.Config{core.BaseSched()}
		} else {
			c.Worlds = []simrt.Config{core.GenSched(r, 8)}
		}
		c.Set("oldsize", int64(r.N(50)))
		if r.P(20) {
			c.Set("noold", 1)
		}
		genFaulty(r, c)
		return c
	},
	Run: func(c *core.Case, x *core.Ctx) {
		j := job(c, 0)
		oldFiles(c, j.FS)
		if c.Int("nostl") == 1 {
			j.Args = j.Args[1:]
		}
		j.World.MaxSteps = maxSteps
		before := snapshot(j.FS)
		r := run(x, 0, j)
		allowed := map[string]bool{}
		for _, f := range outFiles(c) {
			allowed[f] = true
		}
		dbg := debugFile(c)
		if debugOn(c) && dbg != "" {
			allowed[dbg] = true
		}
		changed := map[string]bool{}
		for _, m := range r.P.Muts {
			changed[m.Path] = true
			if !allowed[m.Path] {
				x.Fail("foreign-file", "%s (exit %d, %s): %s of %s, which is neither a named output nor the enabled trace file (outputs %v, debug %v)", c.Tool, r.Code, r.Out.Kind, m.Kind, m.Path, outFiles(c), debugOn(c))
				return
			}
		}
		after := snapshot(r.P.FS)
		for f, b := range before {
			a, ok := after[f]
			if !allowed[f] && (!ok || a != b) {
				x.Fail("foreign-file", "%s (exit %d): %s was changed or removed", c.Tool, r.Code, f)
				return
			}
		}
		for f := range after {
			if _, ok := before[f]; !ok && !allowed[f] {
				x.Fail("foreign-file", "%s (exit %d): %s was created", c.Tool, r.Code, f)
				return
			}
		}
		x.Nontriv = len(r.P.Muts) > 0 || r.Code != 0
		x.State(c.Tool, c.Kind, r.Code, fmt.Sprint(changed), core.HashStr(c.Texts["data/config.yaml"]))
		x.Probe("kind " + c.Kind)
	},
}
