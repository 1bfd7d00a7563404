package clip

import (
	"strings"

	"simmod/harness/core"
	"simmod/simrt"
)

// goodTrace are trace files that can be written, badTrace ones that cannot.
var goodTrace = []string{"/dbg/debug.txt", "trace.txt", "/tmp/t/../x.txt", "data/trace.txt", "./trace out.txt"}
var badTrace = []string{"/nodir/debug.txt", "data", "/dbg", "in.stl/x", "nodir/sub/t.txt", ""}

func debugConf(on bool, file string) string {
	s := "debug: false\n"
	if on {
		s = "debug: true\n"
	}
	return s + "debug_file: " + file + "\n"
}

// C17: debug tracing never changes the result.
var C17 = &core.Prop{
	ID: "C17", Quick: 6000, Thorough: 200000, QuickS: 70, Level: "fault_enumeration",
	Rule:    "the job ran with tracing on (or off, or without configuration) and its G-code and exit status were compared with those of the run without tracing",
	Measure: "(case kind, tool, fault, exit status, trace size)",
	Real:    realAll, Stub: stubAll,
	Gen: func(r *core.Rng, i int) *core.Case {
		tool := "goosli"
		if r.P(15) {
			tool = tools[r.N(len(tools))]
		}
		c := GenTool(r, tool, SliceOpt{Planes: 40, MaxLayers: 8, MaxSeg: 7, Supports: 25})
		if c.Tool == "goosli" && r.P(50) { // strategies that trace a lot
			setOpt(c, "slicing_type", core.Pick(r, "vip", "vip", "5axes", "5axes_by_profile"))
		}
		c.Worlds = []simrt.Config{core.GenSched(r, 8), core.BaseSched()}
		if r.P(25) {
			c.ShortW = r.In(5, 100)
		}
		old := r.P(60) // an old trace exists
		switch k := r.N(20); {
		case k < 7:
			c.Kind = "on"
			f := goodTrace[r.N(len(goodTrace))]
			setText(c, "data/config.yaml", debugConf(true, f))
			if old {
				setText(c, abs(f), strings.Repeat("line Red 0 0 0 1 1 1\n", r.N(50)))
			}
		case k < 12:
			c.Kind = "fault"
			f := goodTrace[r.N(len(goodTrace))]
			setText(c, "data/config.yaml", debugConf(true, f))
			if old {
				setText(c, abs(f), "line Red 0 0 0 1 1 1\n")
			}
			d := dry(c)
			for n := 1 + r.N(2); n > 0; n-- {
				if s, ok := pickSys(r, d.P.Log, func(s simrt.SysRec) bool {
					return s.Path == abs(f) || s.Path == abs("data/config.yaml")
				}); ok {
					c.Faults = append(c.Faults, mkFault(r, s))
				}
			}
		case k < 14:
			c.Kind = "bad-trace"
			setText(c, "data/config.yaml", debugConf(true, badTrace[r.N(len(badTrace))]))
		case k < 15:
			c.Kind = "disk-full"
			setText(c, "data/config.yaml", debugConf(true, "/dbg/debug.txt"))
			c.Set("quota", int64(r.LogN(1, 60000)))
		case k < 18:
			c.Kind = "off"
			f := core.Pick(r, goodTrace[r.N(len(goodTrace))], badTrace[r.N(len(badTrace))], "in.stl", "notes.txt")
			setText(c, "data/config.yaml", core.Pick(r, debugConf(false, f), debugConf(false, f), "debug_file: "+f+"\n", "debug: off\ndebug_file: "+f+"\n"))
			if old && (f == "notes.txt" || f == "trace.txt") {
				setText(c, abs(f), "old text\n")
			}
		case k < 19:
			c.Kind = "absent"
			setText(c, "data/config.yaml", "\x00absent")
			setText(c, core.Pick(r, "/dbg/debug.txt", "debug.txt"), "old trace\n")
		default:
			c.Kind = "conf-fault"
			setText(c, "data/config.yaml", debugConf(r.P(50), "/dbg/debug.txt"))
			if old {
				setText(c, "/dbg/debug.txt", "old\n")
			}
			d := dry(c)
			if s, ok := pickSys(r, d.P.Log, func(s simrt.SysRec) bool { return s.Path == abs("data/config.yaml") }); ok {
				c.Faults = append(c.Faults, mkFault(r, s))
			}
		}
		return c
	},
	Run: func(c *core.Case, x *core.Ctx) {
		j := job(c, 0)
		j.World.MaxSteps = maxSteps
		if q := c.Int("quota"); q > 0 && debugOn(c) {
			j.FS.Free = q
		}
		r := run(x, 0, j)
		d := c.Clone()
		d.Faults, d.ShortW = nil, 0
		setText(d, "data/config.yaml", "debug: false\ndebug_file: /dbg/debug.txt\n")
		jd := job(d, 1)
		jd.World.MaxSteps = maxSteps
		q := run(x, 1, jd)
		if r.Out.Kind == "steps" || q.Out.Kind == "steps" {
			x.Probe("too long")
			return
		}
		x.Nontriv = true
		x.Probe(c.Kind)
		injected := ""
		for _, s := range r.P.Log {
			if s.Fault != "" && s.Err != "" {
				injected += s.Kind + s.Err
			}
		}
		tr, _ := r.file(debugFile(c))
		x.State(c.Kind, c.Tool, injected, r.Code, len(tr))
		same := func() bool {
			if c.Tool == "goosli_simplifier" { // its result may depend on hash order
				return true
			}
			for _, f := range outFiles(c) {
				a, ok1 := r.file(f)
				b, ok2 := q.file(f)
				if ok1 != ok2 || stripTime(a) != stripTime(b) {
					x.Fail("output-"+c.Kind, "%s: %s differs from the run without tracing: %s", c.Kind, f, diffAt(stripTime(a), stripTime(b)))
					return false
				}
			}
			return true
		}
		switch {
		case debugOn(c) && (injected != "" || c.Kind == "bad-trace" || c.Kind == "disk-full"):
			if r.Code == 0 {
				if q.Code != 0 {
					x.Fail("exit-"+c.Kind, "exit 0 with a failing trace, %d without tracing", q.Code)
					return
				}
				same()
			}
		case injected != "": // configuration not readable, tracing off anyway
			if r.Code == 0 {
				same()
			}
		default:
			if r.Code != q.Code && c.Tool != "goosli_simplifier" {
				x.Fail("exit-"+c.Kind, "exit status %d (%s), without tracing %d: %s", r.Code, c.Kind, q.Code, tailOf(r.P.Stderr))
				return
			}
			if r.Code == 0 {
				same()
			}
		}
		if x.Failed() {
			return
		}
		if debugOn(c) {
			if len(tr) > 0 {
				x.Probe("trace written")
			}
			return
		}
		// tracing off: nothing but the outputs is created or changed, and no
		// trace file is opened
		outs := map[string]bool{}
		for _, f := range outFiles(c) {
			outs[f] = true
		}
		for _, m := range r.P.Muts {
			if !outs[m.Path] {
				x.Fail("touched", "%s: tracing is off but %s hits %s", c.Kind, m.Kind, m.Path)
				return
			}
		}
		df := debugFile(c)
		for _, s := range r.P.Log {
			if (s.Path == df || s.Path == abs("debug.txt")) && df != abs("in.stl") && (s.Kind == "open" || s.Kind == "create" || s.Kind == "openw") {
				x.Fail("opened", "%s: tracing is off but the trace file %s is opened (%s)", c.Kind, s.Path, s.Kind)
				return
			}
		}
	},
}
