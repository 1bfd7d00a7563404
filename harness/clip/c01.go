package clip

import (
	"simmod/harness/core"
)

var maxSteps int64 = 40_000_000

var realAll = []string{"cmd/goosli, goosli_cutter, goosli_simplifier, goosli_colorizer, goosli_analyzer (main, option parsing)", "primitives, helpers, slicers, slicers/vip, gcode, debug", "kingpin (option parsing), yaml, fogleman/simplify, bufio, encoding/binary, sort, strconv"}
var stubAll = []string{"operating system (files, exit, signals): simulated in memory", "goroutine scheduler, channels, locks, timers: simulated, sequentially consistent, statement granularity", "clock, core count, map iteration order: drawn from the seed"}

// C01: same job, same bytes.
var C01 = &core.Prop{
	ID: "C01", Quick: 6000, Thorough: 60000, QuickS: 100, Level: "exploration",
	Rule:    "the job ended within the step bound in every schedule and wrote at least one output file",
	Measure: "hash of (tool, exit status, output bytes without the time line)",
	Real:    realAll, Stub: stubAll,
	Gen: func(r *core.Rng, i int) *core.Case {
		var c *core.Case
		switch r.N(10) {
		case 0:
			c = GenCut(r, core.Pick(r, 8, 12, 20))
		case 1:
			c = GenColor(r, core.Pick(r, 8, 12, 20))
		case 2:
			c = GenAna(r, 8)
		default:
			c = GenSlice(r, SliceOpt{Planes: 40, Supports: 10, Debug: 10, MaxSeg: core.Pick(r, 6, 8, 12)})
		}
		c.Kind = c.Tool
		if c.Tool == "goosli" {
			c.Kind = "goosli:" + slicingType(c)
		}
		c.Worlds = append(c.Worlds, core.BaseSched())
		for k := 0; k < 3; k++ {
			w := core.GenSched(r, 16)
			if k == 2 { // a plain run: a real machine's cores, no forced preemption, another map order and clock
				w.Policy = core.Pick(r, "none", "rr")
				w.Mean = 1000
				w.CPU = core.Pick(r, 2, 4, 8, 8, r.LogN(9, 160))
			}
			c.Worlds = append(c.Worlds, w)
		}
		return c
	},
	Run: func(c *core.Case, x *core.Ctx) {
		if len(core.Mesh(c.Mesh)) > 2500 {
			return
		}
		var ref *Res
		for wi := range c.Worlds {
			j := job(c, wi)
			j.World.MaxSteps = maxSteps
			r := run(x, wi, j)
			if !r.ended() {
				x.Probe("too long")
				return
			}
			if wi == 0 {
				ref = r
				continue
			}
			if r.Code != ref.Code {
				x.Fail("exit-differs", "%s: exit status %d in the reference schedule, %d with %d cores, policy %s (%s / %s)", c.Tool, ref.Code, r.Code, c.Worlds[wi].CPU, c.Worlds[wi].Policy, tailOf(ref.P.Stderr), tailOf(r.P.Stderr))
				return
			}
			for _, f := range outFiles(c) {
				a, ok1 := ref.file(f)
				b, ok2 := r.file(f)
				if ok1 != ok2 {
					x.Fail("output-differs", "%s: %s exists %v and %v", c.Tool, f, ok1, ok2)
					return
				}
				sa, sb := string(a), string(b)
				if c.Tool == "goosli" {
					sa, sb = stripTime(a), stripTime(b)
				}
				if sa != sb {
					x.Fail("output-differs", "%s: %s differs between the reference schedule and %d cores, policy %s, map seed %d: %s", c.Tool, f, c.Worlds[wi].CPU, c.Worlds[wi].Policy, c.Worlds[wi].MapSeed, diffAt(sa, sb))
					return
				}
			}
		}
		if ref.Code == 0 {
			x.Nontriv = true
			x.Probe("success")
		} else {
			x.Probe("failure")
			x.Note("failed: %s", tailOf(ref.P.Stderr))
		}
		for _, f := range outFiles(c) {
			b, _ := ref.file(f)
			x.State(c.Tool, ref.Code, core.HashStr(stripTime(b)))
		}
	},
}

func slicingType(c *core.Case) string {
	if s, ok := c.Opts["slicing_type"]; ok {
		return s
	}
	return "vip"
}

// Props of the command-line checks.
var Props = []*core.Prop{C01, C08, C09, C10, C11, C12, C13, C15, C16, C17, C19, C20, C21, C22}
