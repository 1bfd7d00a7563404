package clip

import (
	"fmt"
	"strings"

	"simmod/harness/core"
	"simmod/simrt"
)

// C08: the exit status is honest under I/O faults.
var C08 = &core.Prop{
	ID: "C08", Quick: 25000, Thorough: 150000, QuickS: 60, Level: "fault_enumeration",
	Rule:    "a fault was injected (or short transfers forced) and the process ended",
	Measure: "(tool, exit status, faulted call kind, file role, error, complete outputs)",
	Real:    realAll, Stub: stubAll,
	Gen: func(r *core.Rng, i int) *core.Case {
		tool := tools[i%len(tools)]
		c := GenTool(r, tool, SliceOpt{Planes: 50, MaxLayers: 6, MaxSeg: 6, Retract: 10})
		if r.P(4) { // there is nothing to print, cut, simplify, colorize or analyse
			c.Mesh = nil
			if r.P(50) {
				c.Mesh = []core.Shape{{Kind: "flat", S: core.V3{5, 4, 0}}}
			}
		}
		if r.P(50) {
			c.Worlds = []simrt.Config{core.BaseSched()}
		} else {
			c.Worlds = []simrt.Config{core.GenSched(r, 8)}
		}
		if r.P(40) {
			c.ShortR = r.In(5, 100)
		}
		if r.P(40) {
			c.ShortW = r.In(5, 100)
		}
		d := dry(c)
		need := func(s simrt.SysRec) bool {
			return !optional(c, s.Path) && s.Err == ""
		}
		switch k := r.N(20); {
		case k < 12:
			c.Kind = "fault"
			if s, ok := pickSys(r, d.P.Log, need); ok {
				c.Faults = append(c.Faults, mkFault(r, s))
			}
			if r.P(20) {
				if s, ok := pickSys(r, d.P.Log, need); ok {
					c.Faults = append(c.Faults, mkFault(r, s))
				}
			}
		case k < 14:
			c.Kind = "output-fault" // the calls near the end of the run
			w := written(d.P)
			if s, ok := pickSys(r, d.P.Log, func(s simrt.SysRec) bool { return w[s.Path] && need(s) }); ok {
				c.Faults = append(c.Faults, mkFault(r, s))
			}
		case k < 16:
			c.Kind = "disk-full"
			n := 0
			for _, f := range outFiles(c) {
				b, _ := d.file(f)
				n += len(b)
			}
			c.Set("free", int64(r.N(n+n/4+2)))
		case k < 17:
			c.Kind = "short-transfers"
			c.ShortR, c.ShortW = r.In(5, 100), r.In(5, 100)
		case k < 18 && c.Format == "bin":
			c.Kind = "model-shrinks"
			if s, ok := pickSys(r, d.P.Log, func(s simrt.SysRec) bool { return s.Kind == "read" && s.Path == abs("in.stl") }); ok {
				c.Faults = append(c.Faults, simrt.Fault{Kind: "read", Path: s.Path, Occ: s.Occ, Action: "trunc", Arg: int64(r.N(len(model(c)) + 1))})
			}
		default:
			c.Kind = "bad-path"
			o := outs[c.Tool][r.N(len(outs[c.Tool]))]
			switch r.N(5) {
			case 0:
				setOpt(c, o[0], "missing/dir/result")
			case 1:
				setOpt(c, o[0], "data")
			case 2:
				setOpt(c, "stl", "nothere.stl")
			case 3:
				setOpt(c, "stl", "data")
			case 4:
				if c.Tool == "goosli" {
					setText(c, core.Pick(r, "data/header_template.txt", "data/footer_template.txt"), "\x00absent")
				} else {
					setOpt(c, o[0], "in.stl/x")
				}
			}
		}
		return c
	},
	Run: func(c *core.Case, x *core.Ctx) {
		// what a fault-free run writes
		rj := job(c, 0)
		rj.Faults, rj.ShortR, rj.ShortW = nil, 0, 0
		rj.World.MaxSteps = maxSteps
		ref := run(x, 0, rj)
		if !ref.ended() {
			x.Probe("too long")
			return
		}
		if ref.Code == 0 {
			for _, f := range outFiles(c) {
				if _, ok := ref.file(f); !ok {
					x.Fail("exit-0-no-output", "%s exits 0 without any fault but there is no %s", c.Tool, f)
					return
				}
			}
		}
		j := job(c, 0)
		j.World.MaxSteps = maxSteps
		if c.Kind == "disk-full" {
			j.FS.Free = c.Int("free")
		}
		r := run(x, 1, j)
		if !r.ended() {
			x.Probe("too long")
			return
		}
		complete := true
		missing := ""
		for _, f := range outFiles(c) {
			a, ok := ref.file(f)
			b, ok2 := r.file(f)
			sa, sb := string(a), string(b)
			if c.Tool == "goosli" {
				sa, sb = stripTime(a), stripTime(b)
			}
			if ok != ok2 || sa != sb {
				complete = false
				missing = fmt.Sprintf("%s: %s", f, diffAt(sa, sb))
			}
		}
		var injected int64
		for _, v := range r.P.Injected {
			injected += v
		}
		x.Nontriv = injected > 0 || c.Kind == "bad-path"
		role := ""
		hard, isHard := hardErr(c, r)
		if isHard {
			role = roleOf(c, hard.Path)
			x.Probe("hard fault: " + hard.Kind + " " + role)
		}
		x.State(c.Tool, r.Code != 0, hard.Kind, role, hard.Err, complete, c.Kind)
		what := ""
		for _, s := range r.P.Log {
			if s.Fault != "" {
				what += " [" + s.Fault + "]"
			}
		}
		if r.Code == 0 && !complete && ref.Code == 0 {
			x.Fail("exit-0-incomplete", "%s exits 0 but its output is not what a fault-free run writes: %s; injected:%s %s", c.Tool, missing, what, kindOf(c))
			return
		}
		if r.Code == 0 && ref.Code != 0 {
			x.Fail("exit-0-failure", "%s exits 0 under faults but %d without: %s", c.Tool, ref.Code, what)
			return
		}
		if isHard && r.Code == 0 {
			x.Fail("exit-0-fault", "%s exits 0 although a call on a needed file failed: %s %s: %s", c.Tool, hard.Kind, hard.Path, hard.Fault)
			return
		}
		if c.Kind == "bad-path" && r.Code == 0 {
			x.Fail("exit-0-bad-path", "%s exits 0 with an unusable path: %v", c.Tool, c.Opts)
			return
		}
		if c.Kind == "model-shrinks" && injected > 0 && r.Code == 0 {
			if b, _ := r.file("in.stl"); len(b) < len(model(c)) && !complete {
				x.Fail("exit-0-shrunk", "%s exits 0 although its model was cut short while it was read: %s", c.Tool, what)
				return
			}
		}
		if ref.Code == 0 && r.Code != 0 {
			if injected == 0 && c.Kind != "bad-path" {
				x.Fail("exit-nonzero", "%s exits %d without any fault (%s), 0 in the same schedule before", c.Tool, r.Code, tailOf(r.P.Stderr))
				return
			}
			only := true // nothing but short transfers was injected
			for k, v := range r.P.Injected {
				if v > 0 && !strings.HasSuffix(k, ":short") {
					only = false
				}
			}
			if only && c.Kind != "bad-path" {
				x.Fail("exit-nonzero", "%s exits %d although reads and writes were only split: %s", c.Tool, r.Code, tailOf(r.P.Stderr))
				return
			}
			if strings.HasPrefix(string(ref.P.Stderr), string(r.P.Stderr)) {
				x.Fail("silent-failure", "%s exits %d and prints nothing about it; injected:%s; standard error: %q", c.Tool, r.Code, what, tailOf(r.P.Stderr))
			}
		}
	},
}

func kindOf(c *core.Case) string {
	if c.Kind == "disk-full" {
		return fmt.Sprintf("disk with %d bytes free", c.Int("free"))
	}
	return ""
}

func roleOf(c *core.Case, p string) string {
	switch p {
	case abs("in.stl"):
		return "model"
	case abs("data/header_template.txt"):
		return "header"
	case abs("data/footer_template.txt"):
		return "footer"
	}
	for i, f := range outFiles(c) {
		if f == p {
			return fmt.Sprintf("output%d", i)
		}
	}
	if strings.Contains(p, "planes") {
		return "planes"
	}
	return "other"
}
