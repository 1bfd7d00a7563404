package clip

import (
	"fmt"
	"math"
	"strings"

	"simmod/harness/core"
	"simmod/simrt"
)

// wild replaces some options by extreme values.
func wild(r *core.Rng, c *core.Case) {
	f := func() string {
		return core.Pick(r, "0", "0", "-1", "1", "0.5", "90", "100", "180", "-45", "1000", num(r.Fr(-100, 100)), num(r.Fr(0, 1)))
	}
	n := func() string {
		return core.Pick(r, "0", "0", "1", "-1", "2", "99", "100", "101", "1000", fmt.Sprint(r.In(-10, 200)))
	}
	defer func() {
		c.Opts["epsilon"] = strings.TrimPrefix(c.Opts["epsilon"], "-")
		if c.Opts["epsilon"] == "" {
			delete(c.Opts, "epsilon")
		}
	}()
	for k := 1 + r.N(3); k > 0; k-- {
		switch c.Tool {
		case "goosli":
			if r.P(50) {
				setOpt(c, core.Pick(r, "fill_density", "top_layers", "bottom_layers", "bed_temperature", "extruder_temperature", "print_speed", "print_speed_layer1", "print_speed_wall", "retraction_speed", "skirt_line_count"), n())
			} else {
				setOpt(c, core.Pick(r, "originx", "originy", "originz", "rotcx", "rotcy", "rotcz", "epsilon", "wall_thickness", "angle", "normali", "normalj", "normalk", "support_offset", "bar_diameter", "flow", "retraction_distance", "line_width", "layer_height"), f())
			}
		case "goosli_cutter":
			setOpt(c, core.Pick(r, "pointx", "pointy", "pointz", "normali", "normalj", "normalk"), f())
		case "goosli_simplifier":
			setOpt(c, "triangles", core.Pick(r, "8", "9", "100000", fmt.Sprint(r.In(8, 300))))
		default:
			setOpt(c, core.Pick(r, "angle", "normali", "normalj", "normalk", "originz"), f())
			if c.Tool == "goosli_analyzer" {
				delete(c.Opts, "normali")
				delete(c.Opts, "normalj")
				delete(c.Opts, "normalk")
			}
		}
	}
}

// C19: a tool never crashes.
var C19 = &core.Prop{
	ID: "C19", Quick: 25000, Thorough: 200000, QuickS: 90, Level: "exploration",
	Rule:    "the process ended",
	Measure: "(tool, case kind, exit status, fault)",
	Real:    realAll, Stub: stubAll,
	Gen: func(r *core.Rng, i int) *core.Case {
		tool := tools[r.N(len(tools))]
		if r.P(40) {
			tool = "goosli"
		}
		c := GenTool(r, tool, SliceOpt{Planes: 40, MaxLayers: 8, MaxSeg: 6, Supports: 25, Debug: 10})
		c.Kind = core.Pick(r, "plain", "plain", "options", "model", "faults")
		c.Worlds = []simrt.Config{core.GenSched(r, 8)}
		switch c.Kind {
		case "options":
			wild(r, c)
			if r.P(20) { // one file in two roles
				o := outs[c.Tool]
				setOpt(c, o[r.N(len(o))][0], core.Pick(r, "in.stl", "in.stl", "same.stl", "data/header_template.txt", "data/config.yaml", "planes_file.txt"))
				if len(o) > 1 && r.P(60) {
					setOpt(c, o[0][0], "same.stl")
					setOpt(c, o[1][0], "same.stl")
				}
			}
		case "model":
			c.Set("damage", int64(r.In(1, 6)))
			c.Set("at", int64(r.U()>>2))
		case "faults":
			genFaulty(r, c)
			c.Kind = "faults"
		}
		return c
	},
	Run: func(c *core.Case, x *core.Ctx) {
		j := job(c, 0)
		// Large supports and pieces cut again and again (meshes growing to a
		// million triangles) are slow, not endless.
		name := "planes_file.txt"
		if s, ok := c.Opts["planes_file"]; ok {
			name = s
		}
		_, sup := c.Opts["supports_on"]
		slow := sup || c.Tool == "goosli" && slicingType(c) == "vip" || c.Texts[name] != "" || c.Kind == "options"
		j.World.MaxSteps = maxSteps
		if !slow {
			j.World.MaxSteps *= 25
		}
		if d := c.Int("damage"); d > 0 {
			b := damage(c, int(d), c.Int("at"))
			j.FS.Put(abs("in.stl"), b)
		}
		r := run(x, 0, j)
		x.State(c.Tool, c.Kind, r.Code)
		x.Nontriv = true
		x.Probe("kind " + c.Kind + " " + r.Out.Kind)
		switch r.Out.Kind {
		case "panic":
			if strings.Contains(r.Out.Panic, "runtime error") || c.Kind == "plain" && !debugOn(c) {
				x.Fail("crash", "%s %v crashes: %s", c.Tool, j.Args, r.Out.Panic)
			}
		case "deadlock":
			x.Fail("crash", "%s %v: %s", c.Tool, j.Args, r.Out.Panic)
		case "steps":
			if !slow {
				x.Fail("hang", "%s %v does not end", c.Tool, j.Args)
			}
		}
	},
}

// damage makes an unusual or broken model file.
func damage(c *core.Case, kind int, at int64) []byte {
	ts := core.Mesh(c.Mesh)
	b := model(c)
	r := core.NewRng(uint64(at))
	switch kind {
	case 1: // degenerate and duplicate triangles
		for k := 1 + r.N(4); k > 0 && len(ts) > 0; k-- {
			t := ts[r.N(len(ts))]
			switch r.N(3) {
			case 0:
				t[1] = t[0]
			case 1:
				t[2] = t[0].Add(t[1]).Mul(.5)
			}
			ts = append(ts, t)
		}
		return core.STL(ts, c.Format, c.Seed)
	case 2: // open surface: some triangles are missing
		for k := 1 + r.N(4); k > 0 && len(ts) > 0; k-- {
			i := r.N(len(ts))
			ts = append(ts[:i:i], ts[i+1:]...)
		}
		return core.STL(ts, c.Format, c.Seed)
	case 3: // few triangles
		if n := r.N(5); len(ts) > n {
			ts = ts[:n]
		}
		return core.STL(ts, c.Format, c.Seed)
	case 4: // flipped triangles
		for i := range ts {
			if r.P(20) {
				ts[i][0], ts[i][1] = ts[i][1], ts[i][0]
			}
		}
		return core.STL(ts, c.Format, c.Seed)
	case 5: // torn
		return b[:r.N(len(b)+1)]
	case 6: // one vertex elsewhere
		if len(ts) > 0 {
			ts[r.N(len(ts))][r.N(3)][r.N(3)] += math.Pow(10, r.Fr(-3, 1.5))
		}
		return core.STL(ts, c.Format, c.Seed)
	}
	return b
}
