package clip

import (
	"fmt"
	"math"
	"strings"

	"simmod/harness/core"
	"simmod/simrt"
)

// GenC14 draws a run of the slicing tool for the printer to execute.
func GenC14(r *core.Rng) *core.Case {
	c := GenSlice(r, SliceOpt{Planes: 60, MaxLayers: 9, MaxSeg: 7, Retract: 50})
	c.Kind = "tool"
	if r.P(20) { // much filament
		setOpt(c, "bar_diameter", "0.15")
		c.Kind = "tool+much"
	}
	if r.P(30) {
		setOpt(c, core.Pick(r, "print_speed", "print_speed_layer1", "print_speed_wall"), "5")
	}
	c.Worlds = []simrt.Config{core.GenSched(r, 8)}
	return c
}

func optF(c *core.Case, k string, d float64) float64 {
	if s, ok := c.Opts[k]; ok {
		fmt.Sscan(s, &d)
	}
	return d
}

// RunC14 lets the printer execute what the tool wrote; the options say what
// it has to hold.
func RunC14(c *core.Case, x *core.Ctx) {
	const tol = 0.0012
	j := job(c, 0)
	j.World.MaxSteps = maxSteps
	r := run(x, 0, j)
	x.Probe(fmt.Sprintf("tool exit %d", r.Code))
	if r.Code != 0 {
		return
	}
	b, _ := r.file(outFiles(c)[0])
	_, text, _, ok := core.Job(string(b))
	if !ok {
		x.Probe("no usable job")
		return
	}
	var p core.Printer
	p.Exec(text)
	if p.Err != "" {
		x.Fail("gcode", "%s", p.Err)
		return
	}
	for i, m := range p.Marks {
		if m.N != i {
			x.Fail("layers", "layer mark number %d of the job reads %d", i, m.N)
			return
		}
	}
	d := optF(c, "bar_diameter", 1.75)
	rate := 4 * optF(c, "line_width", .4) * optF(c, "layer_height", .2) / (math.Pi * d * d)
	speed := optF(c, "print_speed", 50) * 60
	first := optF(c, "print_speed_layer1", 50) * 60
	wall := optF(c, "print_speed_wall", 50) * 60
	_, fanOff := c.Opts["fan_off_layer1"]
	_, retr := c.Opts["retraction_on"]
	dist := optF(c, "retraction_distance", 0)
	high, pulled := 0.0, 0.0
	travelled := true
	n := 0
	for _, m := range p.Moves {
		if m.Tool != 0 {
			travelled = true
			continue
		}
		fil := m.Fil + m.E1 - m.E0
		if !(m.HasE && m.HasXYZ && m.From != m.To) {
			if moved := m.From != m.To; fil-high > 1e-6 && (moved || fil-high > tol+rate*0.0018) {
				x.Fail("travel", "line %d: a move that prints nothing feeds %.4f of filament", m.Line, fil-high)
				return
			}
			high = math.Max(high, fil)
			pulled = math.Max(pulled, high-fil)
			travelled = travelled || m.From != m.To
			continue
		}
		n++
		if m.Layer < 0 {
			x.Fail("early", "line %d prints before the first layer", m.Line)
			return
		}
		if travelled {
			if math.Abs(m.Fil-high) > tol {
				x.Fail("retraction", "line %d: printing resumes with the filament %.4f behind where printing stopped", m.Line, high-m.Fil)
				return
			}
			if retr && math.Abs(pulled-dist) > tol || !retr && pulled > 1e-6 {
				x.Fail("retraction", "line %d: before the path the filament was pulled back by %.4f, configured: %v %v", m.Line, pulled, retr, dist)
				return
			}
		}
		// lengths of the printed coordinates are rounded at both ends
		l := m.From.Dist(m.To)
		if math.Abs(fil-m.Fil-rate*l) > tol+rate*0.0018 {
			x.Fail("extrusion", "line %d: %.4f of filament for length %.4f, %.4f expected", m.Line, fil-m.Fil, l, rate*l)
			return
		}
		high, pulled, travelled = math.Max(high, fil), 0, false
		f, kind := speed, "fill"
		if m.Section != "FILL_PATHES" {
			f, kind = wall, "wall"
		}
		if m.Layer == 0 {
			f, kind = first, "first layer"
		}
		if m.F != f {
			x.Fail("speed", "line %d: %s printed at F%v, configured %v", m.Line, kind, m.F, f)
			return
		}
		if fan := !(m.Layer == 0 && fanOff); m.Fan != fan {
			x.Fail("fan", "line %d in layer %d: fan on is %v", m.Line, m.Layer, m.Fan)
			return
		}
	}
	x.Nontriv = n > 0
	resets := strings.Count(text, "G92 E0\n")
	if resets > 0 {
		x.Probe("extruder resets")
	}
	x.State(c.Kind, c.Opts["slicing_type"], len(p.Marks), n, len(p.Turns), retr, fanOff, resets)
}
