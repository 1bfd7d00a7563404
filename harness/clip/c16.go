package clip

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"

	"simmod/harness/core"
	"simmod/simrt"
)

var holders = []string{"{datetime}", "{layer_height}", "{wall_thickness}", "{fill_density}", "{bed_temperature}", "{extruder_temperature}", "{print_speed}", "{layer_count}"}

// genTemplate draws a template text: placeholders, near-placeholders, text.
func genTemplate(r *core.Rng) string {
	var b strings.Builder
	n := r.In(0, 12)
	if r.P(15) {
		n = r.In(30, 400)
	}
	nl := core.Pick(r, "\n", "\n", "\n", "\r\n")
	for i := 0; i < n; i++ {
		if r.P(70) {
			b.WriteString(core.Pick(r, ";", "M117 ", "G1 F", "; time ", "M190 S", "M109 S", ";µ° ", "  ", "G92 E0 ;zero"))
		}
		for k := r.In(0, 4); k > 0; k-- {
			switch r.N(10) {
			case 0, 1, 2, 3, 4:
				b.WriteString(holders[r.N(len(holders))])
			case 5:
				h := holders[r.N(len(holders))]
				b.WriteString(core.Pick(r, h+h, "{"+h+"}", "{"+h, h+"}", h[1:], h[:len(h)-1], strings.ToUpper(h), "{ "+h[1:], "$"+h, "%"+h+"%", `\`+h))
			case 6:
				b.WriteString(core.Pick(r, "{print_time}", "{filament_amount}", "{nozzle}", "{}", "{layer}", "{layer_height }", "%d%s%%", "$1", "{{", "}}", "{0}", "\\n"))
			case 7:
				h := holders[r.N(len(holders))]
				j := r.In(1, len(h)-1)
				b.WriteString(h[:j] + holders[r.N(len(holders))] + h[j:])
			default:
				b.WriteString(core.Pick(r, " ", "text", "0.2", "\t", "S200", "F3000", "é", "\x00", "end"))
			}
		}
		b.WriteString(nl)
	}
	s := b.String()
	if r.P(25) {
		s = strings.TrimRight(s, "\r\n")
	}
	return s
}

// render substitutes the placeholders in one pass.
func render(t string, v map[string]string) string {
	var b strings.Builder
	for i := 0; i < len(t); {
		hit := false
		if t[i] == '{' {
			for _, h := range holders {
				if strings.HasPrefix(t[i:], h) {
					b.WriteString(v[h])
					i += len(h)
					hit = true
					break
				}
			}
		}
		if !hit {
			b.WriteByte(t[i])
			i++
		}
	}
	return b.String()
}

// values of the placeholders; date and layer count are filled in by the caller.
func holderValues(c *core.Case) map[string]string {
	f := func(k string, d float64) string {
		if s, ok := c.Opts[k]; ok {
			d, _ = strconv.ParseFloat(s, 64)
		}
		return strconv.FormatFloat(d, 'f', 3, 64)
	}
	n := func(k string, d, m int) string {
		if s, ok := c.Opts[k]; ok {
			d, _ = strconv.Atoi(s)
		}
		return strconv.Itoa(d * m)
	}
	return map[string]string{
		"{layer_height}":         f("layer_height", 0.2),
		"{wall_thickness}":       f("wall_thickness", 1.2),
		"{fill_density}":         n("fill_density", 20, 1),
		"{bed_temperature}":      n("bed_temperature", 60, 1),
		"{extruder_temperature}": n("extruder_temperature", 200, 1),
		"{print_speed}":          n("print_speed", 50, 60),
	}
}

func layerMarks(s string) int {
	n := strings.Count(s, "\n;LAYER:")
	if strings.HasPrefix(s, ";LAYER:") {
		n++
	}
	return n
}

// C16: header and footer carry this run's settings.
var C16 = &core.Prop{
	ID: "C16", Quick: 12000, Thorough: 300000, QuickS: 60, Level: "exploration",
	Rule:    "the slicer exited with status 0 and its whole output was compared with the rendered templates around the job of a run with plain templates",
	Measure: "(header text, footer text, settings)",
	Real:    realAll, Stub: stubAll,
	Gen: func(r *core.Rng, i int) *core.Case {
		c := GenSlice(r, SliceOpt{Types: []string{"vip", "vip", "3axes", "3axes", "5axes_by_profile", "5axes"}, Planes: 20, MaxLayers: core.Pick(r, 3, 6, 12), MaxSeg: 6, Debug: 5})
		c.Kind = "templates"
		if r.N(100) == 0 { // a tall job
			c.Mesh = []core.Shape{{Kind: "box", S: core.V3{3, 3, 20}}}
			setOpt(c, "slicing_type", core.Pick(r, "3axes", "vip"))
			setOpt(c, "layer_height", num(math.Round(20e4/r.Fr(300, 2200))/1e4))
			setOpt(c, "line_width", "0.8")
			setOpt(c, "fill_density", "6")
			delete(c.Opts, "wall_thickness")
			delete(c.Opts, "skirt_line_count")
			delete(c.Opts, "supports_on")
			delete(c.Texts, "planes_file.txt")
			delete(c.Texts, "my_planes.txt")
			c.Kind = "tall"
		}
		// plain numbers, also odd ones
		for _, k := range []string{"bed_temperature", "extruder_temperature"} {
			if r.P(40) {
				setOpt(c, k, strconv.Itoa(core.Pick(r, 0, 7, 55, 100, 215, 1000)))
			}
		}
		if r.P(30) {
			setOpt(c, "wall_thickness", strconv.FormatFloat(r.Fr(0, 3), 'f', r.In(0, 8), 64))
		}
		if r.P(8) {
			c.Kind = "empty"
			c.Mesh = nil
			c.Format = "bin"
			setOpt(c, "slicing_type", core.Pick(r, "vip", "3axes"))
		}
		if r.P(75) {
			setText(c, "data/header_template.txt", genTemplate(r))
		}
		if r.P(75) {
			setText(c, "data/footer_template.txt", genTemplate(r))
		}
		if r.P(10) {
			setText(c, "data/"+core.Pick(r, "header", "footer")+"_template.txt", "\x00absent")
			c.Kind = "absent"
		}
		c.Worlds = []simrt.Config{core.GenSched(r, 8), core.BaseSched()}
		if r.P(80) {
			c.Worlds[0].MapSeed = r.U() | 1
		}
		if r.P(30) { // near the turn of a minute, a year, a century
			c.Worlds[0].ClockBase = core.Pick[int64](r, 1609459199, 946684799, 1582934399, 4102444799, 1700000039, 0, 951782400)
		}
		if r.P(50) {
			c.Worlds[0].ClockJump = core.Pick(r, 1, 100)
		}
		if r.P(50) {
			c.ShortR = r.In(5, 100)
		}
		if r.P(30) {
			c.ShortW = r.In(5, 100)
		}
		if r.P(15) {
			d := dry(c)
			if s, ok := pickSys(r, d.P.Log, func(s simrt.SysRec) bool {
				return s.Err == "" && (strings.HasSuffix(s.Path, "template.txt") || s.Path == outFiles(c)[0])
			}); ok {
				c.Faults = append(c.Faults, mkFault(r, s))
				c.Kind += "+fault"
			}
		}
		return c
	},
	Run: func(c *core.Case, x *core.Ctx) {
		j := job(c, 0)
		j.World.MaxSteps = maxSteps
		r := run(x, 0, j)
		x.Probe(c.Kind)
		if r.Out.Kind == "steps" || r.Code != 0 {
			x.Probe("non-zero exit")
			return
		}
		get := func(n string) string {
			t, ok := c.Texts["data/"+n]
			if !ok {
				t = template(n)
			}
			if t == "\x00absent" {
				x.Fail("absent", "the slicer exits 0 although data/%s does not exist", n)
			}
			return t
		}
		ht, ft := get("header_template.txt"), get("footer_template.txt")
		if x.Failed() {
			return
		}
		// the job of a run with plain templates
		d := c.Clone()
		setText(d, "data/header_template.txt", ";HEAD\n")
		setText(d, "data/footer_template.txt", ";FOOT\n")
		d.Faults, d.ShortR, d.ShortW = nil, 0, 0
		jd := job(d, 1)
		jd.World.MaxSteps = maxSteps
		q := run(x, 1, jd)
		if q.Out.Kind == "steps" {
			return
		}
		if q.Code != 0 {
			x.Fail("exit", "the slicer exits 0 with its templates but %d with plain ones: %s", q.Code, tailOf(q.P.Stderr))
			return
		}
		x.Nontriv = true
		qb, _ := q.file(outFiles(c)[0])
		std := string(qb)
		if !strings.HasPrefix(std, ";HEAD\n") || !strings.HasSuffix(std, ";FOOT\n") || len(std) < 12 {
			x.Fail("plain", "the output does not start with the header template and end with the footer template, which have no placeholders")
			return
		}
		std = std[6 : len(std)-6]
		b, _ := r.file(outFiles(c)[0])
		out := string(b)
		v := holderValues(c)
		v["{layer_count}"] = strconv.Itoa(layerMarks(std))
		times := map[string]bool{}
		for _, t := range r.Nows {
			times[t.Format(time.RFC822)] = true
		}
		if len(times) == 0 {
			times["?"] = true
		}
		good := false
		want := ""
		for t := range times {
			v["{datetime}"] = t
			w := render(ht, v) + std + render(ft, v)
			if want == "" || w < want {
				want = w
			}
			if w == out {
				good = true
			}
		}
		x.State(ht, ft, fmt.Sprint(v))
		if strings.Contains(ht, "{layer_count}") {
			x.Probe("layer count in header")
		}
		if strings.Contains(ht+ft, "{datetime}") {
			x.Probe("datetime rendered")
		}
		if !good {
			x.Fail("output", "the output is not header, job and footer with this run's values (%d layers): got/expected %s", layerMarks(std), diffAt(out, want))
		}
	},
}
