// Package libp checks the library in the simulator.
package libp

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"

	"simmod/goosli/gcode"
	. "simmod/goosli/primitives"
	"simmod/goosli/slicers"
	"simmod/harness/core"
	"simmod/reg/data"
	"simmod/reg/lib"
	"simmod/simrt"
	simlog "simmod/simrt/sh/log"
	simos "simmod/simrt/sh/os"
)

const cwd = "/work"

var realAll = []string{"primitives, helpers, slicers, slicers/vip, gcode, debug", "fogleman/simplify, yaml, bufio, encoding/binary, sort, strconv"}
var stubAll = []string{"operating system (files, exit): simulated in memory", "goroutine scheduler, channels, locks, timers: simulated, sequentially consistent, statement granularity", "clock, core count, map iteration order: drawn from the seed"}

// Props of the library checks.
var Props = []*core.Prop{C02, C03, C04, C05, C06, C07, C14, C18}

// newDisk is the installation directory.
func newDisk(c *core.Case) *simrt.FS {
	fs := simrt.NewFS()
	fs.Mkdir(cwd + "/data")
	fs.Mkdir("/dbg")
	fs.Mkdir("/tmp")
	put := func(n, def string) {
		if t, ok := c.Texts[n]; ok {
			if t == "\x00absent" {
				return
			}
			def = t
		}
		fs.Put(abs(n), []byte(def))
	}
	put("data/header_template.txt", data.Files["header_template.txt"])
	put("data/footer_template.txt", data.Files["footer_template.txt"])
	put("data/config.yaml", "debug: false\ndebug_file: /dbg/debug.txt\n")
	for n := range c.Texts {
		if _, ok := fs.Get(abs(n)); !ok {
			put(n, "")
		}
	}
	return fs
}

func abs(p string) string {
	if filepath.IsAbs(p) {
		return filepath.Clean(p)
	}
	return filepath.Join(cwd, p)
}

// Env is the environment of a world.
type Env struct {
	FS     *simrt.FS
	Cfg    simrt.Config
	Faults []simrt.Fault
	ShortR int
	ShortW int
	Drain  bool
	Bare   bool // without initialising the library packages
}

// sim runs body as a simulated program linked with the library.
func sim(x *core.Ctx, wi int, e Env, body func()) (*simrt.Outcome, *simrt.Proc) {
	if e.Cfg.MaxSteps == 0 {
		e.Cfg.MaxSteps = 60_000_000
	}
	w := simrt.NewWorld(e.Cfg)
	if e.FS != nil {
		w.Proc.FS = e.FS
	}
	w.Proc.Args = []string{"program"}
	w.Proc.Cwd = cwd
	w.Proc.Env = map[string]string{"HOME": "/root"}
	w.Proc.Faults = append([]simrt.Fault(nil), e.Faults...)
	w.Proc.ShortRead = e.ShortR
	w.Proc.ShortWrite = e.ShortW
	o := w.Run(func() {
		simos.SimStart()
		simlog.SimStart()
		lib.Reset()
		body()
	}, e.Drain)
	x.Done(wi, &o)
	for k, v := range w.Proc.Injected {
		x.Faults[k] += v
	}
	if e.FS != nil {
		for _, f := range e.FS.List() {
			b, _ := e.FS.Get(f)
			x.See(core.HashStr(f))
			x.See(core.HashBytes(b))
		}
	}
	if d := os.Getenv("SIMDUMP"); d != "" && x.Verbose && e.FS != nil { // for people looking at a replay
		for _, f := range e.FS.List() {
			b, _ := e.FS.Get(f)
			n := filepath.Join(d, fmt.Sprint(wi), f)
			os.MkdirAll(filepath.Dir(n), 0755)
			os.WriteFile(n, b, 0644)
		}
	}
	if x.Verbose {
		x.Note("process %d: %s %s, %d steps, %d switches, cpu %d, policy %s", wi, o.Kind, o.Panic, o.Steps, o.Switches, e.Cfg.CPU, e.Cfg.Policy)
		for _, s := range w.Proc.Log {
			l := fmt.Sprintf("  sys %d step %d g%d %s %s #%d arg %d -> %d", s.N, s.Step, s.G, s.Kind, s.Path, s.Occ, s.Arg, s.Ret)
			if s.Err != "" {
				l += " " + s.Err
			}
			if s.Fault != "" {
				l += "   <-- injected: " + s.Fault
			}
			x.Note("%s", l)
		}
	}
	return &o, w.Proc
}

func pt(v core.V3) Point   { return Point{X: v[0], Y: v[1], Z: v[2]} }
func vec(p core.V3) Vector { return V(p[0], p[1], p[2]) }
func v3(p Point) core.V3   { return core.V3{p.X, p.Y, p.Z} }
func vv(p Vector) core.V3  { return core.V3{p.X, p.Y, p.Z} }

// goMesh makes a library mesh.
func goMesh(ts []core.Tri) *Mesh {
	r := make([]Triangle, len(ts))
	for i, t := range ts {
		r[i] = NewTriangle(pt(t[0]), pt(t[1]), pt(t[2]))
	}
	m := NewMesh(r)
	return &m
}

// f64 folds numbers into text that tells every bit.
func bits(b *strings.Builder, fs ...float64) {
	for _, f := range fs {
		fmt.Fprintf(b, "%x,", math.Float64bits(f))
	}
	b.WriteByte(';')
}

func meshText(m *Mesh) string {
	var b strings.Builder
	if m == nil {
		return "nil"
	}
	for _, t := range m.Triangles {
		bits(&b, t.N.X, t.N.Y, t.N.Z, t.P1.X, t.P1.Y, t.P1.Z, t.P2.X, t.P2.Y, t.P2.Z, t.P3.X, t.P3.Y, t.P3.Z)
	}
	return b.String()
}

func pathsText(b *strings.Builder, ps []Path) {
	for _, p := range ps {
		b.WriteByte('(')
		for _, q := range p.Points {
			bits(b, q.X, q.Y, q.Z)
		}
		b.WriteByte(')')
	}
	b.WriteByte('|')
}

func layersText(ls []Layer) string {
	var b strings.Builder
	for _, l := range ls {
		fmt.Fprint(&b, l.Order)
		bits(&b, l.Norm.X, l.Norm.Y, l.Norm.Z)
		pathsText(&b, l.Paths)
		pathsText(&b, l.MiddlePs)
		pathsText(&b, l.InnerPs)
		pathsText(&b, l.Fill)
		b.WriteByte('\n')
	}
	return b.String()
}

// settings draws a full set of slicer settings.
func genSettings(r *core.Rng, c *core.Case, h float64) {
	lw := math.Round(r.Fr(.3, .8)*1000) / 1000
	setF(c, "layer_height", h)
	setF(c, "line_width", lw)
	setF(c, "wall_thickness", lw*(float64(r.In(0, 3))+.5))
	c.Set("fill_density", int64(r.In(6, 60)))
	if r.P(10) {
		c.Set("fill_density", int64(core.Pick(r, r.In(61, 100), 100, 120, 200, r.N(6))))
	}
	c.Set("filling", int64(r.N(3)))
	c.Set("top", int64(r.N(4)))
	c.Set("bottom", int64(r.N(4)))
	setF(c, "bar", core.Pick(r, 1.75, 2.85, 3))
	c.Set("s1", int64(r.In(5, 120)))
	c.Set("sw", int64(r.In(5, 120)))
	c.Set("sf", int64(r.In(5, 120)))
	if r.P(30) {
		c.Set("fanoff", 1)
	}
	if r.P(40) {
		c.Set("retract", 1)
		c.Set("rspeed", int64(r.In(200, 3000)))
		setF(c, "rdist", math.Round(r.Fr(.1, 6)*100)/100)
		if r.P(12) {
			setF(c, "rdist", 0)
		}
	}
	c.Set("skirt", int64(r.N(4)))
	setF(c, "epsilon", r.Fr(.01, 5))
}

func setF(c *core.Case, k string, f float64) {
	if c.Opts == nil {
		c.Opts = map[string]string{}
	}
	c.Opts[k] = fmt.Sprintf("%v", f)
}

func getF(c *core.Case, k string, d float64) float64 {
	if s, ok := c.Opts[k]; ok {
		fmt.Sscan(s, &d)
	}
	return d
}

func getI(c *core.Case, k string, d int64) int {
	if v, ok := c.I[k]; ok {
		return int(v)
	}
	return int(d)
}

func settings(c *core.Case) slicers.Settings {
	g := gcode.GcodeSettings{
		BarDiameter: getF(c, "bar", 1.75), Flow: 1, LayerHeight: getF(c, "layer_height", .2), LineWidth: getF(c, "line_width", .4),
		FanOffLayer1: getI(c, "fanoff", 0) == 1, PrintSpeed: getI(c, "sf", 50) * 60, PrintSpeedLayer1: getI(c, "s1", 40) * 60, PrintSpeedWall: getI(c, "sw", 30) * 60,
		Retraction: getI(c, "retract", 0) == 1, RetractionSpeed: getI(c, "rspeed", 600), RetractionDistance: getF(c, "rdist", 2),
	}
	return slicers.Settings{
		GcodeSettings: &g, DateTime: "now", Epsilon: getF(c, "epsilon", 10), LayerHeight: g.LayerHeight, WallThickness: getF(c, "wall_thickness", 1.2),
		FillDensity: getI(c, "fill_density", 20), BedTemperature: 60, ExtruderTemperature: 200, PlanesFile: "planes_file.txt",
		FillingType: [3]string{"Lines", "Squares", "Triangles"}[getI(c, "filling", 0)%3], ColorizedAngle: getF(c, "angle", 30), UnitVector: V(0, 0, 1),
		SupportsOn: getI(c, "supports", 0) == 1, SupportOffset: getF(c, "support_offset", 1), TopLayers: getI(c, "top", 3), BottomLayers: getI(c, "bottom", 3), SkirtLineCount: getI(c, "skirt", 0),
	}
}

func settingsText(s slicers.Settings) string { return fmt.Sprintf("%+v %+v", s, *s.GcodeSettings) }
