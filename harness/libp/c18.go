package libp

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"simmod/goosli/debug"
	. "simmod/goosli/primitives"
	"simmod/goosli/slicers/vip"
	"simmod/harness/clip"
	"simmod/harness/core"
	"simmod/simrt"
	simsync "simmod/simrt/sh/sync"
)

var c18Files = []string{"m0.stl", "m1.stl", "torn.stl", "missing.stl", "text.stl", "facet.stl", "vertex.stl", "long.stl", "dir"}

// C18: no file stays open.
var C18 = &core.Prop{
	ID: "C18", Quick: 12000, Thorough: 800000, QuickS: 60, Level: "fault_enumeration",
	Rule:    "at least two calls returned after opening and closing a file, or a tool closed one",
	Measure: "(sequence of calls and their outcomes, fault)",
	Real:    append([]string{"the tools in cases of kind tool"}, realAll...), Stub: stubAll,
	Gen: func(r *core.Rng, i int) *core.Case {
		if r.P(12) {
			return clip.GenC18(r)
		}
		c := &core.Case{Kind: "history"}
		size, _, planes := genHistory(r, c)
		c.Texts["bad.txt"] = core.Pick(r, "nonsense\n", planeLine(r, size)+"\n1 2 x\n", strings.Repeat("x", 70000))
		c.Texts["empty.txt"] = ""
		if r.P(80) {
			c.Texts["data/config.yaml"] = "debug: true\ndebug_file: /dbg/debug.txt\n"
			if r.P(80) {
				c.Texts["/dbg/debug.txt"] = "line\n"
			}
		}
		callers := core.Pick(r, 1, 1, 1, 1, 2, 3)
		for k := 0; k < callers; k++ {
			var ops []core.Op
			for n := r.In(1, 10/callers+1); n > 0; n-- {
				o := core.Op{A: r.N(3)}
				switch k := r.N(20); {
				case k < 8:
					o.Kind, o.S = "load", core.Pick(r, c18Files...)
				case k < 12:
					o.Kind, o.S = "save", core.Pick(r, "out.stl", "out.stl", "out2.stl", "dir", "nodir/x.stl")
				case k < 13:
					o.Kind, o.S = "planes", core.Pick(r, planes[0], planes[1], "none.txt", "none.txt", "empty.txt", "bad.txt", "dir")
				case k < 16:
					o.Kind, o.B = "trace", r.N(6)
				case k < 18:
					o.Kind = "recreate"
				case k < 19:
					o.Kind, o.S = "tofile", core.Pick(r, "out.txt", "out.txt", "out.txt", "dir")
				default:
					o.Kind, o.S = "template", core.Pick(r, "data/header_template.txt", "data/header_template.txt", "missing.txt")
				}
				ops = append(ops, o)
			}
			c.Ops = append(c.Ops, ops)
		}
		for k := core.Pick(r, 0, 1, 1, 1, 2, 3); k > 0; k-- {
			p := core.Pick(r, "m0.stl", "m1.stl", "torn.stl", "text.stl", "facet.stl", "vertex.stl", "out.stl", "out2.stl", "/dbg/debug.txt", "p0.txt", "p1.txt", "out.txt")
			f := simrt.Fault{Path: abs(p), Occ: core.Pick(r, 1, 1, 1, 2, r.In(1, 6)), Action: "err", Errno: core.Pick(r, "EIO", "ENOSPC", "EACCES", "ENOMEM")}
			switch {
			case strings.HasPrefix(p, "out"):
				f.Kind = core.Pick(r, "create", "write", "write", "close")
			case p == "/dbg/debug.txt":
				f.Kind = core.Pick(r, "create", "openw", "write", "close", "stat")
			default:
				f.Kind = core.Pick(r, "open", "fstat", "seek", "read", "read", "read", "close")
				if f.Kind == "read" && r.P(20) {
					f.Action, f.Errno, f.Arg = "trunc", "", int64(r.N(400))
				}
			}
			c.Faults = append(c.Faults, f)
		}
		if r.P(30) {
			c.ShortR = r.In(5, 100)
		}
		if r.P(30) {
			c.ShortW = r.In(5, 100)
		}
		if r.P(10) {
			c.Set("full", 1)
			c.Set("space", int64(r.N(3000)))
		}
		c.Worlds = []simrt.Config{core.GenSched(r, 8)}
		return c
	},
	Run: func(c *core.Case, x *core.Ctx) {
		if c.Tool != "" {
			clip.RunC18(c, x)
			return
		}
		if len(c.Mesh) == 0 || len(c.Ops) == 0 {
			return
		}
		fs := histDisk(c)
		fs.Mkdir(abs("dir"))
		fs.Put(abs("facet.stl"), []byte("solid x\n facet normal 0 0 0\n  outer loop\n   vertex 0 0 0\n   vertex 1 0 0\n   vertex 0 1 0\n  endloop\n endfacet\n facet normal 0 0 0\n  outer loop\n   vertex 0 0 1\n"))
		fs.Put(abs("vertex.stl"), []byte("solid x\n facet normal 0 0 0\n  outer loop\n   vertex 0 0 0\n   vertex 1 0 zero\n   vertex 0 1 0\n  endloop\n endfacet\nendsolid x\n"))
		fs.Put(abs("long.stl"), []byte("solid "+strings.Repeat("x", 70000)+"\n facet normal 0 0 0\n"))
		if c.Int("full") == 1 {
			fs.Free = c.Int("space")
		}
		s := settings(c)
		var bad string
		done := make([]string, len(c.Ops))
		one := func(k int, op core.Op, m *Mesh) (out string) {
			defer func() {
				if p := recover(); p != nil {
					if t := fmt.Sprintf("%T", p); strings.Contains(t, "simrt") {
						panic(p)
					}
					out = "panic"
				}
			}()
			switch op.Kind {
			case "load":
				if _, err := LoadSTL(op.S); err != nil {
					return "error"
				}
			case "save":
				if err := SaveSTL(op.S, m); err != nil {
					return "error"
				}
			case "planes":
				q := s
				q.PlanesFile = op.S
				vip.Slice(m, q)
			case "trace":
				a, b, d := Point{X: 1}, Point{Y: 2}, Point{Z: 3}
				switch op.B {
				case 0:
					debug.AddPointsToFile([]Point{a, b, d}, debug.RedColor)
				case 1:
					debug.AddLine(Line{P1: a, P2: b}, debug.BlueColor)
				case 2:
					debug.AddTriangle(NewTriangle(a, b, d), debug.GreenColor)
				case 3:
					debug.AddTriangleByPoints(a, b, d, debug.BlackColor)
				case 4:
					debug.AddLayer(Layer{Paths: []Path{{Points: []Point{a, b}}}}, debug.RedColor)
				default:
					debug.AddPath(Path{Points: []Point{a, b, d}}, debug.RedColor)
				}
			case "recreate":
				debug.RecreateFile()
			case "tofile":
				var b bytes.Buffer
				b.WriteString(strings.Repeat("text ", 20))
				ToFile(b, op.S)
			case "template":
				PrepareDataFile(op.S, map[string]string{"a": "b"})
			}
			return "ok"
		}
		o, p := sim(x, 0, Env{FS: fs, Cfg: c.World(0), Faults: c.Faults, ShortR: c.ShortR, ShortW: c.ShortW}, func() {
			var ms []*Mesh
			for _, t := range histMeshes(c) {
				ms = append(ms, goMesh(t))
			}
			if l := simrt.OpenNow(); len(l) > 0 {
				bad = fmt.Sprintf("reading the configuration leaves open %v", l)
				return
			}
			run := func(k int) {
				for i, op := range c.Ops[k] {
					out := one(k, op, ms[op.A%len(ms)])
					done[k] += op.Kind + " " + out + ", "
					if len(c.Ops) == 1 && bad == "" {
						if l := simrt.OpenNow(); len(l) > 0 {
							sort.Strings(l)
							bad = fmt.Sprintf("call %d (%s %s: %s) leaves open %v", i, op.Kind, op.S, out, l)
						}
					}
				}
			}
			if len(c.Ops) == 1 {
				run(0)
				return
			}
			var wg simsync.WaitGroup
			for k := range c.Ops {
				k := k
				wg.Add(1)
				simrt.Go(func() { defer wg.Done(); run(k) })
			}
			wg.Wait()
			if l := simrt.OpenNow(); len(l) > 0 && bad == "" {
				sort.Strings(l)
				bad = fmt.Sprintf("the calls %v leave open %v", done, l)
			}
		})
		if o.Kind == "steps" {
			x.Probe("too long")
			return
		}
		if len(p.DoubleClose) > 0 {
			x.Fail("closed", "a closed handle is used: %v (calls so far: %v)", p.DoubleClose, done)
			return
		}
		if bad != "" {
			x.Fail("open", "%s", bad)
			return
		}
		if o.Kind != "return" {
			x.Probe("process ended: " + o.Kind)
			if o.Kind == "deadlock" || o.Kind == "panic" {
				x.Fail("ends", "the calls end with %s %s", o.Kind, o.Panic)
			}
		}
		n := 0
		for _, r := range p.Log {
			if r.Kind == "close" {
				n++
			}
		}
		flt := ""
		for k := range p.Injected {
			flt += k + " "
		}
		for _, d := range done {
			for _, s := range strings.Split(d, ", ") {
				if s != "" {
					x.Probes[s]++
				}
			}
		}
		x.Nontriv = n >= 2
		x.State(done, len(flt))
		x.See(core.HashStr(fmt.Sprint(done)))
	},
}
