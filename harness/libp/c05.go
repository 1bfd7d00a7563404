package libp

import (
	"fmt"
	"strings"

	. "simmod/goosli/primitives"
	"simmod/goosli/slicers"
	"simmod/harness/core"
	"simmod/simrt"
)

// history is a workload's setting: files, meshes and settings.
func genHistory(r *core.Rng, c *core.Case) (size float64, files, planes []string) {
	size = core.Pick(r, 2., 10, 10, 30)
	c.Mesh = core.GenMesh(r, core.GenOpt{MaxShapes: 3, MaxSeg: core.Pick(r, 4, 6, 10), Size: size, Upright: 60})
	genSettings(r, c, size*core.Pick(r, .05, .1, .1, .25))
	if r.P(30) {
		c.Set("supports", 1)
		setF(c, "support_offset", core.Pick(r, 0, .5))
	}
	if r.P(20) {
		setF(c, "angle", r.Fr(0, 90))
	}
	c.Texts = map[string]string{}
	files = []string{"m0.stl", "m1.stl", "torn.stl", "missing.stl", "text.stl", "m0.stl", "m1.stl"}
	c.Set("ascii", int64(r.N(8)))
	c.Set("cut", int64(r.In(1, 500)))
	planes = []string{"p0.txt", "p1.txt"}
	c.Texts["p0.txt"] = planeLine(r, size) + "\n"
	c.Texts["p1.txt"] = planeLine(r, size) + "\n" + planeLine(r, size) + "\n"
	return
}

// meshes of a workload: one per shape.
func histMeshes(c *core.Case) [][]core.Tri {
	var r [][]core.Tri
	for i := range c.Mesh {
		r = append(r, core.Mesh(c.Mesh[i:i+1]))
	}
	return r
}

// histDisk is the disk of a workload.
func histDisk(c *core.Case) *simrt.FS {
	fs := newDisk(c)
	ms := histMeshes(c)
	for i := 0; i < 2; i++ {
		var ts []core.Tri
		if len(ms) > 0 {
			ts = ms[i%len(ms)]
		}
		f := "bin"
		if c.Int("ascii")>>i&1 == 1 {
			f = "ascii"
		}
		b := core.STL(ts, f, uint64(c.Int("ascii")))
		fs.Put(abs(fmt.Sprintf("m%d.stl", i)), b)
		if i == 0 {
			if f == "ascii" {
				b = core.STL(ts, "bin", 1)
			}
			cut := int(c.Int("cut"))
			if cut >= len(b) {
				cut = len(b) - 1
			}
			fs.Put(abs("torn.stl"), b[:len(b)-cut])
		}
	}
	fs.Put(abs("text.stl"), []byte(strings.Repeat("this is no model\n", 10)))
	return fs
}

// reader gives file contents within a world.
func reader(fs *simrt.FS) func(string) string {
	return func(p string) string {
		n, h, ok := fs.Peek(abs(p))
		if !ok {
			return "no file"
		}
		return fmt.Sprintf("%d bytes %x", n, h)
	}
}

func deep(m *Mesh) *Mesh {
	c := NewMesh(append([]Triangle(nil), m.Triangles...))
	return &c
}

func brief(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string {
		lo, hi := i-40, i+60
		if lo < 0 {
			lo = 0
		}
		if hi > len(s) {
			hi = len(s)
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("they differ at %d of %d/%d characters: %q and %q", i, len(a), len(b), cut(a), cut(b))
}

// C05: results do not depend on history.
var C05 = &core.Prop{
	ID: "C05", Quick: 8000, Thorough: 100000, QuickS: 80, Level: "exploration",
	Rule:    "at least two calls returned without error, after at least one other call, and were compared with the same call in a fresh process",
	Measure: "(sequence of call kinds)",
	Real:    realAll, Stub: stubAll,
	Gen: func(r *core.Rng, i int) *core.Case {
		c := &core.Case{Kind: "history"}
		size, files, planes := genHistory(r, c)
		var ops []core.Op
		n := core.Pick(r, 2, 3, 4, r.In(2, 10), r.In(4, 16))
		focus := core.Op{}
		if r.P(40) { // the same call over and over, with others in between
			focus = genOp(r, true, size, files, planes, "m0.stl")
		}
		simp := false
		for len(ops) < n {
			op := genOp(r, true, size, files, planes, core.Pick(r, "m0.stl", "m1.stl", "out.stl"))
			if focus.Kind != "" && r.P(50) {
				a := op.A
				op = focus
				if r.P(50) {
					op.A = a
				}
				if op.V != 0 && r.P(50) {
					op.V = core.Pick(r, 0, r.In(1, 1<<30))
				}
			}
			simp = simp || op.Kind == opSimplify
			ops = append(ops, op)
			if r.P(12) { // the same call on a mesh its owner moved meanwhile, or on a turned one
				d := genDir(r)
				sh := core.Op{Kind: opShift, A: op.A, F: []float64{d[0], d[1], d[2]}}
				if r.P(30) {
					sh = core.Op{Kind: opRotate, A: op.A, F: []float64{0, 0, 0, r.Fr(10, 350)}, B: r.N(2)}
					op.A = 7
				}
				ops = append(ops, sh, op)
			}
		}
		c.Ops = [][]core.Op{ops}
		c.Worlds = []simrt.Config{core.GenSched(r, 16), core.GenSched(r, 8)}
		if simp { // its result may depend on the order of maps, C13 bounds it
			c.Worlds[0].MapSeed, c.Worlds[1].MapSeed = 0, 0
		}
		return c
	},
	Run: func(c *core.Case, x *core.Ctx) {
		if len(c.Mesh) == 0 || len(c.Ops) == 0 {
			return
		}
		type rec struct {
			op  core.Op
			in  *Mesh
			fs  *simrt.FS
			res opRes
		}
		var recs []rec
		var bad string
		fs := histDisk(c)
		s := settings(c)
		stext := settingsText(s)
		o, _ := sim(x, 0, Env{FS: fs, Cfg: c.World(0)}, func() {
			var store []*Mesh
			var text []string
			for _, t := range histMeshes(c) {
				store = append(store, goMesh(t))
			}
			for _, m := range store {
				text = append(text, meshText(m))
			}
			for i, op := range c.Ops[0] {
				m := store[op.A%len(store)]
				k := rec{op: op, in: deep(m), fs: fs.Clone()}
				k.res = call(op, m, s, reader(fs))
				if op.Kind == opShift {
					for j, q := range store {
						if q == m {
							text[j] = meshText(m)
						}
					}
					for j := range recs {
						for _, q := range recs[j].res.meshes {
							if q == m {
								recs[j].res.moved = true
							}
						}
					}
				}
				recs = append(recs, k)
				for j, q := range store {
					if meshText(q) != text[j] && bad == "" {
						bad = fmt.Sprintf("call %d (%s) changed a mesh (the %d-th of those around, it was given the %d-th)", i, op.Kind, j, op.A%len(store))
					}
				}
				if settingsText(s) != stext && bad == "" {
					bad = fmt.Sprintf("call %d (%s) changed the settings from %s to %s", i, op.Kind, stext, settingsText(s))
				}
				for _, q := range k.res.meshes {
					if q != nil && q != m && len(store) < 12 && len(q.Triangles) > 0 && len(q.Triangles) < 400 {
						store = append(store, q)
						text = append(text, meshText(q))
					}
				}
			}
			for i, k := range recs {
				if t := k.res.again(); t != k.res.text && !k.res.moved && bad == "" {
					bad = fmt.Sprintf("the result of call %d (%s) was changed by a later call: %s", i, k.op.Kind, brief(k.res.text, t))
				}
			}
		})
		if o.Kind == "steps" {
			x.Probe("too long")
			return
		}
		if bad != "" {
			x.Fail("changed", "%s", bad)
			return
		}
		ended := o.Kind == "exit" && len(recs) < len(c.Ops[0]) // a call gave up: the same call alone must, too
		if o.Kind == "panic" && len(recs) < len(c.Ops[0]) {
			ended = true
		}
		if o.Kind != "return" && !ended {
			x.Fail("ends", "the history ends with %s %s", o.Kind, o.Panic)
			return
		}
		good := 0
		kinds := ""
		for i, k := range recs {
			var alone opRes
			f2 := k.fs
			s2 := settings(c)
			oa, _ := sim(x, i+1, Env{FS: f2, Cfg: c.World(1)}, func() {
				alone = call(k.op, k.in, s2, reader(f2))
			})
			kinds += k.op.Kind + " "
			if oa.Kind == "steps" {
				x.Probe("too long")
				return
			}
			if oa.Kind != "return" {
				x.Fail("alone", "call %d (%s) ends with %s %s in a fresh process, but returns after %d other calls", i, k.op.Kind, oa.Kind, oa.Panic, i)
				return
			}
			if alone.text != k.res.text {
				x.Fail("history", "call %d (%s) after %d other calls gives another result than in a fresh process: %s", i, k.op.Kind, i, brief(k.res.text, alone.text))
				return
			}
			x.See(core.HashStr(k.res.text))
			x.Probes["call: "+k.op.Kind]++
			if strings.HasPrefix(k.res.text, "panic: ") {
				x.Probes["panicked: "+k.op.Kind]++
			}
			if !k.res.err && i > 0 {
				good++
			}
		}
		if ended {
			x.Probe("history ends in an exit")
		}
		x.State(kinds)
		x.Nontriv = good >= 2
	},
}

var _ = slicers.Settings{}
