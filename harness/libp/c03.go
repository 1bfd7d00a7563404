package libp

import (
	"fmt"

	. "simmod/goosli/primitives"
	"simmod/goosli/slicers"
	"simmod/goosli/slicers/vip"
	"simmod/harness/core"
	"simmod/simrt"
	simtime "simmod/simrt/sh/time"
)

// shares records what the shares of one parallel operation did.
type shares struct {
	began, done map[int]int
	badN        int
	wn          int
}

// work makes the body of a parallel operation: share wi takes its own time,
// and some sleep.
func (s *shares) work(seed uint64, mean int, sleepers int, nested func()) func(wi, wn int) {
	s.began, s.done = map[int]int{}, map[int]int{}
	return func(wi, wn int) {
		r := core.NewRng(core.Mix(seed, uint64(wi)))
		s.began[wi]++
		s.wn = wn
		for k := r.N(2*mean + 1); k > 0; k-- {
			simrt.Y()
		}
		if r.P(sleepers) {
			simtime.Sleep(simtime.Duration(r.LogN(1, 100000)) * simtime.Millisecond)
		}
		if nested != nil && r.P(30) {
			nested()
		}
		for k := r.N(mean + 1); k > 0; k-- {
			simrt.Y()
		}
		s.done[wi]++
	}
}

// check tells what is wrong once all shares should be complete: one for each
// core, or for each thread the runtime may use (procs, if limited).
func (s *shares) check(n, procs int) string {
	if procs > 0 && procs != n && s.wn == procs {
		n = procs
	}
	for wi := 0; wi < n; wi++ {
		if s.began[wi] != 1 || s.done[wi] != 1 {
			return fmt.Sprintf("share %d of %d was begun %d times and finished %d times", wi, n, s.began[wi], s.done[wi])
		}
	}
	if len(s.began) != n || s.wn != n {
		return fmt.Sprintf("%d shares were handed out, with worker count %d, on %d cores", len(s.began), s.wn, n)
	}
	return ""
}

// degenerate meshes.
func genOdd(r *core.Rng, c *core.Case) {
	switch r.N(8) {
	case 0: // empty
		c.Mesh = nil
	case 1, 2: // flat
		s := core.Shape{Kind: "flat", N: r.In(1, 4), S: core.V3{r.Fr(1, 10), r.Fr(1, 10), 1}}
		if r.P(50) {
			s.R = core.V3{r.Fr(-1, 1), r.Fr(-1, 1), r.Fr(-1, 1)}
		}
		c.Mesh = []core.Shape{s}
	default:
		c.Mesh = core.GenMesh(r, core.GenOpt{MaxShapes: 3, MaxSeg: core.Pick(r, 4, 8, 16), Size: core.Pick(r, .5, 5, 10, 30), Upright: 50})
	}
}

// C03: parallel stages finish.
var C03 = &core.Prop{
	ID: "C03", Quick: 20000, Thorough: 400000, QuickS: 80, Level: "exploration",
	Rule:    "an operation ran with more than one worker, or on a mesh without any layer, and returned",
	Measure: "(operation, cores, triangles, layers)",
	Real:    realAll, Stub: stubAll,
	Gen: func(r *core.Rng, i int) *core.Case {
		c := &core.Case{Kind: core.Pick(r, "wait", "fire", "load", "copy", "slice", "slice", "slice", "mixed", "job")}
		w := core.GenSched(r, 64)
		if r.P(40) && w.Policy != "starve" {
			w.Policy, w.Mean = "starve", int64(r.LogN(2, 3000))
		}
		c.Worlds = []simrt.Config{w}
		c.Set("seed", int64(r.U()>>1))
		switch c.Kind {
		case "wait", "fire":
			c.Set("mean", int64(core.Pick(r, 0, 1, 5, 50, 300)))
			c.Set("sleepers", int64(core.Pick(r, 0, 0, 10, 50, 100)))
			c.Set("nested", int64(r.N(3)))
			c.Set("times", int64(r.In(1, 4)))
		default:
			genOdd(r, c)
			if c.Kind == "job" {
				c.Set("type", int64(r.N(4)))
			}
			lo, hi := core.MinMax(core.Mesh(c.Mesh), core.V3{0, 0, 1})
			if len(core.Mesh(c.Mesh)) == 0 {
				lo, hi = 0, 0
			}
			d := genDir(r)
			c.V = d[:]
			h := (hi - lo) / (float64(core.Pick(r, 1, 1, r.In(1, 10), r.In(1, 60), r.LogN(60, 2000))) - r.Fr(0, .9))
			if r.P(10) || h <= 0 || c.Kind == "job" { // thinner than a layer
				h = (hi - lo + .5) * r.Fr(1, 20)
			}
			genSettings(r, c, h)
			if r.P(30) {
				c.Set("supports", 1)
			}
			if r.P(30) {
				c.ShortR = r.In(5, 95)
			}
			if r.P(30) { // a slow disk
				f := simrt.Fault{Kind: "read", Path: abs("m.stl"), Occ: r.In(1, 4), Action: "stall", Arg: int64(r.LogN(1, 60000))}
				c.Faults = []simrt.Fault{f}
			}
		}
		return c
	},
	Run: func(c *core.Case, x *core.Ctx) {
		fs := newDisk(c)
		ts := core.Mesh(c.Mesh)
		s := settings(c)
		fs.Put(abs("m.stl"), core.STLBin(ts))
		w := c.World(0)
		n := w.CPU
		dir := core.V3{0, 0, 1}
		if len(c.V) == 3 {
			dir = core.V3{c.V[0], c.V[1], c.V[2]}
		}
		var msg string
		var late []func() string
		layers, bound := 0, int64(0)
		fail := func(f string, a ...any) {
			if msg == "" {
				msg = fmt.Sprintf(f, a...)
			}
		}
		o, _ := sim(x, 0, Env{FS: fs, Cfg: w, Drain: true, Faults: c.Faults, ShortR: c.ShortR}, func() {
			seed := uint64(c.Int("seed"))
			mean, sl := int(c.Int("mean")), int(c.Int("sleepers"))
			switch c.Kind {
			case "wait":
				for t := int64(0); t < c.Int("times"); t++ {
					sh, in := &shares{}, &shares{}
					var nested func()
					if c.Int("nested") == 2 {
						once := false
						nested = func() {
							if once {
								return
							}
							once = true
							DoInParallelAndWait(in.work(seed+7, mean/2, 0, nil))
							if m := in.check(n, w.Procs); m != "" {
								fail("a parallel-and-wait operation within a share returned before all was done: %s", m)
							}
						}
					}
					DoInParallelAndWait(sh.work(seed+uint64(t), mean, sl, nested))
					if m := sh.check(n, w.Procs); m != "" {
						fail("parallel-and-wait returned before all was done: %s", m)
					}
				}
			case "fire":
				for t := int64(0); t < c.Int("times"); t++ {
					sh := &shares{}
					DoInParallel(sh.work(seed+uint64(t), mean, sl, nil))
					late = append(late, func() string { return sh.check(n, w.Procs) })
				}
			default:
				ops := []string{c.Kind}
				if c.Kind == "mixed" {
					ops = []string{"load", "copy", "slice", "copy", "load"}
				}
				m := goMesh(ts)
				for _, op := range ops {
					switch op {
					case "load":
						q, err := LoadSTL("m.stl")
						if err != nil {
							fail("loading a good model failed: %v", err)
							return
						}
						if len(q.Triangles) != len(ts) {
							fail("loading gives %d triangles of %d", len(q.Triangles), len(ts))
							return
						}
						for i, t := range q.Triangles {
							if v3(t.P1) != ts[i][0] || v3(t.P2) != ts[i][1] || v3(t.P3) != ts[i][2] {
								fail("triangle %d of %d was not decoded", i, len(ts))
								return
							}
						}
						if len(ts) > 0 {
							m = q
						}
					case "copy":
						q := m.CopyTriangles()
						if trisText(q) != meshText(m) {
							fail("the copy of %d triangles is incomplete", len(m.Triangles))
						}
					case "job":
						s.PlanesFile = "none.txt"
						switch c.Int("type") {
						case 0:
							g := slicers.SliceByVectorToGcode(m, vec(dir), s)
							layers = g.LayerCount()
						case 1:
							g := slicers.SliceByProfile(m, s)
							layers = g.LayerCount()
						case 2:
							g := slicers.Slice5Axes(m, s)
							layers = g.LayerCount()
						case 3:
							g := vip.Slice(m, s)
							layers = g.LayerCount()
						}
					case "slice":
						ls := slicers.SliceByVector(m, vec(dir), s)
						layers = len(ls)
						for i, l := range ls {
							if i > 0 && l.Order <= ls[i-1].Order {
								fail("layer %d follows layer %d", l.Order, ls[i-1].Order)
							}
						}
						if len(m.Triangles) == 0 && len(ls) > 0 {
							fail("%d layers of an empty mesh", len(ls))
						}
					}
				}
			}
		})
		x.State(c.Kind, n, len(ts), layers)
		switch o.Kind {
		case "deadlock":
			x.Fail("deadlock", "%s of %d triangles on %d cores: %s", c.Kind, len(ts), n, o.Panic)
		case "panic":
			x.Fail("panic", "%s of %d triangles on %d cores: %s", c.Kind, len(ts), n, o.Panic)
		case "exit", "killed":
			x.Fail("ends", "%s of %d triangles on %d cores ends the process with status %d", c.Kind, len(ts), n, o.Code)
		case "steps":
			// bounded: compare with a run that never switches without need
			base := core.BaseSched()
			base.MaxSteps = w.MaxSteps
			bo, _ := sim(x, 1, Env{FS: newDisk(c), Cfg: base, Drain: true}, func() {
				if c.Kind != "wait" && c.Kind != "fire" {
					slicers.SliceByVector(goMesh(ts), vec(dir), s)
				}
			})
			bound = bo.Steps
			if bo.Kind == "return" && bound < 5_000_000 {
				x.Fail("progress", "%s of %d triangles on %d cores did not return within %d steps (%d without preemption)", c.Kind, len(ts), n, o.Steps, bound)
			}
			x.Probe("too long")
		}
		if x.Failed() || o.Kind == "steps" {
			return
		}
		if msg != "" {
			x.Fail("shares", "%s", msg)
			return
		}
		for _, f := range late {
			if m := f(); m != "" {
				x.Fail("shares", "fire-and-forget: %s", m)
				return
			}
		}
		if len(o.Leaked) > 0 {
			x.Fail("stranded", "%s of %d triangles on %d cores leaves workers behind for ever: %v", c.Kind, len(ts), n, o.Leaked)
			return
		}
		if c.Kind == "slice" && layers == 0 {
			x.Probe("no layers")
		}
		x.Nontriv = n > 1 || c.Kind == "slice" && layers == 0
	},
}
