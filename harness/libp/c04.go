package libp

import (
	"fmt"

	"simmod/harness/core"
	"simmod/simrt"
	simsync "simmod/simrt/sh/sync"

	. "simmod/goosli/primitives"
)

// C04: concurrent callers.
var C04 = &core.Prop{
	ID: "C04", Quick: 700, Thorough: 60000, QuickS: 90, Level: "exploration", Race: true,
	Rule:    "at least two callers ran at the same time and at least two calls without error were compared with the same calls alone",
	Measure: "(multiset of call kinds per caller, callers)",
	Real:    realAll, Stub: append([]string{"data races are looked for by Go's race detector, which sees the simulated schedule's happens-before edges only"}, stubAll...),
	Gen: func(r *core.Rng, i int) *core.Case {
		c := &core.Case{Kind: "callers"}
		size, files, planes := genHistory(r, c)
		n := core.Pick(r, 2, 2, 2, 3, 3, 4, 6)
		same := core.Op{}
		if r.P(50) { // callers doing the same thing
			same = genOp(r, true, size, files, planes, "")
		}
		simp := false
		for k := 0; k < n; k++ {
			var ops []core.Op
			for m := core.Pick(r, 1, 1, 2, 3, 4); m > 0; m-- {
				op := genOp(r, true, size, files, planes, "")
				if same.Kind != "" && r.P(60) {
					a := op.A
					op = same
					if r.P(30) {
						op.A = a
					}
				}
				if op.Kind == opSave {
					op.S = fmt.Sprintf("out%d.stl", k)
				}
				simp = simp || op.Kind == opSimplify
				ops = append(ops, op)
			}
			c.Ops = append(c.Ops, ops)
		}
		w := core.GenSched(r, 8)
		if w.Policy == "none" {
			w.Policy, w.Mean = "random", int64(r.LogN(2, 3000))
		}
		c.Worlds = []simrt.Config{w}
		if simp {
			c.Worlds[0].MapSeed = 0
		}
		return c
	},
	Run: func(c *core.Case, x *core.Ctx) {
		if len(c.Mesh) == 0 || len(c.Ops) == 0 {
			return
		}
		// alone: one caller after the other, each with its own meshes
		alone := make([][]opRes, len(c.Ops))
		w := core.BaseSched()
		for k, ops := range c.Ops {
			fs := histDisk(c)
			s := settings(c)
			o, _ := sim(x, 1+k, Env{FS: fs, Cfg: w}, func() {
				for _, op := range ops {
					ms := histMeshes(c)
					m := goMesh(ms[op.A%len(ms)])
					alone[k] = append(alone[k], call(op, m, s, reader(fs)))
				}
			})
			if o.Kind != "return" { // an operation that ends the process is no case for concurrency
				x.Probe("a call ends the process")
				return
			}
		}
		got := make([][]opRes, len(c.Ops))
		races := simrt.RaceErrors()
		fs := histDisk(c)
		s := settings(c)
		stext := settingsText(s)
		var changed string
		o, _ := sim(x, 0, Env{FS: fs, Cfg: c.World(0)}, func() {
			var shared []*Mesh
			var text []string
			for _, t := range histMeshes(c) {
				shared = append(shared, goMesh(t))
			}
			for _, m := range shared {
				text = append(text, meshText(m))
			}
			var wg simsync.WaitGroup
			for k := range c.Ops {
				k := k
				wg.Add(1)
				simrt.Go(func() {
					defer wg.Done()
					for _, op := range c.Ops[k] {
						got[k] = append(got[k], call(op, shared[op.A%len(shared)], s, reader(fs)))
					}
				})
			}
			wg.Wait()
			for j, m := range shared {
				if meshText(m) != text[j] {
					changed = fmt.Sprintf("the shared mesh %d was changed", j)
				}
			}
			if settingsText(s) != stext {
				changed = "the shared settings were changed"
			}
			for k := range got {
				for i, r := range got[k] {
					if t := r.again(); t != r.text && changed == "" {
						changed = fmt.Sprintf("the result of caller %d's call %d (%s) was changed afterwards: %s", k, i, c.Ops[k][i].Kind, brief(r.text, t))
					}
				}
			}
		})
		if n := simrt.RaceErrors() - races; n > 0 {
			x.Fail("race", "%d data races between the callers' threads or the library's own workers (the replay prints them)", n)
			return
		}
		if o.Kind == "steps" {
			x.Probe("too long")
			return
		}
		if o.Kind != "return" {
			x.Fail("ends", "the callers' calls return alone, together the process ends with %s %s", o.Kind, o.Panic)
			return
		}
		if changed != "" {
			x.Fail("changed", "%s", changed)
			return
		}
		good, kinds := 0, ""
		for k := range got {
			kinds += "/"
			for i, r := range got[k] {
				op := c.Ops[k][i]
				kinds += op.Kind + " "
				x.Probes["call: "+op.Kind]++
				if r.text != alone[k][i].text {
					x.Fail("isolation", "caller %d's call %d (%s) got another result than alone: %s", k, i, op.Kind, brief(r.text, alone[k][i].text))
					return
				}
				x.See(core.HashStr(r.text))
				if !r.err {
					good++
				}
			}
		}
		x.State(kinds)
		x.Nontriv = good >= 2 && len(c.Ops) >= 2
	},
}
