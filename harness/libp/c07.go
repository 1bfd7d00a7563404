package libp

import (
	"encoding/binary"
	"fmt"
	"math"
	"strings"

	. "simmod/goosli/primitives"
	"simmod/harness/core"
	"simmod/simrt"
	simsync "simmod/simrt/sh/sync"
)

// stlOf is the file a saved mesh must give.
func stlOf(m *Mesh) []byte {
	b := make([]byte, 84)
	binary.LittleEndian.PutUint32(b[80:], uint32(len(m.Triangles)))
	f := func(x float64) { b = binary.LittleEndian.AppendUint32(b, math.Float32bits(float32(x))) }
	for _, t := range m.Triangles {
		for _, p := range []core.V3{vv(t.N), v3(t.P1), v3(t.P2), v3(t.P3)} {
			for _, x := range p {
				f(x)
			}
		}
		b = append(b, 0, 0)
	}
	return b
}

// sameSTL compares a file with what it must hold; the first 80 bytes and the
// attribute bytes of the triangles mean nothing.
func sameSTL(got, want []byte) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d bytes, %d expected", len(got), len(want))
	}
	for i := 80; i < len(got); i++ {
		if got[i] != want[i] {
			if i < 84 {
				return fmt.Sprintf("the count reads %d, %d expected", binary.LittleEndian.Uint32(got[80:]), binary.LittleEndian.Uint32(want[80:]))
			}
			o := (i - 84) % 50
			if o >= 48 {
				continue
			}
			k := i - o%4
			a, b := math.Float32frombits(binary.LittleEndian.Uint32(got[k:])), math.Float32frombits(binary.LittleEndian.Uint32(want[k:]))
			if a != a && b != b {
				continue
			}
			return fmt.Sprintf("number %d of triangle %d of %d is %v, %v expected", o/4, (i-84)/50, (len(got)-84)/50, a, b)
		}
	}
	return ""
}

// C07: saving.
var C07 = &core.Prop{
	ID: "C07", Quick: 200000, Thorough: 3000000, QuickS: 60, Level: "fault_enumeration",
	Rule:    "a save succeeded and its file was compared, or a fault hit it and an error was returned",
	Measure: "(saves, callers, target, fault, disk space, size class, outcome)",
	Real:    realAll, Stub: stubAll,
	Gen: func(r *core.Rng, i int) *core.Case {
		c := &core.Case{Kind: core.Pick(r, "good", "fault", "fault", "fault", "full")}
		c.Set("seed", int64(r.U()>>1))
		n := core.Pick(r, 1, 1, 1, 2, 3)
		c.Set("conc", int64(r.N(2)))
		total := int64(0)
		var sizes []int64
		var ops []core.Op
		for k := 0; k < n; k++ {
			o := core.Op{Kind: "save", A: k, S: fmt.Sprintf("o%d.stl", k)}
			o.B = core.Pick(r, 0, 1, 2, r.In(1, 60), r.In(60, 90), r.LogN(10, 400), 81*r.In(1, 3)-r.N(3))
			if r.P(2) {
				o.B = r.LogN(400, 3000)
			} else if r.N(500) == 0 {
				o.B = r.LogN(3000, 140000)
			}
			if c.Int("conc") == 0 && k > 0 && r.P(60) {
				o.S = "o0.stl" // the same file again
			}
			switch r.N(12) {
			case 0:
				o.S = "missing/o.stl"
			case 1:
				o.S = "dir"
			case 2:
				o.S = "/tmp/out dir/" + o.S
			}
			sz := int64(84 + 50*o.B)
			total += sz
			sizes = append(sizes, sz)
			ops = append(ops, o)
		}
		c.Ops = [][]core.Op{ops}
		if r.P(60) {
			c.Set("old", int64(core.Pick(r, 0, 10, 84, 134, r.LogN(100, 200000))))
			c.Set("hasold", 1)
		}
		if r.P(40) {
			c.ShortW = core.Pick(r, 10, 50, 100)
		}
		c.Worlds = []simrt.Config{core.GenSched(r, 8)}
		switch c.Kind {
		case "fault":
			for j := r.In(1, 2); j > 0; j-- {
				t := r.N(n)
				f := simrt.Fault{Kind: core.Pick(r, "create", "write", "write", "write", "close"), Path: abs(ops[t].S), Occ: 1, Action: "err"}
				switch f.Kind {
				case "create":
					f.Errno = core.Pick(r, "EACCES", "ENOSPC", "EROFS", "EDQUOT", "EMFILE", "EIO", "ENOENT", "ETXTBSY")
				case "write":
					f.Errno = core.Pick(r, "ENOSPC", "EIO", "EDQUOT", "EFBIG")
					blocks := int(sizes[t]/4096) + 1
					f.Occ = r.In(1, blocks)
					if r.P(30) {
						f.Occ = blocks // the flush of the rest
					}
					if r.P(50) {
						f.Arg = int64(r.N(4096))
					}
				case "close":
					f.Errno = core.Pick(r, "EIO", "ENOSPC", "EDQUOT")
					if r.P(60) {
						f.Arg = int64(r.LogN(1, 5000))
					}
				}
				if n > 1 && r.P(30) {
					f.Occ += r.N(3)
				}
				c.Faults = append(c.Faults, f)
			}
		case "full":
			c.Set("space", int64(r.N(int(total)+100)))
			if r.P(40) { // just short of, or just enough
				s := total
				if r.P(50) {
					s = sizes[0]
				}
				s += int64(core.Pick(r, -50, -2, -1, 0, 1))
				if s < 0 {
					s = 0
				}
				c.Set("space", s)
			}
		}
		return c
	},
	Run: func(c *core.Case, x *core.Ctx) {
		if len(c.Ops) == 0 {
			return
		}
		ops := c.Ops[0]
		fs := newDisk(c)
		fs.Mkdir(abs("dir"))
		fs.Mkdir("/tmp/out dir")
		if c.Int("hasold") == 1 {
			old := make([]byte, c.Int("old"))
			for i := range old {
				old[i] = byte(i*7 + 1)
			}
			for _, o := range ops {
				if !fs.IsDir(abs(o.S)) && o.S != "missing/o.stl" {
					fs.Put(abs(o.S), old)
				}
			}
		}
		if c.Kind == "full" {
			fs.Free = c.Int("space")
		}
		var ms []*Mesh
		var text []string
		for i, o := range ops {
			r := core.NewRng(core.Mix(uint64(c.Int("seed")), uint64(i)))
			m := goMesh(genTris(r, o.B, false))
			for j := range m.Triangles { // meshes need not come from files
				t := &m.Triangles[j]
				if r.P(20) {
					t.P1.X, t.P2.Y, t.P3.Z = t.P1.X*1.1, t.P2.Y/3, t.P3.Z+1e-9
				}
				if r.P(5) {
					t.N = V(r.Fr(-1, 1), 0, 1)
				}
			}
			ms = append(ms, m)
			text = append(text, meshText(m))
		}
		errs := make([]error, len(ops))
		after := make([][]byte, len(ops)) // the file when the call returned
		lo, hi := make([]int, len(ops)), make([]int, len(ops))
		back := make([]*Mesh, len(ops))
		backErr := make([]error, len(ops))
		done := make([]bool, len(ops))
		var proc *simrt.Proc
		one := func(k int) {
			lo[k] = simrt.Syscalls()
			errs[k] = SaveSTL(ops[k].S, ms[k])
			hi[k] = simrt.Syscalls()
			after[k] = fs.Copy(abs(ops[k].S))
			done[k] = true
			if errs[k] == nil {
				back[k], backErr[k] = LoadSTL(ops[k].S)
			}
		}
		o, p := sim(x, 0, Env{FS: fs, Cfg: c.World(0), Faults: c.Faults, ShortW: c.ShortW}, func() {
			if c.Int("conc") == 1 && len(ops) > 1 {
				var wg simsync.WaitGroup
				for k := range ops {
					k := k
					wg.Add(1)
					simrt.Go(func() { defer wg.Done(); one(k) })
				}
				wg.Wait()
				return
			}
			for k := range ops {
				one(k)
			}
		})
		proc = p
		if o.Kind != "return" {
			if o.Kind != "steps" {
				x.Fail("ends", "saving ends with %s %s", o.Kind, o.Panic)
			}
			return
		}
		same := map[string]bool{}
		for _, op := range ops {
			if c.Int("conc") == 1 && same[op.S] {
				return // two callers write one file: no promise
			}
			same[op.S] = true
		}
		for k, op := range ops {
			failed, any := "", false
			for _, s := range proc.Log[lo[k]:hi[k]] {
				any = any || s.Err != ""
				if s.Err != "" && (strings.HasPrefix(s.Path, abs(op.S)) || c.Int("conc") == 0) {
					switch s.Kind {
					case "create", "write", "close", "sync", "rename", "truncate", "seek":
						failed = s.Kind + ": " + s.Err
					}
				}
			}
			out := "saved"
			if errs[k] != nil {
				out = "error"
			}
			x.Probes[out]++
			x.State(len(ops), c.Int("conc"), op.S == "dir", failed, math.Ilogb(float64(op.B+1)), out, c.Int("hasold"), c.ShortW > 0)
			if errs[k] == nil {
				if failed != "" {
					x.Fail("silent", "save %d of %d triangles to %s reports success although a system call failed (%s); the file has %d bytes", k, op.B, op.S, failed, len(after[k]))
					return
				}
				if d := sameSTL(after[k], stlOf(ms[k])); d != "" {
					x.Fail("content", "save %d of %d triangles to %s reports success, but the file is not the model: %s", k, op.B, op.S, d)
					return
				}
				if backErr[k] != nil {
					x.Fail("reload", "save %d of %d triangles to %s reports success, but loading the file fails: %v", k, op.B, op.S, backErr[k])
					return
				}
				if d := reloaded(ms[k], back[k]); d != "" {
					x.Fail("reload", "save %d of %d triangles to %s: after loading %s", k, op.B, op.S, d)
					return
				}
				x.Nontriv = true
			} else {
				x.Nontriv = x.Nontriv || failed != ""
				if !any && !dirless(op.S) {
					x.Fail("refused", "save %d of %d triangles to %s fails with %v although every system call succeeded", k, op.B, op.S, errs[k])
					return
				}
			}
			if meshText(ms[k]) != text[k] {
				x.Fail("mesh", "saving changed the mesh")
				return
			}
			x.See(core.HashBytes(after[k]))
		}
	},
}

func dirless(s string) bool { return s == "dir" || s == "missing/o.stl" }

// reloaded compares a mesh with what loading its file gave.
func reloaded(m, q *Mesh) string {
	if q == nil || len(q.Triangles) != len(m.Triangles) {
		return "the number of triangles differs"
	}
	for i := range m.Triangles {
		a, b := m.Triangles[i], q.Triangles[i]
		for k, p := range []Point{a.P1, a.P2, a.P3} {
			g := []Point{b.P1, b.P2, b.P3}[k]
			for c := range v3(p) {
				f, h := float64(float32(v3(p)[c])), v3(g)[c]
				if f != h && !(f != f && h != h) {
					return fmt.Sprintf("coordinate %d of vertex %d of triangle %d is %v, not %v", c, k, i, h, f)
				}
			}
		}
	}
	return ""
}
