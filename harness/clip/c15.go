package clip

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	"simmod/harness/core"
	"simmod/simrt"
)

type plane struct {
	p    core.V3
	tilt bool
	rot  float64
}

// parsePlanes reads a well-formed planes file.
func parsePlanes(t string) ([]plane, bool) {
	var ps []plane
	ls := strings.Split(t, "\n")
	if ls[len(ls)-1] == "" {
		ls = ls[:len(ls)-1]
	}
	for _, l := range ls {
		w := strings.Fields(l)
		if len(w) == 0 {
			continue
		}
		if len(w) < 5 {
			return nil, false
		}
		var v [4]float64
		for i, k := range []int{0, 1, 2, 4} {
			f, err := strconv.ParseFloat(w[k][1:], 64)
			if err != nil {
				return nil, false
			}
			v[i] = float64(float32(f))
		}
		b := w[3][1:]
		if b != "true" && b != "false" {
			return nil, false
		}
		ps = append(ps, plane{core.V3{v[0], v[1], v[2]}, b == "true", v[3]})
	}
	return ps, true
}

// bed turns the bed: rotation about z, then tilt about x.
func bed(p, c core.V3, rot float64, tilt bool) core.V3 {
	q := p.Sub(c)
	s, k := math.Sincos(rot * math.Pi / 180)
	q = core.V3{q[0]*k + q[1]*s, -q[0]*s + q[1]*k, q[2]}
	if tilt {
		s, k := math.Sincos(-60 * math.Pi / 180)
		q = core.V3{q[0], q[1]*k + q[2]*s, -q[1]*s + q[2]*k}
	}
	return q.Add(c)
}

// clipSolid cuts the surface of a solid, for convex ones with the cap.
func clipSolid(polys [][]core.V3, n core.V3, d float64, convex bool) (r [][]core.V3) {
	var rim []core.V3
	for _, p := range polys {
		q := core.Clip(p, n, d)
		if q == nil {
			continue
		}
		r = append(r, q)
		for _, v := range q {
			if math.Abs(v.Dot(n)-d) < 1e-9 {
				rim = append(rim, v)
			}
		}
	}
	if !convex || len(rim) < 3 {
		return
	}
	var cen core.V3
	for _, v := range rim {
		cen = cen.Add(v.Mul(1 / float64(len(rim))))
	}
	u := n.Cross(core.V3{1, 0, 0})
	if u.Len() < .1 {
		u = n.Cross(core.V3{0, 1, 0})
	}
	w := n.Cross(u)
	ang := func(v core.V3) float64 { return math.Atan2(v.Sub(cen).Dot(w), v.Sub(cen).Dot(u)) }
	sort.Slice(rim, func(i, j int) bool { return ang(rim[i]) < ang(rim[j]) })
	return append(r, rim)
}

// expected heights of the layers of each part, nil when the model has
// contacts with the planes that rounding may decide either way.
func partHeights(c *core.Case, ps []plane) (hs [][]float64, sure []bool) {
	ts := core.Mesh(c.Mesh)
	off := vec(c, "origin", "xyz", core.V3{})
	cen := vec(c, "rotc", "xyz", core.V3{})
	t := 0.2
	if s, ok := c.Opts["layer_height"]; ok {
		fmt.Sscan(s, &t)
	}
	ns := make([]core.V3, len(ps))
	for i, q := range ps {
		ns[i] = core.V3{0, 0, 1}
		if q.tilt { // the direction that becomes vertical
			s, k := math.Sincos(-60 * math.Pi / 180)
			v := core.V3{0, -s, k}
			s, k = math.Sincos(q.rot * math.Pi / 180)
			ns[i] = core.V3{v[0]*k - v[1]*s, v[0]*s + v[1]*k, v[2]}
		}
	}
	// Interior corners of the cuts are known for convex solids; for others
	// the cuts have none when all planes are parallel or there is only one.
	convex := true
	for _, sh := range c.Mesh {
		switch sh.Kind {
		case "box", "prism", "pyramid", "octa", "sphere", "slab":
		default:
			convex = false
		}
	}
	if !convex && len(ps) > 1 {
		for _, q := range ps {
			if q.tilt {
				return nil, make([]bool, len(ps)+1)
			}
		}
	}
	touch := false
	for k := range ps { // near contact?
		for _, tr := range ts {
			for _, p := range tr {
				if math.Abs(p.Add(off).Sub(ps[k].p).Dot(ns[k])) < 1e-4 {
					touch = true
				}
			}
		}
	}
	for part := 0; part <= len(ps); part++ {
		lo, hi := math.Inf(1), math.Inf(-1)
		ok := !touch
		for _, sh := range c.Mesh {
			var polys [][]core.V3
			for _, tr := range core.F32(sh.Build()) {
				polys = append(polys, []core.V3{tr[0].Add(off), tr[1].Add(off), tr[2].Add(off)})
			}
			for k := len(ps) - 1; k >= part; k-- { // behind the later planes
				polys = clipSolid(polys, ns[k].Mul(-1), -ps[k].p.Dot(ns[k]), convex)
			}
			if part > 0 {
				polys = clipSolid(polys, ns[part-1], ps[part-1].p.Dot(ns[part-1]), convex)
			}
			for _, poly := range polys {
				for _, p := range poly {
					if part > 0 {
						p = bed(p, cen, ps[part-1].rot, ps[part-1].tilt)
					}
					lo, hi = math.Min(lo, p[2]), math.Max(hi, p[2])
				}
			}
		}
		if part > 0 && part < len(ps) && ns[part].Dist(ns[part-1]) < 1e-9 && math.Abs(ps[part].p.Sub(ps[part-1].p).Dot(ns[part])) < 1e-3 {
			ok = false // nothing but the rounding of the cap between equal planes
		}
		if hi-lo < .01 || hi < lo {
			for k := part; k >= 1 && k < len(ps) && ok; k++ {
				// planes through one point may leave nothing but a point
				ok = ps[k].p != ps[k-1].p
			}
		}
		var h []float64
		if hi > lo {
			f := (hi - lo) / t
			n := int(math.Ceil(f))
			if math.Abs(f-math.Round(f)) < 1e-5 {
				ok = false
			}
			for i := 0; i < n; i++ {
				h = append(h, lo+(float64(i)+0.5)*(hi-lo)/float64(n))
			}
		}
		hs = append(hs, h)
		sure = append(sure, ok)
	}
	return
}

// C15: a planes file is applied whole or the run fails.
var C15 = &core.Prop{
	ID: "C15", Quick: 25000, Thorough: 200000, QuickS: 90, Level: "fault_enumeration",
	Rule:    "the slicer exited with status 0 and its bed commands and layers were compared with the planes file, or it exited non-zero because of the injected fault or the unusable file",
	Measure: "(number of planes, tilts, case kind, fault, exit status)",
	Real:    realAll, Stub: stubAll,
	Gen: func(r *core.Rng, i int) *core.Case {
		c := GenSlice(r, SliceOpt{Types: []string{"vip"}, Planes: 0, MaxLayers: 9, MaxSeg: 6, Debug: 5})
		if len(c.Mesh) == 1 && r.P(50) {
			c.Mesh = core.GenMesh(r, core.GenOpt{MaxShapes: 2, MaxSeg: 6, Size: r.Fr(4, 12), Upright: 70})
			_, hi := core.Bounds(core.Mesh(c.Mesh))
			lo, _ := core.Bounds(core.Mesh(c.Mesh))
			setOpt(c, "layer_height", num((hi[2]-lo[2])/(float64(r.In(2, 9))-r.Fr(.1, .9))))
		}
		delete(c.Opts, "planes_file")
		delete(c.Texts, "planes_file.txt")
		delete(c.Texts, "my_planes.txt")
		if r.P(40) {
			setOpt(c, "planes_file", core.Pick(r, "my_planes.txt", "/tmp/pl.txt", "data/planes"))
		}
		setOpt(c, "top_layers", "1")
		setOpt(c, "bottom_layers", "1")
		name := "planes_file.txt"
		if n, ok := c.Opts["planes_file"]; ok {
			name = n
		}
		n := r.In(1, 5)
		ls := GenPlanes(r, core.Mesh(c.Mesh), c, n)
		end := core.Pick(r, "\n", "\n", "")
		nl := core.Pick(r, "\n", "\n", "\r\n")
		c.Worlds = []simrt.Config{core.BaseSched()}
		if r.P(40) {
			c.Worlds = []simrt.Config{core.GenSched(r, 8)}
		}
		if r.P(50) {
			c.ShortR = r.In(5, 100)
		}
		if r.P(8) { // the same plane again
			i := r.N(len(ls))
			ls = append(ls[:i+1:i+1], ls[i:]...)
		}
		switch k := r.N(22); {
		case k < 8:
			c.Kind = "apply"
		case k >= 20:
			c.Kind = "blank"
			for k := r.In(1, 2); k > 0; k-- {
				i := r.N(len(ls) + 1)
				ls = append(ls[:i:i], append([]string{core.Pick(r, "", "", " ", "\t")}, ls[i:]...)...)
			}
		case k < 13:
			c.Kind = "fault"
		case k < 15:
			c.Kind = "garbage"
			i := r.N(len(ls))
			w := strings.Fields(ls[i])
			switch r.N(6) {
			case 0:
				ls[i] = strings.Join(w[:r.In(1, 4)], " ")
			case 1:
				w[core.Pick(r, 0, 1, 2, 4)] = core.Pick(r, "Xabc", "X1.2.3", "Z--4", "R1,5", "Y1e")
				ls[i] = strings.Join(w, " ")
			case 2:
				w[3] = core.Pick(r, "Tmaybe", "Tyes", "T2")
				ls[i] = strings.Join(w, " ")
			case 3:
				ls = append(ls[:i:i], append([]string{"plane number one"}, ls[i:]...)...)
			case 4:
				w[core.Pick(r, 0, 2, 4)] = core.Pick(r, "X", "Q")
				ls[i] = strings.Join(w, " ")
			case 5: // torn last line
				l := ls[len(ls)-1]
				k := strings.LastIndexByte(l, 'R')
				ls[len(ls)-1] = l[:r.In(1, k)]
				end = ""
			}
		case k < 17:
			c.Kind = "long-line"
			i := r.N(len(ls))
			ls[i] = ls[i] + core.Pick(r, " ", "#", " #") + strings.Repeat(core.Pick(r, " ", "x"), r.In(60000, 140000))
		case k < 18:
			c.Kind = "unreadable"
		case k < 19:
			c.Kind = "many"
			ls = GenPlanes(r, core.Mesh(c.Mesh), c, r.In(6, 25))
		default:
			c.Kind = "none"
		}
		switch c.Kind {
		case "none":
			c.Set("empty", int64(r.N(3)))
			if c.Int("empty") == 1 {
				setText(c, name, "")
			}
			if c.Int("empty") == 2 {
				setText(c, name, strings.Join(ls, "\n"))
				c.Faults = append(c.Faults, simrt.Fault{Kind: "open", Path: abs(name), Occ: 1, Action: "err", Errno: "ENOENT"})
			}
		case "unreadable":
			setOpt(c, "planes_file", core.Pick(r, "data", "/", "in.stl/x"))
		default:
			setText(c, name, strings.Join(ls, nl)+end)
		}
		if c.Kind == "fault" {
			d := dry(c)
			if s, ok := pickSys(r, d.P.Log, func(s simrt.SysRec) bool {
				return s.Path == abs(name) && s.Err == "" && (s.Kind == "open" || s.Kind == "read")
			}); ok {
				c.Faults = append(c.Faults, mkFault(r, s))
			}
		}
		return c
	},
	Run: func(c *core.Case, x *core.Ctx) {
		j := job(c, 0)
		j.World.MaxSteps = maxSteps
		r := run(x, 0, j)
		if r.Out.Kind == "steps" {
			x.Probe("too long")
			return
		}
		what := ""
		for _, s := range r.P.Log {
			if s.Fault != "" && s.Err != "" {
				what += s.Fault + ";"
			}
		}
		name := planesPath(c)
		text, have := c.Texts[strings.TrimPrefix(name, cwd+"/")]
		if !have {
			text, have = c.Texts[name]
		}
		ps, good := parsePlanes(text)
		x.State(len(ps), what, c.Kind, r.Code)
		x.Probe("kind " + c.Kind)
		if c.Kind == "none" {
			// like a run without any planes file
			d := c.Clone()
			d.Faults = nil
			delete(d.Texts, strings.TrimPrefix(name, cwd+"/"))
			delete(d.Texts, name)
			jd := job(d, 0)
			jd.World.MaxSteps = maxSteps
			q := run(x, 1, jd)
			if q.Out.Kind == "steps" {
				return
			}
			x.Nontriv = true
			a, _ := r.file(outFiles(c)[0])
			b, _ := q.file(outFiles(c)[0])
			if c.Int("empty") == 2 && r.Out.Kind == "exit" && r.Code != 0 {
				return // the file was there and is gone when it is opened: also a reason to fail
			}
			if r.Code != q.Code || stripTime(a) != stripTime(b) {
				x.Fail("none", "without usable planes file (%d): exit %d, otherwise %d: %s", c.Int("empty"), r.Code, q.Code, diffAt(stripTime(a), stripTime(b)))
			}
			return
		}
		if r.Code != 0 {
			x.Nontriv = c.Kind != "apply" && c.Kind != "many"
			if (c.Kind == "apply" || c.Kind == "many") && r.Out.Kind == "exit" {
				x.Fail("refused", "the slicer exits %d although every line of its planes file is well-formed: %s", r.Code, tailOf(r.P.Stderr))
			}
			return
		}
		x.Nontriv = true
		if what != "" || c.Kind == "unreadable" && c.Opts["planes_file"] != "" {
			x.Fail("ignored", "the slicer exits 0 although its planes file could not be opened or read: %s%v", what, c.Opts["planes_file"])
			return
		}
		b, _ := r.file(outFiles(c)[0])
		_, job, _, ok := core.Job(string(b))
		if !ok {
			x.Fail("gcode", "no job in the output")
			return
		}
		var p core.Printer
		p.Exec(job)
		if p.Err != "" {
			x.Fail("gcode", "%s", p.Err)
			return
		}
		var lines []string // a blank line asks for nothing, it may also be refused
		for _, l := range strings.Split(text, "\n") {
			if strings.TrimSpace(l) != "" {
				lines = append(lines, l)
			}
		}
		var t1 []core.Turn
		for _, t := range p.Turns {
			if t.Tool == 1 {
				t1 = append(t1, t)
			}
		}
		if len(t1) != len(lines) {
			x.Fail("parts", "the planes file has %d lines (%s) but the job turns the bed %d times", len(lines), c.Kind, len(t1))
			return
		}
		if !good && c.Kind == "garbage" {
			x.Fail("garbage", "the slicer exits 0 although a line of its planes file gives no plane: %.200q", text)
			return
		}
		if !good { // a long line or the like that was applied after all
			x.Probe("odd line accepted")
			return
		}
		for i, t := range t1 {
			if math.Abs(t.To-ps[i].rot) > 0.00051 {
				x.Fail("rotation", "line %d of %d asks for rotation %v, the job turns the bed to %v", i+1, len(ps), ps[i].rot, t.To)
				return
			}
		}
		for _, m := range p.Marks {
			want := 0.0
			if m.Part > 0 && ps[m.Part-1].tilt {
				want = 60
			}
			if math.Abs(m.T2-want) > 1e-6 {
				x.Fail("tilt", "layer %d (part %d of %d): the bed is tilted by %v, the planes file asks for %v", m.N, m.Part, len(ps), m.T2, want)
				return
			}
		}
		// the tilt at the end of every part, even of one without layers
		tilt := 0.0
		k := 0
		for _, t := range p.Turns {
			if t.Tool == 1 {
				if k > 0 && (tilt > 0) != ps[k-1].tilt {
					x.Fail("tilt", "part %d of %d ends with tilt %v, the planes file asks for %v", k, len(ps), tilt, ps[k-1].tilt)
					return
				}
				k++
			} else {
				tilt = t.To
			}
		}
		if k > 0 && (tilt > 0) != ps[k-1].tilt {
			x.Fail("tilt", "the last part ends with tilt %v, the planes file asks for %v", tilt, ps[k-1].tilt)
			return
		}
		// the layers of every part
		hs, sure := partHeights(c, ps)
		zs := make([][]float64, len(ps)+1)
		for _, m := range p.Marks {
			zs[m.Part] = append(zs[m.Part], math.NaN())
		}
		cnt := make([]int, len(ps)+1)
		mi := 0
		for k, m := range p.Marks {
			end := len(p.Moves)
			if k+1 < len(p.Marks) {
				end = p.Marks[k+1].Move
			}
			for ; mi < end; mi++ {
				mv := p.Moves[mi]
				if mv.Tool == 0 && mv.HasE && mv.E1 > mv.E0 && mv.From[0] != mv.To[0] && strings.HasPrefix(mv.Section, "OUTER") {
					zs[m.Part][cnt[m.Part]] = mv.To[2]
				}
			}
			cnt[m.Part]++
		}
		for part := range sure {
			if !sure[part] {
				x.Probe("contact: layers not compared")
				continue
			}
			h, z := hs[part], zs[part]
			fits := false
			for skip := 0; skip <= 1 && !fits; skip++ {
				if len(h) < len(z)+skip || len(h) > len(z)+skip+1 {
					continue
				}
				fits = true
				for i := range z {
					if !math.IsNaN(z[i]) && math.Abs(z[i]-h[i+skip]) > 2e-3 {
						fits = false
					}
				}
			}
			if !fits {
				x.Fail("part-layers", "part %d of %d planes: expected layers at %.3f, the job prints at %.3f", part, len(ps), h, z)
				return
			}
			if len(z) > 0 {
				x.Probe("parts with layers compared")
			}
		}
	},
}
