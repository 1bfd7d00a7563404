package libp

import (
	"encoding/binary"
	"fmt"
	"math"
	"strconv"
	"strings"

	. "simmod/goosli/primitives"
	"simmod/harness/core"
	"simmod/simrt"
	simsync "simmod/simrt/sh/sync"
)

// model is a file of a loading case with what loading it must give.
type model struct {
	name  string
	tris  []core.Tri // of the undamaged model
	data  []byte
	ascii bool
	off   [][2]int // of each ASCII facet: start of "facet", end of "endfacet"
	bad   string   // why it is no complete model ("": it is)
	loose bool     // an error is as good as the prefix
	pre   int      // triangles that a file ending between two facets holds
}

// genTris makes n triangles; bounded says that only moderate numbers are wanted.
func genTris(r *core.Rng, n int, bounded bool) []core.Tri {
	ts := make([]core.Tri, n)
	num := func() float64 {
		switch k := r.N(16); {
		case k == 0:
			return 0
		case k == 1:
			return float64(r.In(-9, 9))
		case k == 2 && !bounded:
			return float64(core.Pick(r, math.SmallestNonzeroFloat32, -math.SmallestNonzeroFloat32, 1e-38, math.MaxFloat32, -math.MaxFloat32, float32(1e30), float32(math.Copysign(0, -1))))
		case k == 3 && !bounded:
			return float64(math.Float32frombits(uint32(r.U())))
		}
		return float64(float32(r.Fr(-1, 1) * core.Pick(r, .01, 1, 100, 100, 1e4)))
	}
	for i := range ts {
		for k := range ts[i] {
			for a := range ts[i][k] {
				ts[i][k][a] = num()
			}
		}
		if i > 0 && r.P(10) {
			ts[i] = ts[r.N(i)]
		}
	}
	return ts
}

// buildModel makes the k-th file of a case.
func buildModel(c *core.Case, k int) *model {
	g := func(n string) int { return int(c.Int(fmt.Sprint(n, k))) }
	m := &model{name: fmt.Sprintf("m%d.stl", k), ascii: g("ascii") == 1}
	r := core.NewRng(core.Mix(uint64(c.Int("seed")), uint64(k)))
	m.tris = genTris(r, g("n"), m.ascii)
	if !m.ascii {
		var b []byte
		head := make([]byte, 80)
		switch r.N(4) {
		case 0:
			copy(head, "solid made by a program")
		case 1:
			for i := range head {
				head[i] = byte(r.U())
			}
		case 2:
			copy(head, strings.Repeat(" ", 80))
		}
		b = append(b, head...)
		b = binary.LittleEndian.AppendUint32(b, uint32(len(m.tris)))
		f := func(x float64) { b = binary.LittleEndian.AppendUint32(b, math.Float32bits(float32(x))) }
		junk := r.N(3)
		for _, t := range m.tris {
			for a := 0; a < 3; a++ {
				switch junk {
				case 0:
					f(0)
				case 1:
					f(r.Fr(-1, 1))
				default:
					b = binary.LittleEndian.AppendUint32(b, uint32(r.U()))
				}
			}
			for _, p := range t {
				for _, x := range p {
					f(x)
				}
			}
			b = append(b, byte(r.U()), byte(r.U()))
		}
		size := len(b)
		switch g("mut") {
		case 1: // torn
			n := g("at") % size
			if g("whole") == 1 && len(m.tris) > 0 { // at the end of a triangle
				n = 84 + 50*(g("at")%len(m.tris))
			}
			b = b[:n]
			m.bad = fmt.Sprintf("binary file of %d bytes cut to %d", size, n)
		case 2: // longer
			n := g("at")%300 + 1
			if g("whole") == 1 {
				n = 50 * (g("at")%6 + 1)
			}
			for i := 0; i < n; i++ {
				b = append(b, byte(r.U()))
			}
			m.bad = fmt.Sprintf("binary file for %d triangles with %d bytes too many", len(m.tris), n)
		case 3: // another count
			v := uint32(len(m.tris))
			for v == uint32(len(m.tris)) {
				v = core.Pick(r, v+1, v-1, v*2, v+uint32(r.N(5)), 0, ^uint32(0), uint32(r.U()))
			}
			binary.LittleEndian.PutUint32(b[80:], v)
			m.bad = fmt.Sprintf("binary file with %d triangles whose count says %d", len(m.tris), v)
		}
		m.data = b
		m.pre = len(m.tris)
		return m
	}
	var sb strings.Builder
	ind := core.Pick(r, "", " ", "\t", "    ")
	nl := core.Pick(r, "\n", "\n", "\n", "\r\n")
	gap := core.Pick(r, " ", " ", "  ", "\t", " \t ")
	tail := core.Pick(r, "", "", "", " ", "\t")
	ft := core.Pick(r, 'g', 'g', 'e', 'f', 'x', 'E', 'G', '+')
	num := func(p *float64) string {
		x := *p
		switch ft {
		case 'x': // more digits than single precision holds
			x += x * r.Fr(-1e-7, 1e-7)
			t := strconv.FormatFloat(x, 'g', core.Pick(r, 9, 12, 17), 64)
			y, _ := strconv.ParseFloat(t, 32)
			*p = y
			return t
		case '+':
			t := strconv.FormatFloat(x, 'g', -1, 32)
			if x >= 0 && t[0] != '-' {
				t = "+" + t
			}
			return t
		}
		return strconv.FormatFloat(x, byte(ft), -1, 32)
	}
	name := core.Pick(r, "", " part", " my facet vertex 1 2 3", " a b", " "+strings.Repeat("x", r.N(200)))
	blank := r.P(20)
	solids := core.Pick(r, 1, 1, 1, 2)
	sb.WriteString("solid" + name + nl)
	bf, bv, ba := -1, 0, 0
	if mu := g("mut"); (mu == 2 || mu == 3) && len(m.tris) > 0 {
		bf, bv, ba = g("at")%len(m.tris), r.N(3), r.N(3)
	}
	for i := range m.tris {
		t := &m.tris[i]
		if solids == 2 && i > 0 && i == len(m.tris)/2 {
			sb.WriteString("endsolid" + name + nl + "solid second" + nl)
		}
		sb.WriteString(ind)
		st := sb.Len()
		n3 := core.Pick(r, "0 0 0", "0.0 0.0 1.0", "1e-1 -2E+3 7")
		sb.WriteString("facet normal " + n3 + tail + nl + ind + ind + "outer loop" + tail + nl)
		for v := range t {
			sb.WriteString(ind + ind + ind + "vertex")
			for a := range t[v] {
				tok := num(&t[v][a])
				if i == bf && v == bv && a == ba {
					if g("mut") == 2 {
						tok = core.Pick(r, "abc", "1,5", "1.2.3", "--3", "1e", "0x", "1.0f", "-", "one", tok+"x", "x"+tok, "1..2", "$"+tok, tok+";", "1e+")
						m.bad = fmt.Sprintf("ASCII file with coordinate %q in facet %d of %d", tok, i, len(m.tris))
					} else {
						m.bad = fmt.Sprintf("ASCII file with a missing coordinate in facet %d of %d", i, len(m.tris))
						continue
					}
				}
				sb.WriteString(gap + tok)
			}
			sb.WriteString(tail + nl)
			if blank && r.P(20) {
				sb.WriteString(nl)
			}
		}
		sb.WriteString(ind + ind + "endloop" + tail + nl + ind + "endfacet")
		m.off = append(m.off, [2]int{st, sb.Len()})
		sb.WriteString(tail + nl)
	}
	sb.WriteString("endsolid" + name)
	if r.P(80) {
		sb.WriteString(nl)
	}
	m.data = []byte(sb.String())
	m.pre = len(m.tris)
	if len(m.tris) == 0 {
		m.loose = true
	}
	if g("mut") == 1 {
		n := g("at") % len(m.data)
		if g("whole") == 1 && len(m.tris) > 0 { // within a facet
			o := m.off[g("at")%len(m.tris)]
			n = o[0] + 5 + r.N(o[1]-o[0]-5)
		}
		m.cutAt(n)
		m.data = m.data[:n]
	}
	return m
}

// cutAt judges an ASCII model of which only n bytes are there.
func (m *model) cutAt(n int) {
	full := 0
	for full < len(m.off) && m.off[full][1] <= n {
		full++
	}
	if m.bad != "" && full < len(m.tris) {
		m.loose = true // a damaged facet may have been cut off
	}
	m.pre = full
	if full < len(m.off) && n >= m.off[full][0]+5 {
		m.bad = fmt.Sprintf("ASCII file ending at byte %d, inside facet %d of %d", n, full, len(m.tris))
		m.loose = false
		return
	}
	m.loose = m.loose || n < len(m.data)
}

// judge tells what is wrong with the result of loading the model.
func (m *model) judge(q *Mesh, err error) string {
	if err != nil {
		if m.bad == "" && !m.loose {
			return fmt.Sprintf("%s: a well-formed model of %d triangles is refused: %v", m.name, len(m.tris), err)
		}
		return ""
	}
	if m.bad != "" && !m.loose {
		n := -1
		if q != nil {
			n = len(q.Triangles)
		}
		return fmt.Sprintf("%s: %s is accepted as a model of %d triangles", m.name, m.bad, n)
	}
	return m.same(q, m.tris[:m.pre])
}

func (m *model) same(q *Mesh, want []core.Tri) string {
	if q == nil {
		return m.name + ": neither a mesh nor an error"
	}
	if len(q.Triangles) != len(want) {
		return fmt.Sprintf("%s: %d triangles of %d", m.name, len(q.Triangles), len(want))
	}
	for i, t := range q.Triangles {
		for k, p := range []Point{t.P1, t.P2, t.P3} {
			for a, x := range v3(p) {
				y := want[i][k][a]
				if math.Float64bits(x) != math.Float64bits(y) && !(x != x && y != y) && !(x == 0 && y == 0) {
					return fmt.Sprintf("%s: coordinate %d of vertex %d of triangle %d of %d is %v, the file says %v", m.name, a, k, i, len(want), x, y)
				}
			}
		}
		w := want[i]
		e1, e2 := w[1].Sub(w[0]), w[2].Sub(w[0])
		n := e1.Cross(e2)
		l := e1.Len() * e2.Len()
		if l != l || math.IsInf(l, 0) {
			continue
		}
		if d := vv(t.N).Sub(n).Len(); !(d <= 1e-9*l) {
			return fmt.Sprintf("%s: the normal of triangle %d of %d is %v, its vertices give %v", m.name, i, len(want), vv(t.N), n)
		}
	}
	return ""
}

// received tells how much of a file its reader got since it last started over,
// and whether an injected error kept it from the rest.
func received(p *simrt.Proc, path string) (n int64, failed string) {
	for _, s := range p.Log {
		if s.Path != path {
			continue
		}
		switch s.Kind {
		case "open", "seek":
			n = 0
		case "read":
			if s.Ret > 0 {
				n += s.Ret
			}
		}
		if s.Fault != "" && s.Err != "" && s.Kind != "close" {
			failed = s.Kind + ": " + s.Err
		}
	}
	return
}

func genC06File(r *core.Rng, c *core.Case, k int, mut bool) {
	set := func(n string, v int64) { c.Set(fmt.Sprint(n, k), v) }
	set("ascii", int64(r.N(2)))
	set("n", int64(core.Pick(r, 0, 1, 2, 3, r.In(1, 12), r.In(1, 60), r.LogN(10, 300), r.LogN(10, 300))))
	if r.P(3) {
		set("n", int64(r.LogN(300, 2500)))
	} else if r.N(300) == 0 {
		set("n", int64(r.LogN(2500, 140000)))
	}
	if mut {
		set("mut", int64(r.In(1, 3)))
		set("at", int64(r.N(1<<20)))
		set("whole", int64(r.N(2)))
	}
}

// C06: loading.
var C06 = &core.Prop{
	ID: "C06", Quick: 120000, Thorough: 2000000, QuickS: 60, Level: "fault_enumeration",
	Rule:    "a model with at least one triangle was loaded and compared, or a damaged or unreadable one was refused",
	Measure: "(format, number of files, damage, fault, cores, size class, outcome)",
	Real:    realAll, Stub: stubAll,
	Gen: func(r *core.Rng, i int) *core.Case {
		c := &core.Case{Kind: core.Pick(r, "good", "good", "damaged", "damaged", "fault", "fault", "changing")}
		c.Set("seed", int64(r.U()>>1))
		c.Set("files", int64(core.Pick(r, 1, 1, 1, 2, 3)))
		for k := int64(0); k < c.Int("files"); k++ {
			genC06File(r, c, int(k), c.Kind == "damaged" && (k == 0 || r.P(50)))
		}
		c.Worlds = []simrt.Config{core.GenSched(r, 32)}
		if r.P(50) {
			c.ShortR = core.Pick(r, 5, 30, 70, 100)
		}
		p := abs("m0.stl")
		switch c.Kind {
		case "fault":
			f := simrt.Fault{Kind: core.Pick(r, "open", "fstat", "seek", "read", "read", "read", "read", "close"), Path: p, Occ: 1, Action: "err"}
			switch f.Kind {
			case "open":
				f.Errno = core.Pick(r, "EACCES", "EMFILE", "EIO", "ENFILE", "ENOMEM", "ESTALE", "EPERM", "ELOOP", "ENOENT")
			case "read":
				f.Errno = core.Pick(r, "EIO", "ESTALE", "ETIMEDOUT", "ENOMEM", "EISDIR")
				f.Occ = core.Pick(r, 1, 2, 3, r.In(1, 6), r.LogN(1, 60))
			default:
				f.Errno = core.Pick(r, "EIO", "EINVAL", "ESTALE")
			}
			c.Faults = []simrt.Fault{f}
			if r.P(10) { // not there, or no file
				c.Faults = nil
				c.Set("gone", int64(r.In(1, 2)))
			}
		case "changing":
			f := simrt.Fault{Kind: "read", Path: p, Occ: core.Pick(r, 1, 2, 2, 3, r.LogN(1, 30)), Action: core.Pick(r, "trunc", "trunc", "grow")}
			n := 84 + 50*c.Int("n0")
			if c.Int("ascii0") == 1 {
				n = 60 + 180*c.Int("n0")
			}
			f.Arg = int64(r.N(int(n)))
			if f.Action == "grow" {
				f.Arg = int64(core.Pick(r, 1, 50, 100, r.In(1, 500)))
			}
			c.Faults = []simrt.Fault{f}
		}
		return c
	},
	Run: func(c *core.Case, x *core.Ctx) {
		fs := newDisk(c)
		var ms []*model
		for k := 0; k < int(c.Int("files")); k++ {
			m := buildModel(c, k)
			ms = append(ms, m)
			switch {
			case k == 0 && c.Int("gone") == 1:
			case k == 0 && c.Int("gone") == 2:
				fs.Mkdir(abs(m.name))
			default:
				fs.Put(abs(m.name), m.data)
			}
		}
		if len(ms) == 0 {
			return
		}
		got := make([]*Mesh, len(ms))
		errs := make([]error, len(ms))
		o, p := sim(x, 0, Env{FS: fs, Cfg: c.World(0), Faults: c.Faults, ShortR: c.ShortR}, func() {
			if len(ms) == 1 {
				got[0], errs[0] = LoadSTL(ms[0].name)
				return
			}
			var wg simsync.WaitGroup
			for k := range ms {
				k := k
				wg.Add(1)
				simrt.Go(func() {
					defer wg.Done()
					got[k], errs[k] = LoadSTL(ms[k].name)
				})
			}
			wg.Wait()
		})
		if o.Kind != "return" {
			if o.Kind == "steps" {
				x.Probe("too long")
				return
			}
			x.Fail("ends", "loading ends with %s %s", o.Kind, o.Panic)
			return
		}
		changed := false
		for _, s := range p.Log {
			if s.Fault != "" && (strings.Contains(s.Fault, "trunc") || strings.Contains(s.Fault, "grow")) {
				changed = true
			}
		}
		for k, m := range ms {
			n, failed := received(p, abs(m.name))
			how := "none"
			switch {
			case k == 0 && c.Int("gone") > 0:
				how = "gone"
				m.bad, m.loose = "a file that is not there", false
				if c.Int("gone") == 2 {
					m.bad = "a directory"
				}
			case failed != "":
				how = failed
				// reading it again, or doing without the call that failed, is fine: all of it was read
				if errs[k] != nil || m.bad != "" || n+84 < int64(len(m.data)) || m.judge(got[k], nil) != "" {
					m.bad, m.loose = "a file that could not be read ("+failed+")", false
				}
			case k == 0 && changed:
				how = "changing"
				if m.ascii && n < int64(len(m.data)) {
					m.cutAt(int(n))
				} else {
					m.loose = true
				}
			}
			if msg := m.judge(got[k], errs[k]); msg != "" {
				if m.ascii {
					msg = "ASCII " + msg
				} else {
					msg = "binary " + msg
				}
				x.Fail("load", "%s", msg)
				return
			}
			if errs[k] == nil && len(got[k].Triangles) > 0 || errs[k] != nil {
				x.Nontriv = true
			}
			out := "loaded"
			if errs[k] != nil {
				out = "refused"
			}
			damage := m.bad
			if i := strings.IndexAny(damage, "0123456789\""); i > 0 {
				damage = damage[:i]
			}
			x.Probes[out]++
			x.State(m.ascii, len(ms), damage, how, c.World(0).CPU, math.Ilogb(float64(len(m.tris)+1)), out)
			x.See(core.HashStr(meshText(got[k])))
		}
	},
}
