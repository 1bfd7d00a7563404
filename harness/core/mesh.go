package core

import (
	"math"
)

// V3 is a vector.
type V3 [3]float64

func (a V3) Add(b V3) V3       { return V3{a[0] + b[0], a[1] + b[1], a[2] + b[2]} }
func (a V3) Sub(b V3) V3       { return V3{a[0] - b[0], a[1] - b[1], a[2] - b[2]} }
func (a V3) Mul(f float64) V3  { return V3{a[0] * f, a[1] * f, a[2] * f} }
func (a V3) Dot(b V3) float64  { return a[0]*b[0] + a[1]*b[1] + a[2]*b[2] }
func (a V3) Len() float64      { return math.Sqrt(a.Dot(a)) }
func (a V3) Norm() V3          { return a.Mul(1 / a.Len()) }
func (a V3) Dist(b V3) float64 { return a.Sub(b).Len() }
func (a V3) Cross(b V3) V3 {
	return V3{a[1]*b[2] - a[2]*b[1], a[2]*b[0] - a[0]*b[2], a[0]*b[1] - a[1]*b[0]}
}

// Tri is a triangle; after F32 its coordinates are single precision values.
type Tri [3]V3

// Shape describes one closed solid.
type Shape struct {
	Kind string  `json:"kind"`
	N    int     `json:"n,omitempty"`    // segments
	S    V3      `json:"s"`              // size
	R    V3      `json:"r"`              // rotation in degrees about x, y, z
	P    V3      `json:"p"`              // position of the base
	Q    float64 `json:"q,omitempty"`    // shape parameter
	Flip bool    `json:"flip,omitempty"` // inverted orientation (a cavity)
	Drop int     `json:"drop,omitempty"` // leave out this triangle (1-based): an open surface
	Shuf uint64  `json:"shuf,omitempty"` // order of the triangles
}

type builder struct{ t []Tri }

func (b *builder) tri(p, q, r V3) { b.t = append(b.t, Tri{p, q, r}) }
func (b *builder) quad(p, q, r, s V3) {
	b.tri(p, q, r)
	b.tri(p, r, s)
}

// extrude along +z; poly is counter-clockwise.
func (b *builder) extrude(poly [][2]float64, h float64) {
	n := len(poly)
	at := func(i int, z float64) V3 { return V3{poly[i%n][0], poly[i%n][1], z} }
	for _, t := range earclip(poly) {
		b.tri(at(t[0], h), at(t[1], h), at(t[2], h))
		b.tri(at(t[2], 0), at(t[1], 0), at(t[0], 0))
	}
	for i := 0; i < n; i++ {
		b.quad(at(i, 0), at(i+1, 0), at(i+1, h), at(i, h))
	}
}

func earclip(p [][2]float64) [][3]int {
	n := len(p)
	idx := make([]int, n)
	for i := range idx {
		idx[i] = i
	}
	cr := func(a, b, c int) float64 {
		return (p[b][0]-p[a][0])*(p[c][1]-p[a][1]) - (p[b][1]-p[a][1])*(p[c][0]-p[a][0])
	}
	var res [][3]int
	for len(idx) > 3 {
		done := false
		for i := range idx {
			a, b, c := idx[(i+len(idx)-1)%len(idx)], idx[i], idx[(i+1)%len(idx)]
			if cr(a, b, c) <= 1e-12 {
				continue
			}
			ok := true
			for _, q := range idx {
				if q == a || q == b || q == c {
					continue
				}
				if cr(a, b, q) >= 0 && cr(b, c, q) >= 0 && cr(c, a, q) >= 0 {
					ok = false
					break
				}
			}
			if ok {
				res = append(res, [3]int{a, b, c})
				idx = append(idx[:i:i], idx[i+1:]...)
				done = true
				break
			}
		}
		if !done {
			return res
		}
	}
	return append(res, [3]int{idx[0], idx[1], idx[2]})
}

// revolve turns a profile of (r,z), bottom to top, about the z axis.
func (b *builder) revolve(pr [][2]float64, n int) {
	at := func(i, k int) V3 {
		k %= n
		a := 2 * math.Pi * float64(k) / float64(n)
		return V3{pr[i][0] * math.Cos(a), pr[i][0] * math.Sin(a), pr[i][1]}
	}
	cap := func(i int, top bool) {
		c := V3{0, 0, pr[i][1]}
		for k := 0; k < n; k++ {
			if top {
				b.tri(c, at(i, k), at(i, k+1))
			} else {
				b.tri(c, at(i, k+1), at(i, k))
			}
		}
	}
	if pr[0][0] > 0 {
		cap(0, false)
	}
	for i := 0; i+1 < len(pr); i++ {
		for k := 0; k < n; k++ {
			switch {
			case pr[i][0] == 0:
				b.tri(V3{0, 0, pr[i][1]}, at(i+1, k+1), at(i+1, k))
			case pr[i+1][0] == 0:
				b.tri(at(i, k), at(i, k+1), V3{0, 0, pr[i+1][1]})
			default:
				b.quad(at(i, k), at(i, k+1), at(i+1, k+1), at(i+1, k))
			}
		}
	}
	if l := len(pr) - 1; pr[l][0] > 0 {
		cap(l, true)
	}
}

// column is a stack of leaning prisms.
func (b *builder) column(z, dx []float64, n int) {
	poly := ngon(n, .5)
	at := func(i, k int) V3 { return V3{poly[k%n][0] + dx[i], poly[k%n][1], z[i]} }
	l := len(z) - 1
	for k := 1; k+1 < n; k++ {
		b.tri(at(0, 0), at(0, k+1), at(0, k))
		b.tri(at(l, 0), at(l, k), at(l, k+1))
	}
	for i := 0; i < l; i++ {
		for k := 0; k < n; k++ {
			b.quad(at(i, k), at(i, k+1), at(i+1, k+1), at(i+1, k))
		}
	}
}

// ring is a prism with a hole.
func (b *builder) ring(n int, q, h float64) {
	at := func(k int, r, z float64) V3 {
		a := 2*math.Pi*float64(k%n)/float64(n) + 0.3
		return V3{r * math.Cos(a), r * math.Sin(a), z}
	}
	for k := 0; k < n; k++ {
		b.quad(at(k, 1, 0), at(k+1, 1, 0), at(k+1, 1, h), at(k, 1, h))
		b.quad(at(k+1, q, 0), at(k, q, 0), at(k, q, h), at(k+1, q, h))
		b.quad(at(k, q, h), at(k, 1, h), at(k+1, 1, h), at(k+1, q, h))
		b.quad(at(k+1, q, 0), at(k+1, 1, 0), at(k, 1, 0), at(k, q, 0))
	}
}

// Pieces are convex solids that make up the shape.
func (s Shape) Pieces() (r [][]Tri) {
	if s.Kind != "flare" {
		return [][]Tri{s.Build()}
	}
	pr := flare(s.Q)
	for i := 0; i+1 < len(pr); i++ {
		if pr[i][1] == pr[i+1][1] {
			continue
		}
		b := &builder{}
		b.revolve(pr[i:i+2], maxInt(s.N, 15))
		m := rot(s.R)
		for i := range b.t {
			for k, p := range b.t[i] {
				p = V3{p[0] * s.S[0], p[1] * s.S[1], p[2] * s.S[2]}
				b.t[i][k] = V3{m[0].Dot(p), m[1].Dot(p), m[2].Dot(p)}.Add(s.P)
			}
		}
		r = append(r, b.t)
	}
	return
}

func flare(q float64) [][2]float64 {
	if q <= 0 {
		q = 0.5
	}
	return [][2]float64{{.25, 0}, {.25, q}, {.5, math.Min(1, q+0.12)}, {.5, 1}}
}

// Build makes the triangles of a shape in double precision.
func (s Shape) Build() []Tri {
	b := &builder{}
	n := s.N
	if n < 3 {
		n = 3
	}
	q := s.Q
	switch s.Kind {
	case "box":
		b.extrude([][2]float64{{-.5, -.5}, {.5, -.5}, {.5, .5}, {-.5, .5}}, 1)
	case "prism":
		b.extrude(ngon(n, 0.5), 1)
	case "pyramid":
		b.revolve([][2]float64{{.5, 0}, {0, 1}}, n)
	case "octa":
		b.revolve([][2]float64{{0, 0}, {.5, .5}, {0, 1}}, maxInt(n, 4))
	case "sphere":
		m := maxInt(3, n/2)
		var pr [][2]float64
		for i := 0; i <= m; i++ {
			a := math.Pi * float64(i) / float64(m)
			r := 0.5 * math.Sin(a)
			if i == 0 || i == m {
				r = 0
			}
			pr = append(pr, [2]float64{r, 0.5 - 0.5*math.Cos(a)})
		}
		b.revolve(pr, n)
	case "ring":
		if q <= 0 || q >= 1 {
			q = 0.5
		}
		b.ring(n, q, 1)
		for i := range b.t {
			for k := range b.t[i] {
				b.t[i][k][0] *= 0.5
				b.t[i][k][1] *= 0.5
			}
		}
	case "ell":
		b.extrude([][2]float64{{-.5, -.5}, {.5, -.5}, {.5, -.1}, {-.1, -.1}, {-.1, .5}, {-.5, .5}}, 1)
	case "star":
		b.extrude(star(n, 0.5, 0.2+0.2*q), 1)
	case "flare": // rotational, straight, then a steep outward incline
		b.revolve(flare(q), maxInt(n, 15))
	case "mushroom":
		if q <= 0 {
			q = 0.5
		}
		b.revolve([][2]float64{{.2, 0}, {.2, q}, {.5, q + 0.05}, {.5, 1}}, n)
	case "hang": // L standing up: a body with an arm hanging over on one side (extruded in y)
		if q <= 0 {
			q = 0.6
		}
		b.extrude([][2]float64{{-.5, 0}, {-.1, 0}, {-.1, q}, {.5, q + .07}, {.5, 1}, {-.5, 1}}, 1)
		stand(b)
	case "bridge": // two legs under a deck
		if q <= 0 {
			q = 0.5
		}
		b.extrude([][2]float64{{-.5, 0}, {-.3, 0}, {-.25, q}, {-.02, q + .1}, {.02, q + .1}, {.25, q}, {.3, 0}, {.5, 0}, {.5, 1}, {-.5, 1}}, 1)
		stand(b)
	case "lean": // a leaning prism; the top is q times the width off the base
		b.column([]float64{0, 1}, []float64{0, q}, n)
	case "cup": // a cone standing on its tip, cut off
		b.revolve([][2]float64{{q, 0}, {.5, 1}}, n)
	case "slab": // flat solid used for layers thinner than one layer
		b.extrude([][2]float64{{-.5, -.5}, {.5, -.5}, {.5, .5}, {-.5, .5}}, 1)
	case "flat": // a zero-height sheet, two triangles and their backs
		p := []V3{{-.5, -.5, 0}, {.5, -.5, 0}, {.5, .5, 0}, {-.5, .5, 0}}
		b.quad(p[0], p[1], p[2], p[3])
		b.quad(p[3], p[2], p[1], p[0])
	default:
		b.extrude([][2]float64{{-.5, -.5}, {.5, -.5}, {.5, .5}, {-.5, .5}}, 1)
	}
	m := rot(s.R)
	for i := range b.t {
		for k := range b.t[i] {
			p := b.t[i][k]
			p = V3{p[0] * s.S[0], p[1] * s.S[1], p[2] * s.S[2]}
			p = V3{m[0].Dot(p), m[1].Dot(p), m[2].Dot(p)}
			b.t[i][k] = p.Add(s.P)
		}
		if s.Flip {
			b.t[i][0], b.t[i][1] = b.t[i][1], b.t[i][0]
		}
	}
	if s.Drop > 0 && len(b.t) > 0 {
		d := (s.Drop - 1) % len(b.t)
		b.t = append(b.t[:d:d], b.t[d+1:]...)
	}
	if s.Shuf != 0 {
		r := NewRng(s.Shuf)
		for i := len(b.t) - 1; i > 0; i-- {
			j := r.N(i + 1)
			b.t[i], b.t[j] = b.t[j], b.t[i]
			k := r.N(3)
			t := b.t[i]
			b.t[i] = Tri{t[k], t[(k+1)%3], t[(k+2)%3]}
		}
	}
	return b.t
}

// stand turns an extrusion along z into one along y, centred.
func stand(b *builder) {
	for i := range b.t {
		for k := range b.t[i] {
			p := b.t[i][k]
			b.t[i][k] = V3{p[0], 0.5 - p[2], p[1]}
		}
	}
}

func ngon(n int, r float64) [][2]float64 {
	var p [][2]float64
	for i := 0; i < n; i++ {
		a := 2*math.Pi*float64(i)/float64(n) + 0.37
		p = append(p, [2]float64{r * math.Cos(a), r * math.Sin(a)})
	}
	return p
}

func star(n int, r, r2 float64) [][2]float64 {
	var p [][2]float64
	for i := 0; i < 2*n; i++ {
		a := math.Pi*float64(i)/float64(n) + 0.21
		x := r
		if i%2 == 1 {
			x = r2
		}
		p = append(p, [2]float64{x * math.Cos(a), x * math.Sin(a)})
	}
	return p
}

func rot(d V3) [3]V3 {
	mul := func(a, b [3]V3) (c [3]V3) {
		for i := 0; i < 3; i++ {
			for j := 0; j < 3; j++ {
				for k := 0; k < 3; k++ {
					c[i][j] += a[i][k] * b[k][j]
				}
			}
		}
		return
	}
	if d == (V3{}) {
		return [3]V3{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}
	}
	sx, cx := math.Sincos(d[0] * math.Pi / 180)
	sy, cy := math.Sincos(d[1] * math.Pi / 180)
	sz, cz := math.Sincos(d[2] * math.Pi / 180)
	x := [3]V3{{1, 0, 0}, {0, cx, -sx}, {0, sx, cx}}
	y := [3]V3{{cy, 0, sy}, {0, 1, 0}, {-sy, 0, cy}}
	z := [3]V3{{cz, -sz, 0}, {sz, cz, 0}, {0, 0, 1}}
	return mul(z, mul(y, x))
}

// F32 rounds all coordinates to single precision.
func F32(ts []Tri) []Tri {
	r := make([]Tri, len(ts))
	for i, t := range ts {
		for k := range t {
			for c := range t[k] {
				f := float64(float32(t[k][c]))
				if f == 0 {
					f = 0
				}
				r[i][k][c] = f
			}
		}
	}
	return r
}

// Mesh is the single-precision mesh of a list of shapes.
func Mesh(ss []Shape) []Tri {
	var ts []Tri
	for _, s := range ss {
		ts = append(ts, s.Build()...)
	}
	return F32(ts)
}

// Bounds of a mesh.
func Bounds(ts []Tri) (lo, hi V3) {
	if len(ts) == 0 {
		return
	}
	lo, hi = ts[0][0], ts[0][0]
	for _, t := range ts {
		for _, p := range t {
			for c := range p {
				lo[c] = math.Min(lo[c], p[c])
				hi[c] = math.Max(hi[c], p[c])
			}
		}
	}
	return
}

// MinMax along a direction.
func MinMax(ts []Tri, d V3) (lo, hi float64) {
	lo, hi = math.Inf(1), math.Inf(-1)
	for _, t := range ts {
		for _, p := range t {
			x := p.Dot(d)
			lo = math.Min(lo, x)
			hi = math.Max(hi, x)
		}
	}
	return
}

// GenOpt bounds the meshes Gen draws.
type GenOpt struct {
	MaxShapes int
	MaxSeg    int
	Size      float64 // typical size in mm
	Upright   int     // percentage of unrotated meshes
	NoCavity  bool
}

// GenMesh draws a mesh of disjoint closed solids.
func GenMesh(r *Rng, o GenOpt) []Shape {
	if o.MaxShapes == 0 {
		o.MaxShapes = 4
	}
	if o.MaxSeg == 0 {
		o.MaxSeg = 12
	}
	if o.Size == 0 {
		o.Size = 10
	}
	n := 1
	if r.P(60) {
		n = r.In(1, o.MaxShapes)
	}
	var ss []Shape
	kinds := []string{"box", "prism", "pyramid", "octa", "sphere", "ring", "ell", "star", "flare", "mushroom", "hang", "bridge"}
	up := r.P(o.Upright)
	for i := 0; i < n; i++ {
		s := Shape{Kind: kinds[r.N(len(kinds))], N: r.In(3, o.MaxSeg), Q: r.Fr(0.3, 0.7)}
		sz := o.Size * r.Fr(0.4, 1)
		s.S = V3{sz * r.Fr(0.5, 1), sz * r.Fr(0.5, 1), sz * r.Fr(0.4, 1.2)}
		if !up {
			s.R = V3{r.Fr(-180, 180), r.Fr(-180, 180), r.Fr(-180, 180)}
		} else if r.P(50) {
			s.R = V3{0, 0, r.Fr(-180, 180)}
		}
		// disjoint by construction: one cell of a grid each
		cell := o.Size * 2.2
		gx, gy := float64(i%2), float64(i/2)
		s.P = V3{gx*cell + r.Fr(-.1, .1)*o.Size, gy*cell + r.Fr(-.1, .1)*o.Size, r.Fr(0, .3) * o.Size}
		if up {
			s.P[2] = 0
			if i > 0 && r.P(30) {
				s.P[2] = r.Fr(0, .5) * o.Size
			}
		}
		if r.P(40) {
			s.Shuf = r.U() | 1
		}
		ss = append(ss, s)
		if !o.NoCavity && r.P(12) && (s.Kind == "box" || s.Kind == "prism") {
			c := s
			c.Kind = "octa"
			c.N = r.In(4, 6)
			c.Flip = true
			c.S = s.S.Mul(0.3)
			m := rot(s.R)
			off := V3{0, 0, s.S[2] * 0.35}
			c.P = s.P.Add(V3{m[0].Dot(off), m[1].Dot(off), m[2].Dot(off)})
			ss = append(ss, c)
		}
	}
	return ss
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}
