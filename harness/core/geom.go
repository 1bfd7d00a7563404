package core

import "math"

// Clip keeps the part of a polygon with n.x >= d.
func Clip(p []V3, n V3, d float64) []V3 {
	var r []V3
	for i := range p {
		a, b := p[i], p[(i+1)%len(p)]
		da, db := a.Dot(n)-d, b.Dot(n)-d
		if da >= 0 {
			r = append(r, a)
		}
		if (da >= 0) != (db >= 0) {
			t := da / (da - db)
			r = append(r, a.Add(b.Sub(a).Mul(t)))
		}
	}
	if len(r) < 3 {
		return nil
	}
	return r
}

// Moments are integrals over a surface: of 1, x, y, z, xx, xy, xz, yy, yz, zz
// times 1 and the three components of the normal.
type Moments [40]float64

// Add a polygon (fan) in the frame with the given origin and unit.
func (m *Moments) Add(p []V3, o V3, unit float64) {
	for i := 1; i+1 < len(p); i++ {
		v := [3]V3{p[0].Sub(o).Mul(1 / unit), p[i].Sub(o).Mul(1 / unit), p[i+1].Sub(o).Mul(1 / unit)}
		c := v[1].Sub(v[0]).Cross(v[2].Sub(v[0])).Mul(0.5)
		a := c.Len()
		if a == 0 || math.IsNaN(a) {
			continue
		}
		s := v[0].Add(v[1]).Add(v[2])
		var q [10]float64
		q[0] = 1
		for k := 0; k < 3; k++ {
			q[1+k] = s[k] / 3
		}
		k := 4
		for i := 0; i < 3; i++ {
			for j := i; j < 3; j++ {
				q[k] = (v[0][i]*v[0][j] + v[1][i]*v[1][j] + v[2][i]*v[2][j] + s[i]*s[j]) / 12
				k++
			}
		}
		for k := range q {
			m[k] += a * q[k]
			m[10+k] += c[0] * q[k]
			m[20+k] += c[1] * q[k]
			m[30+k] += c[2] * q[k]
		}
	}
}

// Diff is the largest difference of two sets of moments, from index lo on.
func (m *Moments) Diff(n *Moments, lo int) float64 {
	d := 0.0
	for i := lo; i < len(m); i++ {
		x := math.Abs(m[i] - n[i])
		if math.IsNaN(x) {
			return math.Inf(1)
		}
		if x > d {
			d = x
		}
	}
	return d
}

// AddM adds two sets of moments.
func (m *Moments) AddM(n *Moments) {
	for i := range m {
		m[i] += n[i]
	}
}

// EdgeBalance counts, for each directed edge of a mesh, uses minus uses in the
// other direction; it returns the number of unbalanced edges.
func EdgeBalance(ts []Tri) int {
	type e struct{ a, b V3 }
	m := map[e]int{}
	less := func(a, b V3) bool {
		for i := range a {
			if a[i] != b[i] {
				return a[i] < b[i]
			}
		}
		return false
	}
	for _, t := range ts {
		for i := range t {
			a, b := t[i], t[(i+1)%3]
			if a == b {
				continue
			}
			if less(a, b) {
				m[e{a, b}]++
			} else {
				m[e{b, a}]--
			}
		}
	}
	n := 0
	for _, v := range m {
		if v != 0 {
			n++
		}
	}
	return n
}
