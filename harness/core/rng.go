// Package core is the common part of the simulation checks: cases, meshes,
// STL files, seeded search, minimisation, replay and evidence.
package core

import "math"

// Rng is the only source of randomness of the harness.
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { r := &Rng{seed*0x9E3779B97F4A7C15 + 0xABCDEF}; r.U(); return r }

// Mix derives a seed.
func Mix(a ...uint64) uint64 {
	h := uint64(0x2545F4914F6CDD1D)
	for _, x := range a {
		h ^= x + 0x9E3779B97F4A7C15 + (h << 6) + (h >> 2)
		h = (h ^ (h >> 30)) * 0xBF58476D1CE4E5B9
		h = (h ^ (h >> 27)) * 0x94D049BB133111EB
		h ^= h >> 31
	}
	return h
}

func (r *Rng) U() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// N draws from 0..n-1.
func (r *Rng) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U() % uint64(n))
}

// In draws from a..b.
func (r *Rng) In(a, b int) int { return a + r.N(b-a+1) }

// F draws from [0,1).
func (r *Rng) F() float64 { return float64(r.U()>>11) / (1 << 53) }

// Fr draws from [a,b).
func (r *Rng) Fr(a, b float64) float64 { return a + (b-a)*r.F() }

// P is true with the given percentage.
func (r *Rng) P(pct int) bool { return r.N(100) < pct }

func Pick[T any](r *Rng, l ...T) T { return l[r.N(len(l))] }

func (r *Rng) LogN(lo, hi int) int {
	x := math.Exp(r.Fr(math.Log(float64(lo)), math.Log(float64(hi)+0.999)))
	return int(x)
}
