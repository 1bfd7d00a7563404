package core

import (
	"encoding/binary"
	"fmt"
	"math"
	"strconv"
	"strings"
)

// STLBin writes a binary STL.
func STLBin(ts []Tri) []byte {
	b := make([]byte, 84, 84+50*len(ts))
	copy(b, "simulated model")
	binary.LittleEndian.PutUint32(b[80:], uint32(len(ts)))
	f := func(x float64) { b = binary.LittleEndian.AppendUint32(b, math.Float32bits(float32(x))) }
	for _, t := range ts {
		n := t[1].Sub(t[0]).Cross(t[2].Sub(t[0]))
		for _, p := range []V3{n, t[0], t[1], t[2]} {
			for _, x := range p {
				f(x)
			}
		}
		b = append(b, 0, 0)
	}
	return b
}

// STLAscii writes an ASCII STL; style varies the layout.
func STLAscii(ts []Tri, style uint64) []byte {
	r := NewRng(style)
	var sb strings.Builder
	ind := Pick(r, "  ", "\t", "", "    ")
	nl := Pick(r, "\n", "\n", "\r\n")
	ft := Pick(r, byte('g'), byte('e'), byte('f'))
	num := func(x float64) string {
		switch ft {
		case 'f':
			s := strconv.FormatFloat(x, 'f', -1, 32)
			return s
		case 'e':
			return strconv.FormatFloat(x, 'e', -1, 32)
		}
		return strconv.FormatFloat(x, 'g', -1, 32)
	}
	sb.WriteString("solid simulated" + nl)
	for _, t := range ts {
		sb.WriteString(ind + "facet normal 0 0 0" + nl + ind + ind + "outer loop" + nl)
		for _, p := range t {
			l := ind + ind + ind + "vertex " + num(p[0]) + " " + num(p[1]) + " " + num(p[2])
			// the loader ignores lines shorter than this; keep the file conventional
			for len(strings.TrimSpace(l)) < 12 {
				l = strings.Replace(l, "vertex ", "vertex  ", 1)
			}
			sb.WriteString(l + nl)
		}
		sb.WriteString(ind + ind + "endloop" + nl + ind + "endfacet" + nl)
	}
	sb.WriteString("endsolid simulated" + nl)
	return []byte(sb.String())
}

// STL writes the model in the given format ("bin" or "ascii").
func STL(ts []Tri, format string, style uint64) []byte {
	if format == "ascii" {
		return STLAscii(ts, style)
	}
	return STLBin(ts)
}

// ParseBin reads a binary STL strictly.
func ParseBin(b []byte) ([]Tri, error) {
	if len(b) < 84 {
		return nil, fmt.Errorf("%d bytes: shorter than the header", len(b))
	}
	n := binary.LittleEndian.Uint32(b[80:])
	if len(b) != 84+50*int(n) {
		return nil, fmt.Errorf("%d bytes for %d triangles (want %d)", len(b), n, 84+50*int(n))
	}
	ts := make([]Tri, n)
	for i := range ts {
		o := 84 + 50*i
		for k := 0; k < 3; k++ {
			for c := 0; c < 3; c++ {
				ts[i][k][c] = float64(math.Float32frombits(binary.LittleEndian.Uint32(b[o+12+12*k+4*c:])))
			}
		}
	}
	return ts, nil
}
