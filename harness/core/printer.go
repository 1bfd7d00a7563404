package core

import (
	"fmt"
	"math"
	"strconv"
	"strings"
)

// GMove is one movement of the simulated printer.
type GMove struct {
	Line     int
	Layer    int    // of the last ;LAYER: mark, -1 before the first
	Section  string // last ;..._PATHES mark
	Cmd      string
	From, To V3
	E0, E1   float64 // logical extruder position
	F        float64
	Tool     int
	Fan      bool
	T1, T2   float64 // bed rotation and tilt (positions of tools 1 and 2)
	Fil      float64 // filament fed by tool 0 so far (before the move)
	HasXYZ   bool
	HasE     bool
	Part     int        // number of T1 turns so far
	Bed      [2]float64 // tilt and rotation of the last G62
}

// GMark is a layer mark.
type GMark struct {
	Line, N int
	T1, T2  float64
	Part    int
	Move    int // moves before it
}

// Turn is one movement of a bed tool.
type Turn struct {
	Line, Tool int
	To         float64 // the tool's real position afterwards
	Layer      int     // layers started before it
}

// Printer executes G-code.
type Printer struct {
	Pos    V3
	E      float64
	F      float64
	Tool   int
	Real   [3]float64 // real position of the tools: filament, rotation, tilt
	Fan    bool
	Moves  []GMove
	Marks  []GMark
	Turns  []Turn
	Secs   []string // "layer:section" marks in order
	Other  []string // other commands
	G62    []string
	Err    string
	parts  int
	layer  int
	sec    string
	lineNo int
	bed    [2]float64
}

// Exec runs a program.
func (p *Printer) Exec(g string) {
	if p.lineNo == 0 {
		p.layer = -1
	}
	for _, l := range strings.Split(g, "\n") {
		p.lineNo++
		p.line(strings.TrimRight(l, "\r"))
		if p.Err != "" {
			p.Err = fmt.Sprintf("line %d %q: %s", p.lineNo, l, p.Err)
			return
		}
	}
}

func (p *Printer) line(l string) {
	if i := strings.IndexByte(l, ';'); i >= 0 {
		c := l[i+1:]
		if i == 0 {
			if strings.HasPrefix(c, "LAYER:") {
				n, err := strconv.Atoi(strings.TrimSpace(c[6:]))
				if err != nil {
					p.Err = "bad layer mark"
					return
				}
				p.layer = n
				p.sec = ""
				p.Marks = append(p.Marks, GMark{p.lineNo, n, p.Real[1], p.Real[2], p.parts, len(p.Moves)})
			} else if strings.HasSuffix(strings.TrimSpace(c), "_PATHES") {
				p.sec = strings.TrimSpace(c)
				p.Secs = append(p.Secs, fmt.Sprint(len(p.Marks)-1, ":", p.sec))
			}
		}
		l = l[:i]
	}
	w := strings.Fields(l)
	if len(w) == 0 {
		return
	}
	switch w[0] {
	case "G0", "G1":
		m := GMove{Line: p.lineNo, Layer: p.layer, Section: p.sec, Cmd: w[0], From: p.Pos, To: p.Pos, E0: p.E, E1: p.E, Tool: p.Tool, Fan: p.Fan, T1: p.Real[1], T2: p.Real[2], Fil: p.Real[0], Part: p.parts, Bed: p.bed}
		seen := map[byte]bool{}
		for _, a := range w[1:] {
			v, err := strconv.ParseFloat(a[1:], 64)
			if err != nil || math.IsNaN(v) || math.IsInf(v, 0) {
				p.Err = "bad number " + a
				return
			}
			if seen[a[0]] {
				p.Err = "word given twice"
				return
			}
			seen[a[0]] = true
			switch a[0] {
			case 'X', 'Y', 'Z':
				m.To[a[0]-'X'] = v
				m.HasXYZ = true
			case 'E':
				m.E1 = v
				m.HasE = true
			case 'F':
				p.F = v
			default:
				p.Err = "unknown word " + a
				return
			}
		}
		m.F = p.F
		p.Pos = m.To
		p.Real[p.Tool] += m.E1 - m.E0
		p.E = m.E1
		p.Moves = append(p.Moves, m)
		if p.Tool != 0 && m.HasE {
			if p.Tool == 1 {
				p.parts++
			}
			p.Turns = append(p.Turns, Turn{p.lineNo, p.Tool, p.Real[p.Tool], len(p.Marks)})
		}
	case "G92":
		for _, a := range w[1:] {
			if a[0] != 'E' {
				p.Err = "G92 of another axis"
				return
			}
			v, err := strconv.ParseFloat(a[1:], 64)
			if err != nil {
				p.Err = "bad number " + a
				return
			}
			p.E = v
		}
	case "T0", "T1", "T2":
		p.Tool = int(w[0][1] - '0')
	case "M106":
		p.Fan = true
	case "M107":
		p.Fan = false
	case "G62":
		p.G62 = append(p.G62, strings.Join(w, " "))
		for _, a := range w[1:] {
			v, err := strconv.ParseFloat(a[1:], 64)
			if err != nil || math.IsNaN(v) || math.IsInf(v, 0) {
				p.Err = "bad number " + a
				return
			}
			switch a[0] {
			case 'X':
				p.bed[0] = v
			case 'Z':
				p.bed[1] = v
			}
		}
	default:
		p.Other = append(p.Other, strings.Join(w, " "))
	}
}

// Job cuts a G-code file made with the repository's own templates into header,
// job and footer.
func Job(g string) (head, job, foot string, ok bool) {
	i := strings.Index(g, ";LAYER_COUNT:")
	j := strings.LastIndex(g, ";End GCode")
	if i < 0 || j < i {
		return "", g, "", false
	}
	k := strings.IndexByte(g[i:], '\n')
	if k < 0 || i+k+1 > j {
		return "", g, "", false
	}
	return g[:i+k+1], g[i+k+1 : j], g[j:], true
}
