package core

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"simmod/simrt"
)

// Op is one call of a library workload.
type Op struct {
	Kind string    `json:"kind"`
	A    int       `json:"a,omitempty"`
	B    int       `json:"b,omitempty"`
	F    []float64 `json:"f,omitempty"`
	S    string    `json:"s,omitempty"`
	V    int       `json:"v,omitempty"` // its own settings, drawn from this; 0: the case's
}

// Case is one simulated scenario, complete: together with the code under test
// it decides every step.
type Case struct {
	Prop   string            `json:"property"`
	Index  int               `json:"index"`
	Seed   uint64            `json:"seed"`
	Kind   string            `json:"kind"`
	Tool   string            `json:"tool,omitempty"`
	Mesh   []Shape           `json:"mesh,omitempty"`
	Format string            `json:"format,omitempty"`
	Opts   map[string]string `json:"opts,omitempty"`
	Texts  map[string]string `json:"texts,omitempty"`
	Lines  []string          `json:"lines,omitempty"`
	Ops    [][]Op            `json:"ops,omitempty"` // one list per caller
	V      []float64         `json:"v,omitempty"`
	I      map[string]int64  `json:"i,omitempty"`
	Worlds []simrt.Config    `json:"worlds,omitempty"`
	Faults []simrt.Fault     `json:"faults,omitempty"`
	ShortR int               `json:"short_read,omitempty"`
	ShortW int               `json:"short_write,omitempty"`
}

// Clone copies a case.
func (c *Case) Clone() *Case {
	b, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	d := &Case{}
	if err := json.Unmarshal(b, d); err != nil {
		panic(err)
	}
	return d
}

// Int reads a named number.
func (c *Case) Int(k string) int64 { return c.I[k] }

// Set stores a named number.
func (c *Case) Set(k string, v int64) {
	if c.I == nil {
		c.I = map[string]int64{}
	}
	c.I[k] = v
}

// World is the i-th schedule of the case (the first when there are fewer).
func (c *Case) World(i int) simrt.Config {
	if len(c.Worlds) == 0 {
		return simrt.Config{CPU: 4, Policy: "none", ClockBase: 1500000000}
	}
	if i >= len(c.Worlds) {
		i = 0
	}
	return c.Worlds[i]
}

// Viol is a violated property.
type Viol struct {
	Prop  string `json:"property"`
	Class string `json:"class"`
	Msg   string `json:"message"`
}

// Ctx collects what one case did.
type Ctx struct {
	Viol    *Viol
	Worlds  int64
	Steps   int64
	SimNS   int64
	Hash    uint64           // of everything observed
	Inter   map[uint64]bool  // interleavings
	Faults  map[string]int64 // injected
	Probes  map[string]int64 // reached conditions
	Nontriv bool             // the case exercised the property
	States  map[uint64]bool  // distinct states by the property's measure
	NoSkip  bool
	Log     []string // event log, replay only
	Verbose bool
	Tr      map[int]*simrt.Outcome // outcome per world index, for schedule minimisation
	Err     string                 // trouble of the machinery
}

func NewCtx() *Ctx {
	return &Ctx{Inter: map[uint64]bool{}, Faults: map[string]int64{}, Probes: map[string]int64{}, States: map[uint64]bool{}, Tr: map[int]*simrt.Outcome{}, Hash: 14695981039346656037}
}

// Fail records the first violation.
func (x *Ctx) Fail(class, f string, a ...any) {
	if x.Viol == nil {
		m := fmt.Sprintf(f, a...)
		if len(m) > 2000 {
			m = m[:2000] + "..."
		}
		x.Viol = &Viol{Class: class, Msg: m}
		x.Note("VIOLATION %s: %s", class, m)
	}
}

func (x *Ctx) Failed() bool { return x.Viol != nil }

// Probe counts a reached condition.
func (x *Ctx) Probe(k string) { x.Probes[k]++ }

// State counts a distinct state by the property's own measure.
func (x *Ctx) State(a ...any) { x.States[HashStr(fmt.Sprint(a...))] = true }

// See folds an observation into the run's event hash.
func (x *Ctx) See(v uint64) { x.Hash = (x.Hash ^ v) * 1099511628211 }

func (x *Ctx) Note(f string, a ...any) {
	if x.Verbose && len(x.Log) < 5000 {
		x.Log = append(x.Log, fmt.Sprintf(f, a...))
	}
}

// Done accounts for a finished world.
func (x *Ctx) Done(i int, o *simrt.Outcome) {
	x.Worlds++
	x.Steps += o.Steps
	x.SimNS += int64(o.SimTime)
	x.See(o.Hash)
	x.See(uint64(o.Steps))
	x.See(HashStr(o.Kind + o.Panic))
	x.Inter[o.Hash] = true
	for k, v := range o.Stats {
		x.Faults["sched:"+k] += v
	}
	if o.Preempts > 0 {
		x.Faults["sched:preemption"] += o.Preempts
	}
	x.Tr[i] = o
	if o.Nondet != "" {
		x.Err = "uncontrolled nondeterminism: " + o.Nondet
	}
}

// HashStr is FNV-1a.
func HashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// HashBytes is FNV-1a.
func HashBytes(s []byte) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// Prop is one checked property.
type Prop struct {
	ID       string
	Quick    int // cases
	Thorough int
	QuickS   int // time limit in seconds
	Level    string
	Rule     string // what makes a case non-trivial
	Measure  string // of distinct states
	Budget   string
	Gen      func(r *Rng, i int) *Case
	Run      func(c *Case, x *Ctx)
	Shrink   func(c *Case) []*Case
	Real     []string
	Stub     []string
	Race     bool
}

// GenSched draws a schedule. mean is the expected number of steps between
// preemptions it should centre on.
func GenSched(r *Rng, maxCPU int) simrt.Config {
	c := simrt.Config{Seed: r.U(), ClockBase: 1500000000 + int64(r.N(200000000)), PickSync: 50}
	switch r.N(10) {
	case 0:
		c.Policy = "none"
	case 1:
		c.Policy = "rr"
		c.Mean = int64(Pick(r, 1, 3, 20, 200))
	case 2, 3:
		c.Policy = "pct"
		c.Mean = int64(r.LogN(20, 20000))
	case 4, 5:
		c.Policy = "starve"
		c.Mean = int64(r.LogN(2, 3000))
	default:
		c.Policy = "random"
		c.Mean = int64(r.LogN(2, 5000))
		c.PickSync = Pick(r, 0, 10, 50, 100)
	}
	if maxCPU < 1 {
		maxCPU = 8
	}
	c.CPU = Pick(r, 1, 2, 3, 4, 8, r.LogN(1, maxCPU))
	if c.CPU > maxCPU {
		c.CPU = maxCPU
	}
	if r.P(50) {
		c.MapSeed = r.U() | 1
	}
	if r.P(30) {
		c.ClockJump = 1
	}
	if q := NewRng(c.Seed ^ 0x9C05); q.P(20) { // a container's limit, GOMAXPROCS in the environment
		c.Procs = q.In(1, 2*c.CPU)
	}
	if q := NewRng(c.Seed ^ 0x57A1); q.P(25) { // workers that stand still now and then
		c.Stall = Pick(q, 1, 10, 100)
	}
	return c
}

// BaseSched is the reference schedule: one core, no preemption, sorted maps.
func BaseSched() simrt.Config {
	return simrt.Config{Seed: 1, CPU: 1, Policy: "none", ClockBase: 1500000000}
}

// Shrinks proposes simpler variants of a case, most drastic first.
func Shrinks(p *Prop, c *Case) []*Case {
	var r []*Case
	add := func(f func(d *Case) bool) {
		d := c.Clone()
		if f(d) {
			r = append(r, d)
		}
	}
	if p.Shrink != nil {
		r = append(r, p.Shrink(c)...)
	}
	if len(c.Faults) > 1 {
		for i := range c.Faults {
			add(func(d *Case) bool { d.Faults = append(d.Faults[:i:i], d.Faults[i+1:]...); return true })
		}
	}
	if c.ShortR > 0 {
		add(func(d *Case) bool { d.ShortR = 0; return true })
	}
	if c.ShortW > 0 {
		add(func(d *Case) bool { d.ShortW = 0; return true })
	}
	// operations: whole callers, halves, single ones
	if len(c.Ops) > 1 {
		for i := range c.Ops {
			add(func(d *Case) bool { d.Ops = append(d.Ops[:i:i], d.Ops[i+1:]...); return true })
		}
	}
	for k := range c.Ops {
		n := len(c.Ops[k])
		if n > 3 {
			add(func(d *Case) bool { d.Ops[k] = d.Ops[k][:n/2]; return true })
			add(func(d *Case) bool { d.Ops[k] = d.Ops[k][n/2:]; return true })
		}
		if n > 1 {
			for i := 0; i < n; i++ {
				add(func(d *Case) bool { d.Ops[k] = append(d.Ops[k][:i:i], d.Ops[k][i+1:]...); return true })
			}
		}
	}
	if len(c.Mesh) > 1 {
		for i := range c.Mesh {
			add(func(d *Case) bool { d.Mesh = append(d.Mesh[:i:i], d.Mesh[i+1:]...); return true })
		}
	}
	if len(c.Lines) > 1 {
		for i := range c.Lines {
			add(func(d *Case) bool { d.Lines = append(d.Lines[:i:i], d.Lines[i+1:]...); return true })
		}
	}
	for i, s := range c.Mesh {
		if s.Shuf != 0 {
			add(func(d *Case) bool { d.Mesh[i].Shuf = 0; return true })
		}
		if s.Kind != "box" && s.Kind != "octa" && s.Kind != "flat" {
			add(func(d *Case) bool { d.Mesh[i].Kind = "box"; return true })
			add(func(d *Case) bool { d.Mesh[i].Kind = "octa"; d.Mesh[i].N = 4; return true })
		}
		if s.R != (V3{}) {
			add(func(d *Case) bool { d.Mesh[i].R = V3{}; return true })
		}
		if s.N > 4 && s.Kind != "box" {
			add(func(d *Case) bool { d.Mesh[i].N = s.N / 2; return true })
		}
	}
	var ks []string
	for k := range c.Opts {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		add(func(d *Case) bool { delete(d.Opts, k); return true })
	}
	ks = ks[:0]
	for k := range c.Texts {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		t := c.Texts[k]
		if ls := strings.SplitAfter(t, "\n"); len(ls) > 2 {
			add(func(d *Case) bool { d.Texts[k] = strings.Join(ls[:len(ls)/2], ""); return true })
			add(func(d *Case) bool { d.Texts[k] = strings.Join(ls[len(ls)/2:], ""); return true })
		}
		add(func(d *Case) bool { delete(d.Texts, k); return true })
	}
	for i, w := range c.Worlds {
		if len(w.Trace) == 0 && w.Policy != "none" && w.Policy != "trace" {
			add(func(d *Case) bool { d.Worlds[i].Policy = "none"; return true })
		}
		if w.CPU > 1 {
			add(func(d *Case) bool { d.Worlds[i].CPU = 1; return true })
			if w.CPU > 2 {
				add(func(d *Case) bool { d.Worlds[i].CPU = 2; return true })
				add(func(d *Case) bool { d.Worlds[i].CPU = w.CPU / 2; return true })
			}
		}
		if w.Procs != 0 {
			add(func(d *Case) bool { d.Worlds[i].Procs = 0; return true })
		}
		if w.MapSeed != 0 {
			add(func(d *Case) bool { d.Worlds[i].MapSeed = 0; return true })
		}
		if w.Stall != 0 {
			add(func(d *Case) bool { d.Worlds[i].Stall = 0; return true })
		}
		if w.ClockJump != 0 {
			add(func(d *Case) bool { d.Worlds[i].ClockJump = 0; return true })
		}
		if w.ClockBase != 1500000000 {
			add(func(d *Case) bool { d.Worlds[i].ClockBase = 1500000000; return true })
		}
	}
	if len(c.Worlds) > 2 {
		for i := 1; i < len(c.Worlds); i++ {
			add(func(d *Case) bool { d.Worlds = append(d.Worlds[:i:i], d.Worlds[i+1:]...); return true })
		}
	}
	return r
}
