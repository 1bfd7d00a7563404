// Package simrt is the deterministic simulation runtime. Code translated by
// simgen runs on it: every goroutine switch, channel and lock operation, map
// iteration order, clock reading and system call of the translated program is
// decided here, by the World's seed.
//
// One coordinator (the goroutine that calls World.Run) owns all simulator
// state. Simulated goroutines are real goroutines of which exactly one is
// released at a time; each simulator operation is a request executed by the
// coordinator while the requester is parked.
//
// In race builds this package is compiled without race instrumentation and the
// hand-over between goroutines is hidden from the race detector, which
// therefore sees only the happens-before edges the simulated program creates.
package simrt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

type gstate uint8

const (
	gRunnable gstate = iota
	gBlocked
	gDead
)

// G is one simulated goroutine.
type G struct {
	ID       int
	wake     chan struct{}
	st       gstate
	why      string
	killed   bool
	req      func()
	exited   bool
	prio     int64
	panicked bool
	panicVal any
	panicStk string
	userDone bool
	gosched  bool
	w        *World
}

// Switch is one scheduling decision that deviates from the default policy
// (keep running the current goroutine; if it cannot run, the lowest runnable).
type Switch struct {
	Step  int64 `json:"s"`
	G     int   `json:"g"`
	Stall int64 `json:"stall,omitempty"` // instead of a switch: the running goroutine G stands still for so many ns
}

// Config decides a run completely.
type Config struct {
	Seed      uint64   `json:"seed"`
	CPU       int      `json:"cpu"`
	Procs     int      `json:"procs,omitempty"` // GOMAXPROCS; 0: as many as cores
	Policy    string   `json:"policy"`          // "none","random","pct","starve","rr","trace"
	Mean      int64    `json:"mean"`            // mean steps between preemptions
	PickSync  int      `json:"pick_sync"`       // percent of sync operations after which another goroutine may be picked
	MapSeed   uint64   `json:"map_seed"`        // 0: canonical (sorted) map iteration
	ClockBase int64    `json:"clock"`           // unix seconds at start
	ClockJump int      `json:"clock_jump"`
	Stall     int      `json:"stall,omitempty"` // in so many of 1000 preemptions the goroutine then stands still for a simulated time
	MaxSteps  int64    `json:"max_steps"`
	CrashStep int64    `json:"crash_step,omitempty"` // kill the process at this step (0: never)
	Trace     []Switch `json:"trace,omitempty"`
}

// Outcome of a world.
type Outcome struct {
	Kind      string // "return","exit","panic","deadlock","steps","killed"
	Code      int
	Panic     string
	Stack     string `json:"-"`
	Steps     int64
	Switches  int64
	Preempts  int64
	Hash      uint64 // of the switch sequence
	Trace     []Switch
	TraceFull bool // Trace is complete
	Leaked    []string
	MaxG      int
	SimTime   time.Duration
	Stats     map[string]int64
	Nondet    string // non-empty: the run met nondeterminism it does not control
}

type rng struct{ s uint64 }

func newRng(seed uint64) *rng { r := &rng{seed*0x9E3779B97F4A7C15 + 0x1234567}; r.next(); return r }
func (r *rng) next() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}
func (r *rng) n(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.next() % uint64(n))
}

const bigBudget = int64(1) << 20

// World is one simulated execution.
type World struct {
	Nows   []time.Time // clock readings
	Cfg    Config
	Proc   *Proc
	gs     []*G // live ones, in order of creation
	rs     []*G
	nextID int
	cur    *G
	coord  chan struct{}
	steps  int64 // steps before the current budget chunk
	chunk  int64

	rSched, rMap, rMisc *rng

	ended    bool
	dead     bool
	out      Outcome
	hash     uint64
	tracePos int
	lastG    int

	timers   []*timerEv
	timerSeq int64
	sleepNS  int64

	starve  int
	pctNext []int64

	endSync     uint64
	draining    bool
	ptrIDs      map[any]int
	jumpN       int64
	stallN      int64
	stalls      int
	jumpOff     int64
	mapShuffles int64
	Enters      []EnterRec
	stats       map[string]int64
}

// Active world and current goroutine. Only the single running goroutine or the
// coordinator touches them.
var (
	W      *World
	cur    *G
	Budget int64 = 1 << 62
)

// NewWorld prepares a run.
func NewWorld(cfg Config) *World {
	if cfg.CPU <= 0 {
		cfg.CPU = 4
	}
	if cfg.MaxSteps <= 0 {
		cfg.MaxSteps = 50_000_000
	}
	w := &World{Cfg: cfg, coord: make(chan struct{}, 1)}
	w.rSched = newRng(cfg.Seed ^ 0xA5A5)
	w.rMap = newRng(cfg.MapSeed ^ 0x5A5A5A)
	w.rMisc = newRng(cfg.Seed ^ 0xC3C3C3)
	w.hash = 14695981039346656037
	w.ptrIDs = map[any]int{}
	w.stats = map[string]int64{}
	w.Proc = &Proc{FS: NewFS()}
	if cfg.Policy == "pct" {
		d := 1 + w.rSched.n(6)
		for i := 0; i < d; i++ {
			m := cfg.Mean
			if m < 1 {
				m = 1000
			}
			w.pctNext = append(w.pctNext, int64(w.rSched.next()%uint64(m*int64(d)*2+1)))
		}
		sort.Slice(w.pctNext, func(i, j int) bool { return w.pctNext[i] < w.pctNext[j] })
	}
	w.starve = -1
	if cfg.Policy == "starve" {
		w.starve = w.rSched.n(cfg.CPU + 2)
	}
	return w
}

// Steps executed so far (coordinator side).
func (w *World) now() int64 { return w.steps + (w.chunk - Budget) }

func (w *World) newG() *G {
	g := &G{wake: make(chan struct{}, 1), w: w}
	w.addG(g)
	return g
}

func (w *World) addG(g *G) {
	g.ID = w.nextID
	w.nextID++
	g.prio = int64(w.rSched.next() >> 1)
	w.gs = append(w.gs, g)
	w.out.MaxG = w.nextID
}

func (g *G) body(fn func()) {
	defer func() {
		if g.userDone || g.killed {
			return
		}
		if r := recover(); r != nil {
			g.panicked = true
			g.panicVal = r
			g.panicStk = string(debug.Stack())
		}
		// otherwise runtime.Goexit by the program: the goroutine just ends
	}()
	fn()
	g.userDone = true
}

// spawn wraps the real goroutine so that runtime.Goexit still reports exit.
func (g *G) spawn(fn func()) {
	go func() {
		raceDisable()
		<-g.wake
		raceEnable()
		defer func() {
			raceReleaseMerge(&g.w.endSync)
			g.exited = true
			Budget--
			raceDisable()
			g.w.coord <- struct{}{}
			raceEnable()
		}()
		if g.killed {
			return
		}
		g.body(fn)
	}()
}

// call runs f on the coordinator and returns when this goroutine is scheduled
// again. f may park the goroutine by calling block.
func call(f func()) {
	g := cur
	if g == nil {
		panic("simrt: simulator operation outside a simulated run")
	}
	if g.killed {
		runtime.Goexit()
	}
	Budget--
	g.req = f
	raceDisable()
	g.w.coord <- struct{}{}
	<-g.wake
	raceEnable()
	if g.killed {
		runtime.Goexit()
	}
}

// InSim reports whether the caller runs inside a live simulated process.
func InSim() bool { return cur != nil && !cur.killed }

// Y is a scheduling point; simgen inserts one per statement.
func Y() {
	Budget--
	if Budget <= 0 {
		yieldSlow()
	}
}

func yieldSlow() {
	g := cur
	if g == nil || g.killed {
		Budget = bigBudget
		return
	}
	g.req = nil
	raceDisable()
	g.w.coord <- struct{}{}
	<-g.wake
	raceEnable()
	if g.killed {
		runtime.Goexit()
	}
}

// Go starts a simulated goroutine.
func Go(fn func()) {
	if cur == nil {
		panic("simrt: go statement outside a simulated run")
	}
	w := cur.w
	if cur.killed {
		runtime.Goexit()
	}
	// the real goroutine must be there before the scheduler can pick it
	g := &G{wake: make(chan struct{}, 1), w: w}
	g.spawn(fn)
	call(func() { w.addG(g) })
}

// block parks the requesting goroutine (coordinator side).
func (w *World) block(g *G, why string) { g.st = gBlocked; g.why = why }

// ready makes a parked goroutine runnable (coordinator side).
func (w *World) ready(g *G) {
	if g.st == gBlocked {
		g.st = gRunnable
		g.why = ""
	}
}

func (w *World) end(kind string, code int) {
	if !w.ended {
		w.ended = true
		w.out.Kind = kind
		w.out.Code = code
	}
}

// setChunk arms the next forced entry into the scheduler.
func (w *World) setChunk() {
	s := w.steps
	n := bigBudget
	lim := func(at int64) {
		if d := at - s; d > 0 && d < n {
			n = d
		}
	}
	lim(w.Cfg.MaxSteps + 1)
	if w.Cfg.CrashStep > 0 {
		lim(w.Cfg.CrashStep)
	}
	if len(w.timers) > 0 { // due while somebody computes
		lim((w.timers[0].at - w.sleepNS + 999) / 1000)
	}
	mean := w.Cfg.Mean
	if w.out.Switches > 100_000 { // long runs: the dense switching has had its chance
		if mean *= w.out.Switches / 10_000; mean > 100_000 {
			mean = 100_000
		}
	}
	switch w.Cfg.Policy {
	case "trace":
		for w.tracePos < len(w.Cfg.Trace) && w.Cfg.Trace[w.tracePos].Step <= s {
			w.tracePos++
		}
		if w.tracePos < len(w.Cfg.Trace) {
			lim(w.Cfg.Trace[w.tracePos].Step)
		}
	case "random", "rr", "starve":
		if mean > 0 {
			lim(s + 1 + int64(w.rSched.next()%uint64(2*mean)))
		}
	case "pct":
		for len(w.pctNext) > 0 && w.pctNext[0] <= s {
			w.pctNext = w.pctNext[1:]
		}
		if len(w.pctNext) > 0 {
			lim(w.pctNext[0])
		}
	}
	w.chunk = n
	Budget = n
}

func (w *World) runnable() []*G {
	rs := w.rs[:0]
	dead := 0
	for _, g := range w.gs {
		if g.exited {
			dead++
		} else if g.st == gRunnable {
			rs = append(rs, g)
		}
	}
	if dead > 16 && dead > len(w.gs)/2 {
		k := 0
		for _, g := range w.gs {
			if !g.exited {
				w.gs[k] = g
				k++
			}
		}
		w.gs = w.gs[:k]
	}
	w.rs = rs
	return rs
}

// stall makes the goroutine that was just preempted stand still, as a worker
// does whose core the system gives to somebody else.
func (w *World) stall(g *G) {
	var d int64
	if w.Cfg.Policy == "trace" {
		for p := w.tracePos; p < len(w.Cfg.Trace) && w.Cfg.Trace[p].Step <= w.steps; p++ {
			if t := w.Cfg.Trace[p]; t.Step == w.steps && t.G == g.ID && t.Stall > 0 {
				d = t.Stall
			}
		}
	} else if w.Cfg.Stall > 0 && w.stalls < 60 {
		w.stallN++
		if h := newRng(w.Cfg.Seed ^ uint64(w.stallN)*0x57A11); h.n(1000) < w.Cfg.Stall {
			d = int64(time.Millisecond) << h.n(21) // up to a quarter of an hour
		}
	}
	if d == 0 {
		return
	}
	w.stalls++
	w.stat("stall")
	if len(w.out.Trace) < 400000 {
		w.out.Trace = append(w.out.Trace, Switch{w.steps, g.ID, d})
	}
	w.block(g, "stalled")
	w.addTimer(time.Duration(d), func(w *World) { w.ready(g) })
}

// pick chooses who runs next. g is the goroutine that just ran (nil at start),
// sync says it stopped at a simulator operation rather than at a plain step.
func (w *World) pick(g *G, sync bool) *G {
	rs := w.runnable()
	if len(rs) == 0 {
		return nil
	}
	canStay := g != nil && g.st == gRunnable && !g.exited
	def := rs[0]
	if canStay {
		def = g
	}
	ch := def
	r := w.rSched
	switch w.Cfg.Policy {
	case "trace":
		for p := w.tracePos; p < len(w.Cfg.Trace) && w.Cfg.Trace[p].Step <= w.steps; p++ {
			if w.Cfg.Trace[p].Step == w.steps {
				for _, x := range rs {
					if x.ID == w.Cfg.Trace[p].G && w.Cfg.Trace[p].Stall == 0 {
						ch = x
					}
				}
			}
		}
	case "random":
		if !canStay || !sync || r.n(100) < w.Cfg.PickSync {
			ch = rs[r.n(len(rs))]
		}
	case "rr":
		if !canStay || !sync {
			ch = rs[0]
			for _, x := range rs {
				if g == nil || x.ID > g.ID {
					ch = x
					break
				}
			}
		}
	case "starve":
		if !canStay || !sync || r.n(100) < w.Cfg.PickSync {
			ch = rs[r.n(len(rs))]
		}
		if ch.ID == w.starve {
			for _, x := range rs {
				if x.ID != w.starve {
					ch = x
					break
				}
			}
		}
		if r.n(200) == 0 {
			w.starve = r.n(w.nextID + 1)
		}
	case "pct":
		if g != nil && !sync && canStay {
			g.prio = -int64(w.steps) // priority change point
		}
		ch = rs[0]
		for _, x := range rs {
			if x.prio > ch.prio {
				ch = x
			}
		}
	}
	if g != nil && g.gosched {
		g.gosched = false
		if w.Cfg.Policy != "trace" && ch == g && len(rs) > 1 {
			i := int(w.hashAt(3) % uint64(len(rs)))
			if rs[i] == g {
				i = (i + 1) % len(rs)
			}
			ch = rs[i]
		}
	}
	if ch != def {
		if len(w.out.Trace) < 400000 {
			w.out.Trace = append(w.out.Trace, Switch{Step: w.steps, G: ch.ID})
		} else {
			w.out.TraceFull = false
		}
		if canStay {
			w.out.Preempts++
		}
	}
	if ch.ID != w.lastG {
		w.out.Switches++
		w.hash = (w.hash ^ uint64(w.steps)) * 1099511628211
		w.hash = (w.hash ^ uint64(ch.ID+1)) * 1099511628211
		w.lastG = ch.ID
	}
	return ch
}

// Run executes fn as the main goroutine of the simulated process and returns
// when it returned, exited, panicked, deadlocked, was killed or ran out of
// steps. With drain, goroutines still alive after fn returned keep running
// until all have ended or are blocked; the blocked ones are reported as leaked.
func (w *World) Run(fn func(), drain bool) Outcome {
	if W != nil {
		panic("simrt: nested world")
	}
	W = w
	w.out.TraceFull = true
	w.lastG = -1
	raceDisable()
	main := w.newG()
	raceEnable()
	main.spawn(fn)
	w.loop(main, drain)
	// end of the process: kill what is left
	w.out.Steps = w.steps
	w.out.Hash = w.hash
	w.out.SimTime = time.Duration(w.steps)*time.Microsecond + time.Duration(w.sleepNS)
	w.dead = true
	if w.mapShuffles > 0 {
		w.stats["map_shuffle"] = w.mapShuffles
	}
	w.out.Stats = w.stats
	raceDisable()
	for i := 0; i < len(w.gs); i++ {
		g := w.gs[i]
		if g.exited {
			continue
		}
		g.killed = true
		cur = g
		Budget = bigBudget
		g.wake <- struct{}{}
		<-w.coord
	}
	raceEnable()
	cur = nil
	W = nil
	Budget = 1 << 62
	raceAcquire(&w.endSync)
	return w.out
}

func (w *World) loop(main *G, drain bool) {
	raceDisable()
	defer raceEnable()
	next := w.pick(nil, false)
	for {
		g := next
		w.setChunk()
		cur = g
		g.wake <- struct{}{}
		<-w.coord
		w.steps += w.chunk - Budget
		sync := false
		if g.exited {
			g.st = gDead
			if g.panicked {
				w.out.Panic = panicText(g.panicVal)
				w.out.Stack = g.panicStk
				w.end("panic", 2)
			} else if g == main {
				if !drain {
					w.end("return", 0)
				} else {
					w.draining = true
				}
			}
		} else if g.req != nil {
			f := g.req
			g.req = nil
			sync = true
			f()
		} else if g.st == gRunnable {
			w.stall(g)
		}
		if w.ended {
			return
		}
		if w.steps > w.Cfg.MaxSteps {
			w.end("steps", -1)
			return
		}
		if w.Cfg.CrashStep > 0 && w.steps >= w.Cfg.CrashStep {
			w.end("killed", 137)
			return
		}
		w.fireDue(false)
		for {
			next = w.pick(g, sync)
			if next != nil {
				break
			}
			if w.fireTimer() {
				continue
			}
			if w.draining {
				for _, x := range w.gs {
					if !x.exited {
						w.out.Leaked = append(w.out.Leaked, fmt.Sprintf("g%d blocked in %s", x.ID, x.why))
					}
				}
				w.end("return", 0)
			} else {
				var bl []string
				for _, x := range w.gs {
					if !x.exited {
						bl = append(bl, fmt.Sprintf("g%d: %s", x.ID, x.why))
					}
				}
				w.out.Panic = "all goroutines are asleep - deadlock! [" + strings.Join(bl, ", ") + "]"
				w.end("deadlock", 2)
			}
			return
		}
	}
}

func panicText(v any) string {
	switch x := v.(type) {
	case error:
		return "panic: " + x.Error()
	case fmt.Stringer:
		return "panic: " + x.String()
	}
	return fmt.Sprintf("panic: %v", v)
}

// Exit ends the simulated process.
func Exit(code int) {
	w := cur
	if w == nil {
		panic(fmt.Sprintf("simrt: exit(%d) outside a simulated run", code))
	}
	call(func() { W.end("exit", code) })
	runtime.Goexit()
}

// NumCPU is the simulated core count.
func NumCPU() int {
	if W == nil {
		return 4
	}
	return W.Cfg.CPU
}

// GOMAXPROCS is the simulated limit of threads; setting it is allowed.
func GOMAXPROCS(n int) int {
	if W == nil {
		return 4
	}
	old := W.Cfg.Procs
	if old <= 0 {
		old = W.Cfg.CPU
	}
	if n > 0 {
		W.Cfg.Procs = n
	}
	return old
}

// Rand draws from the run's miscellaneous stream.
func Rand() uint64 {
	if !InSim() {
		return 4
	}
	var v uint64
	call(func() { v = W.rMisc.next() })
	return v
}

// hashAt derives a decision from the seed and the position in the run, so
// that it does not depend on which other random decisions were taken.
func (w *World) hashAt(tag uint64) uint64 {
	r := rng{w.Cfg.Seed*0x9E3779B97F4A7C15 ^ tag*0xD6E8FEB86659FD93 ^ uint64(w.steps)*0xCA5A826395121157}
	return r.next()
}

// NumG counts live simulated goroutines.
func NumG() int {
	n := 0
	if W != nil {
		for _, g := range W.gs {
			if !g.exited {
				n++
			}
		}
	}
	return n
}

// EnterRec records entering an exported function of the program.
type EnterRec struct {
	Name string
	Step int64
	Muts int // disk changes before it
	Sys  int // system calls before it
}

// Enter notes that the program entered a function.
func Enter(name string) {
	if RaceEnabled || !InSim() || len(W.Enters) >= 20000 {
		return
	}
	W.Enters = append(W.Enters, EnterRec{name, W.now(), len(W.Proc.Muts), len(W.Proc.Log)})
}

// Steps tells how far the current world has run; harness use inside a run.
func Steps() int64 { return W.now() }

func (w *World) stat(k string) { w.stats[k]++ }

// Gosched lets another goroutine run.
func Gosched() {
	call(func() { cur.gosched = true })
}
