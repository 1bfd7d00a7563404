package core

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"simmod/simrt"
)

// Replay is the file written for a violation.
type Replay struct {
	Property string   `json:"property"`
	Class    string   `json:"class"`
	Message  string   `json:"message"`
	Seed     uint64   `json:"seed"`
	Hash     string   `json:"event_hash"`
	Original *Case    `json:"original_case"`
	Case     *Case    `json:"case"`
	Log      []string `json:"event_log"`
	Binary   string   `json:"binary"`
}

// wres is what a worker reports about one case.
type wres struct {
	I       int              `json:"i"`
	Start   bool             `json:"start,omitempty"`
	Viol    *Viol            `json:"viol,omitempty"`
	Case    *Case            `json:"case,omitempty"`
	Worlds  int64            `json:"w,omitempty"`
	Steps   int64            `json:"s,omitempty"`
	SimNS   int64            `json:"t,omitempty"`
	Hash    uint64           `json:"h,omitempty"`
	Inter   []uint64         `json:"in,omitempty"`
	States  []uint64         `json:"st,omitempty"`
	Faults  map[string]int64 `json:"f,omitempty"`
	Probes  map[string]int64 `json:"p,omitempty"`
	Nontriv bool             `json:"n,omitempty"`
	Kind    string           `json:"k,omitempty"`
	Err     string           `json:"e,omitempty"`
	Twice   bool             `json:"tw,omitempty"`
}

type known struct {
	Prop, Class, Match, What string
}

// loadKnown reads the findings recorded as not repaired.
func loadKnown(name string) (ks []known) {
	b, err := os.ReadFile(name)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		f := strings.SplitN(strings.TrimSpace(strings.TrimPrefix(l, "known:")), " ", 4)
		if len(f) == 4 {
			ks = append(ks, known{strings.TrimPrefix(f[0], "property="), strings.TrimPrefix(f[1], "class="), strings.TrimPrefix(f[2], "match="), f[3]})
		}
	}
	return
}

func findKnown(ks []known, v *Viol) *known {
	for i := range ks {
		if ks[i].Prop == v.Prop && ks[i].Class == v.Class && strings.Contains(strings.ReplaceAll(v.Msg, " ", "_"), ks[i].Match) {
			return &ks[i]
		}
	}
	return nil
}

// runCase executes one case.
func runCase(p *Prop, c *Case, verbose bool) (x *Ctx) {
	x = NewCtx()
	x.Verbose = verbose
	func() {
		defer func() {
			if r := recover(); r != nil {
				x.Err = fmt.Sprintf("harness panic: %v\n%s", r, debug.Stack())
			}
		}()
		p.Run(c, x)
	}()
	if simrt.W != nil {
		x.Err = "world left running"
	}
	if x.Viol != nil {
		x.Viol.Prop = p.ID
	}
	return
}

func genCase(p *Prop, seed uint64, i int) (c *Case, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("generator panic: %v\n%s", r, debug.Stack())
		}
	}()
	s := Mix(seed, HashStr(p.ID), uint64(i))
	c = p.Gen(NewRng(s), i)
	c.Prop = p.ID
	c.Index = i
	c.Seed = s
	return c.Clone(), nil
}

func keysOf(m map[uint64]bool, max int) []uint64 {
	var r []uint64
	for k := range m {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	if len(r) > max {
		r = r[:max]
	}
	return r
}

func worker(p *Prop, seed uint64, from, step, count int, twice int) {
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	stop := int32(0)
	go func() { // the parent closes stdin to stop us
		io.Copy(io.Discard, os.Stdin)
		atomic.StoreInt32(&stop, 1)
	}()
	for i := from; i < count; i += step {
		if atomic.LoadInt32(&stop) != 0 {
			break
		}
		enc.Encode(wres{I: i, Start: true})
		out.Flush()
		c, err := genCase(p, seed, i)
		if err != nil {
			enc.Encode(wres{I: i, Err: err.Error()})
			out.Flush()
			continue
		}
		x := runCase(p, c, false)
		r := wres{I: i, Viol: x.Viol, Worlds: x.Worlds, Steps: x.Steps, SimNS: x.SimNS, Hash: x.Hash, Inter: keysOf(x.Inter, 64), States: keysOf(x.States, 256), Faults: x.Faults, Probes: x.Probes, Nontriv: x.Nontriv, Kind: c.Kind, Err: x.Err}
		if twice > 0 && (i/step)%twice == 0 && r.Err == "" && x.Viol == nil {
			r.Twice = true
			c2, _ := genCase(p, seed, i)
			y := runCase(p, c2, false)
			if y.Hash != x.Hash {
				r.Err = fmt.Sprintf("case %d is not repeatable: event hash %x then %x", i, x.Hash, y.Hash)
			}
		}
		if x.Viol != nil {
			r.Case = c
		}
		enc.Encode(r)
		out.Flush()
	}
}

// Main is the entry point of a check binary.
func Main(props []*Prop) {
	debug.SetGCPercent(400)
	id := flag.String("prop", "", "property")
	mode := flag.String("mode", "check", "check, worker, replay, one, min")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Uint64("seed", 1, "seed")
	nw := flag.Int("workers", 8, "worker processes")
	from := flag.Int("from", 0, "")
	step := flag.Int("step", 1, "")
	count := flag.Int("count", 0, "number of cases")
	secs := flag.Int("secs", 0, "time limit")
	twice := flag.Int("twice", 40, "run every n-th case twice")
	verif := flag.String("verif", "/verif", "")
	file := flag.String("file", "", "replay file")
	procs := flag.Int("procs", 1, "GOMAXPROCS of workers")
	flag.Parse()
	if *mode == "replay" {
		os.Exit(replay(props, *file))
	}
	var p *Prop
	for _, q := range props {
		if q.ID == *id {
			p = q
		}
	}
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *id)
		os.Exit(3)
	}
	switch *mode {
	case "worker":
		runtime.GOMAXPROCS(*procs)
		worker(p, *seed, *from, *step, *count, *twice)
	case "one":
		c, err := genCase(p, *seed, *from)
		if err != nil {
			fmt.Println(err)
			os.Exit(3)
		}
		b, _ := json.MarshalIndent(c, "", " ")
		fmt.Println(string(b))
		t := time.Now()
		x := runCase(p, c, true)
		for _, l := range x.Log {
			fmt.Println(l)
		}
		fmt.Printf("%+v\nworlds %d steps %d time %v hash %x nontrivial %v faults %v probes %v err %s\n", x.Viol, x.Worlds, x.Steps, time.Since(t), x.Hash, x.Nontriv, x.Faults, x.Probes, x.Err)
	case "min":
		c, _ := genCase(p, *seed, *from)
		x := runCase(p, c, false)
		if x.Viol == nil {
			fmt.Println("no violation")
			os.Exit(0)
		}
		m := minimise(p, c, x, 60*time.Second)
		b, _ := json.MarshalIndent(m, "", " ")
		fmt.Println(string(b))
		x = runCase(p, m, true)
		fmt.Println(strings.Join(x.Log, "\n"))
	case "check":
		n := p.Quick
		lim := p.QuickS
		if lim == 0 {
			lim = 150
		}
		if *tier == "thorough" {
			n = p.Thorough
			if n == 0 {
				n = p.Quick * 20
			}
			lim = 840
		}
		if *count > 0 {
			n = *count
		}
		if *secs > 0 {
			lim = *secs
		}
		os.Exit(check(p, *tier, *seed, *nw, n, time.Duration(lim)*time.Second, *verif, *twice, *procs))
	default:
		os.Exit(3)
	}
}

type agg struct {
	sync.Mutex
	evals, nontriv, worlds, steps, simNS, twice int64
	inter, states, fps                          map[uint64]bool
	faults, probes, kinds                       map[string]int64
	viols                                       []wres
	errs                                        []string
	knownHit                                    map[string]int
	digest                                      uint64
}

func check(p *Prop, tier string, seed uint64, nw, n int, lim time.Duration, verif string, twice, procs int) int {
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	ks := loadKnown(filepath.Join(verif, "known_findings.txt"))
	a := &agg{inter: map[uint64]bool{}, states: map[uint64]bool{}, fps: map[uint64]bool{}, faults: map[string]int64{}, probes: map[string]int64{}, kinds: map[string]int64{}, knownHit: map[string]int{}}
	start := time.Now()
	fmt.Printf("%s: seed %d, up to %d cases, limit %v, %d workers\n", p.ID, seed, n, lim, nw)
	var wg sync.WaitGroup
	stopAll := make(chan struct{})
	var once sync.Once
	stop := func() { once.Do(func() { close(stopAll) }) }
	timer := time.AfterFunc(lim, stop)
	defer timer.Stop()
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			next := w
			crashes := 0
			for next < n {
				select {
				case <-stopAll:
					return
				default:
				}
				last, ok, msg := runWorker(self, p, seed, next, nw, n, twice, procs, a, ks, stop, stopAll)
				if ok {
					return
				}
				crashes++
				// the worker died while running case `last`: does it again?
				_, ok2, msg2 := runWorker(self, p, seed, last, n, last+1, 0, procs, a, ks, stop, stopAll)
				a.Lock()
				if ok2 {
					a.errs = append(a.errs, fmt.Sprintf("worker died at case %d, not reproducible: %s", last, msg))
				} else if cl := crashClass(msg2); cl != "" && cl == crashClass(msg) {
					c, _ := genCase(p, seed, last)
					a.viols = append(a.viols, wres{I: last, Case: c, Viol: &Viol{Prop: p.ID, Class: cl, Msg: firstLines(msg2, 3)}})
					stop()
				} else {
					a.errs = append(a.errs, fmt.Sprintf("worker died at case %d: %s", last, firstLines(msg2, 5)))
				}
				a.Unlock()
				if crashes > 3 {
					return
				}
				next = last + nw
			}
		}(w)
	}
	wg.Wait()
	el := time.Since(start)
	sort.Slice(a.viols, func(i, j int) bool { return a.viols[i].I < a.viols[j].I })
	for k, c := range a.knownHit {
		_ = c
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k)
	}
	rc := 0
	var rep string
	if len(a.viols) > 0 {
		v := a.viols[0]
		rep = report(p, v, seed, verif)
		rc = 1
		if rep == "" {
			rc = 3
		}
	} else if len(a.errs) > 0 {
		for _, e := range a.errs {
			fmt.Fprintf(os.Stderr, "%s: machinery error: %s\n", p.ID, e)
		}
		rc = 3
	}
	evidence(p, a, tier, seed, el, verif, rc, rep)
	fmt.Printf("%s: %d cases (%d distinct non-trivial), %d simulated processes, %.1fM steps, %d interleavings, %v\n", p.ID, a.evals, len(a.fps), a.worlds, float64(a.steps)/1e6, len(a.inter), el.Round(time.Millisecond))
	if rc == 0 && a.evals == 0 {
		fmt.Fprintln(os.Stderr, "no case was run")
		rc = 3
	}
	if rc == 0 && len(a.fps) == 0 {
		fmt.Fprintln(os.Stderr, "no case was non-trivial")
		rc = 3
	}
	return rc
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " | ")
}

func crashClass(s string) string {
	switch {
	case strings.Contains(s, "stack overflow") || strings.Contains(s, "goroutine stack exceeds"):
		return "stack-overflow"
	case strings.Contains(s, "concurrent map"):
		return "concurrent-map"
	}
	return ""
}

func runWorker(self string, p *Prop, seed uint64, from, step, count, twice, procs int, a *agg, ks []known, stop func(), stopAll chan struct{}) (last int, ok bool, msg string) {
	cmd := exec.Command(self, "-mode", "worker", "-prop", p.ID, "-seed", strconv.FormatUint(seed, 10), "-from", strconv.Itoa(from), "-step", strconv.Itoa(step), "-count", strconv.Itoa(count), "-twice", strconv.Itoa(twice), "-procs", strconv.Itoa(procs))
	cmd.Env = append(os.Environ(), "GOMEMLIMIT=3GiB")
	var eb tail
	cmd.Stderr = &eb
	in, _ := cmd.StdinPipe()
	outp, _ := cmd.StdoutPipe()
	if err := cmd.Start(); err != nil {
		return from, false, err.Error()
	}
	done := make(chan struct{})
	go func() {
		select {
		case <-stopAll:
			in.Close()
			select {
			case <-done:
			case <-time.After(90 * time.Second):
				cmd.Process.Kill()
			}
		case <-done:
		}
	}()
	last = from
	sc := bufio.NewScanner(outp)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		var r wres
		if json.Unmarshal(sc.Bytes(), &r) != nil {
			continue
		}
		last = r.I
		if r.Start {
			continue
		}
		a.Lock()
		a.evals++
		a.worlds += r.Worlds
		a.steps += r.Steps
		a.simNS += r.SimNS
		for _, h := range r.Inter {
			a.inter[h] = true
		}
		for _, h := range r.States {
			a.states[h] = true
		}
		for k, v := range r.Faults {
			a.faults[k] += v
		}
		for k, v := range r.Probes {
			a.probes[k] += v
		}
		a.kinds[r.Kind]++
		if r.Nontriv {
			a.nontriv++
			a.fps[r.Hash] = true
		}
		if r.Twice {
			a.twice++
		}
		a.digest ^= Mix(uint64(r.I), r.Hash)
		if r.Err != "" {
			a.errs = append(a.errs, fmt.Sprintf("case %d: %s", r.I, r.Err))
			if len(a.errs) > 20 {
				stop()
			}
		} else if r.Viol != nil {
			if k := findKnown(ks, r.Viol); k != nil {
				a.knownHit[k.What]++
			} else {
				a.viols = append(a.viols, r)
				stop()
			}
		}
		a.Unlock()
	}
	err := cmd.Wait()
	close(done)
	in.Close()
	if err != nil {
		select {
		case <-stopAll:
			return last, true, ""
		default:
		}
		return last, false, err.Error() + "\n" + eb.String()
	}
	return last, true, ""
}

// tail keeps the beginning and the end of a stream.
type tail struct{ b []byte }

func (t *tail) Write(p []byte) (int, error) {
	t.b = append(t.b, p...)
	if len(t.b) > 1<<16 {
		t.b = append(t.b[:1<<14:1<<14], t.b[len(t.b)-1<<14:]...)
	}
	return len(p), nil
}
func (t *tail) String() string { return string(t.b) }

func report(p *Prop, v wres, seed uint64, verif string) string {
	name := filepath.Join(verif, "replays", fmt.Sprintf("%s-%d-%d.json", p.ID, seed, v.I))
	os.MkdirAll(filepath.Dir(name), 0755)
	rep := Replay{Property: p.ID, Class: v.Viol.Class, Message: v.Viol.Msg, Seed: seed, Original: v.Case, Case: v.Case, Binary: filepath.Base(os.Args[0])}
	x := NewCtx()
	if cl := v.Viol.Class; cl != "stack-overflow" && cl != "concurrent-map" {
		x = runCase(p, v.Case, true)
		if x.Viol == nil || x.Viol.Class != v.Viol.Class {
			fmt.Fprintf(os.Stderr, "%s: case %d violated in the worker (%s: %s) but not when repeated\n", p.ID, v.I, v.Viol.Class, v.Viol.Msg)
			return ""
		} else {
			m := minimise(p, v.Case, x, 40*time.Second)
			x = runCase(p, m, true)
			rep.Case = m
			if x.Viol != nil {
				rep.Class, rep.Message = x.Viol.Class, x.Viol.Msg
			}
		}
	}
	rep.Log = x.Log
	rep.Hash = fmt.Sprintf("%x", x.Hash)
	b, _ := json.MarshalIndent(rep, "", " ")
	os.WriteFile(name, b, 0644)
	fmt.Printf("%s: %s: %s\n", p.ID, rep.Class, rep.Message)
	fmt.Printf("%s: found by case %d of seed %d; minimised case and schedule in the replay file\n", p.ID, v.I, seed)
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, name)
	return name
}

func replay(props []*Prop, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	for _, p := range props {
		if p.ID != r.Property {
			continue
		}
		x := runCase(p, r.Case, true)
		for _, l := range x.Log {
			fmt.Println(l)
		}
		if x.Err != "" {
			fmt.Fprintln(os.Stderr, x.Err)
			return 3
		}
		if x.Viol == nil {
			fmt.Printf("replay of %s: no violation\n", file)
			return 0
		}
		same := x.Viol.Class == r.Class && x.Viol.Msg == r.Message && fmt.Sprintf("%x", x.Hash) == r.Hash
		fmt.Printf("replay: %s: %s (identical to the recorded run: %v)\n", x.Viol.Class, x.Viol.Msg, same)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, file)
		return 1
	}
	fmt.Fprintf(os.Stderr, "property %s is not in this binary\n", r.Property)
	return 3
}
