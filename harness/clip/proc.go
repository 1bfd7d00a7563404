// Package clip runs the command-line tools of the repository in the
// simulator.
package clip

import (
	"fmt"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"simmod/harness/core"
	"simmod/reg/cli"
	"simmod/reg/data"
	"simmod/simrt"
	simlog "simmod/simrt/sh/log"
	simos "simmod/simrt/sh/os"
)

const cwd = "/work"

// Job is one tool invocation on one disk.
type Job struct {
	Tool   string
	Args   []string
	FS     *simrt.FS
	World  simrt.Config
	Faults []simrt.Fault
	ShortR int
	ShortW int
}

// Res is what is left of a finished process.
type Res struct {
	Out  simrt.Outcome
	Code int // exit status; -1: did not end
	P    *simrt.Proc
	Ent  []simrt.EnterRec
	Nows []time.Time // clock readings of the process
}

func (r *Res) file(p string) ([]byte, bool) { return r.P.FS.Get(abs(p)) }

func abs(p string) string {
	if path.IsAbs(p) {
		return path.Clean(p)
	}
	return path.Join(cwd, p)
}

// run executes the job as world number wi of the case.
func run(x *core.Ctx, wi int, j Job) *Res {
	if j.World.MaxSteps == 0 {
		j.World.MaxSteps = 60_000_000
	}
	w := simrt.NewWorld(j.World)
	w.Proc.FS = j.FS
	w.Proc.Args = append([]string{j.Tool}, j.Args...)
	w.Proc.Cwd = cwd
	w.Proc.Env = map[string]string{"COLUMNS": "80", "HOME": "/root", "PATH": "/bin"}
	w.Proc.Faults = append([]simrt.Fault(nil), j.Faults...)
	w.Proc.ShortRead = j.ShortR
	w.Proc.ShortWrite = j.ShortW
	done := export(j)
	prog, ok := cli.Progs[j.Tool]
	if !ok {
		panic("no tool " + j.Tool)
	}
	o := w.Run(func() {
		simos.SimStart()
		simlog.SimStart()
		prog.Reset()
		prog.Main()
	}, false)
	r := &Res{Out: o, P: w.Proc, Ent: w.Enters, Nows: w.Nows}
	switch o.Kind {
	case "return":
		r.Code = 0
	case "exit":
		r.Code = o.Code & 255
	case "panic", "deadlock":
		r.Code = 2
		r.P.Stderr = append(r.P.Stderr, o.Panic...)
	case "killed":
		r.Code = 137
	default:
		r.Code = -1
	}
	done(r)
	x.Done(wi, &o)
	for k, v := range w.Proc.Injected {
		x.Faults[k] += v
	}
	if o.Kind == "killed" {
		x.Faults["kill"]++
	}
	x.See(uint64(r.Code + 7))
	x.See(core.HashBytes(r.P.Stdout))
	x.See(core.HashBytes(r.P.Stderr))
	for _, f := range j.FS.List() {
		b, _ := j.FS.Get(f)
		x.See(core.HashStr(f))
		x.See(core.HashBytes(b))
	}
	if d := os.Getenv("SIMDUMP"); d != "" && x.Verbose { // for people looking at a replay
		for _, f := range j.FS.List() {
			b, _ := j.FS.Get(f)
			n := filepath.Join(d, fmt.Sprint(wi), f)
			os.MkdirAll(filepath.Dir(n), 0755)
			os.WriteFile(n, b, 0644)
		}
	}
	if x.Verbose {
		x.Note("process %d: %s %s -> %s, exit %d, %d steps, %d switches, cpu %d, policy %s", wi, j.Tool, strings.Join(j.Args, " "), o.Kind, r.Code, o.Steps, o.Switches, j.World.CPU, j.World.Policy)
		if o.Panic != "" {
			x.Note("  %s", o.Panic)
		}
		for _, s := range w.Proc.Log {
			l := fmt.Sprintf("  sys %d step %d g%d %s %s #%d arg %d -> %d", s.N, s.Step, s.G, s.Kind, s.Path, s.Occ, s.Arg, s.Ret)
			if s.Err != "" {
				l += " " + s.Err
			}
			if s.Fault != "" {
				l += "   <-- injected: " + s.Fault
			}
			x.Note("%s", l)
		}
		if n := len(r.P.Stderr); n > 0 {
			t := string(r.P.Stderr)
			if n > 600 {
				t = "..." + t[n-600:]
			}
			x.Note("  stderr: %s", strings.TrimSpace(t))
		}
	}
	return r
}

// Defaults of the simulated installation: the repository's own templates.
func template(name string) string {
	if s, ok := data.Files[name]; ok {
		return s
	}
	return ""
}

// newDisk makes the installation directory: templates, configuration, model.
func newDisk(c *core.Case) *simrt.FS {
	fs := simrt.NewFS()
	fs.Mkdir(cwd + "/data")
	fs.Mkdir("/dbg")
	fs.Mkdir("/tmp")
	put := func(n, def string) {
		if t, ok := c.Texts[n]; ok {
			if t == "\x00absent" {
				return
			}
			def = t
		}
		fs.Put(abs(n), []byte(def))
	}
	put("data/header_template.txt", template("header_template.txt"))
	put("data/footer_template.txt", template("footer_template.txt"))
	put("data/config.yaml", "debug: false\ndebug_file: /dbg/debug.txt\n")
	for n := range c.Texts {
		if _, ok := fs.Get(abs(n)); !ok {
			put(n, "")
		}
	}
	fs.Put(abs("in.stl"), model(c))
	return fs
}

func model(c *core.Case) []byte {
	return core.STL(core.Mesh(c.Mesh), c.Format, c.Seed)
}

// flags renders options in a fixed order.
func flags(o map[string]string) []string {
	var ks []string
	for k := range o {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var r []string
	for _, k := range ks {
		if o[k] == "" {
			r = append(r, "--"+k)
		} else {
			r = append(r, "--"+k+"="+o[k])
		}
	}
	return r
}

func snapshot(fs *simrt.FS) map[string]string {
	m := map[string]string{}
	for _, f := range fs.List() {
		b, _ := fs.Get(f)
		m[f] = string(b)
	}
	return m
}

func num(f float64) string { return fmt.Sprintf("%.4f", f) }

// outputs of a tool with given options: option name and default.
var outs = map[string][][2]string{
	"goosli":            {{"gcode", "out.gcode"}},
	"goosli_cutter":     {{"out1", "out1.stl"}, {"out2", "out2.stl"}},
	"goosli_simplifier": {{"out", "out.stl"}},
	"goosli_colorizer":  {{"out", "colorize_triangles.bin"}},
	"goosli_analyzer":   {{"out", "analyzed_planes.txt"}},
}

var tools = []string{"goosli", "goosli_cutter", "goosli_simplifier", "goosli_colorizer", "goosli_analyzer"}

func outFiles(c *core.Case) []string {
	var r []string
	for _, o := range outs[c.Tool] {
		n := o[1]
		if v, ok := c.Opts[o[0]]; ok {
			n = v
		}
		r = append(r, abs(n))
	}
	return r
}

// strip removes the one line that may differ between runs.
func stripTime(b []byte) string {
	ls := strings.SplitAfter(string(b), "\n")
	for i, l := range ls {
		if i > 12 {
			break
		}
		if strings.HasPrefix(l, ";Sliced at:") {
			ls[i] = ";Sliced at:\n"
		}
	}
	return strings.Join(ls, "")
}

// ok says whether the process ended by itself.
func (r *Res) ended() bool { return r.Out.Kind != "steps" && r.Out.Kind != "killed" }

func tailOf(b []byte) string {
	s := strings.TrimSpace(string(b))
	if len(s) > 200 {
		s = "..." + s[len(s)-200:]
	}
	return s
}

func diffAt(a, b string) string {
	n := 0
	for n < len(a) && n < len(b) && a[n] == b[n] {
		n++
	}
	ln := 1 + strings.Count(a[:n], "\n")
	cut := func(s string) string {
		i := strings.LastIndexByte(s[:n], '\n') + 1
		e := i + 90
		if e > len(s) {
			e = len(s)
		}
		return fmt.Sprintf("%q", s[i:e])
	}
	return fmt.Sprintf("lengths %d and %d, first difference at byte %d (line %d): %s against %s", len(a), len(b), n, ln, cut(a), cut(b))
}
