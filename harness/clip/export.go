package clip

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

var exported int

// export writes fault-free runs to the directory $SIMEXPORT (tools/fidelity.sh
// runs the same jobs with the native tools on the real system).
func export(j Job) func(*Res) {
	d := os.Getenv("SIMEXPORT")
	if d == "" || len(j.Faults) > 0 || j.FS.Free >= 0 {
		return func(*Res) {}
	}
	for _, a := range j.Args {
		if strings.Contains(a, "/dbg") || strings.Contains(a, "=/") || strings.Contains(a, "..") {
			return func(*Res) {}
		}
	}
	pre := snapshot(j.FS)
	for f, t := range pre {
		if !strings.HasPrefix(f, cwd+"/") || strings.HasSuffix(f, "config.yaml") && strings.Contains(t, "debug: true") {
			return func(*Res) {}
		}
	}
	exported++
	n := filepath.Join(d, fmt.Sprintf("%d-%d", os.Getpid(), exported))
	dump := func(sub string, m map[string]string) {
		for f, t := range m {
			p := filepath.Join(n, sub, strings.TrimPrefix(f, cwd))
			os.MkdirAll(filepath.Dir(p), 0755)
			os.WriteFile(p, []byte(t), 0644)
		}
	}
	return func(r *Res) {
		if !r.ended() {
			return
		}
		for f := range snapshot(j.FS) {
			if !strings.HasPrefix(f, cwd+"/") {
				return
			}
		}
		dump("before", pre)
		dump("after", snapshot(j.FS))
		b, _ := json.Marshal(map[string]any{"tool": j.Tool, "args": j.Args, "code": r.Code, "stdout": string(r.P.Stdout), "stderr": string(r.P.Stderr)})
		os.WriteFile(filepath.Join(n, "job.json"), b, 0644)
	}
}
