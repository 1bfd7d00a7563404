package core

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"time"
)

func evidence(p *Prop, a *agg, tier string, seed uint64, el time.Duration, verif string, rc int, rep string) {
	hours := el.Hours()
	if hours <= 0 {
		hours = 1e-9
	}
	var samples []any
	for i := 0; i < 3; i++ {
		if c, err := genCase(p, seed, i); err == nil {
			samples = append(samples, c)
		}
	}
	level := p.Level
	if level == "" {
		level = "exploration"
	}
	m := map[string]any{
		"property":    p.ID,
		"tier":        tier,
		"seed":        seed,
		"level":       level,
		"wall_s":      el.Seconds(),
		"violations":  len(a.viols),
		"assumptions": p.Stub,
		"coverage": map[string]any{
			"technique":                    "deterministic simulation with fault injection: seeded search over schedules, inputs and fault sequences",
			"evaluations":                  a.evals,
			"distinct_nontrivial":          len(a.fps),
			"rule":                         p.Rule,
			"samples":                      samples,
			"simulated_processes":          a.worlds,
			"simulated_processes_per_hour": int64(float64(a.worlds) / hours),
			"seeds_per_hour":               int64(float64(a.evals) / hours),
			"scheduler_steps":              a.steps,
			"simulated_seconds":            float64(a.simNS) / 1e9,
			"faults_injected":              a.faults,
			"distinct_interleavings":       len(a.inter),
			"interleaving_measure":         "hash of the sequence of (step, goroutine) context switches of one simulated process",
			"distinct_states":              len(a.states),
			"state_measure":                p.Measure,
			"conditions_reached":           a.probes,
			"case_kinds":                   a.kinds,
			"cases_repeated_identically":   a.twice,
			"digest_of_all_event_hashes":   fmt.Sprintf("%x", a.digest),
			"real_components":              p.Real,
			"stub_components":              p.Stub,
		},
	}
	if rep != "" {
		m["violation_replay"] = rep
	}
	b, _ := json.MarshalIndent(m, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	tmp := filepath.Join(verif, "evidence", "."+p.ID+".tmp")
	os.WriteFile(tmp, append(b, '\n'), 0644)
	os.Rename(tmp, filepath.Join(verif, "evidence", p.ID+".json"))
}
