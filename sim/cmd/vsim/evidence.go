package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

var rules = map[string]string{}

const commonRule = "Run i is generated from VERIF_SEED, the property and i: a decision tree, queries, callers and their operations, a solver behaviour, an environment and (where the property has them) faults, crashes and a schedule; it is executed on the instrumented code in a simulated world and judged against the reference. Distinct: the hash of all of that and of the schedule taken. "

var nontrivial = map[string]string{
	"A01": "at least one formula was solved", "A02": "at least one formula was solved", "A03": "at least one formula was solved",
	"A04": "at least two solver runs", "A05": "at least two solver runs", "A06": "at least one formula was solved",
	"B01": "at least one fault fired", "B02": "at least one fault fired", "B03": "a fault fired or caller-supplied code failed",
	"B04": "a formula was solved or a fault fired", "B05": "at least one preemption inside an operation", "B06": "at least two formulas were solved",
	"B07": "at least two formulas were kept and compared", "B08": "at least five context calls were compared", "B09": "at least one formula was compared", "B10": "something ill-formed was given to an operation",
}

func writeEvidence(cfg *checkCfg, t *totals, explored, wall time.Duration, viol *Replay, path string) {
	hours := explored.Hours()
	hit := 0
	perPkg := map[string][2]int{}
	for i, s := range cfg.sites {
		p := filepath.Dir(strings.SplitN(s, ":", 2)[0])
		x := perPkg[p]
		x[1]++
		if i < len(t.cov) && t.cov[i] > 0 {
			hit++
			x[0]++
		}
		perPkg[p] = x
	}
	pk := map[string]string{}
	for p, x := range perPkg {
		pk[p] = fmt.Sprintf("%d/%d", x[0], x[1])
	}
	var missed []string
	for i, s := range cfg.sites {
		if i < len(t.cov) && t.cov[i] == 0 {
			missed = append(missed, s)
		}
	}
	sort.Strings(missed)
	if len(missed) > 60 {
		missed = missed[:60]
	}
	cov := map[string]any{
		"evaluations":         t.runs,
		"distinct_nontrivial": len(t.distinct),
		"rule":                commonRule + "Non-trivial: " + nontrivial[cfg.prop] + ".",
		"samples":             t.samples,
		"trivial_runs":        t.trivial,
		"runs_without_verdict": map[string]any{
			"total": total(t.skips), "why": t.skips,
		},
		"runs_per_hour":         int(float64(t.runs) / hours),
		"seeds_per_hour":        int(float64(t.runs) / hours),
		"families":              t.families,
		"simulated_time_s":      float64(t.simNs) / 1e9,
		"statements_executed":   t.steps,
		"longest_run":           map[string]any{"run": t.slowest, "statements": t.maxSteps},
		"faults_fired":          t.faults,
		"faults_fired_total":    total(t.faults),
		"interleavings":         map[string]any{"distinct": len(t.scheds), "measure": "hash of the sequence of switches (statement number, next caller) of runs with at least one preemption"},
		"counters":              t.stats,
		"instrumented_sites":    len(cfg.sites),
		"sites_reached":         hit,
		"sites_reached_by_part": pk,
		"sites_not_reached":     missed,
		"code_started_threads":  t.usedGo,
		"components": map[string]string{
			"real":                   "every package of the repository outside internal/test, compiled from its working tree; per-statement yield points and the substitution of os, os/exec, time, sync, maps and math/rand by simulated ones are added at build time through an overlay",
			"simulated":              "file system, process execution and pipes, clock, random generators, map iteration order, the scheduling of callers",
			"stub (own code)":        "the SAT solver program: a CDCL solver whose models and refutations are checked, with chosen search orders, output layouts and failures",
			"reference (own code)":   "evaluation of queries over the tree by definition; formulas as sets of clauses; name table of the context",
			"outside the simulation": "Go's memory allocator and garbage collector; internal/test",
		},
		"workers": cfg.workers,
	}
	if cfg.prop == "B09" {
		cov["runs_compared_with_another_process"] = t.across
	}
	if viol != nil {
		cov["violation"] = map[string]any{"sig": viol.Sig, "msg": viol.Msg, "run": viol.Run, "replay": path, "executions_to_minimise": execs.Load()}
	}
	if len(t.trouble) > 0 {
		cov["trouble"] = t.trouble
	}
	ev := map[string]any{
		"property": cfg.prop, "tier": cfg.tier, "seed": int64(cfg.seed), "level": "exploration",
		"wall_s": wall.Seconds(), "coverage": cov,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err == nil {
		os.MkdirAll(filepath.Join(cfg.out, "evidence"), 0o755)
		err = os.WriteFile(filepath.Join(cfg.out, "evidence", cfg.prop+".json"), append(b, '\n'), 0o644)
	}
	if err != nil {
		die("evidence: %v", err)
	}
}
