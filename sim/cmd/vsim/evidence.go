package main

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"
	"time"

	"verif.local/sim/simrt"
	"verif.local/sim/world"
)

type simPre = simrt.Preempt

type evidence struct {
	prop, tier      string
	seed            int
	w               *worker
	tot             *totals
	searched, built time.Duration
	violation       string
	repeat          string
	note            string
}

const rule = "A case is one simulated run: a plan of clients, operations, shared parts, faults and a schedule, all drawn from one seed. " +
	"It is non-trivial if a fault fired, clients were interleaved (more switches than clients), an operation failed as predicted, or one client did at least two operations on shared state. " +
	"Two runs are distinct if the digests of their switches, steps and results differ."

func (e *evidence) write(wall time.Duration) error {
	t := e.tot
	perHour := func(n int) int { return int(float64(n) / math.Max(e.searched.Seconds(), 0.001) * 3600) }
	sites, pre := 0, 0
	for k := range t.Visited {
		if k > 0 {
			sites++
		}
	}
	for k := range t.Preempted {
		if k > 0 {
			pre++
		}
	}
	real := []string{"the whole library under test (" + realLibrary(e.w) + ")"}
	stub := []string{"log output (fails, writes short)", "argument converters, destinations, custom builders and preprocessing functions supplied by the simulated clients"}
	if e.prop <= "C05" {
		real = append(real, "database/sql (pool, transactions, rows, conversions)", "context and time of the standard library, in a bubble of testing/synctest")
		stub = append(stub, "database driver and server (scripted results, recorded contacts)", "clock (synctest)")
	}
	cov := map[string]any{
		"evaluations":                    t.Runs,
		"distinct_nontrivial":            len(t.distinct),
		"rule":                           rule,
		"samples":                        e.samples(),
		"runs_per_hour":                  perHour(t.Runs),
		"seeds_per_hour":                 perHour(t.Runs),
		"search_s":                       e.searched.Seconds(),
		"build_s":                        e.built.Seconds(),
		"worker_processes":               t.batches,
		"operations":                     t.Ops,
		"operations_by_kind":             t.Calls,
		"runs_by_size":                   t.Sizes,
		"operations_failed_as_predicted": t.OpErrs,
		"statements_executed":            t.Steps,
		"task_switches":                  t.Switches,
		"runs_with_several_clients":      t.Multi,
		"runs_with_faults":               t.Faulted,
		"faults_injected":                t.Fired,
		"simulated_time_s":               float64(t.SimTime) / 1e9,
		"yield_sites":                    len(e.w.ins.Sites) - 1,
		"yield_sites_reached":            sites,
		"yield_sites_preempted":          pre,
		"map_iterations_steered":         e.w.ins.MapRanges,
		"interleaving_measure":           "digest of the sequence of (task, step) at every switch, combined with all results",
		"runs_under_race_detector":       t.raceRuns,
		"components_real":                real,
		"components_stub":                stub,
		"determinism":                    e.repeat,
	}
	if e.prop == "C13" {
		cov["largest_work_to_bound_ratio"] = t.MaxRatio
	}
	if e.w.ins.Note != "" {
		cov["instrumentation_note"] = e.w.ins.Note
	}
	if e.note != "" {
		cov["trouble"] = head(e.note, 2000)
	}
	viol := 0
	if e.violation != "" {
		viol = 1
		cov["violation"] = head(e.violation, 4000)
	}
	doc := map[string]any{
		"property": e.prop,
		"tier":     e.tier,
		"seed":     e.seed,
		"level":    "exploration",
		"coverage": cov,
		"assumptions": []string{
			"the generators' plans are samples: absence of a violation is evidence, not proof",
			"switches between clients happen between statements of the library (and at its synchronisation), not within a statement",
			"the reference model states the intended behaviour (DESIGN.md says which inputs are left out because it is unspecified)",
		},
		"wall_s":     wall.Seconds(),
		"violations": viol,
	}
	data, err := json.MarshalIndent(doc, "", " ")
	if err != nil {
		return err
	}
	dir := filepath.Join(verifDir, "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, e.prop+".json"), append(data, '\n'), 0o644)
}

func realLibrary(w *worker) string {
	if !w.ins.Preempt {
		return "compiled as it is"
	}
	return fmt.Sprintf("compiled from the current tree with a yield point before each of its %d statements, steered map iterations and simulated sync primitives", len(w.ins.Sites)-1)
}

// samples writes out the smallest interesting cases among the first seeds.
func (e *evidence) samples() []any {
	_, base := baseSeed()
	var out []any
	var best *world.Plan
	size := 0
	for s := base; s < base+60; s++ {
		p := world.Generate(e.prop, s)
		data, _ := json.Marshal(p)
		if len(p.Faults) == 0 && len(p.Tasks) < 2 && best != nil {
			continue
		}
		if best == nil || len(data) < size {
			best, size = p, len(data)
		}
	}
	out = append(out, map[string]any{"seed": best.Seed, "plan": best, "templates": templates(best)})
	return out
}

func templates(p *world.Plan) []string {
	var out []string
	for i, n := range p.Nodes {
		if n.K == world.NFrag {
			out = append(out, fmt.Sprintf("N%d: %s", i, strings.TrimSpace(world.Render(n.P))))
		}
	}
	return out
}
