package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
	"unicode"
	"unicode/utf8"

	"verif.local/sim/simrt"
	"verif.local/sim/world"
)

// batch is how many seeds one worker process runs before a fresh one takes over.
const batch = 2000

type finding struct {
	w       *worker
	prop    string
	seed    uint64
	from    uint64 // first seed of the worker process
	class   string
	message string
	pre     []simrt.Preempt
}

type totals struct {
	world.Response
	distinct map[uint64]bool
	batches  int
	raceRuns int
}

func (t *totals) add(r *world.Response) {
	t.Runs += r.Runs
	t.Ops += r.Ops
	t.OpErrs += r.OpErrs
	t.Steps += r.Steps
	t.Switches += r.Switches
	t.SimTime += r.SimTime
	t.Multi += r.Multi
	t.Faulted += r.Faulted
	t.MaxRatio = max(t.MaxRatio, r.MaxRatio)
	for k, v := range r.Fired {
		t.Fired[k] += v
	}
	for k, v := range r.Sizes {
		t.Sizes[k] += v
	}
	for k, v := range r.Calls {
		t.Calls[k] += v
	}
	for k, v := range r.Visited {
		t.Visited[k] += v
	}
	for k, v := range r.Preempted {
		t.Preempted[k] += v
	}
	for _, i := range r.NonTriv {
		t.distinct[r.Digests[i]] = true
	}
	t.batches++
}

func newTotals() *totals {
	return &totals{Response: world.Response{Fired: map[string]int{}, Calls: map[string]int{}, Sizes: map[string]int{}, Visited: map[int]uint32{}, Preempted: map[int]uint32{}}, distinct: map[uint64]bool{}}
}

// search runs seeds until the time is over or a violation is found.
func search(ws []*worker, prop string, base uint64, limit time.Duration) (*totals, *finding, []string) {
	var mu sync.Mutex
	var wg sync.WaitGroup
	tot := newTotals()
	var found *finding
	var troubles []string
	next := base
	deadline := time.Now().Add(limit)
	for i := 0; i < workers(); i++ {
		w := ws[i%len(ws)]
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				left := time.Until(deadline)
				if found != nil || left <= 0 || len(troubles) > 3 {
					mu.Unlock()
					return
				}
				from := next
				next += batch
				mu.Unlock()
				r := w.serve(&world.Request{Mode: "search", Prop: prop, From: from, Count: batch, Budget: max(1, left.Milliseconds()), Digests: true})
				mu.Lock()
				switch {
				case r.trouble != "":
					troubles = append(troubles, r.trouble)
				case r.crash != "":
					if found == nil || r.progress < found.seed {
						found = &finding{w: w, prop: prop, seed: r.progress, from: from, class: r.crash, message: r.message}
					}
				default:
					tot.add(r.res)
					if w.race {
						tot.raceRuns += r.res.Runs
					}
					if f := r.res.Found; f != nil {
						if f.Class == "harness" {
							troubles = append(troubles, fmt.Sprintf("seed %d: %s", r.res.Seed, f.Violation))
						} else if found == nil || r.res.Seed < found.seed {
							found = &finding{w: w, prop: prop, seed: r.res.Seed, from: from, class: f.Class, message: f.Violation, pre: r.res.Pre}
						}
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	return tot, found, troubles
}

// raced tells which share of the runs is under the race detector: one of so many.
var raced = map[string]int{"C06": 2, "C02": 4, "C04": 4, "C05": 4}

func runCheck(args []string) int {
	if len(args) < 1 {
		return fatal("which property?")
	}
	prop, tr := args[0], tier(args)
	if !world.HasProfile(prop) {
		return fatal("no such property: %s", prop)
	}
	start := time.Now()
	dir, clean, err := scratch()
	if err != nil {
		return fatal("%v", err)
	}
	defer clean()
	w, err := buildWorker(filepath.Join(dir, "plain"), false)
	if err != nil {
		return fatal("%v", err)
	}
	ws := []*worker{w}
	if n := raced[prop]; n > 0 {
		// every n-th worker process runs under the race detector
		r, err := buildWorker(filepath.Join(dir, "race"), true)
		if err != nil {
			return fatal("%v", err)
		}
		for len(ws) < n-1 {
			ws = append(ws, w)
		}
		ws = append(ws, r)
	}
	built := time.Since(start)
	limit := 80 * time.Second
	if prop == "C06" || prop == "C11" {
		limit = 140 * time.Second
	}
	if tr == "thorough" {
		limit = 12 * time.Minute
	}
	if s := os.Getenv("VSIM_SECONDS"); s != "" {
		if d, err := time.ParseDuration(s + "s"); err == nil {
			limit = d
		}
	}
	seed, base := baseSeed()
	searchStart := time.Now()
	tot, found, troubles := search(ws, prop, base, limit)
	searched := time.Since(searchStart)
	ev := &evidence{prop: prop, tier: tr, seed: seed, w: w, tot: tot, searched: searched, built: built}
	code := 0
	if found != nil {
		fmt.Printf("seed %d: [%s] %s\n", found.seed, found.class, printable(found.message))
		path, note, err := found.w.minimise(found, prop)
		if err != nil {
			ev.note = err.Error()
			ev.write(time.Since(start))
			return fatal("%v", err)
		}
		if note != "" {
			fmt.Println(note)
		}
		ev.violation = fmt.Sprintf("[%s] %s (seed %d, replay %s)", found.class, found.message, found.seed, path)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		code = 1
	} else if len(troubles) > 0 {
		ev.note = troubles[0]
		ev.write(time.Since(start))
		return fatal("%s", troubles[0])
	} else {
		ev.repeat = w.repeat(prop, base)
	}
	if err := ev.write(time.Since(start)); err != nil {
		return fatal("%v", err)
	}
	if code == 0 {
		fmt.Printf("property %s held: %d runs (%d distinct), %d operations, %d steps, %d switches, %d faulted runs, %.0f s\n",
			prop, tot.Runs, len(tot.distinct), tot.Ops, tot.Steps, tot.Switches, tot.Faulted, searched.Seconds())
	}
	return code
}

// repeat runs some of the seeds again, in other processes, and compares the digests.
func (w *worker) repeat(prop string, base uint64) string {
	const n = 300
	a := w.serve(&world.Request{Mode: "search", Prop: prop, From: base, Count: n, Digests: true})
	if a.res == nil || a.res.Found != nil {
		return "not done"
	}
	same := 0
	var mu sync.Mutex
	var wg sync.WaitGroup
	parts := 5
	for k := 0; k < parts; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			per := n / parts
			b := w.serve(&world.Request{Mode: "search", Prop: prop, From: base + uint64(k*per), Count: per, Digests: true})
			if b.res == nil {
				return
			}
			mu.Lock()
			defer mu.Unlock()
			for i, d := range b.res.Digests {
				if k*per+i < len(a.res.Digests) && a.res.Digests[k*per+i] == d {
					same++
				}
			}
		}(k)
	}
	wg.Wait()
	return fmt.Sprintf("%d of %d seeds gave the same digest of schedule and results in another process", same, n)
}

func runSelfcheck(props []string) int {
	if len(props) == 0 {
		props = world.Profiles()
	}
	dir, clean, err := scratch()
	if err != nil {
		return fatal("%v", err)
	}
	defer clean()
	_, base := baseSeed()
	code := 0
	ws := map[bool]*worker{}
	for _, p := range props {
		race := raced[p] > 0
		if ws[race] == nil {
			if ws[race], err = buildWorker(filepath.Join(dir, fmt.Sprint(race)), race); err != nil {
				return fatal("%v", err)
			}
		}
		for k := uint64(0); k < 4; k++ {
			s := ws[race].repeat(p, base+k*5000)
			fmt.Println(p, s)
			if s != "300 of 300 seeds gave the same digest of schedule and results in another process" {
				code = 1
			}
		}
	}
	return code
}

// replayFile is what a violation is replayed from.
type replayFile struct {
	Property string            `json:"property"`
	Class    string            `json:"class"`
	Message  string            `json:"message"`
	Seed     uint64            `json:"seed"`
	Race     bool              `json:"race"`
	Schedule []string          `json:"schedule,omitempty"` // for the reader
	Faults   []string          `json:"faults,omitempty"`   // for the reader
	Note     string            `json:"note,omitempty"`
	Plans    []json.RawMessage `json:"plans"`
}

func runReplay(args []string) int {
	if len(args) < 1 {
		return fatal("which file?")
	}
	data, err := os.ReadFile(args[0])
	if err != nil {
		return fatal("%v", err)
	}
	var f replayFile
	if err := json.Unmarshal(data, &f); err != nil {
		return fatal("%v", err)
	}
	var plans []*world.Plan
	for _, raw := range f.Plans {
		p := new(world.Plan)
		if err := json.Unmarshal(raw, p); err != nil {
			return fatal("%v", err)
		}
		plans = append(plans, p)
	}
	dir, clean, err := scratch()
	if err != nil {
		return fatal("%v", err)
	}
	defer clean()
	w, err := buildWorker(dir, f.Race)
	if err != nil {
		return fatal("%v", err)
	}
	class, msg, trouble := w.try(plans)
	for i := 0; i < 4 && f.Race && trouble == "" && class == ""; i++ {
		// the schedule is the same each time, but the random hashes of the
		// standard library's concurrent maps can order two accesses by chance
		class, msg, trouble = w.try(plans)
	}
	if trouble != "" {
		return fatal("%s", trouble)
	}
	if class == "" {
		fmt.Println("no violation")
		return 0
	}
	fmt.Printf("[%s] %s\n", class, printable(msg))
	if class == f.Class && msg == f.Message {
		fmt.Println("exactly as recorded")
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, args[0])
	return 1
}

// try runs plans in a fresh process and returns the class of the last one's violation.
func (w *worker) try(plans []*world.Plan) (class, msg, trouble string) {
	r := w.serve(&world.Request{Mode: "run", Plans: plans})
	switch {
	case r.trouble != "":
		return "", "", r.trouble
	case r.crash != "":
		if int(r.progress) != len(plans)-1 {
			return "", "", ""
		}
		return r.crash, r.message, ""
	}
	o := r.res.Outcomes[len(plans)-1]
	if o.Class == "harness" {
		return "", "", o.Violation
	}
	return o.Class, o.Violation, ""
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// printable escapes what would make the output look binary.
func printable(s string) string {
	b := new(strings.Builder)
	for _, r := range s {
		if r == '\n' || r == '\t' || r != utf8.RuneError && unicode.IsPrint(r) {
			b.WriteRune(r)
			continue
		}
		fmt.Fprintf(b, "\\u%04x", r)
	}
	return b.String()
}
