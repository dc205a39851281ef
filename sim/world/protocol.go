package world

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"time"

	"verif.local/sim/simrt"
)

// Request is what the orchestrator asks of a worker process.
type Request struct {
	Mode     string  `json:"mode"` // search: seeds; run: plans
	Prop     string  `json:"prop"`
	From     uint64  `json:"from"`
	Count    int     `json:"count"`
	Budget   int64   `json:"budget_ms"`
	Plans    []*Plan `json:"plans,omitempty"`
	Class    string  `json:"class,omitempty"` // run: stop at the first plan with this class of violation
	Progress string  `json:"progress"`
	Out      string  `json:"out"`
	Digests  bool    `json:"digests,omitempty"`
}

// Response is what a worker process reports.
type Response struct {
	Runs      int             `json:"runs"`
	Ops       int64           `json:"ops"`
	OpErrs    int64           `json:"op_errs"`
	Steps     int64           `json:"steps"`
	Switches  int64           `json:"switches"`
	SimTime   int64           `json:"sim_time_ns"`
	Multi     int             `json:"multi"` // runs with several tasks
	Faulted   int             `json:"faulted"`
	Fired     map[string]int  `json:"fired,omitempty"`
	Calls     map[string]int  `json:"calls,omitempty"`
	Sizes     map[string]int  `json:"sizes,omitempty"`
	MaxRatio  float64         `json:"max_ratio,omitempty"`
	Digests   []uint64        `json:"digests,omitempty"`
	Visited   map[int]uint32  `json:"visited,omitempty"`
	Preempted map[int]uint32  `json:"preempted,omitempty"`
	Outcomes  []*Outcome      `json:"outcomes,omitempty"`
	Seed      uint64          `json:"seed,omitempty"` // of the violation
	Found     *Outcome        `json:"found,omitempty"`
	Index     int             `json:"index"` // run: of the plan with the violation, -1: none
	Trouble   string          `json:"trouble,omitempty"`
	NonTriv   []int           `json:"non_trivial,omitempty"` // indexes of Digests
	Pre       []simrt.Preempt `json:"pre,omitempty"`
}

// ExecSafe runs a plan that need not be one that was generated.
func ExecSafe(p *Plan) (out *Outcome) {
	defer func() {
		if r := recover(); r != nil {
			out = &Outcome{Class: "harness", Violation: fmt.Sprintf("harness: %v\n%s", r, debug.Stack())}
		}
	}()
	if _, ok := dryRun(p, 100000, true); !ok {
		return &Outcome{Class: "harness", Violation: "the plan is too large"}
	}
	return Exec(p)
}

// Serve does what a request asks for.
func Serve(path string) error {
	data, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	var req Request
	if err := json.Unmarshal(data, &req); err != nil {
		return err
	}
	debug.SetMaxStack(256 << 20)
	progress, err := os.OpenFile(req.Progress, os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		return err
	}
	defer progress.Close()
	tell := func(n uint64) {
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], n+1)
		progress.WriteAt(b[:], 0)
	}
	res := &Response{Fired: map[string]int{}, Calls: map[string]int{}, Sizes: map[string]int{}, Index: -1}
	start := time.Now()
	add := func(p *Plan, o *Outcome) {
		res.Runs++
		res.Ops += int64(o.Ops)
		res.OpErrs += int64(o.OpErrs)
		res.Steps += o.Steps
		res.Switches += int64(o.Switches)
		res.SimTime += o.SimTime
		if len(p.Tasks) > 1 {
			res.Multi++
		}
		if len(o.Fired) > 0 {
			res.Faulted++
		}
		for k, v := range o.Fired {
			res.Fired[k] += v
		}
		for _, n := range []int{10, 32, 100} {
			if o.MaxArgs >= n {
				res.Sizes["a statement with "+itoa(n)+" or more arguments"]++
			}
		}
		if len(p.Tasks) > 4 {
			res.Sizes["5 or more clients"]++
		}
		for _, t := range p.Tasks {
			if len(t.Ops) >= 20 {
				res.Sizes["a client with 20 or more operations"]++
				break
			}
		}
		if len(p.Nodes) >= 50 {
			res.Sizes["50 or more parts"]++
		}
		for _, t := range p.Tasks {
			for _, op := range t.Ops {
				k := op.K
				if op.DB != nil {
					k = op.DB.Call + "/" + op.DB.Via
					if op.DB.User != "" {
						res.Calls["user builder "+op.DB.User]++
					}
				}
				res.Calls[k]++
			}
		}
		if o.MaxRatio > res.MaxRatio {
			res.MaxRatio = o.MaxRatio
		}
		if req.Digests {
			if len(o.Fired) > 0 || o.OpErrs > 0 || len(p.Tasks) > 1 && o.Switches > len(p.Tasks) || len(p.Tasks) == 1 && len(p.Tasks[0].Ops) > 1 {
				res.NonTriv = append(res.NonTriv, len(res.Digests))
			}
			res.Digests = append(res.Digests, o.Digest)
		}
	}
	switch req.Mode {
	case "search":
		for i := 0; i < req.Count; i++ {
			if req.Budget > 0 && i%16 == 15 && time.Since(start).Milliseconds() > req.Budget {
				break
			}
			seed := req.From + uint64(i)
			tell(seed)
			p := Generate(req.Prop, seed)
			o := Exec(p)
			add(p, o)
			if o.Violation != "" {
				res.Seed, res.Found, res.Pre = seed, o, o.Taken
				break
			}
		}
	case "run":
		for i, p := range req.Plans {
			tell(uint64(i))
			o := ExecSafe(p)
			add(p, o)
			res.Outcomes = append(res.Outcomes, o)
			if req.Class != "" && o.Violation != "" && o.Class == req.Class {
				res.Index = i
				break
			}
		}
	default:
		return fmt.Errorf("unknown mode %q", req.Mode)
	}
	res.Visited, res.Preempted = map[int]uint32{}, map[int]uint32{}
	for i := range simrt.Visited {
		if n := simrt.Visited[i]; n > 0 {
			res.Visited[i] = n
		}
		if n := simrt.Preempted[i]; n > 0 {
			res.Preempted[i] = n
		}
	}
	data, err = json.Marshal(res)
	if err != nil {
		return err
	}
	if err := os.WriteFile(req.Out+".tmp", data, 0o644); err != nil {
		return err
	}
	return os.Rename(req.Out+".tmp", req.Out)
}
