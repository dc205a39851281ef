package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sync"
	"time"

	"verif.local/sim/world"
)

const shrinkTime = 45 * time.Second

// minimise turns a finding into a replay file that reproduces it in a fresh process.
func (w *worker) minimise(f *finding, prop string) (path, note string, err error) {
	plan := world.Generate(prop, f.seed)
	plans := []*world.Plan{plan}
	crash := f.class == "race" || f.class == "crash"
	reproduces := func(ps []*world.Plan) bool {
		class, _, _ := w.try(ps)
		return class == f.class
	}
	single := false
	for i := 0; i < 3 && !single; i++ {
		single = reproduces(plans)
	}
	switch {
	case single:
		if !crash && len(plan.Tasks) > 1 {
			// from the seed to the schedule itself
			c := plan.Clone()
			c.Sched, c.Pre = true, f.pre
			if reproduces([]*world.Plan{c}) {
				plan = c
			}
		}
		if crash && len(plan.Tasks) > 1 && plan.Mode != 0 {
			if pre, ok := w.recordSchedule(plan); ok {
				c := plan.Clone()
				c.Sched, c.Pre = true, pre
				if reproduces([]*world.Plan{c}) {
					plan = c
				}
			}
		}
		plan = w.reduce(plan, f.class, time.Now().Add(shrinkTime))
		plans = []*world.Plan{plan}
	default:
		// what the runs before left behind in the process matters
		var list []*world.Plan
		for s := f.from; s <= f.seed; s++ {
			list = append(list, world.Generate(prop, s))
		}
		if !reproduces(list) {
			n := 0
			for i := 0; i < 20; i++ {
				if reproduces(plans) {
					n++
				}
			}
			if n == 0 {
				return "", "", fmt.Errorf("seed %d: [%s] %s\nis not reproducible, alone or after the seeds from %d", f.seed, f.class, f.message, f.from)
			}
			note = fmt.Sprintf("note: the simulator does not control all that this depends on: %d of 20 replays reproduce it", n)
		} else {
			plans = w.reduceList(list, reproduces, time.Now().Add(shrinkTime))
			note = fmt.Sprintf("note: the violation depends on state that earlier runs left behind in the process: %d runs are replayed", len(plans))
		}
	}
	// what the replay shows, not what the search saw
	class, msg, _ := w.try(plans)
	if class == f.class {
		f.message = msg
	}
	rf := &replayFile{Property: prop, Class: f.class, Message: f.message, Seed: f.seed, Race: w.race, Note: note}
	last := plans[len(plans)-1]
	if last.Sched {
		for _, p := range w.sites(last) {
			rf.Schedule = append(rf.Schedule, p)
		}
	}
	for _, ft := range last.Faults {
		rf.Faults = append(rf.Faults, fmt.Sprintf("client %d operation %d: invocation %d of %s fails (%s)", ft.Task, ft.Op, ft.Nth, ft.At, ft.Kind))
	}
	for _, p := range plans {
		raw, err := json.Marshal(p)
		if err != nil {
			return "", "", err
		}
		rf.Plans = append(rf.Plans, raw)
	}
	data, err := json.MarshalIndent(rf, "", " ")
	if err != nil {
		return "", "", err
	}
	dir := filepath.Join(verifDir, "replays")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", "", err
	}
	sum := sha256.Sum256(data)
	path = filepath.Join(dir, fmt.Sprintf("%s-%d-%x.json", prop, f.seed, sum[:4]))
	return path, note, os.WriteFile(path, data, 0o644)
}

// sites describes the switches of an explicit schedule.
func (w *worker) sites(p *world.Plan) []string {
	var out []string
	for _, s := range p.Pre {
		at := "harness"
		if s.Site > 0 && s.Site < len(w.ins.Sites) {
			at = w.ins.Sites[s.Site]
		}
		out = append(out, fmt.Sprintf("client %d at step %d, before %s: switch to client %d", s.Task, s.Step, at, s.To))
	}
	return out
}

// recordSchedule runs a plan that crashes up to its crash, to learn its schedule.
func (w *worker) recordSchedule(p *world.Plan) ([]simPre, bool) {
	r := w.serveEnv(&world.Request{Mode: "run", Plans: []*world.Plan{p}}, "GORACE=halt_on_error=0 exitcode=0 log_path=/dev/null")
	if r.res == nil || len(r.res.Outcomes) != 1 {
		return nil, false
	}
	return r.res.Outcomes[0].Taken, true
}

// firstThat returns the index of the first candidate that still violates, or -1.
func (w *worker) firstThat(cands []*world.Plan, class string, deadline time.Time) int {
	if len(cands) == 0 {
		return -1
	}
	crash := class == "race" || class == "crash"
	n := workers()
	if crash {
		for i := 0; i < len(cands); i += n {
			if time.Now().After(deadline) {
				return -1
			}
			hit := make([]bool, n)
			var wg sync.WaitGroup
			for k := 0; k < n && i+k < len(cands); k++ {
				wg.Add(1)
				go func(k int) {
					defer wg.Done()
					c, _, _ := w.try([]*world.Plan{cands[i+k]})
					hit[k] = c == class
				}(k)
			}
			wg.Wait()
			for k, h := range hit {
				if h {
					return i + k
				}
			}
		}
		return -1
	}
	const chunk = 40
	for i := 0; i < len(cands); i += chunk * n {
		if time.Now().After(deadline) {
			return -1
		}
		hit := make([]int, n)
		var wg sync.WaitGroup
		for k := 0; k < n; k++ {
			hit[k] = -1
			from := i + k*chunk
			if from >= len(cands) {
				continue
			}
			part := cands[from:min(from+chunk, len(cands))]
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				r := w.serve(&world.Request{Mode: "run", Plans: part, Class: class})
				if r.res != nil && r.res.Index >= 0 {
					hit[k] = from + r.res.Index
				}
			}(k)
		}
		wg.Wait()
		for _, h := range hit {
			if h < 0 {
				continue
			}
			// alone, in a fresh process
			if c, _, _ := w.try([]*world.Plan{cands[h]}); c == class {
				return h
			}
		}
	}
	return -1
}

// reduce removes what the violation does not need.
func (w *worker) reduce(p *world.Plan, class string, deadline time.Time) *world.Plan {
	for time.Now().Before(deadline) {
		cands := candidates(p)
		i := w.firstThat(cands, class, deadline)
		if i < 0 {
			return p
		}
		p = cands[i]
		// go on with reductions of the same kind first: they come in order of size
	}
	return p
}

func size(p *world.Plan) int {
	data, _ := json.Marshal(p)
	return len(data)
}

// candidates are the plans that are smaller by one thing, larger reductions first.
func candidates(p *world.Plan) []*world.Plan {
	var out []*world.Plan
	orig, _ := json.Marshal(p)
	add := func(change func(c *world.Plan) bool) {
		c := p.Clone()
		if !change(c) {
			return
		}
		data, _ := json.Marshal(c)
		if len(data) < len(orig) && !bytes.Equal(data, orig) {
			out = append(out, c)
		}
	}
	// clients
	for t := range p.Tasks {
		if len(p.Tasks) > 1 {
			add(func(c *world.Plan) bool { dropTask(c, t); return true })
		}
	}
	// schedule
	if p.Sched {
		add(func(c *world.Plan) bool { c.Pre = nil; return len(p.Pre) > 0 })
		for n := len(p.Pre) / 2; n >= 1; n /= 2 {
			for i := 0; i < len(p.Pre); i += n {
				add(func(c *world.Plan) bool {
					c.Pre = append(c.Pre[:i:i], c.Pre[min(i+n, len(c.Pre)):]...)
					return true
				})
			}
		}
	} else {
		add(func(c *world.Plan) bool { c.Mode = 0; c.MaxPre = 0; c.Period = 0; return p.Mode != 0 })
	}
	// operations
	for t, task := range p.Tasks {
		for o := len(task.Ops) - 1; o >= 0; o-- {
			if len(task.Ops) > 1 {
				add(func(c *world.Plan) bool { dropOp(c, t, o); return true })
			}
		}
	}
	for f := range p.Faults {
		add(func(c *world.Plan) bool { c.Faults = append(c.Faults[:f:f], c.Faults[f+1:]...); return true })
	}
	add(func(c *world.Plan) bool { c.Log = ""; return p.Log != "" })
	for t, task := range p.Tasks {
		for o, op := range task.Ops {
			get := func(c *world.Plan) *world.Op { return c.Tasks[t].Ops[o] }
			for s := range op.Steps {
				if len(op.Steps) > 1 {
					add(func(c *world.Plan) bool {
						x := get(c)
						x.Steps = append(x.Steps[:s:s], x.Steps[s+1:]...)
						return true
					})
				}
			}
			for k := len(op.Ctxs) - 1; k > 0; k-- {
				add(func(c *world.Plan) bool { return dropCtx(get(c), k) })
			}
			if op.Rep > 1 {
				for _, n := range []int{op.Rep / 10, op.Rep / 2, op.Rep * 9 / 10} {
					add(func(c *world.Plan) bool {
						get(c).Rep = n
						return true
					})
				}
			}
			for k := range op.Flips {
				add(func(c *world.Plan) bool {
					x := get(c)
					x.Flips = append(x.Flips[:k:k], x.Flips[k+1:]...)
					return true
				})
			}
			for k := range op.P {
				add(func(c *world.Plan) bool {
					x := get(c)
					x.P = append(x.P[:k:k], x.P[k+1:]...)
					return true
				})
			}
			if op.DB != nil {
				for k := range op.DB.Rows {
					add(func(c *world.Plan) bool {
						x := get(c).DB
						x.Rows = append(x.Rows[:k:k], x.Rows[k+1:]...)
						return true
					})
				}
				for k := len(op.DB.Dests) - 1; k >= 0; k-- {
					add(func(c *world.Plan) bool {
						x := get(c).DB
						x.Dests = append(x.Dests[:k:k], x.Dests[k+1:]...)
						if k < x.Cols {
							x.Cols--
							for r := range x.Rows {
								x.Rows[r] = append(x.Rows[r][:k:k], x.Rows[r][k+1:]...)
							}
						}
						return true
					})
				}
				if op.DB.Cols > len(op.DB.Dests) && op.DB.Cols > 1 {
					add(func(c *world.Plan) bool {
						x := get(c).DB
						x.Cols--
						for r := range x.Rows {
							x.Rows[r] = x.Rows[r][:x.Cols]
						}
						return true
					})
				}
				add(func(c *world.Plan) bool { get(c).DB.Spare = 0; get(c).DB.More = false; return true })
				add(func(c *world.Plan) bool {
					x := get(c).DB
					x.Early, x.Late, x.Twice, x.Reuse = false, false, false, false
					return true
				})
			}
		}
	}
	// parts
	for _, where := range nodeLists(p) {
		for i, n := range where(p) {
			get := func(c *world.Plan) *world.Node { return where(c)[i] }
			if n.K != world.NQB && !(n.K == world.NFrag && len(n.P) == 0 && len(n.Args)+len(n.Frs) == 0) {
				if n.K == world.NFrag {
					add(func(c *world.Plan) bool {
						*get(c) = world.Node{K: world.NFrag}
						return true
					})
				}
			}
			for k := range n.Cfg {
				add(func(c *world.Plan) bool {
					x := get(c)
					x.Cfg = append(x.Cfg[:k:k], x.Cfg[k+1:]...)
					return true
				})
			}
			for k := range n.P {
				add(func(c *world.Plan) bool {
					x := get(c)
					x.P = append(x.P[:k:k], x.P[k+1:]...)
					return true
				})
			}
			drop := func(f func(x *world.Node) *[]int, length int) {
				for k := 0; k < length; k++ {
					add(func(c *world.Plan) bool {
						l := f(get(c))
						*l = append((*l)[:k:k], (*l)[k+1:]...)
						return true
					})
				}
			}
			drop(func(x *world.Node) *[]int { return &x.AppA }, len(n.AppA))
			drop(func(x *world.Node) *[]int { return &x.AppF }, len(n.AppF))
			if n.ASl == 0 {
				drop(func(x *world.Node) *[]int { return &x.Args }, len(n.Args))
			}
			if n.FSl == 0 {
				drop(func(x *world.Node) *[]int { return &x.Frs }, len(n.Frs))
			}
			add(func(c *world.Plan) bool { x := get(c); x.Pre, x.Suf = "", ""; return true })
		}
	}
	for i, s := range p.Funcs {
		for k := range s.Fns {
			add(func(c *world.Plan) bool {
				x := c.Funcs[i]
				x.Fns = append(x.Fns[:k:k], x.Fns[k+1:]...)
				return true
			})
		}
	}
	// parts at the end that nothing mentions any more
	add(func(c *world.Plan) bool { return trimUnused(c) })
	return out
}

func nodeLists(p *world.Plan) []func(c *world.Plan) []*world.Node {
	out := []func(c *world.Plan) []*world.Node{func(c *world.Plan) []*world.Node { return c.Nodes }}
	for t, task := range p.Tasks {
		for o, op := range task.Ops {
			if len(op.Local) > 0 {
				out = append(out, func(c *world.Plan) []*world.Node { return c.Tasks[t].Ops[o].Local })
			}
		}
	}
	return out
}

// trimUnused makes parts that cannot be reached trivial.
func trimUnused(p *world.Plan) bool {
	used := make([]bool, len(p.Nodes))
	var visit func(id int)
	var visitNode func(n *world.Node)
	all := func(ids []int) {
		for _, id := range ids {
			visit(id)
		}
	}
	qops := func(cs []*world.QOp) {
		for _, c := range cs {
			all(c.Ns)
		}
	}
	visitNode = func(n *world.Node) {
		all(n.Frs)
		all(n.AppF)
		visit(n.Child)
		qops(n.Cfg)
	}
	visit = func(id int) {
		if id < 0 || id >= len(p.Nodes) || used[id] {
			return
		}
		used[id] = true
		visitNode(p.Nodes[id])
	}
	for _, t := range p.Tasks {
		for _, op := range t.Ops {
			visit(op.Node)
			all(op.Ns)
			for _, s := range op.Steps {
				visit(s.Node)
			}
			for _, l := range op.Local {
				visitNode(l)
			}
			if op.Cfg != nil {
				all(op.Cfg.Ns)
			}
		}
	}
	for _, s := range p.Funcs {
		for _, f := range s.Fns {
			all(f.Ns)
		}
	}
	for _, ns := range p.PropsF {
		all(ns)
	}
	for _, s := range p.FSlices {
		all(s.Nodes)
	}
	changed := false
	for i, u := range used {
		if !u && !(p.Nodes[i].K == world.NFrag && len(p.Nodes[i].P) == 0) {
			p.Nodes[i] = &world.Node{K: world.NFrag}
			changed = true
		}
	}
	return changed
}

func dropTask(c *world.Plan, t int) {
	c.Tasks = append(c.Tasks[:t:t], c.Tasks[t+1:]...)
	ren := func(x int) int {
		if x > t {
			return x - 1
		}
		return x
	}
	var fs []*world.Fault
	for _, f := range c.Faults {
		if f.Task != t {
			f.Task = ren(f.Task)
			fs = append(fs, f)
		}
	}
	c.Faults = fs
	var pre []simPre
	for _, p := range c.Pre {
		if p.Task != t && p.To != t {
			p.Task, p.To = ren(p.Task), ren(p.To)
			pre = append(pre, p)
		}
	}
	c.Pre = pre
	var st []int
	for _, s := range c.Starts {
		if s != t {
			st = append(st, ren(s))
		}
	}
	c.Starts = st
	if len(c.Tasks) == 1 {
		c.Pre, c.Starts, c.Mode = nil, nil, 0
	}
}

func dropOp(c *world.Plan, t, o int) {
	ops := c.Tasks[t].Ops
	c.Tasks[t].Ops = append(ops[:o:o], ops[o+1:]...)
	var fs []*world.Fault
	for _, f := range c.Faults {
		if f.Task == t && f.Op == o {
			continue
		}
		if f.Task == t && f.Op > o {
			f.Op--
		}
		fs = append(fs, f)
	}
	c.Faults = fs
}

func dropCtx(op *world.Op, k int) bool {
	for _, s := range op.Steps {
		if s.Ctx == k {
			return false
		}
	}
	for _, x := range op.Ctxs {
		if x.Parent == k {
			return false
		}
	}
	op.Ctxs = append(op.Ctxs[:k:k], op.Ctxs[k+1:]...)
	for i := range op.Steps {
		if op.Steps[i].Ctx > k {
			op.Steps[i].Ctx--
		}
	}
	for i := range op.Ctxs {
		if op.Ctxs[i].Parent > k {
			op.Ctxs[i].Parent--
		}
	}
	return true
}

// reduceList drops runs that the last one does not depend on.
func (w *worker) reduceList(list []*world.Plan, ok func([]*world.Plan) bool, deadline time.Time) []*world.Plan {
	for n := (len(list) - 1) / 2; n >= 1; {
		changed := false
		for i := 0; i+n <= len(list)-1; {
			if time.Now().After(deadline) {
				return list
			}
			c := append(append([]*world.Plan{}, list[:i]...), list[i+n:]...)
			if ok(c) {
				list = c
				changed = true
			} else {
				i += n
			}
		}
		if !changed || n > len(list) {
			n /= 2
		}
		n = min(n, len(list)-1)
	}
	return list
}
