package world

import (
	"errors"
	"fmt"
	"io"
	"log"
	"reflect"
	"runtime/debug"
	"strconv"
	"strings"
	"time"
	"unsafe"

	sqlf "github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/sqlb"
	"github.com/qjebbs/go-sqlf/v2/syntax"
	"github.com/qjebbs/go-sqlf/v2/util"

	"verif.local/sim/simrt"
)

// Outcome of a run.
type Outcome struct {
	Violation string          `json:"violation,omitempty"`
	Class     string          `json:"class,omitempty"` // class of the violation: shrinking keeps it
	Taken     []simrt.Preempt `json:"taken,omitempty"`
	Digest    uint64          `json:"digest"` // of schedule and results
	Steps     int64           `json:"steps"`
	Switches  int             `json:"switches"`
	Ops       int             `json:"ops"`
	OpErrs    int             `json:"op_errs"` // operations that failed, as predicted
	Fired     map[string]int  `json:"fired,omitempty"`
	Probes    map[string]int  `json:"probes,omitempty"`
	SimTime   int64           `json:"sim_time_ns,omitempty"`
	Trace     []string        `json:"trace,omitempty"`
	MaxRatio  float64         `json:"max_ratio,omitempty"`
	MaxArgs   int             `json:"max_args,omitempty"`
}

type stepOut struct {
	query string
	args  []any
	err   error
	pan   any
	stack string
	skip  bool
}

// keptList is a list of arguments that a client was given and keeps.
type keptList struct {
	what       string
	list, copy []any
}

type opOut struct {
	steps   []stepOut
	ctxErrs []error
	lists   []keptList
	o       *opState
	work    int64
	done    bool
	db      *dbOut
	note    string
}

// Trouble is what the checker raises when a result is not as predicted.
type trouble struct{ class, msg string }

func styleOf(s string) syntax.BindVarStyle {
	if s == "?" {
		return syntax.Question
	}
	return syntax.Dollar
}

type logWriter struct{ mode string }

func (l logWriter) Write(p []byte) (int, error) {
	switch l.mode {
	case "fail":
		return 0, errors.New("injected log failure")
	case "short":
		return len(p) / 2, io.ErrShortWrite
	}
	return len(p), nil
}

// StepLimit is the step budget of one operation before it counts as endless.
const StepLimit = 30_000_000

// Exec runs a plan.
func Exec(p *Plan) *Outcome {
	if p.DB != nil {
		return execDB(p)
	}
	return execIn(p, nil)
}

func execIn(p *Plan, env *dbEnv) *Outcome {
	out := &Outcome{Fired: map[string]int{}, Probes: map[string]int{}}
	log.SetOutput(logWriter{p.Log})
	simrt.SetMapSeed(p.MapSeed)
	w := NewWorld(p)
	m := NewModel(p)
	outs := make([][]*opOut, len(p.Tasks))
	single := len(p.Tasks) == 1
	var first *trouble
	bodies := make([]func(), len(p.Tasks))
	var held []heldResult
	for ti, t := range p.Tasks {
		ti, t := ti, t
		outs[ti] = make([]*opOut, len(t.Ops))
		bodies[ti] = func() {
			for oi, op := range t.Ops {
				oo := &opOut{o: newOpState(p, w.causes, ti, oi)}
				outs[ti][oi] = oo
				simrt.SetLocal(oo.o)
				w.runOp(env, ti, oi, op, oo)
				oo.work = simrt.OpSteps()
				oo.done = true
				simrt.SetLocal(nil)
				if single {
					// the model follows in lockstep: operations may change parts
					if tr := w.checkOp(m, ti, oi, op, oo, out); tr != nil {
						first = tr
						return
					}
					held = append(held, hold(ti, oi, op, oo)...)
					if s := w.checkParts(m); s != "" {
						first = &trouble{"parts", opName(ti, oi, op) + ": " + s}
						return
					}
				}
			}
		}
	}
	if simrt.RaceEnabled {
		w.warmReflect()
	}
	cfg := simrt.Config{
		Seed: p.Seed, Explicit: p.Sched, Preempts: p.Pre, Mode: p.Mode, Period: p.Period,
		MaxPre: p.MaxPre, Starts: p.Starts, Limit: StepLimit,
	}
	if env != nil {
		cfg.Sleep = env.sleep
		cfg.Settle = env.settle
	}
	start := time.Now()
	res, tasks := simrt.Run(cfg, bodies)
	if env != nil {
		out.SimTime = int64(time.Since(start))
	}
	out.Taken, out.Steps, out.Switches = res.Taken, res.Steps, res.Switches
	out.Digest = res.Digest
	fail := func(class, msg string) {
		if out.Violation == "" {
			out.Violation, out.Class = msg, class
		}
	}
	for ti, t := range tasks {
		if t.Hung {
			oi := 0
			for oi < len(outs[ti])-1 && outs[ti][oi] != nil && outs[ti][oi].done {
				oi++
			}
			fail("hang", fmt.Sprintf("%s does not end: %d steps", opName(ti, oi, p.Tasks[ti].Ops[oi]), StepLimit))
		}
		if t.Panic != nil {
			fail("harness", fmt.Sprintf("task %d: %v", ti, t.Panic))
		}
	}
	if res.Deadlock {
		fail("deadlock", "all clients are blocked")
		return out
	}
	if first != nil {
		fail(first.class, first.msg)
	}
	for _, h := range held {
		if s := h.changed(); s != "" {
			fail("held", s)
		}
	}
	if !single && out.Violation == "" {
		for ti, t := range p.Tasks {
			for oi, op := range t.Ops {
				if tr := w.checkOp(m, ti, oi, op, outs[ti][oi], out); tr != nil {
					fail(tr.class, tr.msg)
				}
			}
		}
		if s := w.checkParts(m); s != "" {
			fail("parts", "after all: "+s)
		}
	}
	if env != nil && out.Violation == "" {
		if s := env.finish(); s != nil {
			fail(s.class, s.msg)
		}
	}
	for ti := range outs {
		for _, oo := range outs[ti] {
			if oo == nil {
				continue
			}
			out.Ops++
			for i := range oo.steps {
				out.MaxArgs = max(out.MaxArgs, len(oo.steps[i].args))
			}
			if oo.db != nil {
				out.MaxArgs = max(out.MaxArgs, len(oo.db.args))
			}
			for _, f := range oo.o.fired {
				out.Fired[f.Kind+"@"+kindOfKey(f.At)]++
			}
			digestOp(&out.Digest, oo)
		}
	}
	return out
}

func kindOfKey(at string) string {
	switch {
	case strings.HasPrefix(at, "N"):
		return "builder"
	case strings.HasPrefix(at, "F"):
		return "function"
	case strings.HasPrefix(at, "V"):
		return "valuer"
	}
	return at
}

func digestOp(d *uint64, oo *opOut) {
	add := func(s string) {
		for i := 0; i < len(s); i++ {
			*d = (*d ^ uint64(s[i])) * 0x100000001b3
		}
		*d = (*d ^ 0xff) * 0x100000001b3
	}
	for _, s := range oo.steps {
		add(s.query)
		add(strconv.Itoa(len(s.args)))
		if s.err != nil {
			add("err")
		}
		if s.pan != nil {
			add("panic")
		}
	}
	*d = (*d ^ uint64(oo.work)) * 0x100000001b3
	if oo.db != nil {
		add(oo.db.String())
	}
}

func opName(ti, oi int, op *Op) string {
	s := fmt.Sprintf("client %d operation %d (%s", ti, oi, op.K)
	if op.K == "q" {
		s += fmt.Sprintf(" N%d style %s", op.Node, op.Style)
	}
	return s + ")"
}

// reused is what clients overwrite lists of arguments with that they were given.
type reused struct{}

// heldResult is a result that a client keeps: later operations must not change it.
type heldResult struct {
	name, query string
	args        []any
	step        *stepOut
}

func hold(ti, oi int, op *Op, oo *opOut) []heldResult {
	var out []heldResult
	for i := range oo.steps {
		if s := &oo.steps[i]; s.err == nil && s.pan == nil && !s.skip {
			out = append(out, heldResult{opName(ti, oi, op), strings.Clone(s.query), append([]any{}, s.args...), s})
		}
	}
	return out
}

func (h *heldResult) changed() string {
	if h.step.query != h.query {
		return fmt.Sprintf("%s: its statement %q has become %q", h.name, h.query, h.step.query)
	}
	for i := range h.args {
		a, b := h.args[i], h.step.args[i]
		if *(*[2]uintptr)(unsafe.Pointer(&a)) != *(*[2]uintptr)(unsafe.Pointer(&b)) {
			return fmt.Sprintf("%s: its argument %d, %s, has become %s", h.name, i+1, show(a), show(b))
		}
	}
	return ""
}

func protect(s *stepOut, f func()) {
	defer func() {
		if r := recover(); r != nil {
			s.pan = r
			s.stack = CleanStack(string(debug.Stack()))
		}
	}()
	f()
}

// runOp performs an operation on the real objects.
func (w *World) runOp(env *dbEnv, ti, oi int, op *Op, oo *opOut) {
	r := &realm{w: w}
	var s stepOut
	if len(op.Local) > 0 {
		r.local = map[int]sqlf.FragmentBuilder{}
		protect(&s, func() {
			for i, n := range op.Local {
				r.local[LocalBase+i] = w.makeNode(r, LocalBase+i, n)
			}
		})
		if s.pan != nil {
			oo.steps = append(oo.steps, s)
			return
		}
	}
	switch op.K {
	case "q":
		protect(&s, func() {
			qb, ok := r.node(op.Node).(sqlf.QueryBuilder)
			if !ok {
				qb = sqlf.Ff("#f1", r.node(op.Node))
			}
			s.query, s.args, s.err = qb.BuildQuery(styleOf(op.Style))
			if s.args != nil && (w.p.Seed+uint64(op.Node))%4 == 0 {
				// the list belongs to the client: it may reuse it
				own := s.args
				s.args = append([]any{}, own...)
				own = own[:cap(own)]
				for i := range own {
					own[i] = reused{}
				}
			}
		})
		oo.steps = append(oo.steps, s)
	case "s":
		w.runSession(r, op, oo)
	case "m":
		protect(&s, func() { w.mutate(r, op) })
		oo.steps = append(oo.steps, s)
	case "qb":
		protect(&s, func() {
			qb := r.node(op.Node).(*sqlb.QueryBuilder)
			configure(r, qb, op.Cfg)
		})
		oo.steps = append(oo.steps, s)
	case "interp":
		w.runInterp(op, oo)
	case "parse":
		w.runParse(r, op, oo)
	case "db":
		env.runOp(w, r, ti, oi, op, oo)
	default:
		panic("unknown operation " + op.K)
	}
}

func (w *World) runSession(r *realm, op *Op, oo *opOut) {
	var ctxs []*sqlf.Context
	for i, c := range op.Ctxs {
		var s stepOut
		var ctx *sqlf.Context
		protect(&s, func() {
			if i == 0 {
				ctx = sqlf.NewContext(styleOf(op.Style))
				return
			}
			parent := ctxs[c.Parent]
			if parent == nil {
				s.skip = true
				return
			}
			ctx, s.err = w.register(parent, c.FS, (c.FS+i)%2 == 1)
			if s.err != nil {
				ctx = nil
			}
		})
		ctxs = append(ctxs, ctx)
		oo.steps = append(oo.steps, s)
	}
	var lists [][]any
	for i, st := range op.Steps {
		var s stepOut
		ctx := ctxs[st.Ctx]
		if ctx == nil {
			s.skip = true
			oo.steps = append(oo.steps, s)
			continue
		}
		protect(&s, func() {
			s.query, s.err = r.node(st.Node).BuildFragment(ctx)
			list := ctx.Args()
			s.args = append([]any{}, list...)
			lists = append(lists, list)
			oo.keep(fmt.Sprintf("the list of arguments after step %d", i), list)
		})
		if s.err != nil || s.pan != nil {
			failedBuild()
		}
		if k := len(lists) - st.App; st.App > 0 && k >= 0 {
			own := append(lists[k], any(&ownArg))
			oo.keep(fmt.Sprintf("what the client made of list %d by appending an argument after step %d", k, i), own)
		}
		oo.steps = append(oo.steps, s)
	}
}

// ownArg is appended by clients to lists of arguments.
var ownArg int

func (oo *opOut) keep(what string, list []any) {
	oo.lists = append(oo.lists, keptList{what, list, append([]any{}, list...)})
}

// changedList tells which of the lists that clients keep has changed.
func (oo *opOut) changedList() string {
	for _, l := range oo.lists {
		for i := range l.copy {
			if !sameVal(l.copy[i], l.list[i]) {
				return fmt.Sprintf("%s has changed: argument %d, %T, has become %T", l.what, i+1, l.copy[i], l.list[i])
			}
		}
	}
	return ""
}

func (w *World) mutate(r *realm, op *Op) {
	f := r.node(op.Node).(*sqlf.Fragment)
	vals := w.values(op.Vals)
	if op.ASl > 0 {
		vals = w.asl[op.ASl-1]
	}
	frs := r.builders(op.Ns)
	if op.FSl > 0 {
		frs = w.fsl[op.FSl-1]
	}
	switch op.Mut {
	case "args":
		f.WithArgs(vals...)
	case "appargs":
		f.AppendArgs(vals...)
	case "frs":
		f.WithFragments(frs...)
	case "appfrs":
		f.AppendFragments(frs...)
	case "prefix":
		f.WithPrefix(op.Text)
	case "suffix":
		f.WithSuffix(op.Text)
	case "raw":
		f.Raw = render(op.P)
	default:
		panic("unknown mutation " + op.Mut)
	}
}

func (w *World) interpArgs(op *Op) []any {
	args := make([]any, 0, len(op.Vals)+2)
	args = append(args, w.values(op.Vals)...)
	args[:cap(args)][len(args)] = &spareVal{1}
	args[:cap(args)][len(args)+1] = &spareVal{2}
	return args
}

func (w *World) runInterp(op *Op, oo *opOut) {
	args := w.interpArgs(op)
	query := render(op.P)
	var s stepOut
	protect(&s, func() {
		if op.TimeFmt != "" {
			s.query, s.err = util.Interpolate(query, args, util.WithTimeFormat(op.TimeFmt))
		} else {
			s.query, s.err = util.Interpolate(query, args)
		}
	})
	s.args = args
	oo.steps = append(oo.steps, s)
}

// templateText is the text of a template, cut off and corrupted by the faults.
func templateText(op *Op) string {
	t := render(op.P)
	if op.Rep > 1 {
		t = strings.Repeat(t, op.Rep)
	}
	for _, f := range op.Flips {
		if f.Pos < 0 || f.Pos > len(t) {
			continue
		}
		end := f.Pos + f.Del
		if end > len(t) {
			end = len(t)
		}
		t = t[:f.Pos] + f.text() + t[end:]
	}
	if op.Cut >= 0 && op.Cut < len(t) {
		t = t[:op.Cut]
	}
	return t
}

func (w *World) runParse(r *realm, op *Op, oo *opOut) {
	t := templateText(op)
	for i := 0; i < 2; i++ { // twice: same result
		var s stepOut
		protect(&s, func() {
			c, err := syntax.Parse(t)
			s.err = err
			if err == nil {
				b := new(strings.Builder)
				for _, e := range c.ExprList {
					fmt.Fprintf(b, "%T;", e)
				}
				s.query = b.String()
			}
		})
		oo.steps = append(oo.steps, s)
	}
	for i := 0; i < 2; i++ {
		var s stepOut
		protect(&s, func() {
			f := sqlf.Ff(t, r.builders(op.Ns)...).WithArgs(w.values(op.Vals)...)
			if len(op.Ns) > 0 && op.Style == "?" {
				f = sqlf.Ff("#f1", f)
			}
			s.query, s.args, s.err = f.BuildQuery(styleOf(op.Style))
		})
		oo.steps = append(oo.steps, s)
	}
	var s stepOut
	protect(&s, func() {
		s.query, s.err = util.Interpolate(t, w.values(op.Vals))
	})
	oo.steps = append(oo.steps, s)
}

// warmReflect makes package reflect learn the types of the functions that are called. What it
// learns from one task would order another task that asks for it, or, as it keeps it in a
// table with random hashes, for something else. That order is not the library's.
func (w *World) warmReflect() {
	learn := func(t reflect.Type) {
		reflect.MakeFunc(t, func([]reflect.Value) []reflect.Value { return nil })
	}
	for _, fns := range w.funcs {
		for _, f := range fns {
			if t := reflect.TypeOf(f); t != nil && t.Kind() == reflect.Func {
				learn(t)
			}
		}
	}
	learn(reflect.TypeOf(wrongFunc))
	learn(reflect.TypeOf(func(*sqlf.Context, int) (string, error) { return "", nil }))
	learn(reflect.TypeOf(func(*sqlf.Context, string, string, ...int) (string, error) { return "", nil }))
}
