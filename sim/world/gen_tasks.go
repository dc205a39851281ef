package world

import (
	"encoding/hex"
	"sort"
	"strings"
	"unicode/utf8"
)

func (g *gen) tasks() {
	r, f, p := g.r, g.f, g.p
	nt := r.in(f.tasks[0], f.tasks[1])
	if nt > 2 && g.big && r.p(50) {
		nt = r.in(4, 9)
	}
	p.Log = pick(r, []string{"", "", "fail", "short"})
	last := -1
	for t := 0; t < nt; t++ {
		tp := &TaskPlan{}
		for i := g.size(f.ops[0], f.ops[1], f.ops[1], f.ops[1]*5); i > 0; i-- {
			op := g.op(nt == 1, &last)
			tp.Ops = append(tp.Ops, op)
		}
		p.Tasks = append(p.Tasks, tp)
	}
}

func (g *gen) style() string { return pick(g.r, []string{"$", "?"}) }

func (g *gen) root() int {
	if g.r.p(65) {
		n := len(g.roots)
		return g.roots[n-1-g.r.n(min(n, 5))]
	}
	return pick(g.r, g.roots)
}

func (g *gen) op(single bool, last *int) *Op {
	r, f := g.r, g.f
	switch {
	case single && r.p(f.mutate):
		if op := g.mutation(*last); op != nil {
			return op
		}
	case single && len(g.qbs) > 0 && r.p(f.history):
		id := pick(r, g.qbs)
		if *last >= 0 && g.p.Nodes[*last].K == NQB && r.p(f.same) {
			id = *last
		}
		return &Op{K: "qb", Node: id, Cfg: g.qbGens[id].history(), Cut: -1}
	case r.p(f.interp):
		return g.interpOp()
	case r.p(f.parse):
		return g.parseOp()
	}
	node := g.root()
	if *last >= 0 && r.p(f.same) {
		node = *last
	}
	*last = node
	op := &Op{K: "q", Node: node, Style: g.style(), Cut: -1}
	if r.p(f.local) {
		n := r.in(1, 2)
		pool := append([]int{node}, g.parts...)
		save := g.f.bad
		for i := 0; i < n; i++ {
			fr := g.fragment(pool)
			op.Local = append(op.Local, fr)
			pool = append(pool, LocalBase+i)
		}
		g.f.bad = save
		op.Node = LocalBase + n - 1
	}
	calls := g.phaseB && (node >= g.firstB || len(op.Local) > 0)
	if r.p(f.sessions) || calls && r.p(90) {
		op.K = "s"
		op.Ctxs = []CtxDef{{}}
		if len(g.p.Funcs) > 0 && r.p(60) {
			// all of them
			for i := range g.p.Funcs {
				op.Ctxs = append(op.Ctxs, CtxDef{Parent: len(op.Ctxs) - 1, FS: i})
			}
		}
		if len(g.p.Funcs) > 0 && (len(op.Ctxs) == 1 || r.p(30)) {
			for i := g.size(0, 3, 4, 40); i > 0; i-- {
				c := CtxDef{Parent: r.n(len(op.Ctxs)), FS: r.n(len(g.p.Funcs))}
				if r.p(60) {
					c.Parent = len(op.Ctxs) - 1
				}
				op.Ctxs = append(op.Ctxs, c)
			}
		}
		for i := g.size(1, 4, 5, 20); i > 0; i-- {
			st := Step{Ctx: r.n(len(op.Ctxs)), Node: op.Node}
			if r.p(65) {
				st.Ctx = len(op.Ctxs) - 1
			}
			if r.p(50) {
				st.Node = g.root()
			}
			if r.p(20) {
				st.App = r.in(1, 3)
			}
			op.Steps = append(op.Steps, st)
		}
	}
	return op
}

func (g *gen) mutation(last int) *Op {
	r := g.r
	if len(g.frags) == 0 {
		return nil
	}
	id := pick(r, g.frags)
	if last >= 0 && last < LocalBase && g.p.Nodes[last].K == NFrag && r.p(60) {
		id = last
	}
	// what comes before may be embedded
	var pool []int
	for _, p := range g.parts {
		if p < id && (id >= g.firstB || g.p.Nodes[p].K != NCB || g.p.Nodes[p].Mode != "derive") {
			pool = append(pool, p)
		}
	}
	op := &Op{K: "m", Node: id, Cut: -1}
	op.Mut = pick(r, []string{"args", "appargs", "appargs", "frs", "appfrs", "appfrs", "prefix", "suffix", "raw", "raw"})
	switch op.Mut {
	case "args", "appargs":
		op.Vals = g.vals(r.n(4))
		if len(g.p.ASlices) > 0 && r.p(40) {
			op.ASl = 1 + r.n(len(g.p.ASlices))
			op.Vals = append([]int{}, g.p.ASlices[op.ASl-1].Vals...)
		}
	case "frs", "appfrs":
		if len(pool) == 0 {
			return nil
		}
		op.Ns = g.pickNodes(pool, r.n(3))
		if len(g.p.FSlices) > 0 && r.p(30) {
			k := r.n(len(g.p.FSlices))
			ok := true
			for _, n := range g.p.FSlices[k].Nodes {
				ok = ok && n < id
			}
			if ok {
				op.FSl = 1 + k
				op.Ns = append([]int{}, g.p.FSlices[k].Nodes...)
			}
		}
	case "prefix":
		op.Text = pick(r, append([]string{""}, prefixes...))
	case "suffix":
		op.Text = pick(r, append([]string{""}, suffixes...))
	case "raw":
		save := g.phaseB
		g.phaseB = false
		// the sizes are a guess: what does not fit must be reported as such
		n := g.p.Nodes[id]
		op.P = g.pieces(max(0, len(n.Args)+len(n.AppA)+r.in(-1, 1)*r.n(2)), max(0, len(n.Frs)+len(n.AppF)+r.in(-1, 1)*r.n(2)))
		g.phaseB = save
	}
	return op
}

func (g *gen) interpOp() *Op {
	r := g.r
	op := &Op{K: "interp", Cut: -1}
	if r.p(15) {
		return g.tidyInterp(op)
	}
	n := g.size(0, 4, 5, 120)
	op.Vals = g.vals(n)
	if n == 0 {
		op.Vals = nil
	}
	question := r.p(50)
	op.P = append(op.P, &Piece{K: PText, S: pick(r, []string{"SELECT ", "", "é '#f1 $1 ?' ", "x = "})})
	for i := 1; i <= n; i++ {
		p := &Piece{K: PBind, N: i}
		if question {
			p.Form = 1
		} else if r.p(30) {
			p.N = r.in(1, n)
		}
		if r.p(2) {
			p.N = n + 1
		}
		op.P = append(op.P, p, &Piece{K: PText, S: pick(r, texts)})
	}
	switch {
	case r.p(6):
		op.P = append(op.P, &Piece{K: PBind, N: n + 1, Form: r.n(2)})
	case r.p(4):
		op.P = append(op.P, &Piece{K: PFrag, N: 1})
	case r.p(6):
		op.P = append(op.P, &Piece{K: PBind, N: 1, Form: 0}, &Piece{K: PText, S: " "}, &Piece{K: PBind, N: 1, Form: 1})
	case r.p(5) && n > 0:
		// more arguments than placeholders
		op.P = op.P[:1]
	}
	if r.p(25) {
		op.TimeFmt = pick(r, []string{"2006-01-02", "15:04:05.000", "2006-01-02T15:04:05.999999999Z07:00"})
	}
	return op
}

// tidyInterp is a statement as builders make them: plain values, each used once, in order
// or not.
func (g *gen) tidyInterp(op *Op) *Op {
	r := g.r
	var ok []int
	for i, v := range g.p.Vals {
		switch v.K {
		case "int", "str", "bool", "nil", "i64", "f64", "u8", "i32":
			ok = append(ok, i)
		}
	}
	n := g.size(1, 16, 5, 120)
	if len(ok) == 0 {
		n = 0
	}
	num := make([]int, n)
	for i := range num {
		op.Vals = append(op.Vals, pick(r, ok))
		num[i] = i + 1
	}
	form := r.n(2)
	if form == 0 && r.p(40) {
		for i := n - 1; i > 0; i-- {
			j := r.n(i + 1)
			num[i], num[j] = num[j], num[i]
		}
	}
	sep := pick(r, []string{", ", " AND x = ", " + ", ") OR (", "\n"})
	op.P = append(op.P, &Piece{K: PText, S: pick(r, []string{"SELECT ", "", "x = ", "("})})
	for i, k := range num {
		if i > 0 {
			op.P = append(op.P, &Piece{K: PText, S: sep})
		}
		op.P = append(op.P, &Piece{K: PBind, N: k, Form: form})
	}
	if r.p(30) {
		op.P = append(op.P, &Piece{K: PText, S: " LIMIT 10"})
	}
	return op
}

func (g *gen) parseOp() *Op {
	r := g.r
	op := &Op{K: "parse", Cut: -1, Style: g.style()}
	na, nf := r.n(4), r.n(4)
	op.Vals = g.vals(na)
	var leaves []int
	for _, id := range g.parts {
		n := g.p.Nodes[id]
		switch n.K {
		case NTable, NAliased, NCol, NAnon, NNilFrag:
			leaves = append(leaves, id)
		case NCB:
			if n.Mode == "text" || n.Mode == "commit" {
				leaves = append(leaves, id)
			}
		}
	}
	if len(leaves) > 0 {
		op.Ns = g.pickNodes(leaves, nf)
	}
	save := g.phaseB
	g.phaseB = false
	op.P = g.pieces(na, len(op.Ns))
	for i := r.n(3); i > 0; i-- {
		op.P = append(op.P, g.pieces(na, len(op.Ns))...)
	}
	g.phaseB = save
	t := render(op.P)
	flips := r.n(4)
	if t != "" && r.p(3) {
		// a large one
		op.Rep = (4000+r.n(12000))/len(t) + 1
		t = strings.Repeat(t, op.Rep)
		if r.p(70) {
			flips = 0
		}
	}
	for i := flips; i > 0; i-- {
		f := Flip{Pos: r.n(len(t) + 1), Del: r.n(3), S: pick(r, []string{"", "'", "\"", "`", "(", ")", ",", "#", "$", "?", "??", "$$", "''", "--", "/*", "*/", "\n", "\x00", "\xff", "\xe4\xb8", "é", "0", "1", "99999999999999999999", "1e9", "-1", ".", "nil", "true", "#join", "#f", "#1", "$0", "$1", "\\", " ", "join", "\u2028", "\ufeff", "9223372036854775808", "18446744073709551615", "$18446744073709551615", "$9223372036854775807"})}
		if !utf8.ValidString(f.S) {
			f.Hex, f.S = hex.EncodeToString([]byte(f.S)), ""
		}
		op.Flips = append(op.Flips, f)
	}
	if r.p(50) && (op.Rep == 0 || r.p(30)) {
		op.Cut = r.n(len(t) + 1)
	}
	return op
}

// keys of the contributors an operation invokes, with the number of invocations.
type opCounts struct {
	task, op int
	keys     []string
	n        []int
}

// dryRun predicts every operation, with or without faults. It reports false if the
// workload is too large.
func dryRun(p *Plan, limit int64, faults bool) (out []opCounts, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(tooMuch); is {
				out, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	w := &World{p: p}
	for i, v := range p.Vals {
		w.vals = append(w.vals, makeVal(i, v))
	}
	m := NewModel(p)
	m.limit = limit
	for ti, t := range p.Tasks {
		for oi, op := range t.Ops {
			o := newOpState(p, nil, ti, oi)
			if !faults {
				o.faults = nil
			}
			m.o = o
			m.work = 0
			m.setLocal(op)
			m.predict(w, op)
			c := opCounts{task: ti, op: oi}
			for k := range o.counts {
				c.keys = append(c.keys, k)
			}
			sort.Strings(c.keys)
			for _, k := range c.keys {
				c.n = append(c.n, o.counts[k])
			}
			out = append(out, c)
		}
	}
	return out, true
}

// predict runs the model on an operation for its side effects and counts.
func (m *Model) predict(w *World, op *Op) {
	switch op.K {
	case "q":
		m.build(rootCtx(), op.Node)
	case "s":
		ctxs := make([]*mCtx, len(op.Ctxs))
		for i, c := range op.Ctxs {
			if i == 0 {
				ctxs[i] = rootCtx()
			} else if ctxs[c.Parent] != nil && m.validSet(c.FS) {
				ctxs[i] = m.derive(ctxs[c.Parent], c.FS)
			}
		}
		for _, st := range op.Steps {
			if ctxs[st.Ctx] != nil {
				if _, err := m.build(ctxs[st.Ctx], st.Node); err != nil {
					m.o.off = true
				}
			}
		}
	case "m":
		m.mutate(op)
	case "db":
		if op.DB.built() {
			m.build(rootCtx(), op.Node)
		}
	case "qb":
		m.node(op.Node).qb.config(m, op.Cfg)
	case "interp":
		var t toks
		for _, p := range op.P {
			if p.K == PBind && p.N >= 1 && p.N <= len(op.Vals) {
				t = append(t, Tok{Bind: true, Val: op.Vals[p.N-1]})
			}
		}
		w.literals(m, t, "")
	}
}

// valuerKinds are the ways a converter fails while a statement is rendered.
var valuerKinds = []string{"err", "werr", "err", "perr", "pstr", "pnil"}

// plantFaults makes contributors fail at a point they actually reach. It reports false if
// the workload is too large to be useful.
func (g *gen) plantFaults() bool {
	r, p := g.r, g.p
	limit := int64(6000)
	if g.f.limit > 0 {
		limit = g.f.limit
	}
	counts, ok := dryRun(p, limit, false)
	if !ok {
		return false
	}
	if !r.p(g.f.faults) {
		return true
	}
	var with []opCounts
	for _, c := range counts {
		if len(c.keys) > 0 {
			with = append(with, c)
		}
	}
	for i := r.in(1, g.f.maxFault); i > 0 && len(with) > 0; i-- {
		c := pick(r, with)
		k := r.n(len(c.keys))
		f := &Fault{Task: c.task, Op: c.op, At: c.keys[k], Nth: r.in(1, c.n[k]), Kind: pick(r, g.f.kinds)}
		if strings.HasPrefix(f.At, "V") {
			f.Kind = pick(r, valuerKinds)
		}
		p.Faults = append(p.Faults, f)
	}
	if g.f.debug > 50 && r.p(40) {
		// a converter that fails while a statement is logged
		for i, v := range p.Vals {
			if strings.HasPrefix(v.K, "valuer") {
				p.Faults = append(p.Faults, &Fault{Task: 0, Op: r.n(len(p.Tasks[0].Ops)), At: "V" + itoa(i), Nth: r.in(1, 2), Kind: pick(r, valuerKinds)})
			}
		}
	}
	if len(p.Faults) > 0 {
		// a failure may uncover more work, even endless work
		if _, ok := dryRun(p, limit, true); !ok {
			p.Faults = nil
		}
	}
	return true
}
