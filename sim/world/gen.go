package world

import (
	"math"
	"sort"
	"strings"
)

// profile is how a workload leans.
type profile struct {
	tasks    [2]int
	ops      [2]int
	args     int // weight of arguments
	joins    int
	funcs    int // percent of plans with functions
	cbs      int
	qbs      int // percent of plans with query builders
	bad      int // percent of fragments with a mistake
	sessions int // percent of operations
	mutate   int
	history  int // percent of operations that configure a query builder
	local    int // percent of operations that compose parts of their own
	invalid  int // percent of function sets that are invalid
	bigSets  int // percent of function sets that are large
	shadow   int // percent of plans that shadow built-in functions
	faults   int // percent of plans with faults
	maxFault int
	weird    int // percent of values of unusual types
	interp   int
	parse    int
	debug    int
	same     int // percent of operations on the part the previous one was on
	kinds    []string
	dbs      bool
	dbKind   string
	long     int // percent of plans with long lists
	limit    int64
}

var errKinds = []string{"err", "werr", "idx", "isidx", "jerr", "texterr", "perr", "pstr", "pnil", "pidx"}

var profiles = map[string]*profile{
	"C06": {limit: 1000, tasks: [2]int{2, 4}, ops: [2]int{1, 3}, args: 50, joins: 40, funcs: 50, cbs: 25, qbs: 55, bad: 3, sessions: 30, local: 40, faults: 30, maxFault: 2, weird: 15, same: 50, kinds: errKinds, shadow: 10, debug: 5, long: 4, invalid: 3},
	"C07": {tasks: [2]int{1, 1}, ops: [2]int{3, 12}, args: 50, joins: 40, funcs: 30, cbs: 20, qbs: 60, bad: 8, sessions: 20, mutate: 25, history: 20, local: 30, faults: 45, maxFault: 3, weird: 15, same: 55, kinds: errKinds, shadow: 5, debug: 10, long: 3, invalid: 3},
	"C08": {tasks: [2]int{1, 2}, ops: [2]int{1, 3}, args: 40, joins: 50, funcs: 55, cbs: 50, qbs: 45, bad: 15, sessions: 35, local: 20, faults: 90, maxFault: 3, weird: 10, same: 30, kinds: errKinds, shadow: 5, long: 5, invalid: 3},
	"C09": {tasks: [2]int{1, 2}, ops: [2]int{1, 3}, args: 85, joins: 50, funcs: 40, cbs: 40, qbs: 40, bad: 12, sessions: 50, local: 15, faults: 45, maxFault: 2, weird: 35, same: 20, kinds: errKinds, shadow: 5, long: 15, invalid: 2},
	"C10": {tasks: [2]int{1, 1}, ops: [2]int{3, 14}, args: 35, joins: 20, funcs: 0, cbs: 20, qbs: 100, bad: 2, sessions: 10, history: 60, local: 15, faults: 20, maxFault: 2, weird: 10, same: 80, kinds: errKinds, debug: 3, long: 3},
	"C11": {tasks: [2]int{1, 2}, ops: [2]int{1, 4}, args: 40, joins: 40, funcs: 100, cbs: 30, qbs: 15, bad: 6, sessions: 85, local: 10, faults: 35, maxFault: 2, weird: 10, same: 40, invalid: 25, bigSets: 20, kinds: errKinds, shadow: 45},
	"C12": {tasks: [2]int{1, 2}, ops: [2]int{1, 4}, args: 60, joins: 30, funcs: 15, cbs: 20, qbs: 80, bad: 4, sessions: 15, history: 10, local: 10, faults: 60, maxFault: 3, weird: 60, same: 40, interp: 45, debug: 85, kinds: errKinds, long: 3},
	"C13": {tasks: [2]int{1, 1}, ops: [2]int{1, 4}, args: 40, joins: 55, funcs: 50, cbs: 20, qbs: 45, bad: 15, sessions: 30, local: 10, faults: 50, maxFault: 2, weird: 10, same: 20, parse: 55, kinds: errKinds, shadow: 3, long: 20, invalid: 3},
}

type gen struct {
	r      *rng
	p      *Plan
	f      *profile
	phaseB bool
	local  []*Node
	// pools, by role
	cols    []int
	exprs   []int
	frags   []int
	parts   []int // anything that may be a child
	qbs     []int
	roots   []int
	fnNames []string
	noQB    bool
	qbGens  map[int]*qbGen
	firstB  int // first node made after the functions
	// big: many values, long lists, deep nesting, long histories
	big bool
}

// size draws a size: usually lo..hi, in big plans sometimes bigLo..bigHi.
func (g *gen) size(lo, hi, bigLo, bigHi int) int {
	if g.big && g.r.p(35) {
		return g.r.in(bigLo, bigHi)
	}
	return g.r.in(lo, hi)
}

type tooMuch struct{}

// Generate makes the plan of a seed. It does not run any code under test.
func Generate(prop string, seed uint64) *Plan {
	for i := uint64(0); ; i++ {
		p := generate(prop, seed, newRng(seed+i*0x51ed2701))
		if p != nil {
			return p
		}
	}
}

func generate(prop string, seed uint64, r *rng) *Plan {
	f := profiles[prop]
	if f == nil {
		panic("no profile for " + prop)
	}
	p := &Plan{Prop: prop, Seed: seed, MapSeed: r.next()}
	g := &gen{r: r, p: p, f: f}
	if f.dbs {
		return g.database()
	}
	g.parts0()
	g.tasks()
	g.schedule()
	if !g.plantFaults() {
		return nil
	}
	return p
}

// swarm: some features are off in some plans, and dominate others.
func (g *gen) parts0() {
	r, f := g.r, *g.f
	tune := func(x *int) {
		switch r.n(6) {
		case 0:
			*x = 0
		case 1:
			*x = min(95, *x*2)
		}
	}
	tune(&f.args)
	tune(&f.joins)
	tune(&f.cbs)
	tune(&f.bad)
	tune(&f.weird)
	tune(&f.local)
	g.f = &f
	withQB := r.p(f.qbs)
	withFn := r.p(f.funcs)
	shadow := withFn && !withQB && r.p(f.shadow*2)
	g.noQB = shadow || !withQB
	g.big = r.p(3)
	g.values()
	g.leaves()
	n := r.in(1, 6)
	if g.p.Prop == "C10" {
		n = r.in(0, 3)
	}
	for i := 0; i < n; i++ {
		g.addNode(g.fragment(g.parts))
	}
	if g.big && r.p(40) {
		g.chain()
	}
	if !g.noQB {
		for i := r.in(1, 2); i > 0; i-- {
			g.queryBuilder()
		}
	}
	if withFn {
		g.functions(shadow)
		g.phaseB = true
		g.firstB = len(g.p.Nodes)
		for i := r.in(1, 4); i > 0; i-- {
			g.addNode(g.fragment(g.parts))
		}
	}
	if g.r.p(50) {
		g.addNode(g.fragment(g.parts))
	}
}

// chain nests a part deeply.
func (g *gen) chain() {
	r := g.r
	id := pick(r, g.parts)
	for i := r.in(8, 70); i > 0; i-- {
		n := &Node{K: NFrag, Frs: []int{id}, P: []*Piece{{K: PText, S: "("}, {K: PFrag, N: 1, Form: r.n(3), Name: g.fname()}, {K: PText, S: ")"}}}
		switch {
		case r.p(25):
			n.Args = g.vals(1)
			n.P = append(n.P, &Piece{K: PText, S: " = "}, &Piece{K: PBind, N: 1, Form: r.n(2)})
		case r.p(10):
			n = &Node{K: NExpr, Child: id}
			if g.p.Nodes[id].K != NFrag {
				continue
			}
		case r.p(10):
			n = &Node{K: NCB, Mode: "wrap", Child: id}
		}
		id = g.id(n)
	}
	g.parts = append(g.parts, id)
	g.roots = append(g.roots, id)
}

func (g *gen) id(n *Node) int {
	g.p.Nodes = append(g.p.Nodes, n)
	return len(g.p.Nodes) - 1
}

func (g *gen) addNode(n *Node) int {
	id := g.id(n)
	g.parts = append(g.parts, id)
	if n.K == NFrag {
		g.frags = append(g.frags, id)
	}
	g.roots = append(g.roots, id)
	if n.K == NFrag && g.r.p(25) {
		e := g.id(&Node{K: NExpr, Child: id})
		g.exprs = append(g.exprs, e)
		g.parts = append(g.parts, e)
	}
	if g.r.p(g.f.cbs) {
		g.wrap(id)
	}
	return id
}

func (g *gen) wrap(id int) {
	modes := []string{"wrap", "twice", "wrap"}
	if k := g.p.Nodes[id].K; k == NFrag || k == NQB {
		modes = append(modes, "swallow", "swallow")
	}
	if g.phaseB && len(g.p.Funcs) > 0 {
		modes = append(modes, "derive")
	}
	n := &Node{K: NCB, Mode: pick(g.r, modes), Child: id, Text: pick(g.r, []string{" AND ", "fallback", "/"})}
	if n.Mode == "derive" {
		n.FS = g.r.n(len(g.p.Funcs))
	}
	c := g.id(n)
	g.parts = append(g.parts, c)
	g.roots = append(g.roots, c)
}

var weirdKinds = []string{"bytes", "ints", "map", "nan", "ptr", "nilptr", "nilvaluer", "nilvvaluer", "vvaluer", "niltime", "time", "zerotime", "struct", "valuer", "valueri", "valuern", "valuerbad", "stringer", "boxed", "arr", "u8", "u64", "i64", "i32", "f64", "mystr", "i8", "i16", "uint", "u16", "u32", "f32", "myint", "mybool", "chan", "enum", "selfvaluer", "pairvaluer", "deepvaluer", "negzero", "negzero", "negzero32", "timeloc", "valuert", "valuerf"}

func (g *gen) values() {
	r := g.r
	n := g.size(4, 14, 20, 150)
	plain := n > 14 && r.p(60)
	for i := 0; i < n; i++ {
		v := Val{K: "int", I: int64(100 + i)}
		switch {
		case plain:
		case r.p(g.f.weird):
			v = Val{K: pick(r, weirdKinds), I: int64(r.in(0, 3)), S: pick(r, []string{"a", "it's", "x?y", "$1", "#f1", "", "é\x00\n", "1", "\\"})}
			if r.p(50) {
				v.I = int64(100 + i)
			}
		case r.p(25):
			v = Val{K: "str", S: pick(r, []string{"s" + itoa(i), "it's", "x?y", "$1", "#f1", "", "101", "true"})}
		case r.p(15):
			v = pick(r, []Val{{K: "nil"}, {K: "bool", I: 1}, {K: "bool"}, {K: "int", I: 1}, {K: "i64", I: 1}, {K: "f64", I: 2}, {K: "f64"}, {K: "str", S: "1"}, {K: "int", I: 101}, {K: "i64", I: 101}, {K: "u8", I: 101}, {K: "int", I: -7}, {K: "i64", I: math.MinInt64}, {K: "int", I: 0}})
		}
		g.p.Vals = append(g.p.Vals, v)
	}
	for i := r.n(3); i > 0; i-- {
		g.p.ASlices = append(g.p.ASlices, ASlice{Vals: g.vals(r.in(1, 4)), Spare: r.in(0, 4)})
	}
	if r.p(40) {
		g.p.PropsA = append(g.p.PropsA, g.vals(r.in(1, 4)))
	}
}

func (g *gen) vals(n int) []int {
	out := make([]int, n)
	start := g.r.n(len(g.p.Vals))
	for i := range out {
		out[i] = (start + i) % len(g.p.Vals)
		if g.r.p(20) {
			out[i] = g.r.n(len(g.p.Vals))
		}
	}
	return out
}

var tables = []*Node{
	{K: NAliased, Name: "users", Alias: "u"},
	{K: NAliased, Name: "orders"},
	{K: NAliased, Name: "items", Alias: "i"},
	{K: NTable, Name: "logs"},
}

func (g *gen) leaves() {
	r := g.r
	for i := r.in(1, 3); i > 0; i-- {
		t := *pick(r, tables)
		id := g.id(&t)
		g.parts = append(g.parts, id)
		c := &Node{K: NCol, Name: t.Name, Alias: t.Alias, Col: pick(r, []string{"id", "name", "x"}), Lit: r.p(20)}
		if r.p(25) {
			c.K = NAnon
		}
		if r.p(4) {
			c.Name, c.Alias = "", ""
		}
		g.cols = append(g.cols, g.id(c))
		g.parts = append(g.parts, len(g.p.Nodes)-1)
	}
	if r.p(10) {
		g.parts = append(g.parts, g.id(&Node{K: NNilFrag}))
	}
	if r.p(3) {
		g.parts = append(g.parts, g.id(&Node{K: pick(r, []string{NNilIf, NNilCol})}))
	}
	n := 0
	if r.p(g.f.cbs) {
		n = r.in(1, 3)
	}
	for i := 0; i < n; i++ {
		c := &Node{K: NCB, Mode: "text", Text: pick(r, []string{"cb" + itoa(i), "", " now() ", "'?'"})}
		if r.p(60) {
			c = &Node{K: NCB, Mode: "commit", Text: pick(r, []string{"", "c" + itoa(i) + "=", "IN "}), Vals: g.vals(r.in(1, 3))}
		}
		id := g.id(c)
		g.parts = append(g.parts, id)
		g.roots = append(g.roots, id)
	}
	if r.p(30) {
		for i := r.in(1, 2); i > 0; i-- {
			g.p.FSlices = append(g.p.FSlices, FSlice{Nodes: g.pickNodes(g.parts, r.in(1, 3)), Spare: r.in(0, 3)})
		}
	}
	if r.p(40) {
		g.p.PropsF = append(g.p.PropsF, g.pickNodes(g.parts, r.in(1, 3)))
	}
}

func (g *gen) pickNodes(from []int, n int) []int {
	var out []int
	for i := 0; i < n; i++ {
		// prefer what was made last
		k := g.r.n(len(from))
		if g.r.p(50) {
			k = len(from) - 1 - g.r.n(min(len(from), 4))
		}
		out = append(out, from[k])
	}
	return out
}

var texts = []string{" = ", ", ", " AND ", ") ", "=", " ", " 'it''s $1 ? #f1' ", " \"q?#f2\" ", " `b$1` ", " a??b ", " $$body$$ ", "\n-- é世\n", " > ", " x IS NULL AND ", "'')", " \t ", " % ",
	"; ", ";", " %s%d ", " \\ ", " '\\' ", " /* c */ ", " LIMIT 10 ", " ORDER BY 1 DESC ", " FOR UPDATE", "\r\n", " @x :y {z} ", " ~ !", " ';' ", "SELECT DISTINCT "}
var firstTexts = []string{"SELECT ", "x ", "(", "", "", "  ", "id IN (", "'#f1'", "é=", "a.b = "}
var prefixes = []string{"WHERE", "ORDER BY", "FROM", "/*#f1*/"}
var suffixes = []string{"FOR UPDATE", "DESC", "-- '"}
var seps = []string{", ", " AND ", ",", "", " ", "'", " 'x' ", "\nUNION\n", "?", "#f1", " OR "}

func (g *gen) sep() string {
	s := pick(g.r, seps)
	if s == "?" {
		s = " /*?*/ "
	}
	return s
}

// fragment makes a fragment whose template references its arguments and children.
func (g *gen) fragment(pool []int) *Node {
	r := g.r
	n := &Node{K: NFrag, Lit: r.p(20)}
	na, nf := 0, 0
	if r.p(g.f.args) {
		na = r.in(1, 4)
		if r.p(g.f.long) {
			na = r.in(8, 24)
		}
		if g.big && r.p(25) {
			na = r.in(20, 140)
		}
	}
	if r.p(60) && len(pool) > 0 {
		nf = r.in(1, 3)
		if r.p(g.f.long) {
			nf = r.in(6, 13)
		}
		if g.big && r.p(20) {
			nf = r.in(12, 80)
			// of small parts
			var small []int
			for _, id := range pool {
				if id >= LocalBase {
					continue
				}
				if n := g.p.Nodes[id]; n.K == NCol || n.K == NAnon || n.K == NTable || n.K == NAliased || n.K == NFrag && len(n.Frs) == 0 {
					small = append(small, id)
				}
			}
			if len(small) > 0 {
				pool = small
			}
		}
	}
	if na > 0 {
		n.Args = g.vals(na)
		if r.p(30) && len(g.p.ASlices) > 0 {
			n.ASl = 1 + r.n(len(g.p.ASlices))
			n.Args = append([]int{}, g.p.ASlices[n.ASl-1].Vals...)
			n.Lit = false
		}
		if r.p(20) {
			n.AppA = g.vals(r.in(1, 2))
		}
	}
	if nf > 0 {
		n.Frs = g.pickNodes(pool, nf)
		if r.p(25) && len(g.p.FSlices) > 0 {
			n.FSl = 1 + r.n(len(g.p.FSlices))
			n.Frs = append([]int{}, g.p.FSlices[n.FSl-1].Nodes...)
			n.Lit = false
		}
		if r.p(20) {
			n.AppF = g.pickNodes(pool, r.in(1, 2))
		}
	}
	na, nf = len(n.Args)+len(n.AppA), len(n.Frs)+len(n.AppF)
	n.P = g.pieces(na, nf)
	if r.p(15) {
		n.Pre = pick(r, prefixes)
	}
	if r.p(10) {
		n.Suf = pick(r, suffixes)
	}
	return n
}

func (g *gen) fname() string {
	if g.r.p(25) {
		return "fragment"
	}
	return "f"
}

// pieces makes a template for na arguments and nf children.
func (g *gen) pieces(na, nf int) []*Piece {
	r := g.r
	var refs []*Piece
	question := r.p(45)
	// arguments
	binds := 0
	rest := na
	switch {
	case na == 0:
	case r.p(g.f.joins):
		// a list of arguments, the ones before it one by one
		k := r.n(na + 1)
		if r.p(60) {
			k = 0
		}
		binds, rest = k, 0
		t := g.template("arg")
		j := &Piece{K: PJoin, T: t, Sep: g.sep(), Sp: pick(r, []string{"", " "})}
		if k > 0 || r.p(20) {
			j.NIdx, j.From = 1, k+1
			if k == na {
				j.From = max(1, k)
			}
			if r.p(30) {
				j.NIdx, j.To = 2, na
			}
		}
		refs = append(refs, j)
	default:
		binds, rest = na, 0
	}
	_ = rest
	var order []*Piece
	for i := 1; i <= binds; i++ {
		p := &Piece{K: PBind, N: i}
		switch {
		case question && r.p(85):
			p.Form = 1
		case r.p(15):
			p = &Piece{K: PArg, N: i, Form: r.n(2)}
		case question:
			p = &Piece{K: PArg, N: i, Form: r.n(2)}
		}
		order = append(order, p)
	}
	if question {
		// the i-th '?' is argument i: renumber what would be out of step
		k := 0
		for i, p := range order {
			if p.K == PBind {
				k++
				if k != i+1 {
					order[i] = &Piece{K: PArg, N: i + 1, Form: r.n(2)}
					k--
				}
			}
		}
	} else if len(order) > 1 && r.p(30) {
		i, j := r.n(len(order)), r.n(len(order))
		order[i], order[j] = order[j], order[i]
	}
	if !question && binds > 0 && r.p(20) {
		order = append(order, &Piece{K: PBind, N: r.in(1, binds)})
	}
	// children
	var fr []*Piece
	switch {
	case nf == 0:
	case r.p(g.f.joins):
		k := 0
		if r.p(30) {
			k = r.n(nf + 1)
		}
		for i := 1; i <= k; i++ {
			fr = append(fr, &Piece{K: PFrag, N: i, Form: r.n(3), Name: g.fname()})
		}
		j := &Piece{K: PJoin, T: g.template(g.fname()), Sep: g.sep(), Sp: pick(r, []string{"", " "})}
		if k > 0 || r.p(20) {
			j.NIdx, j.From = 1, min(k+1, nf)
			if r.p(30) {
				j.NIdx, j.To = 2, nf
			}
		}
		if na > 0 && binds == 0 && r.p(40) {
			// lists side by side, maybe of different lengths
			j.T = append(j.T, &Piece{K: PText, S: pick(r, []string{"=", " = ", " -> "})}, &Piece{K: PValue, Name: "arg"})
			if r.p(60) {
				refs = nil
			}
		}
		fr = append(fr, j)
	default:
		for i := 1; i <= nf; i++ {
			fr = append(fr, &Piece{K: PFrag, N: i, Form: r.n(3), Name: g.fname()})
		}
		if r.p(20) {
			fr = append(fr, &Piece{K: PFrag, N: r.in(1, nf), Name: g.fname()})
		}
	}
	refs = merge(r, append(order, refs...), fr)
	// calls
	if g.phaseB && len(g.fnNames) > 0 {
		for i := r.n(4); i > 0; i-- {
			at := r.n(len(refs) + 1)
			refs = append(refs[:at], append([]*Piece{g.callPiece()}, refs[at:]...)...)
		}
	}
	if r.p(g.f.bad) {
		refs = g.mistake(refs, na, nf)
	}
	// texts between
	var out []*Piece
	if s := pick(r, firstTexts); s != "" {
		out = append(out, &Piece{K: PText, S: s})
	}
	for i, p := range refs {
		if i > 0 {
			prev := refs[i-1]
			if prev.K == PBind && p.K == PBind || prev.K == PBad || prev.K == PValue || !r.p(20) {
				out = append(out, &Piece{K: PText, S: pick(r, texts)})
			}
		}
		out = append(out, p)
	}
	if r.p(40) {
		out = append(out, &Piece{K: PText, S: pick(r, texts)})
	}
	return out
}

// merge interleaves two lists, keeping the order of each.
func merge(r *rng, a, b []*Piece) []*Piece {
	var out []*Piece
	for len(a) > 0 || len(b) > 0 {
		if len(b) == 0 || len(a) > 0 && r.p(50) {
			out = append(out, a[0])
			a = a[1:]
		} else {
			out = append(out, b[0])
			b = b[1:]
		}
	}
	return out
}

var tmplTexts = []string{"=", " = ", ", ", " AND ", " 'it''s ?' ", " ", "::int", " \"x\" ", ">", "~", "|x", "{a}", "é", "[1]", "@", "`q`", "-- ", " ''''a'''' ''''b'''' "}

// template makes a #join template with a list function.
func (g *gen) template(fn string) []*Piece {
	r := g.r
	var out []*Piece
	if r.p(25) {
		out = append(out, &Piece{K: PText, S: pick(r, []string{"(", "x=", " ", "'a' ", "lower(", "é"})})
	}
	out = append(out, &Piece{K: PValue, Name: fn})
	if r.p(25) {
		out = append(out, &Piece{K: PText, S: pick(r, tmplTexts)})
		if r.p(30) {
			out = append(out, &Piece{K: PValue, Name: fn})
		}
	}
	if g.phaseB && r.p(20) {
		if n := g.listFn(); n != "" {
			out = append(out, &Piece{K: PText, S: ":"}, &Piece{K: PValue, Name: n})
		}
	}
	return out
}

func (g *gen) listFn() string {
	var names []string
	for _, fs := range g.p.Funcs {
		for _, f := range fs.Fns {
			switch f.K {
			case "nodes", "argp", "fragp", "text", "commit", "early", "varn", "bad", "num1", "badend":
				if goodName(f.Name) {
					names = append(names, f.Name)
				}
			}
		}
	}
	if len(names) == 0 {
		return ""
	}
	return pick(g.r, names)
}

// callPiece calls a custom function, mostly correctly.
func (g *gen) callPiece() *Piece {
	r := g.r
	var specs []*FuncSpec
	for _, fs := range g.p.Funcs {
		for _, f := range fs.Fns {
			if goodName(f.Name) && !strings.HasPrefix(f.K, "invalid") {
				specs = append(specs, f)
			}
		}
	}
	if len(specs) == 0 {
		return &Piece{K: PText, S: " nofn "}
	}
	s := pick(r, specs)
	str := func() CArg {
		return CArg{K: "s", S: pick(r, []string{"a", "it's", "", "a,b)", "?", "#f1", "é", " x ", "'x' 'y' 'z'"})}
	}
	p := &Piece{K: PCall, Name: s.Name, Sp: pick(r, []string{"", " "}), Form: r.n(2)}
	switch s.K {
	case "nodes", "argp", "fragp", "text", "commit", "early", "bad", "inf", "num1", "badend":
		if r.p(50) {
			t := []*Piece{{K: PValue, Name: s.Name}}
			if r.p(30) {
				t = append([]*Piece{{K: PText, S: "<"}}, append(t, &Piece{K: PText, S: ">"})...)
			}
			j := &Piece{K: PJoin, T: t, Sep: g.sep()}
			if s.K == "inf" || r.p(20) {
				j.NIdx, j.From = 2, r.in(1, 3)
				j.To = j.From + r.n(3)
			}
			return j
		}
		n := s.N
		switch s.K {
		case "nodes":
			n = len(s.Ns)
		case "commit", "early":
			n = len(s.Vals)
		case "argp":
			n = len(g.p.PropsA[s.N])
		case "fragp":
			n = len(g.p.PropsF[s.N])
		case "inf", "bad", "num1":
			n = 9
		}
		p.CA = []CArg{{K: "n", N: float64(r.in(1, max(1, n)))}}
		if r.p(4) {
			p.CA[0].N = float64(n + 1)
		}
	case "varn":
		p.Form = 1
		for i := r.n(4); i > 0; i-- {
			p.CA = append(p.CA, CArg{K: "n", N: float64(r.in(1, max(1, s.N)))})
		}
	case "str":
		p.CA = []CArg{str()}
	case "multi":
		n := g.number(s)
		if s.T == "float64" || s.T == "float32" || s.T == "" {
			n += 0.5
		}
		p.CA = []CArg{str(), {K: "b", B: r.p(50)}, {K: "n", N: n}}
	case "varnum":
		for i := r.n(4); i > 0; i-- {
			n := g.number(s)
			if s.T == "float64" || s.T == "float32" {
				n += pick(r, []float64{0.5, 0.25, 0})
			}
			p.CA = append(p.CA, CArg{K: "n", N: n})
		}
	case "varmix":
		p.CA = []CArg{str(), {K: "n", N: float64(r.n(5)) + 0.5}}
		for i := r.n(4); i > 0; i-- {
			p.CA = append(p.CA, CArg{K: "b", B: r.p(50)})
		}
	case "vari":
		for i := r.n(4); i > 0; i-- {
			p.CA = append(p.CA, str())
		}
	case "joinlike":
		p.CA = []CArg{str(), str()}
		for i := r.n(3); i > 0; i-- {
			p.CA = append(p.CA, CArg{K: "n", N: float64(r.n(5))})
		}
	}
	if p.Form == 0 && len(p.CA) != 1 {
		p.Form = 1
	}
	if r.p(5) {
		// wrong arity or type
		p.Form = 1
		bad := pick(r, []CArg{{K: "nil"}, str(), {K: "n", N: 2}, {K: "b", B: true}})
		if len(p.CA) > 0 && r.p(50) {
			p.CA[r.n(len(p.CA))] = bad
		} else {
			p.CA = append(p.CA, bad)
		}
	}
	return p
}

// mistake makes a template fail, or reference something twice.
func (g *gen) mistake(refs []*Piece, na, nf int) []*Piece {
	r := g.r
	add := func(p *Piece) {
		at := r.n(len(refs) + 1)
		refs = append(refs[:at], append([]*Piece{p}, refs[at:]...)...)
	}
	switch r.n(14) {
	case 0:
		add(&Piece{K: PBind, N: na + 1})
	case 1:
		add(&Piece{K: PFrag, N: nf + 1, Form: r.n(2)})
	case 2:
		add(&Piece{K: PArg, N: na + 1, Form: r.n(2)})
	case 3:
		if len(refs) > 0 {
			at := r.n(len(refs))
			refs = append(refs[:at], refs[at+1:]...)
		}
	case 4:
		add(&Piece{K: PBind, N: 1, Form: 1})
	case 5:
		add(&Piece{K: PBind, N: 1})
	case 6:
		add(&Piece{K: PCall, Name: "nosuch", Form: 1, CA: []CArg{{K: "n", N: 1}}})
	case 7:
		add(&Piece{K: PBad, S: pick(r, []string{"#", "#f(x", "#f(nan?", "#1", "$x", "#f1 $0", "#f(1 2)", "#f(x)", "# f1"}), Name: "syntax"})
	case 8:
		add(&Piece{K: PValue, Name: pick(r, []string{"f", "arg", "join"})})
	case 9:
		add(&Piece{K: PCall, Name: pick(r, []string{"f", "arg", "fragment"}), Form: 1, CA: pick(r, [][]CArg{nil, {{K: "s", S: "1"}}, {{K: "b", B: true}}, {{K: "n", N: 1}, {K: "n", N: 1}}, {{K: "nil"}}, {{K: "n"}}})})
	case 10:
		j := &Piece{K: PJoin, T: []*Piece{{K: PValue, Name: pick(r, []string{"arg", "f"})}}, Sep: ","}
		j.NIdx = r.in(1, 3)
		j.From, j.To = r.n(4), r.n(5)
		add(j)
	case 11:
		add(&Piece{K: PJoin, T: pick(r, [][]*Piece{{{K: PText, S: "x"}}, {{K: PFrag, N: 1}}, {{K: PValue, Name: "join"}}, {{K: PValue, Name: "nosuch"}}, {{K: PValue, Name: "f"}, {K: PBad, S: " #", Name: "syntax"}}, nil}), Sep: ","})
	case 12:
		// a list whose items also reference something fixed
		t := []*Piece{{K: PValue, Name: pick(r, []string{"arg", "f"})}, {K: PText, S: "="}}
		if na > 0 && r.p(50) {
			t = append(t, &Piece{K: PBind, N: r.in(1, na), Form: r.n(2)})
		} else {
			t = append(t, &Piece{K: PFrag, N: r.in(1, nf+1)})
		}
		if r.p(50) {
			t[0], t[2] = t[2], t[0]
			if t[0].K == PBind && t[0].Form == 1 {
				t[1].S = " = "
			}
		}
		add(&Piece{K: PJoin, T: t, Sep: ","})
	case 13:
		if na > 0 {
			add(&Piece{K: PJoin, T: []*Piece{{K: PValue, Name: "f"}, {K: PText, S: "="}, {K: PValue, Name: "arg"}}, Sep: ","})
		}
	}
	return refs
}

// pure reports that building the node calls no custom function.
func (g *gen) pure(id int) bool {
	n := g.p.Nodes[id]
	if n.K == NCB && (n.Mode == "derive") {
		return false
	}
	var calls func(ps []*Piece) bool
	calls = func(ps []*Piece) bool {
		for _, p := range ps {
			if p.K == PCall && p.Name != "f" && p.Name != "arg" && p.Name != "fragment" {
				return true
			}
			if p.K == PValue && p.Name != "f" && p.Name != "arg" && p.Name != "fragment" && p.Name != "join" {
				return true
			}
			if calls(p.T) {
				return true
			}
		}
		return false
	}
	return !calls(n.P)
}

func (g *gen) functions(shadow bool) {
	r := g.r
	var pure []int
	for _, id := range g.parts {
		k := g.p.Nodes[id].K
		if k != NQB && k != NNilIf && k != NNilCol && g.pure(id) {
			pure = append(pure, id)
		}
	}
	nsets := r.in(1, 3)
	names := []string{"a", "b", "list", "_id", "upper", "x_y", "cafe", "J", "ff", "A", "c", "d", "joiner", "zZ", "aAz_", "Z"}
	if shadow {
		names = append(names, "f", "fragment", "arg", "join", "f", "arg")
	}
	for s := 0; s < nsets; s++ {
		fs := &FuncSet{}
		used := map[string]bool{}
		n := r.in(1, 4)
		if r.p(g.f.bigSets) {
			n = r.in(5, 12)
		}
		for ; n > 0; n-- {
			name := pick(r, names)
			if used[name] {
				continue
			}
			used[name] = true
			fs.Fns = append(fs.Fns, g.funcSpec(name, pure, s))
		}
		if r.p(g.f.invalid) {
			k := r.n(len(fs.Fns))
			if r.p(50) {
				fs.Fns[k].K = pick(r, []string{"invalid_notfunc", "invalid_nil", "invalid_arg", "invalid_out", "invalid_out2", "invalid_out3", "invalid_ctx", "invalid_var", "invalid_out4", "invalid_out5", "invalid_varctx", "invalid_ptr", "invalid_cplx", "invalid_out6", "invalid_out7", "invalid_any", "invalid_uptr"})
			} else {
				fs.Fns[k].Name = pick(r, []string{"", "a1", "a b", "x-y", "#a", "1", "a.b", "é", "a{", "@a", "[", "b`", "z0", "a-", "ÿ", "\x00"})
			}
		}
		for _, f := range fs.Fns {
			g.fnNames = append(g.fnNames, f.Name)
		}
		if s > 0 && r.p(2) {
			fs.Fns = nil
		}
		g.p.Funcs = append(g.p.Funcs, fs)
	}
}

func (g *gen) funcSpec(name string, pure []int, set int) *FuncSpec {
	r := g.r
	kinds := []string{"nodes", "nodes", "text", "text", "commit", "early", "inf", "bad", "num1", "badend", "str", "multi", "void", "vari", "varn", "ctxonly", "ret1", "joinlike", "build", "derive", "varnum", "varmix"}
	if len(g.p.PropsA) > 0 {
		kinds = append(kinds, "argp", "argp", "argp")
	}
	if len(g.p.PropsF) > 0 {
		kinds = append(kinds, "fragp", "fragp", "fragp")
	}
	s := &FuncSpec{Name: name, K: pick(r, kinds), Text: pick(r, []string{"p", "col_", "Z"}) + itoa(set), N: r.n(4)}
	switch s.K {
	case "nodes":
		s.Ns = g.pickNodes(pure, r.n(4))
	case "argp":
		s.N = r.n(len(g.p.PropsA))
	case "fragp":
		s.N = r.n(len(g.p.PropsF))
	case "commit", "early":
		s.Vals = g.vals(r.in(1, 3))
	case "build":
		s.Ns = g.pickNodes(pure, 1)
	case "derive":
		s.Ns = g.pickNodes(pure, 1)
		s.FS = r.n(set + 1)
	case "varnum":
		s.T = pick(r, append([]string{"", ""}, numTypes...))
	case "str", "vari":
		s.T = pick(r, []string{"", "named"})
	case "varn":
		s.T = pick(r, []string{"", "noctx"})
	case "text", "bad", "multi", "inf":
		s.T = pick(r, append([]string{"", "", ""}, numTypes...))
		if s.K == "multi" {
			s.T = pick(r, append([]string{"", "named"}, numTypes...))
		}
	}
	return s
}

// number is a number that the function takes, and those of the same name.
func (g *gen) number(s *FuncSpec) float64 {
	r := g.r
	n := 0
	for _, set := range g.p.Funcs {
		for _, f := range set.Fns {
			if f.Name == s.Name {
				n++
			}
		}
	}
	if n > 1 || r.p(70) {
		return float64(r.n(9))
	}
	limit := 1 << 30
	switch s.T {
	case "int8":
		limit = 1<<7 - 1
	case "uint8":
		limit = 1<<8 - 1
	case "int16", "named":
		limit = 1<<15 - 1
	case "uint16":
		limit = 1<<16 - 1
	case "int32":
		limit = 1<<31 - 1
	case "uint32":
		limit = 1<<32 - 1
	case "int64", "uint64":
		limit = 1 << 50
	case "float32":
		limit = 1 << 20
	}
	if r.p(30) {
		return float64(limit)
	}
	return float64(r.n(limit))
}

func (g *gen) schedule() {
	r, p := g.r, g.p
	if len(p.Tasks) < 2 {
		return
	}
	p.Mode = r.n(4)
	p.Period = pick(r, []int{2, 7, 20, 60, 200, 600, 2000})
	p.MaxPre = pick(r, []int{1, 2, 4, 16, 64})
	for i := range p.Tasks {
		p.Starts = append(p.Starts, i)
	}
	for i := len(p.Starts) - 1; i > 0; i-- {
		j := r.n(i + 1)
		p.Starts[i], p.Starts[j] = p.Starts[j], p.Starts[i]
	}
}

// HasProfile reports whether there is a workload for the property.
func HasProfile(prop string) bool { return profiles[prop] != nil }

// Profiles lists the properties with a workload.
func Profiles() []string {
	var out []string
	for k := range profiles {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
