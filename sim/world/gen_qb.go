package world

type tab struct{ name, alias string }

func (t tab) applied() string {
	if t.alias != "" {
		return t.alias
	}
	return t.name
}

// qbGen generates the configuration of one query builder.
type qbGen struct {
	g      *gen
	pool   []int // parts that exist before the builder: what it may embed
	frags  []int
	qbs    []int
	exprs  []int
	mains  []tab
	joins  []tab
	joined []tab
	main   *tab
	ctes   []string
	used   map[string]bool
	cols   map[tab][]int
}

var mainTabs = []tab{{"users", ""}, {"users", "m"}, {"base", ""}, {"cte2", ""}, {"cte2", "m"}, {"base", "m"}}
var joinTabs = []tab{{"orders", ""}, {"orders", "j1"}, {"items", ""}, {"items", "j1"}, {"items", "j2"}, {"tags", "j2"}, {"tags", "j3"}, {"cte1", ""}, {"cte1", "j3"}, {"cte2", "j1"}, {"cte0", "j4"}, {"orders", "j4"}, {"users", "j2"}, {"cte0", ""}, {"cte3", ""}, {"cte4", "j5"}}

// queryBuilder makes a query builder, with the parts it refers to.
func (g *gen) queryBuilder() int {
	r := g.r
	q := &qbGen{g: g, used: map[string]bool{}, cols: map[tab][]int{}}
	if r.p(map[string]int{"C13": 8, "C10": 2}[g.p.Prop]) {
		return q.dense()
	}
	q.pool = append(q.pool, g.parts...)
	q.frags = append(q.frags, g.frags...)
	q.qbs = append(q.qbs, g.qbs...)
	q.exprs = append(q.exprs, g.exprs...)
	q.mains = []tab{pick(r, mainTabs), pick(r, mainTabs)}
	for i := r.in(2, 6); i > 0; i-- {
		q.joins = append(q.joins, pick(r, joinTabs))
	}
	var cfg []*QOp
	add := func(op *QOp) {
		if op != nil {
			cfg = append(cfg, op)
		}
	}
	if !r.p(3) {
		add(q.from())
	}
	nj := r.n(4)
	if g.p.Prop == "C10" {
		nj = r.in(0, 7)
	}
	if r.p(map[string]int{"C10": 2, "C08": 1, "C07": 1}[g.p.Prop]) {
		add(q.noName())
	}
	distinct := r.p(60)
	if distinct {
		add(&QOp{K: "distinct"})
	}
	for i := 0; i < nj; i++ {
		add(q.join())
	}
	if !r.p(3) {
		add(q.sel())
	}
	for i := r.n(4); i > 0; i-- {
		add(q.step([]string{"where", "where2", "in", "notin", "order", "group", "where", "order"}))
	}
	for i := r.n(4); i > 0; i-- {
		add(q.step([]string{"with", "with", "union", "limit", "offset"}))
	}
	if r.p(12) {
		// long lists: slices with capacity to spare
		k := pick(r, []string{"group", "where", "order", "with", "union", "in", "group"})
		for i := g.size(2, 6, 7, 40); i > 0; i-- {
			add(q.step([]string{k}))
		}
	}
	if r.p(g.f.debug) {
		add(&QOp{K: "debug"})
	}
	if r.p(35) {
		// clients configure in any order
		for i := len(cfg) - 1; i > 0; i-- {
			j := r.n(i + 1)
			cfg[i], cfg[j] = cfg[j], cfg[i]
		}
	}
	if g.p.Prop == "C10" && r.n(70) == 0 {
		if op := joinMain(cfg); op != nil {
			cfg = append(cfg, op)
		}
	}
	id := g.id(&Node{K: NQB, Cfg: cfg})
	g.qbs = append(g.qbs, id)
	g.parts = append(g.parts, id)
	g.roots = append(g.roots, id, id)
	if g.qbGens == nil {
		g.qbGens = map[int]*qbGen{}
	}
	g.qbGens[id] = q
	if r.p(3) {
		g.parts = append(g.parts, g.id(&Node{K: NNilQB}))
	}
	if r.p(g.f.cbs) {
		g.wrap(id)
	}
	return id
}

// dense makes a builder whose CTEs or optional joins depend on each other in many layers:
// the number of paths is exponential, the number of parts is not.
func (q *qbGen) dense() int {
	g, r := q.g, q.g.r
	width := r.in(1, 3)
	layers := r.in(2, 24/width)
	if width == 2 && r.p(60) {
		layers = r.in(16, 24)
	}
	if width == 3 && r.p(40) {
		layers = r.in(12, 15)
	}
	ctes := r.p(50)
	var all []tab
	at := func(l, k int) tab { return all[l*width+k] }
	for l := 0; l < layers; l++ {
		for k := 0; k < width; k++ {
			t := tab{name: "d" + itoa(l) + "_" + itoa(k)}
			if !ctes && r.p(20) {
				t.alias = "a" + itoa(l*width+k)
			}
			all = append(all, t)
		}
	}
	q.mains = []tab{{"users", ""}}
	if ctes {
		q.mains = all[:1]
	}
	cfg := []*QOp{q.from()}
	var body []*QOp
	for l := 0; l < layers; l++ {
		for k := 0; k < width; k++ {
			t := at(l, k)
			var next []tab
			for j := 0; l+1 < layers && j < width; j++ {
				next = append(next, at(l+1, j))
			}
			if r.p(4) {
				next = append(next, pick(r, all))
			}
			if ctes {
				op := &QOp{K: "with", Name: t.name, Ns: []int{q.embed()}}
				if r.p(80) {
					op.Ns[0] = g.id(&Node{K: NFrag, P: []*Piece{{K: PText, S: "SELECT 1"}}})
				}
				for _, n := range next {
					op.Deps = append(op.Deps, n.name)
				}
				body = append(body, op)
				continue
			}
			n := &Node{K: NFrag}
			for i, o := range append([]tab{t}, next...) {
				n.Frs = append(n.Frs, g.id(&Node{K: NCol, Name: o.name, Alias: o.alias, Col: "id"}))
				n.P = append(n.P, &Piece{K: PText, S: " = "}, &Piece{K: PFrag, N: i + 1})
			}
			n.P = n.P[1:]
			body = append(body, &QOp{K: "leftopt", Name: t.name, Alias: t.alias, Ns: []int{g.id(n)}})
		}
	}
	if r.p(40) {
		for i := len(body) - 1; i > 0; i-- {
			j := r.n(i + 1)
			body[i], body[j] = body[j], body[i]
		}
	}
	cfg = append(cfg, body...)
	if !ctes {
		q.joined = all
		cfg = append(cfg, &QOp{K: "distinct"})
		cfg = append(cfg, &QOp{K: "select", Ns: []int{q.col(at(0, 0)), q.col(pick(r, all))}})
	} else {
		for _, t := range all {
			q.used[t.name] = true
		}
		cfg = append(cfg, q.sel())
	}
	id := g.id(&Node{K: NQB, Cfg: cfg})
	g.qbs = append(g.qbs, id)
	g.roots = append(g.roots, id, id)
	if g.qbGens == nil {
		g.qbGens = map[int]*qbGen{}
	}
	g.qbGens[id] = q
	q.joins = []tab{pick(r, all[1:]), pick(r, joinTabs)}
	return id
}

// joinMain declares the main table again, as a join.
func joinMain(cfg []*QOp) *QOp {
	for i := len(cfg) - 1; i >= 0; i-- {
		if c := cfg[i]; c.K == "from" && c.Name != "" {
			return &QOp{K: "leftopt", Name: c.Name, Alias: c.Alias}
		}
	}
	return nil
}

// noName declares a table without a name.
func (q *qbGen) noName() *QOp {
	r := q.g.r
	op := &QOp{K: pick(r, []string{"from", "inner", "left", "leftopt", "right", "full", "cross"})}
	if r.p(60) {
		op.Alias = pick(r, []string{"j1", "j3", "m", "zz"})
	}
	return op
}

func (q *qbGen) from() *QOp {
	t := pick(q.g.r, q.mains)
	q.main = &t
	return &QOp{K: "from", Name: t.name, Alias: t.alias}
}

// tab picks a table to refer to, mostly one of the query.
func (q *qbGen) tab() tab {
	r := q.g.r
	switch {
	case r.p(2):
		return pick(r, joinTabs)
	case q.main != nil && (len(q.joined) == 0 || r.p(40)):
		return *q.main
	case len(q.joined) > 0:
		return pick(r, q.joined)
	}
	return pick(r, q.mains)
}

// col picks a column of the table.
func (q *qbGen) col(t tab) int {
	r := q.g.r
	t = tab{t.name, t.alias}
	if l := q.cols[t]; len(l) > 0 && r.p(60) {
		return pick(r, l)
	}
	n := &Node{K: NCol, Name: t.name, Alias: t.alias, Col: pick(r, []string{"id", "name", "v", "*"}), Lit: r.p(20)}
	switch {
	case r.p(15):
		n.K = NAnon
	case r.p(1):
		n.Col = ""
	case r.p(2):
		n.Name, n.Alias = "", ""
	}
	id := q.g.id(n)
	q.cols[t] = append(q.cols[t], id)
	return id
}

// column is a plain or computed column.
func (q *qbGen) column() int {
	if q.g.r.n(300) == 0 {
		return q.g.id(&Node{K: NNilCol})
	}
	if q.g.r.p(70) {
		return q.col(q.tab())
	}
	if q.g.r.p(8) && len(q.exprs) > 0 {
		return pick(q.g.r, q.exprs)
	}
	return q.g.id(&Node{K: NExpr, Child: q.frag(nil)})
}

// frag makes a fragment that refers to tables of the query.
func (q *qbGen) frag(ts []tab) int {
	r := q.g.r
	n := &Node{K: NFrag, Lit: r.p(15)}
	k := r.in(1, 2)
	if len(ts) > 0 {
		k = len(ts)
	}
	for i := 0; i < k; i++ {
		t := q.tab()
		if len(ts) > 0 {
			t = ts[i]
		}
		id := q.col(t)
		switch {
		case r.p(8):
			id = q.g.id(&Node{K: NAliased, Name: t.name, Alias: t.alias})
		case r.p(4):
			id = q.g.id(&Node{K: NTable, Name: t.applied()})
		case r.p(6):
			id = q.g.id(&Node{K: NExpr, Child: q.frag([]tab{t})})
		case r.p(12) && len(ts) == 0 && len(q.qbs) > 0:
			id = pick(r, q.qbs)
		case r.p(5) && len(q.pool) > 0:
			id = pick(r, q.pool)
		}
		n.Frs = append(n.Frs, id)
	}
	if r.p(q.g.f.args) {
		n.Args = q.g.vals(r.in(1, 2))
	}
	n.P = q.g.pieces(len(n.Args), len(n.Frs))
	if r.p(6) {
		n.Pre = pick(r, []string{"NOT", "/*p*/"})
	}
	id := q.g.id(n)
	if r.p(8) {
		// parts in parts
		id = q.g.id(&Node{K: NFrag, Frs: []int{id}, P: []*Piece{{K: PText, S: "("}, {K: PFrag, N: 1}, {K: PText, S: ")"}}})
	}
	return id
}

func (q *qbGen) join() *QOp {
	r := q.g.r
	t := pick(r, q.joins)
	op := &QOp{K: pick(r, []string{"inner", "left", "leftopt", "leftopt", "leftopt", "right", "full", "cross", "leftopt"}), Name: t.name, Alias: t.alias}
	q.joined = append(q.joined, t)
	if op.K == "cross" || r.p(8) {
		return op
	}
	switch {
	case r.p(4):
		op.Ns = []int{q.g.id(&Node{K: NNilFrag})}
	case r.p(5):
		op.Ns = []int{q.g.id(&Node{K: NFrag, P: []*Piece{{K: PText, S: pick(r, []string{"", "  ", "TRUE"})}}})}
	default:
		other := q.tab()
		ts := []tab{t, other}
		if r.p(15) {
			ts = append(ts, q.tab())
		}
		if r.p(8) {
			ts = ts[1:]
		}
		op.Ns = []int{q.frag(ts)}
	}
	return op
}

func (q *qbGen) sel() *QOp {
	op := &QOp{K: "select"}
	if q.g.r.p(3) {
		// nothing: no change
		return op
	}
	for i := q.g.size(1, 3, 4, 70); i > 0; i-- {
		op.Ns = append(op.Ns, q.column())
	}
	return op
}

// embed picks something a builder may embed as a whole.
func (q *qbGen) embed() int {
	r := q.g.r
	if len(q.qbs) > 0 && r.p(35) {
		return pick(r, q.qbs)
	}
	var l []int
	for _, id := range q.pool {
		switch q.g.p.Nodes[id].K {
		case NFrag, NCB, NNilFrag:
			l = append(l, id)
		}
	}
	if len(l) == 0 || r.p(40) {
		n := &Node{K: NFrag, P: []*Piece{{K: PText, S: pick(r, []string{"SELECT 1", "SELECT a FROM b", "", "VALUES (1)"})}}}
		if r.p(30) {
			n.Args = q.g.vals(1)
			n.P = append(n.P, &Piece{K: PText, S: " + "}, &Piece{K: PBind, N: 1, Form: r.n(2)})
		}
		return q.g.id(n)
	}
	return pick(r, l)
}

func (q *qbGen) step(kinds []string) *QOp {
	r := q.g.r
	op := &QOp{K: pick(r, kinds)}
	switch op.K {
	case "distinct", "debug":
	case "from":
		return q.from()
	case "join":
		return q.join()
	case "select":
		return q.sel()
	case "where":
		switch {
		case r.p(5) && len(q.frags) > 0:
			op.Ns = []int{pick(r, q.frags)}
		case r.p(4):
			op.Ns = []int{}
		default:
			op.Ns = []int{q.frag(nil)}
		}
	case "where2":
		op.Ns = []int{q.column()}
		op.S = pick(r, []string{"=", " >= ", "<>", " LIKE "})
		op.Vals = q.g.vals(1)
	case "in", "notin":
		op.Ns = []int{q.column()}
		op.Vals = q.g.vals(q.g.size(0, 4, 8, 200))
		if r.p(50) {
			var ints []int
			for i, v := range q.g.p.Vals {
				if v.K == "int" {
					ints = append(ints, i)
				}
			}
			if len(ints) > 0 {
				op.N = 1
				op.Ptr = r.p(30)
				for i := range op.Vals {
					op.Vals[i] = pick(r, ints)
				}
			}
		}
	case "group":
		if r.p(4) {
			break
		}
		for i := q.g.size(1, 1+r.n(3)*r.n(3), 6, 30); i > 0; i-- {
			op.Ns = append(op.Ns, q.column())
		}
	case "order":
		op.Ns = []int{q.column()}
		op.N = int64(r.n(6))
		if r.p(2) {
			op.N = int64(pick(r, []int{6, 9, 100}))
		}
	case "limit", "offset":
		op.N = int64(r.in(-1, 20))
		if r.p(10) {
			op.N = pick(r, []int64{99, 100, 1000, 65536, 1 << 31, 1<<32 + 1, 1<<63 - 1, -1 << 63, -100})
		}
	case "union":
		for i := r.in(1, 2); i > 0; i-- {
			op.Ns = append(op.Ns, q.embed())
		}
	case "with":
		name := pick(r, []string{"cte0", "cte1", "cte2", "cte3", "cte4"})
		if q.used[name] {
			return nil
		}
		q.used[name] = true
		op.Name = name
		op.Ns = []int{q.embed()}
		for i := r.n(3); i > 0; i-- {
			op.Deps = append(op.Deps, pick(r, []string{"cte0", "cte1", "cte2", "cte3", "cte4", "orders", "nosuch"}))
		}
	}
	return op
}

// history makes a later configuration step.
func (q *qbGen) history() *QOp {
	r := q.g.r
	// no calls: a function may embed the builder
	save := q.g.phaseB
	q.g.phaseB = false
	defer func() { q.g.phaseB = save }()
	if r.p(1) {
		return q.noName()
	}
	var op *QOp
	for op == nil {
		op = q.step([]string{"from", "join", "join", "join", "select", "select", "where", "where", "where2", "in", "notin", "group", "order", "order", "limit", "offset", "union", "with", "distinct"})
	}
	return op
}
