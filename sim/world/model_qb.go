package world

import "fmt"

// mQB is the reference model of a query builder: the configuration so far.
type mQB struct {
	ctes     []*mCTE
	main     *mTable
	joins    []*mTable
	selects  []int
	conds    []*mCond
	groups   []int
	orders   []mOrder
	distinct bool
	limit    int64
	offset   int64
	unions   []int
	bad      bool
	debug    bool
}

type mCTE struct {
	name string
	node int
	deps []string
}

type mTable struct {
	name, alias string
	join        string
	on          int // -1: none
	optional    bool
}

type mCond struct {
	node int // -1: a comparison
	col  int
	op   string // operator, "IN" or "NOT IN"
	vals []int
}

type mOrder struct {
	col   int
	order int64
}

var orderNames = []string{"ASC", "ASC NULLS FIRST", "ASC NULLS LAST", "DESC", "DESC NULLS FIRST", "DESC NULLS LAST"}

func newMQB() *mQB { return &mQB{} }

func (t *mTable) applied() string {
	if t.alias != "" {
		return t.alias
	}
	return t.name
}

func (t *mTable) decl() string {
	if t.alias != "" {
		return t.name + " AS " + t.alias
	}
	return t.name
}

func (b *mQB) table(applied string) *mTable {
	for _, j := range b.joins {
		if j.applied() == applied {
			return j
		}
	}
	if b.main != nil && b.main.applied() == applied {
		return b.main
	}
	return nil
}

func (b *mQB) cte(name string) *mCTE {
	for _, c := range b.ctes {
		if c.name == name {
			return c
		}
	}
	return nil
}

// config applies a configuration step.
func (b *mQB) config(m *Model, c *QOp) {
	switch c.K {
	case "distinct":
		b.distinct = true
	case "debug":
		b.debug = true
	case "select":
		if len(c.Ns) > 0 {
			b.selects = append([]int{}, c.Ns...)
		}
	case "from":
		if c.Name == "" {
			b.bad = true
			return
		}
		b.main = &mTable{name: c.Name, alias: c.Alias, on: -1}
	case "inner", "left", "leftopt", "right", "full", "cross":
		if c.Name == "" {
			b.bad = true
			return
		}
		t := &mTable{name: c.Name, alias: c.Alias, on: -1}
		t.join = map[string]string{"inner": "INNER JOIN", "left": "LEFT JOIN", "leftopt": "LEFT JOIN",
			"right": "RIGHT JOIN", "full": "FULL JOIN", "cross": "CROSS JOIN"}[c.K]
		t.optional = c.K == "leftopt"
		if c.K != "cross" && len(c.Ns) > 0 {
			t.on = c.Ns[0]
		}
		if old := b.table(t.applied()); old != nil {
			if old == b.main {
				// the query would have no main table
				b.bad = true
				return
			}
			*old = *t
			return
		}
		b.joins = append(b.joins, t)
	case "where":
		if len(c.Ns) > 0 {
			b.conds = append(b.conds, &mCond{node: c.Ns[0]})
		}
	case "where2":
		b.conds = append(b.conds, &mCond{node: -1, col: c.Ns[0], op: c.S, vals: c.Vals})
	case "in":
		b.conds = append(b.conds, &mCond{node: -1, col: c.Ns[0], op: "IN", vals: c.Vals})
	case "notin":
		b.conds = append(b.conds, &mCond{node: -1, col: c.Ns[0], op: "NOT IN", vals: c.Vals})
	case "group":
		b.groups = append(b.groups, c.Ns...)
	case "order":
		if c.N > 5 || c.N < 0 {
			b.bad = true
			return
		}
		b.orders = append(b.orders, mOrder{c.Ns[0], c.N})
	case "limit":
		if c.N > 0 {
			b.limit = c.N
		}
	case "offset":
		if c.N > 0 {
			b.offset = c.N
		}
	case "union":
		b.unions = append(b.unions, c.Ns...)
	case "with":
		b.ctes = append(b.ctes, &mCTE{c.Name, c.Ns[0], c.Deps})
	default:
		panic("unknown configuration " + c.K)
	}
}

// refs collects the tables that a part refers to.
func (m *Model) refs(id int, out map[string]bool) {
	n := m.node(id)
	switch n.K {
	case NFrag:
		for _, f := range n.frs {
			m.refs(f, out)
		}
	case NTable, NAliased:
		if n.applied() != "" || n.K == NTable {
			out[n.applied()] = true
		}
	case NCol, NAnon:
		if a := n.applied(); a != "" {
			out[a] = true
		}
	case NExpr:
		m.refs(n.Child, out)
	}
}

// build predicts the statement.
func (b *mQB) build(m *Model, c *mCtx) (toks, *mErr) {
	for _, cte := range b.ctes {
		m.work += int64(1 + len(cte.deps))
	}
	for _, j := range b.joins {
		m.work++
		if j.on >= 0 {
			m.work += int64(len(m.node(j.on).frs))
		}
	}
	if b.bad {
		return nil, merr("impossible configuration")
	}
	if b.main == nil {
		return nil, merr("no main table")
	}
	// what the query refers to
	refs := map[string]bool{}
	for _, s := range b.selects {
		m.refs(s, refs)
	}
	for _, w := range b.conds {
		if w.node >= 0 {
			m.refs(w.node, refs)
		} else {
			m.refs(w.col, refs)
		}
	}
	for _, g := range b.groups {
		m.refs(g, refs)
	}
	for _, o := range b.orders {
		m.refs(o.col, refs)
	}
	// what is kept: the closure over joins
	kept := map[*mTable]bool{b.main: true}
	var todo []string
	for r := range refs {
		todo = append(todo, r)
	}
	for _, j := range b.joins {
		if !b.distinct || !j.optional {
			kept[j] = true
		}
	}
	if b.distinct {
		for _, j := range b.joins {
			if !j.optional && j.on >= 0 {
				r := map[string]bool{}
				m.refs(j.on, r)
				for t := range r {
					todo = append(todo, t)
				}
			}
		}
		if b.main.on >= 0 {
			r := map[string]bool{}
			m.refs(b.main.on, r)
			for t := range r {
				todo = append(todo, t)
			}
		}
	}
	seen := map[string]bool{}
	for len(todo) > 0 {
		t := todo[0]
		todo = todo[1:]
		if seen[t] {
			continue
		}
		seen[t] = true
		tab := b.table(t)
		if tab == nil {
			return nil, merr("reference to a table that is not joined: " + t)
		}
		kept[tab] = true
		if tab.on >= 0 {
			r := map[string]bool{}
			m.refs(tab.on, r)
			for t := range r {
				todo = append(todo, t)
			}
		}
	}
	tables := []*mTable{b.main}
	for _, j := range b.joins {
		if kept[j] {
			tables = append(tables, j)
		}
	}
	need := map[string]bool{}
	var mark func(name string)
	mark = func(name string) {
		cte := b.cte(name)
		if cte == nil || need[name] {
			return
		}
		need[name] = true
		for _, d := range cte.deps {
			mark(d)
		}
	}
	for _, t := range tables {
		mark(t.name)
	}
	var out toks
	clause := func(t toks) {
		if t.empty() {
			return
		}
		if len(out) > 0 {
			out = append(out, Tok{S: " "})
		}
		out = append(out, t...)
	}
	// CTEs
	var with toks
	for _, cte := range b.ctes {
		if !need[cte.name] {
			continue
		}
		t, err := m.build(c, cte.node)
		if err != nil {
			return nil, err
		}
		if t.empty() {
			continue
		}
		if with == nil {
			with = toks{{S: "With "}}
		} else {
			with = append(with, Tok{S: ", "})
		}
		with = append(with, Tok{S: cte.name + " AS ("})
		with = append(append(with, t...), Tok{S: ")"})
	}
	clause(with)
	// select list
	sel, err := m.list(c, b.selects, ", ")
	if err != nil {
		return nil, err
	}
	if sel.empty() {
		return nil, merr("nothing selected")
	}
	head := "SELECT "
	if b.distinct {
		head = "SELECT DISTINCT "
	}
	sel = append(toks{{S: head}}, sel...)
	if b.distinct {
		for i, o := range b.orders {
			t, err := m.build(c, o.col)
			if err != nil {
				return nil, err.inFunc().hide()
			}
			// "#f1 AS alias" is never empty
			t = append(append(toks{}, t...), Tok{S: fmt.Sprintf(" AS _order_%d", i+1)})
			sel = append(append(sel, Tok{S: ", "}), t.trim()...)
		}
	}
	clause(sel)
	// FROM
	var from toks
	for i, t := range tables {
		if i > 0 {
			from = append(from, Tok{S: " "})
		}
		if t.join == "" {
			from = append(from, Tok{S: t.decl()})
			continue
		}
		from = append(from, Tok{S: t.join + " " + t.decl()})
		if t.on < 0 {
			continue
		}
		on, err := m.build(c, t.on)
		if err != nil {
			return nil, err.inFunc().hide()
		}
		on = on.trim()
		if !on.empty() {
			from = append(append(from, Tok{S: " ON "}), on...)
		}
	}
	clause(append(toks{{S: "FROM "}}, from...))
	// WHERE
	var where toks
	for _, w := range b.conds {
		var t toks
		var err *mErr
		if w.node >= 0 {
			t, err = m.build(c, w.node)
		} else {
			t, err = m.build(c, w.col)
		}
		if err != nil {
			return nil, err.inFunc().hide()
		}
		if w.node < 0 {
			switch w.op {
			case "IN", "NOT IN":
				t = append(append(toks{}, t...), Tok{S: " " + w.op + " ("})
				for i, v := range w.vals {
					if i > 0 {
						t = append(t, Tok{S: ", "})
					}
					t = append(t, Tok{Bind: true, Val: v})
				}
				t = append(t, Tok{S: ")"})
			default:
				t = append(append(toks{}, t...), Tok{S: w.op}, Tok{Bind: true, Val: w.vals[0]})
			}
			t = t.trim()
		}
		if t.empty() {
			continue
		}
		if where.empty() {
			where = toks{{S: "WHERE "}}
		} else {
			where = append(where, Tok{S: " AND "})
		}
		where = append(where, t...)
	}
	clause(where)
	// GROUP BY
	group, err := m.list(c, b.groups, ", ")
	if err != nil {
		return nil, err
	}
	if !group.empty() {
		clause(append(toks{{S: "GROUP BY "}}, group...))
	}
	// ORDER BY
	var order toks
	for i, o := range b.orders {
		var t toks
		if b.distinct {
			t = text(fmt.Sprintf("_order_%d", i+1))
		} else {
			if t, err = m.build(c, o.col); err != nil {
				return nil, err.inFunc().hide()
			}
		}
		if i > 0 {
			order = append(order, Tok{S: ", "})
		}
		order = append(order, append(append(toks{}, t...), Tok{S: " " + orderNames[o.order]}).trim()...)
	}
	if len(order) > 0 {
		clause(append(toks{{S: "ORDER BY "}}, order...))
	}
	if b.limit > 0 {
		clause(text(fmt.Sprintf("LIMIT %d", b.limit)))
	}
	if b.offset > 0 {
		clause(text(fmt.Sprintf("OFFSET %d", b.offset)))
	}
	var unions toks
	for _, u := range b.unions {
		t, err := m.build(c, u)
		if err != nil {
			return nil, err
		}
		if t.empty() {
			continue
		}
		if len(unions) > 0 {
			unions = append(unions, Tok{S: " "})
		}
		unions = append(append(append(unions, Tok{S: "UNION ("}), t...), Tok{S: ")"})
	}
	clause(unions)
	return out.trim(), nil
}

// list builds parts as a list, leaving out those that are empty.
func (m *Model) list(c *mCtx, ids []int, sep string) (toks, *mErr) {
	var out toks
	for _, id := range ids {
		t, err := m.build(c, id)
		if err != nil {
			return nil, err.inFunc().hide()
		}
		if t.empty() {
			continue
		}
		if !out.empty() {
			out = append(out, text(sep)...)
		}
		out = append(out, t...)
	}
	return out.trim(), nil
}
