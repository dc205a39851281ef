package world

import (
	"errors"
	"fmt"
	"reflect"
	"strings"

	sqlf "github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/sqlb"
	"github.com/qjebbs/go-sqlf/v2/syntax"

	"verif.local/sim/simrt"
)

var errInvalidIndex = sqlf.ErrInvalidIndex

// World is the real objects of a plan.
type World struct {
	p      *Plan
	vals   []any
	nodes  map[int]sqlf.FragmentBuilder
	asl    [][]any
	fsl    [][]sqlf.FragmentBuilder
	propsA []sqlf.Properties
	propsF []sqlf.Properties
	funcs  []sqlf.FuncMap
	causes map[*Fault]error
	// slices that were passed to query builders, kept only while one task runs
	lends bool
	lent  []lent
	// clients overwrite the slices that they passed to query builders
	scratch bool
}

// lent is a slice of a caller that a query builder was configured with.
type lent struct {
	what      string
	now, then any // []T, up to its capacity
}

// lend passes a slice with spare capacity that is checked, or overwritten, later.
func lend[T comparable](w *World, what string, sl []T, spare T, pass func([]T)) {
	if w.scratch {
		pass(sl)
		for i := range sl {
			sl[i] = spare
		}
		return
	}
	if !w.lends {
		pass(sl)
		return
	}
	n := len(sl)
	out := append(make([]T, 0, n+2), sl...)
	full := append(out, spare, spare)
	w.lent = append(w.lent, lent{what, full, append([]T{}, full...)})
	pass(out)
}

func sameSlice[T comparable](a, b []T) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

var spareColumn = sqlb.ExprColumn(sqlf.F("what a client keeps in its slice was built"))

// realm resolves nodes: the shared ones and those of an operation.
type realm struct {
	w     *World
	local map[int]sqlf.FragmentBuilder
}

func (r *realm) node(id int) sqlf.FragmentBuilder {
	if id >= LocalBase {
		return r.local[id]
	}
	return r.w.nodes[id]
}

type spareVal struct{ n int }

// spareFrag is what the spare capacity of a caller's slice holds.
type spareFrag struct{ n int }

func (s *spareFrag) BuildFragment(*sqlf.Context) (string, error) {
	return "", errors.New("what a client keeps in its slice was built")
}

// NewWorld makes the real objects.
func NewWorld(p *Plan) *World {
	w := &World{p: p, nodes: map[int]sqlf.FragmentBuilder{}, causes: map[*Fault]error{}, lends: true}
	w.scratch = p.Seed%3 == 1
	defer func() { w.lends = len(p.Tasks) == 1 }()
	for i, f := range p.Faults {
		w.causes[f] = &simErr{i}
	}
	for i, v := range p.Vals {
		w.vals = append(w.vals, makeVal(i, v))
	}
	for i, s := range p.ASlices {
		sl := make([]any, 0, len(s.Vals)+s.Spare)
		for _, v := range s.Vals {
			sl = append(sl, w.vals[v])
		}
		for j := 0; j < s.Spare; j++ {
			sl[:cap(sl)][len(sl)+j] = &spareVal{i*100 + j}
		}
		w.asl = append(w.asl, sl)
	}
	r := &realm{w: w}
	// slices of fragments are filled as their nodes come into being
	for i, s := range p.FSlices {
		sl := make([]sqlf.FragmentBuilder, len(s.Nodes), len(s.Nodes)+s.Spare)
		for j := 0; j < s.Spare; j++ {
			sl[:cap(sl)][len(sl)+j] = &spareFrag{i*100 + j}
		}
		w.fsl = append(w.fsl, sl)
	}
	// functions and properties refer to nodes by number, at call time
	for i := range p.Funcs {
		w.funcs = append(w.funcs, w.makeFuncs(i))
	}
	for i, n := range p.Nodes {
		w.nodes[i] = w.makeNode(r, i, n)
		for j, s := range p.FSlices {
			for k, id := range s.Nodes {
				if id == i {
					w.fsl[j][k] = w.nodes[i]
				}
			}
		}
	}
	for _, vs := range p.PropsA {
		w.propsA = append(w.propsA, sqlf.NewArgsProperties(w.values(vs)...))
	}
	for _, ns := range p.PropsF {
		w.propsF = append(w.propsF, sqlf.NewFragmentProperties(r.builders(ns)...))
	}
	return w
}

func (w *World) values(vs []int) []any {
	out := make([]any, 0, len(vs))
	for _, v := range vs {
		out = append(out, w.vals[v])
	}
	return out
}

func (r *realm) builders(ns []int) []sqlf.FragmentBuilder {
	out := make([]sqlf.FragmentBuilder, 0, len(ns))
	for _, n := range ns {
		out = append(out, r.node(n))
	}
	return out
}

func (w *World) makeNode(r *realm, id int, n *Node) sqlf.FragmentBuilder {
	switch n.K {
	case NNilFrag:
		return (*sqlf.Fragment)(nil)
	case NNilQB:
		return (*sqlb.QueryBuilder)(nil)
	case NNilIf:
		return nil
	case NNilCol:
		return (*sqlb.Column)(nil)
	case NTable:
		return sqlb.Table(n.Name)
	case NAliased:
		return sqlb.NewTableAliased(sqlb.Table(n.Name), sqlb.Table(n.Alias))
	case NCol:
		if n.Lit {
			return sqlb.Table(n.applied()).Columns("x", n.Col)[1]
		}
		t := sqlb.NewTableAliased(sqlb.Table(n.Name), "wrong").WithAlias(sqlb.Table(n.Alias))
		if id%3 == 0 {
			return t.Columns(n.Col, "y")[0]
		}
		return t.Column(n.Col)
	case NAnon:
		if t := sqlb.NewTableAliased(sqlb.Table(n.Name), sqlb.Table(n.Alias)); id%2 == 0 {
			return t.AnonymousColumns("x", n.Col)[1]
		} else {
			return t.AnonymousColumn(n.Col)
		}
	case NExpr:
		f, _ := r.node(n.Child).(*sqlf.Fragment)
		if id%2 == 0 {
			return sqlb.ExprColumns(f)[0]
		}
		return sqlb.ExprColumn(f)
	case NCB:
		return &customBuilder{r: r, n: n, key: "N" + itoa(id)}
	case NQB:
		b := sqlb.NewQueryBuilder()
		for _, c := range n.Cfg {
			configure(r, b, c)
		}
		return b
	case NFrag:
		return makeFrag(r, n)
	}
	panic("unknown node kind " + n.K)
}

func makeFrag(r *realm, n *Node) *sqlf.Fragment {
	w := r.w
	raw := render(n.P)
	args := w.values(n.Args)
	frs := r.builders(n.Frs)
	if n.ASl > 0 {
		args = w.asl[n.ASl-1]
	}
	if n.FSl > 0 {
		frs = w.fsl[n.FSl-1]
	}
	var f *sqlf.Fragment
	switch {
	case n.Lit && n.ASl == 0 && n.FSl == 0:
		f = &sqlf.Fragment{Raw: raw, Prefix: n.Pre, Suffix: n.Suf}
		if len(args) > 0 {
			f.Args = args
		}
		if len(frs) > 0 {
			f.Fragments = frs
		}
	case len(frs) == 0 && len(args) > 0:
		f = sqlf.Fa(raw, args...)
	case len(frs) > 0 && len(args) == 0:
		f = sqlf.Ff(raw, frs...)
	case len(frs) > 0:
		f = sqlf.Ff(raw, frs...).WithArgs(args...)
	default:
		f = sqlf.F(raw)
		if n.Form()%2 == 0 {
			f = f.WithArgs(args...).WithFragments(frs...)
		}
	}
	if len(n.AppA) > 0 {
		f.AppendArgs(w.values(n.AppA)...)
	}
	if len(n.AppF) > 0 {
		f.AppendFragments(r.builders(n.AppF)...)
	}
	if n.Pre != "" {
		f.WithPrefix(n.Pre)
	}
	if n.Suf != "" {
		f.WithSuffix(n.Suf)
	}
	return f
}

// Form varies how equal things are composed.
func (n *Node) Form() int { return len(n.P) + len(n.Pre) }

func tableOf(c *QOp) sqlb.TableAliased {
	return sqlb.NewTableAliased(sqlb.Table(c.Name), sqlb.Table(c.Alias))
}

func columns(r *realm, ns []int) []*sqlb.Column {
	out := make([]*sqlb.Column, 0, len(ns))
	for _, n := range ns {
		c, _ := r.node(n).(*sqlb.Column)
		out = append(out, c)
	}
	return out
}

func configure(r *realm, b *sqlb.QueryBuilder, c *QOp) {
	frag := func() *sqlf.Fragment {
		if len(c.Ns) == 0 {
			return nil
		}
		f, _ := r.node(c.Ns[0]).(*sqlf.Fragment)
		return f
	}
	switch c.K {
	case "distinct":
		b.Distinct()
	case "debug":
		b.Debug()
	case "select":
		lend(r.w, "the selected columns", columns(r, c.Ns), spareColumn, func(s []*sqlb.Column) { b.Select(s...) })
	case "from":
		b.From(tableOf(c))
	case "inner":
		b.InnerJoin(tableOf(c), frag())
	case "left":
		b.LeftJoin(tableOf(c), frag())
	case "leftopt":
		b.LeftJoinOptional(tableOf(c), frag())
	case "right":
		b.RightJoin(tableOf(c), frag())
	case "full":
		b.FullJoin(tableOf(c), frag())
	case "cross":
		b.CrossJoin(tableOf(c))
	case "where":
		b.Where(frag())
	case "where2":
		b.Where2(columns(r, c.Ns)[0], c.S, r.w.vals[c.Vals[0]])
	case "in", "notin":
		anys := r.w.values(c.Vals)
		var list any = anys
		var ints []int
		if c.N == 1 {
			ints = make([]int, 0, len(c.Vals))
			for _, v := range c.Vals {
				ints = append(ints, r.w.vals[v].(int))
			}
			list = ints
			if c.Ptr {
				list = &ints
			}
		}
		if c.N == 2 {
			list = r.w.vals[c.Vals[0]]
		}
		if c.K == "in" {
			b.WhereIn(columns(r, c.Ns)[0], list)
		} else {
			b.WhereNotIn(columns(r, c.Ns)[0], list)
		}
		if r.w.scratch {
			for i := range anys {
				anys[i] = reused{}
			}
			for i := range ints {
				ints[i] = -777
			}
			ints = nil // seen through the pointer
		}
	case "group":
		lend(r.w, "the grouping columns", columns(r, c.Ns), spareColumn, func(s []*sqlb.Column) { b.GroupBy(s...) })
	case "order":
		b.OrderBy(columns(r, c.Ns)[0], sqlb.Order(c.N))
	case "limit":
		b.Limit(c.N)
	case "offset":
		b.Offset(c.N)
	case "union":
		lend(r.w, "the united queries", r.builders(c.Ns), sqlf.FragmentBuilder(&spareFrag{0}), func(s []sqlf.FragmentBuilder) { b.Union(s...) })
	case "with":
		deps := make([]sqlb.Table, 0, len(c.Deps))
		for _, d := range c.Deps {
			deps = append(deps, sqlb.Table(d))
		}
		lend(r.w, "the CTE's dependencies", deps, "spare", func(s []sqlb.Table) { b.With(sqlb.Table(c.Name), r.node(c.Ns[0]), s...) })
	default:
		panic("unknown configuration " + c.K)
	}
}

// customBuilder is a FragmentBuilder of the user.
type customBuilder struct {
	r   *realm
	n   *Node
	key string
}

func (b *customBuilder) BuildFragment(ctx *sqlf.Context) (string, error) {
	simrt.Point()
	if f := fire(b.key); f != nil {
		switch f.Kind {
		case "perr", "pstr", "pnil", "pidx":
			panicAs(f)
		case "texterr":
			return "partial text", f.err()
		}
		return "", f.err()
	}
	n := b.n
	switch n.Mode {
	case "text":
		return n.Text, nil
	case "commit":
		s := n.Text
		for i, v := range n.Vals {
			if i > 0 {
				s += ","
			}
			s += ctx.CommitArg(b.r.w.vals[v])
			simrt.Point()
		}
		return s, nil
	case "wrap":
		s, err := b.child(ctx)
		if err != nil {
			return "", err
		}
		return "(" + s + ")", nil
	case "twice":
		s, err := b.child(ctx)
		if err != nil {
			return "", err
		}
		s2, err := b.child(ctx)
		if err != nil {
			return "", err
		}
		return s + n.Text + s2, nil
	case "derive":
		c, err := b.r.w.register(ctx, n.FS, n.FS%2 == 1)
		if err != nil {
			return "", err
		}
		return b.child(c)
	case "swallow":
		s, err := b.child(ctx)
		if err != nil {
			failedBuild()
			return n.Text, nil
		}
		return s, nil
	case "indep":
		c := sqlf.NewContext(syntax.Question)
		s, err := b.child(c)
		if err != nil {
			return "", err
		}
		return s, nil
	}
	panic("unknown mode " + n.Mode)
}

func (b *customBuilder) child(ctx *sqlf.Context) (string, error) {
	simrt.Point()
	s, err := b.r.node(b.n.Child).BuildFragment(ctx)
	simrt.Point()
	return s, err
}

// register derives a context that has the functions of a set. The map is shared with other
// clients, or the client's own, who goes on to use it for something else.
func (w *World) register(ctx *sqlf.Context, fs int, own bool) (*sqlf.Context, error) {
	fns := w.funcs[fs]
	if !own {
		return sqlf.ContextWithFuncs(ctx, fns)
	}
	mine := sqlf.FuncMap{}
	for k, v := range fns {
		mine[k] = v
	}
	c, err := sqlf.ContextWithFuncs(ctx, mine)
	for k := range mine {
		mine[k] = wrongFunc
	}
	for _, k := range []string{"f", "arg", "join", "fragment", "upper"} {
		mine[k] = wrongFunc
	}
	return c, err
}

func wrongFunc(...int) (string, error) { return "WRONG", nil }

// makeFuncs makes the function map of a set.
func (w *World) makeFuncs(fs int) sqlf.FuncMap {
	m := sqlf.FuncMap{}
	for _, s := range w.p.Funcs[fs].Fns {
		m[s.Name] = w.makeFunc("F"+itoa(fs)+"."+s.Name, s)
	}
	return m
}

func (w *World) makeFunc(key string, s *FuncSpec) any {
	r := &realm{w: w}
	hit := func() (string, error) {
		simrt.Point()
		if f := fire(key); f != nil {
			switch f.Kind {
			case "perr", "pstr", "pnil", "pidx":
				panicAs(f)
			case "texterr":
				return "partial text", f.err()
			}
			return "", f.err()
		}
		return "", nil
	}
	list := func(n int, get func(ctx *sqlf.Context, i int) (string, error)) func(ctx *sqlf.Context, i int) (string, error) {
		return func(ctx *sqlf.Context, i int) (string, error) {
			if i < 1 || i > n {
				return "", fmt.Errorf("list of %d: %w", n, sqlf.ErrInvalidIndex)
			}
			if s, err := hit(); err != nil {
				return s, err
			}
			return get(ctx, i)
		}
	}
	switch s.K {
	case "nodes":
		return list(len(s.Ns), func(ctx *sqlf.Context, i int) (string, error) {
			return r.node(s.Ns[i-1]).BuildFragment(ctx)
		})
	case "argp":
		return func(ctx *sqlf.Context, i int) (string, error) {
			if i >= 1 && i <= len(w.propsA[s.N]) {
				if s, err := hit(); err != nil {
					return s, err
				}
			}
			return w.propsA[s.N].Build(ctx, i)
		}
	case "fragp":
		return func(ctx *sqlf.Context, i int) (string, error) {
			if i >= 1 && i <= len(w.propsF[s.N]) {
				if s, err := hit(); err != nil {
					return s, err
				}
			}
			return w.propsF[s.N].Build(ctx, i)
		}
	case "commit":
		return list(len(s.Vals), func(ctx *sqlf.Context, i int) (string, error) {
			return s.Text + ctx.CommitArg(w.vals[s.Vals[i-1]]), nil
		})
	case "early":
		// commits before it finds that the index is invalid
		return func(ctx *sqlf.Context, i int) (string, error) {
			n := len(s.Vals)
			t := s.Text + ctx.CommitArg(w.vals[s.Vals[((i-1)%n+n)%n]])
			if i < 1 || i > n {
				return t, fmt.Errorf("list of %d: %w", n, sqlf.ErrInvalidIndex)
			}
			if s, err := hit(); err != nil {
				return s, err
			}
			return t, nil
		}
	case "text", "inf", "bad":
		n := s.N
		if s.K == "inf" {
			n = 1 << 30
		}
		get := func(i int) (string, error) {
			if s.K != "bad" && (i < 1 || i > n) {
				return "", sqlf.ErrInvalidIndex
			}
			if !(s.K == "bad" && i == 0) {
				if s, err := hit(); err != nil {
					return s, err
				}
			}
			return fmt.Sprintf("%s%d", s.Text, i), nil
		}
		if f := numFn(s.T, get); f != nil {
			return f
		}
		return get
	case "num1":
		return func(i int) string {
			if i != 0 {
				if _, err := hit(); err != nil {
					panic(err)
				}
			}
			return fmt.Sprintf("%s%d", s.Text, i)
		}
	case "badend":
		return func(i int) (string, error) {
			if i < 1 || i > s.N {
				return "", errors.New("no such item")
			}
			if s, err := hit(); err != nil {
				return s, err
			}
			return fmt.Sprintf("%s%d", s.Text, i), nil
		}
	case "varn":
		get := func(is []int) (string, error) {
			for _, i := range is {
				if i < 1 || i > s.N {
					return "", fmt.Errorf("%w: %d", sqlf.ErrInvalidIndex, i)
				}
			}
			if s, err := hit(); err != nil {
				return s, err
			}
			return fmt.Sprintf("%s%d", s.Text, len(is)), nil
		}
		if s.T == "noctx" {
			return func(is ...int) (string, error) { return get(is) }
		}
		return func(_ *sqlf.Context, is ...int) (string, error) { return get(is) }
	case "str":
		get := func(a string) (string, error) {
			if s, err := hit(); err != nil {
				return s, err
			}
			return "<" + a + ">", nil
		}
		if s.T == "named" {
			return func(a namedStr) (string, error) { return get(string(a)) }
		}
		return get
	case "multi":
		get := func(a string, b bool, n any) (string, error) {
			if s, err := hit(); err != nil {
				return s, err
			}
			return fmt.Sprintf("{%s %t %v}", a, b, n), nil
		}
		if s.T == "named" {
			return func(a namedStr, b namedBool, n namedInt) (string, error) { return get(string(a), bool(b), n) }
		}
		if f := multiFn(s.T, get); f != nil {
			return f
		}
		return func(a string, b bool, n int) (string, error) { return get(a, b, n) }
	case "void":
		return func() {
			if _, err := hit(); err != nil {
				panic(err)
			}
		}
	case "vari":
		if s.T == "named" {
			return func(parts ...namedStr) (string, error) {
				if s, err := hit(); err != nil {
					return s, err
				}
				ss := make([]string, len(parts))
				for i, p := range parts {
					ss[i] = string(p)
				}
				return "[" + strings.Join(ss, "|") + "]", nil
			}
		}
		return func(parts ...string) (string, error) {
			if s, err := hit(); err != nil {
				return s, err
			}
			return "[" + strings.Join(parts, "|") + "]", nil
		}
	case "varnum":
		get := func(ns any) (string, error) {
			str := fmt.Sprint(ns)
			if str != "[0]" { // how #join finds that it is not a list function
				if s, err := hit(); err != nil {
					return s, err
				}
			}
			return str, nil
		}
		if f := varFn(s.T, get); f != nil {
			return f
		}
		return func(ns ...int) (string, error) { return get(ns) }
	case "varmix":
		return func(_ *sqlf.Context, a string, n float64, bs ...bool) (string, error) {
			if s, err := hit(); err != nil {
				return s, err
			}
			return fmt.Sprintf("%s/%v%v", a, n, bs), nil
		}
	case "ctxonly":
		return func(*sqlf.Context) (string, error) {
			if s, err := hit(); err != nil {
				return s, err
			}
			return s.Text, nil
		}
	case "ret1":
		return func() string {
			if _, err := hit(); err != nil {
				panic(err)
			}
			return s.Text
		}
	case "joinlike":
		return func(tmpl, sep string, idx ...int) (string, error) {
			if s, err := hit(); err != nil {
				return s, err
			}
			return fmt.Sprintf("J[%s|%s|%d]", tmpl, sep, len(idx)), nil
		}
	case "derive":
		return func(ctx *sqlf.Context) (string, error) {
			if s, err := hit(); err != nil {
				return s, err
			}
			c, err := w.register(ctx, s.FS, s.FS%2 == 0)
			if err != nil {
				return "", err
			}
			return r.node(s.Ns[0]).BuildFragment(c)
		}
	case "build":
		return func(ctx *sqlf.Context) (string, error) {
			if s, err := hit(); err != nil {
				return s, err
			}
			return r.node(s.Ns[0]).BuildFragment(ctx)
		}
	case "invalid_notfunc":
		return 42
	case "invalid_nil":
		return nil
	case "invalid_arg":
		return func([]int) string { return "" }
	case "invalid_out":
		return func() int { return 0 }
	case "invalid_out2":
		return func() (string, string) { return "", "" }
	case "invalid_out3":
		return func() (string, error, error) { return "", nil, nil }
	case "invalid_ctx":
		return func(int, *sqlf.Context) string { return "" }
	case "invalid_var":
		return func(...any) string { return "" }
	case "invalid_out4":
		return func() namedStr { return "" }
	case "invalid_out5":
		return func() (string, *simErr) { return "", nil }
	case "invalid_varctx":
		return func(...*sqlf.Context) string { return "" }
	case "invalid_ptr":
		return func(*sqlf.Context, *string) string { return "" }
	case "invalid_out6":
		return func() (int, error) { return 0, nil }
	case "invalid_out7":
		return func() ([]byte, error) { return nil, nil }
	case "invalid_any":
		return func(any) (string, error) { return "", nil }
	case "invalid_uptr":
		return func(uintptr) (string, error) { return "", nil }
	case "invalid_cplx":
		return func(complex128) (string, error) { return "", nil }
	}
	panic("unknown function kind " + s.K)
}

type (
	namedStr  string
	namedBool bool
	namedInt  int16
)

// checkParts reports a part or slice of the callers that is not as the model has it.
func (w *World) checkParts(m *Model) string {
	for i, s := range w.p.ASlices {
		sl := w.asl[i]
		for j, v := range s.Vals {
			if !sameVal(sl[j], w.vals[v]) {
				return fmt.Sprintf("element %d of argument slice %d of a caller changed to %s", j, i, show(sl[j]))
			}
		}
		for j, v := range sl[len(s.Vals):cap(sl)] {
			if sv, ok := v.(*spareVal); !ok || sv.n != i*100+j {
				return fmt.Sprintf("spare capacity of argument slice %d of a caller was written: %s", i, show(v))
			}
		}
	}
	for i, s := range w.p.FSlices {
		sl := w.fsl[i]
		for j, n := range s.Nodes {
			if !sameBuilder(sl[j], w.nodes[n]) {
				return fmt.Sprintf("element %d of fragment slice %d of a caller changed", j, i)
			}
		}
		for j, v := range sl[len(s.Nodes):cap(sl)] {
			if sv, ok := v.(*spareFrag); !ok || sv.n != i*100+j {
				return fmt.Sprintf("spare capacity of fragment slice %d of a caller was written: %v", i, v)
			}
		}
	}
	for _, l := range w.lent {
		same := true
		switch now := l.now.(type) {
		case []*sqlb.Column:
			same = sameSlice(now, l.then.([]*sqlb.Column))
		case []sqlf.FragmentBuilder:
			same = sameSlice(now, l.then.([]sqlf.FragmentBuilder))
		case []sqlb.Table:
			same = sameSlice(now, l.then.([]sqlb.Table))
		}
		if !same {
			return "the slice a caller passed for " + l.what + " changed"
		}
	}
	for id := range w.p.Nodes {
		n := w.nodes[id]
		f, ok := n.(*sqlf.Fragment)
		if !ok || f == nil {
			continue
		}
		mn := m.nodes[id]
		if f.Raw != render(mn.P) || f.Prefix != mn.pre || f.Suffix != mn.suf {
			return fmt.Sprintf("fragment N%d changed: raw %q prefix %q suffix %q", id, f.Raw, f.Prefix, f.Suffix)
		}
		if len(f.Args) != len(mn.args) || len(f.Fragments) != len(mn.frs) {
			return fmt.Sprintf("fragment N%d changed: %d args, %d fragments, want %d, %d", id, len(f.Args), len(f.Fragments), len(mn.args), len(mn.frs))
		}
		for i, v := range mn.args {
			if !sameVal(f.Args[i], w.vals[v]) {
				return fmt.Sprintf("arg %d of fragment N%d changed to %s", i+1, id, show(f.Args[i]))
			}
		}
		for i, c := range mn.frs {
			if !sameBuilder(f.Fragments[i], w.nodes[c]) {
				return fmt.Sprintf("fragment %d of fragment N%d changed", i+1, id)
			}
		}
	}
	return ""
}

func sameBuilder(a, b sqlf.FragmentBuilder) bool {
	ta, tb := reflect.TypeOf(a), reflect.TypeOf(b)
	if ta != tb {
		return false
	}
	return a == b
}

type number interface {
	int8 | int16 | int32 | int64 | uint | uint8 | uint16 | uint32 | uint64 | float32 | float64
}

// numTypes are the types of numbers a function can take, but for int.
var numTypes = []string{"int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64"}

func num[T number](get func(int) (string, error)) any {
	if T(1)/2 != 0 {
		return func(_ *sqlf.Context, i T) (string, error) { return get(int(i)) }
	}
	return func(i T) (string, error) { return get(int(i)) }
}

// numFn is a function of one number of type t.
func numFn(t string, get func(int) (string, error)) any {
	switch t {
	case "int8":
		return num[int8](get)
	case "int16":
		return num[int16](get)
	case "int32":
		return num[int32](get)
	case "int64":
		return num[int64](get)
	case "uint":
		return num[uint](get)
	case "uint8":
		return num[uint8](get)
	case "uint16":
		return num[uint16](get)
	case "uint32":
		return num[uint32](get)
	case "uint64":
		return num[uint64](get)
	case "float32":
		return num[float32](get)
	case "float64":
		return num[float64](get)
	}
	return nil
}

func multi[T number](get func(string, bool, any) (string, error)) any {
	return func(a string, b bool, n T) (string, error) { return get(a, b, n) }
}

// multiFn is a function of a string, a bool and a number of type t.
func multiFn(t string, get func(string, bool, any) (string, error)) any {
	switch t {
	case "int8":
		return multi[int8](get)
	case "int16":
		return multi[int16](get)
	case "int32":
		return multi[int32](get)
	case "int64":
		return multi[int64](get)
	case "uint":
		return multi[uint](get)
	case "uint8":
		return multi[uint8](get)
	case "uint16":
		return multi[uint16](get)
	case "uint32":
		return multi[uint32](get)
	case "uint64":
		return multi[uint64](get)
	case "float32":
		return multi[float32](get)
	case "float64":
		return multi[float64](get)
	}
	return nil
}

func vari[T number](get func(any) (string, error)) any {
	if T(1)/2 != 0 {
		return func(_ *sqlf.Context, ns ...T) (string, error) { return get(ns) }
	}
	return func(ns ...T) (string, error) { return get(ns) }
}

// varFn is a function of any number of numbers of type t.
func varFn(t string, get func(any) (string, error)) any {
	switch t {
	case "int8":
		return vari[int8](get)
	case "int16":
		return vari[int16](get)
	case "int32":
		return vari[int32](get)
	case "int64":
		return vari[int64](get)
	case "uint":
		return vari[uint](get)
	case "uint8":
		return vari[uint8](get)
	case "uint16":
		return vari[uint16](get)
	case "uint32":
		return vari[uint32](get)
	case "uint64":
		return vari[uint64](get)
	case "float32":
		return vari[float32](get)
	case "float64":
		return vari[float64](get)
	}
	return nil
}
