package world

import (
	"strings"
)

// The reference model. It never looks at template text: it evaluates the structured
// pieces the text was rendered from, and yields tokens: text, or a bound value.

// Tok is a token of a statement.
type Tok struct {
	Bind bool
	Val  int
	S    string
}

type toks []Tok

func text(s string) toks {
	if s == "" {
		return nil
	}
	return toks{{S: s}}
}

func (t toks) empty() bool {
	for _, k := range t {
		if k.Bind || k.S != "" {
			return false
		}
	}
	return true
}

func (t toks) trim() toks {
	for len(t) > 0 && !t[0].Bind {
		s := strings.TrimSpace(t[0].S)
		if s != "" {
			first := t[0]
			first.S = strings.TrimLeft(first.S, wsp)
			t = append(toks{first}, t[1:]...)
			break
		}
		t = t[1:]
	}
	for len(t) > 0 && !t[len(t)-1].Bind {
		last := t[len(t)-1]
		last.S = strings.TrimRight(last.S, wsp)
		if last.S != "" {
			t = append(append(toks{}, t[:len(t)-1]...), last)
			break
		}
		t = t[:len(t)-1]
	}
	return t
}

const wsp = " \t\n\r\v\f"

// String shows tokens for messages.
func (t toks) String() string {
	b := new(strings.Builder)
	for _, k := range t {
		if k.Bind {
			b.WriteString("«" + itoa(k.Val) + "»")
		} else {
			b.WriteString(k.S)
		}
	}
	return b.String()
}

// mErr is a predicted failure.
type mErr struct {
	why   string
	fault *firedFault
	idx   bool // the end-of-list error of a list function, as #join sees it
	panic bool // may come as a panic: the part was not reached through a function
}

func (e *mErr) hide() *mErr {
	if e == nil {
		return nil
	}
	c := *e
	c.idx = false
	return &c
}

func (e *mErr) inFunc() *mErr {
	if e == nil {
		return nil
	}
	c := *e
	if c.panic {
		c.panic = false
		c.idx = false
	}
	return &c
}

func merr(why string) *mErr { return &mErr{why: why} }

// mNode is the model's copy of a part.
type mNode struct {
	*Node
	id   int
	key  string
	pre  string
	suf  string
	args []int
	frs  []int
	qb   *mQB
}

type mFrag struct {
	n    *mNode
	used []bool
	usef []bool
}

type mCtx struct {
	parent *mCtx
	fns    map[string]*mFunc
	frag   *mFrag
}

type mFunc struct {
	builtin string
	spec    *FuncSpec
	key     string
}

// Model is the model's state of the world.
type Model struct {
	p      *Plan
	nodes  map[int]*mNode
	local  map[int]*mNode
	o      *opState
	depth  int
	work   int64
	lost   bool  // not all of the operation was predicted
	limit  int64 // of work, 0: none
	failed bool  // a fragment of the operation failed
}

// NewModel returns the model of the plan's parts.
func NewModel(p *Plan) *Model {
	m := &Model{p: p, nodes: map[int]*mNode{}}
	for i, n := range p.Nodes {
		m.nodes[i] = m.newNode(i, n, "")
	}
	return m
}

func (m *Model) newNode(id int, n *Node, prefix string) *mNode {
	mn := &mNode{Node: n, id: id, key: prefix + "N" + itoa(id), pre: n.Pre, suf: n.Suf}
	mn.args = append(append([]int{}, n.Args...), n.AppA...)
	mn.frs = append(append([]int{}, n.Frs...), n.AppF...)
	if n.K == NQB {
		mn.qb = newMQB()
		for _, c := range n.Cfg {
			mn.qb.config(m, c)
		}
	}
	return mn
}

// setLocal declares the parts an operation composes.
func (m *Model) setLocal(op *Op) {
	m.local = map[int]*mNode{}
	for i, n := range op.Local {
		m.local[LocalBase+i] = m.newNode(LocalBase+i, n, "")
	}
}

func (m *Model) node(id int) *mNode {
	if id >= LocalBase {
		return m.local[id]
	}
	return m.nodes[id]
}

func rootCtx() *mCtx {
	return &mCtx{fns: map[string]*mFunc{
		"f": {builtin: "f"}, "fragment": {builtin: "f"}, "arg": {builtin: "arg"}, "join": {builtin: "join"},
	}}
}

// validSet reports whether a set of functions may be registered.
func (m *Model) validSet(fs int) bool {
	for _, f := range m.p.Funcs[fs].Fns {
		if strings.HasPrefix(f.K, "invalid") {
			return false
		}
		if !goodName(f.Name) {
			return false
		}
	}
	return true
}

func goodName(s string) bool {
	if s == "" {
		return false
	}
	for _, r := range s {
		if !(r == '_' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z') {
			return false
		}
	}
	return true
}

func (m *Model) derive(c *mCtx, fs int) *mCtx {
	fns := map[string]*mFunc{}
	for _, f := range m.p.Funcs[fs].Fns {
		fns[f.Name] = &mFunc{spec: f, key: "F" + itoa(fs) + "." + f.Name}
	}
	return &mCtx{parent: c, fns: fns}
}

func (c *mCtx) fn(name string) *mFunc {
	for ; c != nil; c = c.parent {
		if f, ok := c.fns[name]; ok {
			return f
		}
	}
	return nil
}

func (c *mCtx) fc() *mFrag {
	for ; c != nil; c = c.parent {
		if c.frag != nil {
			return c.frag
		}
	}
	return nil
}

// bound gives up on a workload that is too large.
func (m *Model) bound() {
	if m.limit > 0 && m.work > m.limit {
		panic(tooMuch{})
	}
}

// build predicts BuildFragment of a part.
func (m *Model) build(c *mCtx, id int) (toks, *mErr) {
	n := m.node(id)
	if n == nil {
		panic("no node " + itoa(id))
	}
	m.work++
	m.bound()
	switch n.K {
	case NNilFrag, NNilQB:
		return nil, nil
	case NNilIf, NNilCol:
		return nil, &mErr{why: "nil builder", panic: true}
	case NTable:
		return text(n.Name), nil
	case NAliased:
		if n.Alias != "" {
			return text(n.Alias), nil
		}
		return text(n.Name), nil
	case NCol:
		if n.Col == "" {
			return nil, nil
		}
		if a := n.applied(); a != "" {
			return text(a + "." + n.Col), nil
		}
		return text(n.Col), nil
	case NAnon:
		return text(n.Col), nil
	case NExpr:
		return m.build(c, n.Child)
	case NCB:
		return m.buildCB(c, n)
	case NQB:
		t, err := n.qb.build(m, c)
		if err != nil {
			m.failed = true
			err = err.inFunc().hide()
		}
		return t, err
	case NFrag:
		return m.buildFrag(c, n)
	}
	panic("unknown node kind " + n.K)
}

// buildQuery builds a part as a query: only there a panic in a custom builder may get through
// a query builder.
func (m *Model) buildQuery(n *mNode) (toks, *mErr) {
	if n.K == NQB {
		m.bound()
		return n.qb.build(m, rootCtx())
	}
	return m.build(rootCtx(), n.id)
}

func (n *Node) applied() string {
	if n.Alias != "" {
		return n.Alias
	}
	return n.Name
}

func (m *Model) faultErr(f *firedFault) *mErr {
	e := &mErr{why: "fault " + f.At + " " + f.Kind, fault: f}
	switch f.Kind {
	case "idx", "isidx":
		e.idx = true
	case "perr", "pstr", "pnil", "pidx":
		e.panic = true
	}
	return e
}

func (m *Model) buildCB(c *mCtx, n *mNode) (toks, *mErr) {
	if f := m.o.fire(n.key); f != nil {
		return nil, m.faultErr(f)
	}
	switch n.Mode {
	case "text":
		return text(n.Text), nil
	case "commit":
		var t toks
		t = append(t, text(n.Text)...)
		for i, v := range n.Vals {
			if i > 0 {
				t = append(t, Tok{S: ","})
			}
			t = append(t, Tok{Bind: true, Val: v})
		}
		return t, nil
	case "wrap":
		t, err := m.build(c, n.Child)
		if err != nil {
			return nil, err
		}
		return append(append(text("("), t...), Tok{S: ")"}), nil
	case "twice":
		a, err := m.build(c, n.Child)
		if err != nil {
			return nil, err
		}
		b, err := m.build(c, n.Child)
		if err != nil {
			return nil, err
		}
		return append(append(append(toks{}, a...), Tok{S: n.Text}), b...), nil
	case "derive":
		if !m.validSet(n.FS) {
			return nil, merr("invalid function set")
		}
		return m.build(m.derive(c, n.FS), n.Child)
	case "swallow":
		t, err := m.build(c, n.Child)
		if err != nil {
			if err.panic {
				return nil, err
			}
			m.o.off = true
			return text(n.Text), nil
		}
		return t, nil
	case "indep":
		t, err := m.build(rootCtx(), n.Child)
		if err != nil {
			return nil, err
		}
		for _, k := range t {
			if k.Bind {
				return nil, merr("indep with binds")
			}
		}
		return t, nil
	}
	panic("unknown mode " + n.Mode)
}

func (m *Model) buildFrag(c *mCtx, n *mNode) (toks, *mErr) {
	fr := &mFrag{n: n, used: make([]bool, len(n.args)), usef: make([]bool, len(n.frs))}
	fc := &mCtx{parent: c, frag: fr}
	if m.p.Prop == "C13" {
		m.work += int64(len(render(n.P)) + len(n.args) + len(n.frs))
	}
	body, err := m.evalPieces(fc, n.P)
	if err != nil {
		m.failed = true
		if err.panic {
			return nil, err
		}
		return nil, err.hide()
	}
	for i, u := range fr.used {
		if !u {
			return nil, merr("arg " + itoa(i+1) + " of " + n.key + " unused")
		}
	}
	for i, u := range fr.usef {
		if !u {
			return nil, merr("fragment " + itoa(i+1) + " of " + n.key + " unused")
		}
	}
	body = body.trim()
	if body.empty() {
		return nil, nil
	}
	var t toks
	if n.pre != "" {
		t = append(t, Tok{S: n.pre + " "})
	}
	t = append(t, body...)
	if n.suf != "" {
		t = append(t, Tok{S: " " + n.suf})
	}
	return t, nil
}

func (m *Model) evalPieces(c *mCtx, ps []*Piece) (toks, *mErr) {
	if hasBad(ps) && badSyntax(ps) {
		return nil, merr("syntax error")
	}
	if mixed(ps) {
		return nil, merr("mixed bindvar styles")
	}
	var out toks
	q := 0
	for _, p := range ps {
		t, err := m.evalPiece(c, p, &q)
		if err != nil {
			return nil, err
		}
		out = append(out, t...)
	}
	return out, nil
}

func mixed(ps []*Piece) bool {
	style := -1
	for _, p := range ps {
		if p.K == PBind {
			if style >= 0 && style != p.Form {
				return true
			}
			style = p.Form
		}
	}
	return false
}

// hasBad and badSyntax: pieces that do not parse fail the template before anything of it
// is evaluated.
func hasBad(ps []*Piece) bool {
	for _, p := range ps {
		if p.K == PBad {
			return true
		}
	}
	return false
}

func badSyntax(ps []*Piece) bool {
	for _, p := range ps {
		if p.K == PBad && p.Name == "syntax" {
			return true
		}
	}
	return false
}

func (m *Model) evalPiece(c *mCtx, p *Piece, q *int) (toks, *mErr) {
	switch p.K {
	case PText:
		return text(p.S), nil
	case PBind:
		i := p.N
		*q++
		if p.Form == 1 {
			i = *q
		}
		fc := c.fc()
		if fc == nil {
			return nil, merr("no fragment")
		}
		if i < 1 || i > len(fc.n.args) {
			return nil, merr("bind var out of range")
		}
		fc.used[i-1] = true
		return toks{{Bind: true, Val: fc.n.args[i-1]}}, nil
	case PFrag, PArg:
		name := p.Name
		if name == "" {
			name = map[string]string{PFrag: "f", PArg: "arg"}[p.K]
		}
		return m.call(c, name, []CArg{{K: "n", N: float64(p.N)}})
	case PCall:
		return m.call(c, p.Name, p.CA)
	case PJoin:
		f := c.fn("join")
		if f == nil || f.builtin != "join" {
			args := []CArg{{K: "s", S: render(p.T)}, {K: "s", S: p.Sep}}
			for i := 0; i < p.NIdx; i++ {
				n := 1
				switch i {
				case 0:
					n = p.From
				case 1:
					n = p.To
				}
				args = append(args, CArg{K: "n", N: float64(n)})
			}
			return m.call(c, "join", args)
		}
		t, err := m.evalJoin(c, p)
		return t, err.inFunc()
	case PValue:
		return nil, merr("function value not called")
	case PBad:
		return nil, merr("bad reference")
	}
	panic("unknown piece " + p.K)
}

func (m *Model) evalJoin(c *mCtx, p *Piece) (toks, *mErr) {
	if p.NIdx > 2 {
		return nil, merr("too many args for #join")
	}
	from, to := 0, 0
	if p.NIdx > 0 {
		from = p.From
	}
	if p.NIdx > 1 {
		to = p.To
	}
	if to > 0 && from > to {
		return nil, merr("invalid range")
	}
	if badSyntax(p.T) || mixed(p.T) {
		return nil, merr("syntax error in join template")
	}
	n := 0
	for _, e := range p.T {
		if e.K != PValue {
			continue
		}
		n++
		f := c.fn(e.Name)
		if f == nil {
			return nil, merr("unknown function in join template")
		}
		if !f.joinable() {
			return nil, merr("function incompatible with join")
		}
	}
	if n == 0 {
		return nil, merr("no function in join template")
	}
	start := from
	if start <= 0 {
		start = 1
	}
	if m.p.Prop == "C13" {
		m.work += int64(len(render(p.T)))
	}
	var out toks
	for i := start; ; i++ {
		m.work += int64(len(p.T) + 1)
		m.bound()
		var item toks
		var end *mErr
		var used []*bool
		q := 0
		for _, e := range p.T {
			if e.K != PValue {
				t, err := m.evalPiece(c, e, &q)
				if err != nil {
					return nil, err.hide()
				}
				item = append(item, t...)
				continue
			}
			var unused []*bool
			if fc := c.fc(); fc != nil {
				for _, l := range [][]bool{fc.used, fc.usef} {
					if i >= 1 && i <= len(l) && !l[i-1] {
						unused = append(unused, &l[i-1])
					}
				}
			}
			t, err := m.call(c, e.Name, []CArg{{K: "n", N: float64(i)}})
			if err != nil && err.idx {
				end = err
				break
			}
			if err != nil {
				return nil, err
			}
			for _, u := range unused {
				if *u {
					used = append(used, u)
				}
			}
			item = append(item, t...)
		}
		if end != nil {
			for _, u := range used {
				*u = false
			}
			if from > 0 && i == from || to > 0 && i <= to {
				return nil, end
			}
			break
		}
		if !item.empty() {
			if !out.empty() {
				out = append(out, text(p.Sep)...)
			}
			out = append(out, item...)
		}
		if to > 0 && i >= to {
			break
		}
	}
	return out, nil
}

func itoa(i int) string {
	if i < 0 {
		return "-" + itoa(-i)
	}
	if i < 10 {
		return string(rune('0' + i))
	}
	return itoa(i/10) + string(rune('0'+i%10))
}
