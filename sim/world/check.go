package world

import (
	"errors"
	"fmt"
	"strconv"
	"strings"
	"time"
)

// checkOp compares the result of an operation with the model's prediction.
func (w *World) checkOp(m *Model, ti, oi int, op *Op, oo *opOut, out *Outcome) *trouble {
	if oo == nil || !oo.done {
		return nil // reported as a hang or panic
	}
	tr := w.checkOp2(m, ti, oi, op, oo, out)
	if tr != nil {
		tr.msg = opName(ti, oi, op) + ": " + tr.msg
	}
	return tr
}

func (w *World) checkOp2(m *Model, ti, oi int, op *Op, oo *opOut, out *Outcome) *trouble {
	m.o = newOpState(w.p, w.causes, ti, oi)
	m.work = 0
	m.failed = false
	m.lost = false
	m.setLocal(op)
	if len(op.Local) > 0 && len(oo.steps) == 1 && oo.steps[0].pan != nil && op.K != "q" {
		return &trouble{"panic", fmt.Sprintf("composing panicked: %v\n%s", oo.steps[0].pan, oo.steps[0].stack)}
	}
	var tr *trouble
	switch op.K {
	case "q":
		n := m.node(op.Node)
		t, err := m.buildQuery(n)
		m.failed = m.failed || err != nil
		if n.K != NFrag && n.K != NQB && n.K != NNilFrag && n.K != NNilQB {
			err = err.inFunc() // wrapped in a fragment by the client
			t = t.trim()
		}
		tr = w.checkBuilt(m, &oo.steps[0], t, err, op.Style, oo, out, true)
	case "s":
		tr = w.checkSession(m, op, oo, out)
	case "m":
		tr = noPanic(&oo.steps[0])
		m.mutate(op)
	case "qb":
		tr = noPanic(&oo.steps[0])
		m.node(op.Node).qb.config(m, op.Cfg)
	case "interp":
		tr = w.checkInterp(m, op, oo, out)
	case "parse":
		tr = w.checkParse(m, op, oo, out)
	case "db":
		tr = w.checkDB(m, op, oo, out)
	}
	if tr != nil {
		return tr
	}
	if w.p.Prop == "C13" && !m.lost {
		for k, n := range oo.o.counts {
			if strings.HasPrefix(k, "F") && !m.failed && n > m.o.counts[k] {
				return &trouble{"overrun", fmt.Sprintf("list function %s was called %d times, %d are enough: the list did not stop", k, n, m.o.counts[k])}
			}
		}
		bound := int64(2000) + 400*m.work
		if op.K == "parse" {
			bound = 5000 + 1000*int64(len(templateText(op))+len(op.Vals)+len(op.Ns)) + 400*m.work
		}
		if r := float64(oo.work) / float64(bound); r > out.MaxRatio {
			out.MaxRatio = r
		}
		if n := int64(len(templateText(op))); op.Rep > 1 && oo.work > 200_000+2000*n {
			return &trouble{"work", fmt.Sprintf("%d steps for a template of %d bytes, %d times %q", oo.work, n, op.Rep, render(op.P))}
		}
		if oo.work > bound*50 {
			return &trouble{"work", fmt.Sprintf("%d steps for an input of size %d", oo.work, m.work)}
		}
	}
	return nil
}

func noPanic(s *stepOut) *trouble {
	if s.pan != nil {
		return &trouble{"panic", fmt.Sprintf("panic: %v\n%s", s.pan, s.stack)}
	}
	return nil
}

// checkErr compares a failure with the predicted one. nil: as predicted.
func checkErr(s *stepOut, want *mErr, oo *opOut) *trouble {
	if want == nil {
		if s.pan != nil {
			return &trouble{"panic", fmt.Sprintf("panic: %v\n%s", s.pan, s.stack)}
		}
		if s.err != nil {
			return &trouble{"spurious-error", fmt.Sprintf("failed: %v", s.err)}
		}
		return nil
	}
	if s.pan != nil {
		if want.panic {
			return nil
		}
		return &trouble{"panic", fmt.Sprintf("panicked instead of returning an error (%s): %v\n%s", want.why, s.pan, s.stack)}
	}
	if s.err == nil {
		return &trouble{"missed-error", fmt.Sprintf("succeeded with %q %s, but must fail: %s", s.query, showArgs(s.args), want.why)}
	}
	if want.fault != nil && want.fault.Kind != "pstr" && want.fault.Kind != "pnil" {
		if errors.Is(s.err, want.fault.cause) {
			return nil
		}
		met := false
		for _, f := range oo.o.fired {
			if errors.Is(s.err, f.cause) {
				return nil
			}
			met = met || f.Fault == want.fault.Fault
		}
		if !met {
			// it failed for another reason before it came to that
			return nil
		}
		return &trouble{"lost-cause", fmt.Sprintf("the error does not wrap its cause (%v): %v", want.fault.cause, s.err)}
	}
	return nil
}

func showArgs(args []any) string {
	b := new(strings.Builder)
	b.WriteByte('[')
	for i, a := range args {
		if i > 0 {
			b.WriteByte(' ')
		}
		b.WriteString(show(a))
	}
	b.WriteByte(']')
	return b.String()
}

func (w *World) checkBuilt(m *Model, s *stepOut, t toks, err *mErr, style string, oo *opOut, out *Outcome, root bool) *trouble {
	if tr := checkErr(s, err, oo); tr != nil {
		if err == nil {
			tr.msg += "\nwant " + t.String()
		}
		return tr
	}
	if err != nil {
		out.OpErrs++
		if s.pan == nil && s.query != "" {
			return &trouble{"partial", fmt.Sprintf("failed, but returned the statement %q", s.query)}
		}
		if s.pan == nil && root && s.args != nil {
			return &trouble{"partial", fmt.Sprintf("failed, but returned %d args", len(s.args))}
		}
		return nil
	}
	refd := make([]bool, len(s.args))
	pos := 0
	if tr := w.match(t, style, s.query, s.args, &pos, refd); tr != nil {
		tr.msg += "\nwant " + t.String() + "\ngot  " + s.query + " " + showArgs(s.args)
		return tr
	}
	if tr := allBound(refd, s); tr != nil {
		return tr
	}
	return nil
}

func allBound(refd []bool, s *stepOut) *trouble {
	for i, r := range refd {
		if !r {
			return &trouble{"stray-arg", fmt.Sprintf("argument %d belongs to no placeholder: %q %s", i+1, s.query, showArgs(s.args))}
		}
	}
	return nil
}

// match walks the statement along the predicted tokens. pos is the number of unnumbered
// placeholders so far.
func (w *World) match(t toks, style, query string, args []any, pos *int, refd []bool) *trouble {
	rest := query
	for _, k := range t {
		if !k.Bind {
			if !strings.HasPrefix(rest, k.S) {
				return &trouble{"statement", fmt.Sprintf("wrong statement at offset %d: want %q", len(query)-len(rest), k.S)}
			}
			rest = rest[len(k.S):]
			continue
		}
		i := 0
		if style == "?" {
			if !strings.HasPrefix(rest, "?") {
				return &trouble{"statement", fmt.Sprintf("wrong statement at offset %d: want a placeholder", len(query)-len(rest))}
			}
			rest = rest[1:]
			*pos++
			i = *pos
		} else {
			n := 1
			for n < len(rest) && rest[n] >= '0' && rest[n] <= '9' {
				n++
			}
			if !strings.HasPrefix(rest, "$") || n == 1 {
				return &trouble{"statement", fmt.Sprintf("wrong statement at offset %d: want a placeholder", len(query)-len(rest))}
			}
			i, _ = strconv.Atoi(rest[1:n])
			rest = rest[n:]
		}
		if i < 1 || i > len(args) {
			return &trouble{"binding", fmt.Sprintf("placeholder %d has no argument", i)}
		}
		if !sameVal(args[i-1], w.vals[k.Val]) {
			return &trouble{"binding", fmt.Sprintf("placeholder %d is bound to %s, its fragment referenced %s", i, show(args[i-1]), show(w.vals[k.Val]))}
		}
		refd[i-1] = true
	}
	if rest != "" {
		return &trouble{"statement", fmt.Sprintf("wrong statement: unexpected %q at the end", rest)}
	}
	return nil
}

func (w *World) checkSession(m *Model, op *Op, oo *opOut, out *Outcome) *trouble {
	ctxs := make([]*mCtx, len(op.Ctxs))
	k := 0
	for i, c := range op.Ctxs {
		s := &oo.steps[k]
		k++
		if i == 0 {
			ctxs[i] = rootCtx()
			if tr := noPanic(s); tr != nil {
				return tr
			}
			continue
		}
		if ctxs[c.Parent] == nil {
			continue
		}
		var want *mErr
		if !m.validSet(c.FS) {
			want = merr(fmt.Sprintf("invalid function set %d", c.FS))
		} else {
			ctxs[i] = m.derive(ctxs[c.Parent], c.FS)
		}
		if tr := checkErr(s, want, oo); tr != nil {
			tr.msg = fmt.Sprintf("registering function set %d: %s", c.FS, tr.msg)
			return tr
		}
		if want != nil {
			out.OpErrs++
		}
	}
	var refd []bool
	pos := 0
	var last *stepOut
	prev := []any{}
	for i, st := range op.Steps {
		s := &oo.steps[k]
		k++
		if ctxs[st.Ctx] == nil {
			continue
		}
		t, err := m.build(ctxs[st.Ctx], st.Node)
		m.failed = m.failed || err != nil
		m.o.off = m.o.off || err != nil
		if tr := checkErr(s, err, oo); tr != nil {
			tr.msg = fmt.Sprintf("step %d: %s\nwant %s", i, tr.msg, t)
			return tr
		}
		if s.pan != nil {
			m.lost = true
			break // what a panic leaves in the context is unspecified
		}
		if err != nil {
			out.OpErrs++
			if s.query != "" && m.node(st.Node).K != NCB {
				return &trouble{"partial", fmt.Sprintf("step %d failed, but returned %q", i, s.query)}
			}
			if k := m.node(st.Node).K; k != NFrag && k != NQB {
				m.lost = true
				break // nor is what a failed custom builder leaves there
			}
		}
		if len(s.args) < len(prev) {
			return &trouble{"binding", fmt.Sprintf("step %d dropped arguments of the steps before: %s", i, showArgs(s.args))}
		}
		for j := range prev {
			if !sameVal(prev[j], s.args[j]) {
				return &trouble{"binding", fmt.Sprintf("step %d changed argument %d", i, j+1)}
			}
		}
		prev = s.args
		for len(refd) < len(s.args) {
			refd = append(refd, false)
		}
		if err != nil {
			continue
		}
		if tr := w.match(t, op.Style, s.query, s.args, &pos, refd); tr != nil {
			tr.msg = fmt.Sprintf("step %d: %s\nwant %s\ngot  %s %s", i, tr.msg, t, s.query, showArgs(s.args))
			return tr
		}
		last = s
	}
	if s := oo.changedList(); s != "" {
		return &trouble{"binding", s}
	}
	if last != nil {
		return allBound(refd, last)
	}
	return nil
}

func (m *Model) mutate(op *Op) {
	n := m.node(op.Node)
	vals := op.Vals
	if op.ASl > 0 {
		vals = m.p.ASlices[op.ASl-1].Vals
	}
	ns := op.Ns
	if op.FSl > 0 {
		ns = m.p.FSlices[op.FSl-1].Nodes
	}
	switch op.Mut {
	case "args":
		n.args = append([]int{}, vals...)
	case "appargs":
		n.args = append(append([]int{}, n.args...), vals...)
	case "frs":
		n.frs = append([]int{}, ns...)
	case "appfrs":
		n.frs = append(append([]int{}, n.frs...), ns...)
	case "prefix":
		n.pre = op.Text
	case "suffix":
		n.suf = op.Text
	case "raw":
		c := *n.Node
		c.P = op.P
		n.Node = &c
	}
}

// render predicts the rendering of tokens with their literals.
func (w *World) literals(m *Model, t toks, timefmt string) (string, *mErr) {
	b := new(strings.Builder)
	for _, k := range t {
		if !k.Bind {
			b.WriteString(k.S)
			continue
		}
		s, ok, f := literal(k.Val, w.p.Vals[k.Val], m.o, timefmt)
		if f != nil {
			e := m.faultErr(f)
			e.panic = false // rendering never panics
			return "", e
		}
		if !ok {
			return "", merr("value cannot be rendered: " + w.p.Vals[k.Val].K)
		}
		b.WriteString(s)
	}
	return b.String(), nil
}

func (w *World) checkInterp(m *Model, op *Op, oo *opOut, out *Outcome) *trouble {
	s := &oo.steps[0]
	// the statement, as pieces of text and references to the arguments
	var t toks
	var want *mErr
	if mixed(op.P) {
		want = merr("mixed styles")
	}
	q := 0
	for _, p := range op.P {
		switch p.K {
		case PText:
			t = append(t, Tok{S: p.S})
		case PBind:
			i := p.N
			q++
			if p.Form == 1 {
				i = q
			}
			if i < 1 || i > len(op.Vals) {
				if want == nil {
					want = merr("missing argument")
				}
				continue
			}
			t = append(t, Tok{Bind: true, Val: op.Vals[i-1]})
		default:
			if want == nil {
				want = merr("not a statement")
			}
		}
	}
	fmtt := op.TimeFmt
	if fmtt == "" {
		fmtt = time.RFC3339
	}
	lit := ""
	if want == nil {
		lit, want = w.literals(m, t, fmtt)
	}
	if want != nil && want.fault == nil {
		// which failure is met first does not matter: a converter may have failed before
		if s.pan == nil && s.err != nil {
			want = nil
			out.OpErrs++
			return w.interpInputs(op, s)
		}
	}
	if tr := checkErr(s, want, oo); tr != nil {
		return tr
	}
	if tr := w.interpInputs(op, s); tr != nil {
		return tr
	}
	if want != nil {
		out.OpErrs++
		return nil
	}
	if s.query != lit {
		return &trouble{"rendering", fmt.Sprintf("rendered %q, want %q", s.query, lit)}
	}
	return nil
}

func (w *World) interpInputs(op *Op, s *stepOut) *trouble {
	for i, v := range op.Vals {
		if !sameVal(s.args[i], w.vals[v]) {
			return &trouble{"parts", fmt.Sprintf("rendering changed argument %d", i+1)}
		}
	}
	for i, v := range s.args[len(op.Vals):cap(s.args)] {
		if sv, ok := v.(*spareVal); !ok || sv.n != i+1 {
			return &trouble{"parts", "rendering wrote to the spare capacity of the arguments"}
		}
	}
	return nil
}

func (w *World) checkParse(m *Model, op *Op, oo *opOut, out *Outcome) *trouble {
	t := templateText(op)
	if op.Cut >= 0 && op.Cut == len(t) {
		out.Fired["cut@template"]++
	}
	for _, f := range op.Flips {
		switch {
		case f.Del == 0:
			out.Fired["insert@template"]++
		case f.text() == "":
			out.Fired["delete@template"]++
		default:
			out.Fired["replace@template"]++
		}
	}
	for i := range oo.steps {
		if tr := noPanic(&oo.steps[i]); tr != nil {
			tr.msg = fmt.Sprintf("template %q: %s", t, tr.msg)
			return tr
		}
		if oo.steps[i].err != nil {
			out.OpErrs++
		}
	}
	for _, i := range []int{0, 2} {
		a, b := &oo.steps[i], &oo.steps[i+1]
		if (a.err == nil) != (b.err == nil) || a.query != b.query || len(a.args) != len(b.args) {
			return &trouble{"unstable", fmt.Sprintf("template %q: two runs differ: %q, %q", t, a.query, b.query)}
		}
	}
	if oo.steps[0].err != nil && oo.steps[2].err == nil {
		return &trouble{"missed-error", fmt.Sprintf("template %q does not parse, but builds: %q", t, oo.steps[2].query)}
	}
	if oo.steps[0].err != nil && oo.steps[4].err == nil {
		return &trouble{"missed-error", fmt.Sprintf("template %q does not parse, but renders: %q", t, oo.steps[4].query)}
	}
	return nil
}
