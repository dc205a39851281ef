package world

import (
	"fmt"
	"strconv"
	"strings"
)

// joinable reports whether a function may be used in a #join template.
func (f *mFunc) joinable() bool {
	switch f.builtin {
	case "f", "arg":
		return true
	case "join":
		return false
	}
	switch f.spec.K {
	case "nodes", "argp", "fragp", "text", "inf", "varn", "commit", "early":
		return true
	}
	return false
}

func kinds(args []CArg) string {
	b := new(strings.Builder)
	for _, a := range args {
		b.WriteString(a.K[:1])
		if a.K == "nil" {
			b.WriteByte('!')
		}
	}
	return b.String()
}

// call predicts a call of a preprocessing function.
func (m *Model) call(c *mCtx, name string, args []CArg) (toks, *mErr) {
	f := c.fn(name)
	if f == nil {
		return nil, merr("undefined function " + name)
	}
	m.work++
	t, err := m.call2(c, f, args)
	if err != nil {
		return nil, err.inFunc()
	}
	return t, nil
}

func (m *Model) call2(c *mCtx, f *mFunc, args []CArg) (toks, *mErr) {
	sig := kinds(args)
	num := func(i int) int { return int(args[i].N) }
	idxErr := &mErr{why: "invalid index", idx: true}
	bad := merr("wrong arguments for " + f.key + f.builtin + ": " + sig)
	switch f.builtin {
	case "f", "arg":
		if sig != "n" {
			return nil, bad
		}
		fc := c.fc()
		if fc == nil {
			return nil, merr("no fragment")
		}
		i := num(0)
		if f.builtin == "arg" {
			if i < 1 || i > len(fc.n.args) {
				return nil, idxErr
			}
			fc.used[i-1] = true
			return toks{{Bind: true, Val: fc.n.args[i-1]}}, nil
		}
		if i < 1 || i > len(fc.n.frs) {
			return nil, idxErr
		}
		fc.usef[i-1] = true
		t, err := m.build(c, fc.n.frs[i-1])
		if err != nil && !err.panic {
			err = err.hide()
		}
		return t, err
	case "join":
		// generated only as a call of a function that shadows it, with a template
		// that has no list function
		return nil, merr("#join without a list function")
	}
	s := f.spec
	// number list functions
	switch s.K {
	case "nodes", "argp", "fragp", "text", "inf", "commit", "early", "bad", "num1", "badend":
		if sig != "n" {
			return nil, bad
		}
		i := num(0)
		n := s.N
		switch s.K {
		case "nodes":
			n = len(s.Ns)
		case "argp":
			n = len(m.p.PropsA[s.N])
		case "fragp":
			n = len(m.p.PropsF[s.N])
		case "commit", "early":
			n = len(s.Vals)
		case "inf":
			n = 1 << 30
		}
		if s.K == "badend" && (i < 1 || i > n) {
			return nil, merr("no such item")
		}
		anyIndex := s.K == "bad" || s.K == "num1"
		if !anyIndex && (i < 1 || i > n) {
			return nil, idxErr
		}
		if !(anyIndex && i == 0) {
			if ff := m.o.fire(f.key); ff != nil {
				return nil, m.faultErr(ff)
			}
		}
		switch s.K {
		case "nodes":
			return m.build(c, s.Ns[i-1])
		case "argp":
			return toks{{Bind: true, Val: m.p.PropsA[s.N][i-1]}}, nil
		case "fragp":
			t, err := m.build(c, m.p.PropsF[s.N][i-1])
			if err != nil && !err.panic {
				err = err.hide()
			}
			return t, err
		case "commit", "early":
			return append(text(s.Text), Tok{Bind: true, Val: s.Vals[i-1]}), nil
		}
		return text(s.Text + strconv.Itoa(i)), nil
	}
	fireNow := func() *mErr {
		if ff := m.o.fire(f.key); ff != nil {
			return m.faultErr(ff)
		}
		return nil
	}
	switch s.K {
	case "varn":
		if strings.Trim(sig, "n") != "" {
			return nil, bad
		}
		for i := range args {
			if num(i) < 1 || num(i) > s.N {
				return nil, idxErr
			}
		}
		if err := fireNow(); err != nil {
			return nil, err
		}
		return text(s.Text + strconv.Itoa(len(args))), nil
	case "str":
		if sig != "s" {
			return nil, bad
		}
		if err := fireNow(); err != nil {
			return nil, err
		}
		return text("<" + args[0].S + ">"), nil
	case "multi":
		if sig != "sbn" {
			return nil, bad
		}
		if err := fireNow(); err != nil {
			return nil, err
		}
		return text(fmt.Sprintf("{%s %t %s}", args[0].S, args[1].B, numString(s.T, args[2].N))), nil
	case "void":
		if sig != "" {
			return nil, bad
		}
		if err := fireNow(); err != nil {
			return nil, err
		}
		return nil, nil
	case "vari":
		if strings.Trim(sig, "s") != "" {
			return nil, bad
		}
		if err := fireNow(); err != nil {
			return nil, err
		}
		parts := make([]string, len(args))
		for i := range args {
			parts[i] = args[i].S
		}
		return text("[" + strings.Join(parts, "|") + "]"), nil
	case "varnum":
		if strings.Trim(sig, "n") != "" {
			return nil, bad
		}
		parts := make([]string, len(args))
		for i := range args {
			parts[i] = numString(s.T, args[i].N)
		}
		str := "[" + strings.Join(parts, " ") + "]"
		if str != "[0]" {
			if err := fireNow(); err != nil {
				return nil, err
			}
		}
		return text(str), nil
	case "varmix":
		if !strings.HasPrefix(sig, "sn") || strings.Trim(sig[2:], "b") != "" {
			return nil, bad
		}
		if err := fireNow(); err != nil {
			return nil, err
		}
		parts := make([]string, len(args)-2)
		for i := range parts {
			parts[i] = strconv.FormatBool(args[i+2].B)
		}
		return text(args[0].S + "/" + numString("float64", args[1].N) + "[" + strings.Join(parts, " ") + "]"), nil
	case "ctxonly", "ret1":
		if sig != "" {
			return nil, bad
		}
		if err := fireNow(); err != nil {
			return nil, err
		}
		return text(s.Text), nil
	case "joinlike":
		if !strings.HasPrefix(sig, "ss") || strings.Trim(sig[2:], "n") != "" {
			return nil, bad
		}
		if err := fireNow(); err != nil {
			return nil, err
		}
		return text(fmt.Sprintf("J[%s|%s|%d]", args[0].S, args[1].S, len(args)-2)), nil
	case "derive":
		if sig != "" {
			return nil, bad
		}
		if err := fireNow(); err != nil {
			return nil, err
		}
		if !m.validSet(s.FS) {
			return nil, merr("invalid function set")
		}
		return m.build(m.derive(c, s.FS), s.Ns[0])
	case "build":
		if sig != "" {
			return nil, bad
		}
		if err := fireNow(); err != nil {
			return nil, err
		}
		return m.build(c, s.Ns[0])
	}
	panic("unknown function kind " + s.K)
}

// numString is how a number reaches a function whose parameter has the type.
func numString(typ string, n float64) string {
	switch typ {
	case "float64":
		return fmt.Sprint(n)
	case "float32":
		return fmt.Sprint(float32(n))
	}
	return strconv.Itoa(int(n))
}
