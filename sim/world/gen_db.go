package world

func init() {
	base := profile{args: 60, joins: 25, funcs: 15, cbs: 25, qbs: 50, bad: 6, faults: 70, maxFault: 3, weird: 20, kinds: errKinds, dbs: true, local: 10, shadow: 2}
	add := func(prop, kind string, tasks, ops [2]int) {
		f := base
		f.dbKind, f.tasks, f.ops = kind, tasks, ops
		profiles[prop] = &f
	}
	add("C01", "scan", [2]int{1, 3}, [2]int{1, 4})
	add("C02", "row", [2]int{1, 3}, [2]int{1, 4})
	add("C03", "all", [2]int{1, 4}, [2]int{1, 6})
	add("C04", "count", [2]int{1, 3}, [2]int{1, 5})
	add("C05", "built", [2]int{1, 3}, [2]int{1, 4})
}

// database makes a plan of clients that run statements.
func (g *gen) database() *Plan {
	r, p := g.r, g.p
	if g.f.dbKind == "count" {
		f := *g.f
		f.weird = 55
		g.f = &f
	}
	g.parts0()
	nt := r.in(g.f.tasks[0], g.f.tasks[1])
	if r.p(40) {
		nt = 1
	} else if nt > 1 && g.big && r.p(50) {
		nt = r.in(4, 8)
	}
	p.Log = pick(r, []string{"", "", "fail", "short"})
	p.DB = &DBPlan{MaxOpen: nt + r.n(2)*r.n(3), MaxIdle: r.n(4), Prepare: r.p(25), Validate: r.p(40)}
	if g.f.dbKind != "built" && r.p(25) {
		p.DB.Convert = true
	}
	for t := 0; t < nt; t++ {
		tp := &TaskPlan{}
		for i := g.size(g.f.ops[0], g.f.ops[1], g.f.ops[1], g.f.ops[1]*5); i > 0; i-- {
			tp.Ops = append(tp.Ops, g.dbOp(nt == 1))
		}
		p.Tasks = append(p.Tasks, tp)
	}
	g.schedule()
	counts, ok := dryRun(p, 6000, false)
	if !ok {
		return nil
	}
	if r.p(85) {
		for i := r.in(1, 3); i > 0; i-- {
			g.dbFault()
		}
	}
	if r.p(g.f.faults / 3) {
		var with []opCounts
		for _, c := range counts {
			if len(c.keys) > 0 {
				with = append(with, c)
			}
		}
		if len(with) > 0 {
			c := pick(r, with)
			k := r.n(len(c.keys))
			f := &Fault{Task: c.task, Op: c.op, At: c.keys[k], Nth: r.in(1, c.n[k]), Kind: pick(r, g.f.kinds)}
			if f.At[0] == 'V' {
				f.Kind = pick(r, []string{"err", "werr"})
			}
			p.Faults = append(p.Faults, f)
		}
	}
	if r.p(35) {
		// a converter that fails, when the statement is submitted or when it is rendered
		for i, v := range p.Vals {
			if v.K == "valuer" || v.K == "valueri" || v.K == "valuern" {
				t := r.n(len(p.Tasks))
				p.Faults = append(p.Faults, &Fault{Task: t, Op: r.n(len(p.Tasks[t].Ops)), At: "V" + itoa(i), Nth: r.in(1, 2), Kind: "err"})
			}
		}
	}
	if _, ok := dryRun(p, 6000, true); !ok {
		return nil
	}
	return p
}

var convertible = map[string]bool{"int": true, "i64": true, "i32": true, "u8": true, "f64": true, "str": true, "bool": true, "nil": true, "valuer": true, "valueri": true, "valuern": true, "vvaluer": true, "valuert": true, "valuerf": true, "timeloc": true, "nilvaluer": true, "nilvvaluer": true, "time": true, "bytes": true, "nilptr": true, "ptr": true, "enum": true}

var destKinds = []string{"int", "int", "str", "str", "any", "nint", "nstr", "bytes", "time", "ptr", "scanner", "scanner"}

func (g *gen) cell(kind string) Val {
	r := g.r
	if r.p(2) {
		return g.anyCell()
	}
	switch kind {
	case "int", "nint", "ptr":
		if kind != "int" && r.p(30) {
			return Val{K: "nil"}
		}
		return pick(r, []Val{{K: "int", I: int64(r.in(0, 1000))}, {K: "int", I: -1}, {K: "int", I: int64(r.in(0, 1000))}, {K: "str", S: "12"}, {K: "bytes", S: "9223372036854775807"}})
	case "str", "nstr", "bytes":
		if kind != "str" && r.p(30) {
			return Val{K: "nil"}
		}
		return pick(r, []Val{{K: "str", S: "a" + itoa(r.n(100))}, {K: "bytes", S: "b" + itoa(r.n(100))}, {K: "int", I: int64(r.n(50))}, {K: "str"}, {K: "bytes", S: "\x00é'"}})
	case "time":
		return Val{K: "time", I: int64(r.in(0, 5000))}
	}
	return g.anyCell()
}

func (g *gen) anyCell() Val {
	r := g.r
	return pick(r, []Val{{K: "int", I: int64(r.n(9))}, {K: "float", I: int64(r.n(9))}, {K: "bool", I: int64(r.n(2))}, {K: "str", S: "x" + itoa(r.n(9))}, {K: "bytes", S: "y" + itoa(r.n(9))}, {K: "time", I: int64(r.n(900))}, {K: "nil"}, {K: "nil"}})
}

func (g *gen) dbOp(single bool) *Op {
	r, p := g.r, g.p
	var calls []string
	switch g.f.dbKind {
	case "scan":
		calls = []string{"scan", "scan", "scan", "scanb"}
	case "row":
		calls = []string{"row", "row", "scan", "scan"}
	case "count":
		calls = []string{"count", "count", "count", "countb"}
	case "built":
		calls = []string{"scanb", "scanb", "countb"}
	default:
		calls = []string{"scan", "scan", "scanb", "count", "countb", "row"}
	}
	def := &DBOp{Call: pick(r, calls)}
	if p.DB.Convert {
		switch def.Call {
		case "scanb":
			def.Call = "scan"
		case "countb":
			def.Call = "count"
		}
	}
	def.Via = pick(r, []string{"db", "db", "tx", "wrap", "wrap", "wrap", "wraptx"})
	def.End = pick(r, []string{"commit", "rollback"})
	if def.Via != "db" {
		def.Ctx = pick(r, []string{"", "", "cancel", "cancel", "deadline"})
		if r.p(3) {
			def.Ctx = "cancelled"
		}
	}
	var op *Op
	node := -1
	hand := false
	if def.Call == "scanb" || def.Call == "countb" {
		if r.p(12) {
			def.User = pick(r, []string{"own", "own", "half", "hand", "handerr"})
			hand = def.byHand()
		}
		for i := 0; i < 20 && node < 0 && !hand; i++ {
			id := g.root()
			n := p.Nodes[id]
			if n.K == NFrag || n.K == NQB {
				node = id
			}
		}
		if node < 0 && !hand {
			def.Call, def.User = def.Call[:len(def.Call)-1], ""
		}
	}
	if node >= 0 {
		op = &Op{K: "db", Node: node, Style: g.style(), Cut: -1}
		if r.p(g.f.local) {
			op.Local = []*Node{g.fragment(append([]int{node}, g.parts...))}
			op.Node = LocalBase
		}
	} else {
		op = g.interpOp()
		op.K, op.TimeFmt = "db", ""
		if p.DB.Convert && r.p(95) {
			for i, v := range op.Vals {
				if !convertible[p.Vals[v].K] {
					for j, w := range p.Vals {
						if convertible[w.K] {
							op.Vals[i] = j
						}
					}
				}
			}
		}
	}
	op.DB = def
	def.More = def.Call != "row" && r.p(8)
	if def.Call == "count" || def.Call == "countb" {
		def.Cols = 1
		if r.p(90) {
			c := Val{K: "int", I: int64(r.n(100000))}
			switch r.n(12) {
			case 0:
				c = Val{K: "nil"}
			case 1:
				c = pick(r, []Val{{K: "str", S: "many"}, {K: "str"}, {K: "bytes", S: "1x"}, {K: "time", I: 3}, {K: "bool", I: 1}, {K: "float", I: 3}})
			case 2:
				c = pick(r, []Val{{K: "str", S: "42"}, {K: "bytes", S: "43"}})
			case 3:
				c = Val{K: "int", I: pick(r, []int64{0, 1 << 31, 1<<31 - 1, 1 << 32, 1<<53 + 1, 1<<63 - 1, -1, -1 << 63})}
			}
			def.Rows = [][]Val{{c}}
		}
		return op
	}
	nd := r.in(0, 5)
	if r.p(3) {
		nd = r.in(6, 36)
	}
	def.Cols = nd + r.n(2)*r.n(5)
	if r.p(3) {
		// wide rows
		def.Cols = nd + r.in(5, 60)
	}
	if r.p(3) {
		def.Cols = r.n(nd + 1)
	}
	for i := 0; i < nd; i++ {
		def.Dests = append(def.Dests, pick(r, destKinds))
	}
	if def.Cols == 0 && r.p(80) {
		def.Cols = 1
	}
	nr := r.n(5)
	if r.p(10) {
		nr = r.in(5, 40)
	}
	if r.p(1) && def.Cols < 4 {
		nr = pick(r, []int{64, 65, 100, 101, 128, 129, 256, 257, 500, 1000, 1001, 1024, 1025, r.in(60, 1500)})
	}
	for i := 0; i < nr; i++ {
		var row []Val
		for c := 0; c < def.Cols; c++ {
			if c < nd {
				row = append(row, g.cell(def.Dests[c]))
			} else {
				row = append(row, g.anyCell())
			}
		}
		def.Rows = append(def.Rows, row)
	}
	if r.p(60) {
		def.Spare = r.in(1, 6)
	}
	def.Reuse = r.p(30)
	if def.Call == "row" {
		def.Early, def.Late, def.Twice = r.p(15), r.p(15), r.p(20)
		if r.p(60) {
			for i := r.in(1, 4); i > 0; i-- {
				def.Lens = append(def.Lens, r.in(0, nd))
			}
		}
	}
	return op
}

// lookAlike is a failure of the database that resembles something else.
func (g *gen) lookAlike(def *DBOp) string {
	kinds := []string{"eofwrap", "txdone", "ctxlike", "timeout"}
	if def.Call[0] == 's' {
		// what counts make of it is left open
		kinds = append(kinds, "norows", "norows")
	}
	return pick(g.r, kinds)
}

// dbFault plants a fault of the database, its connections, or a callback.
func (g *gen) dbFault() {
	r, p := g.r, g.p
	t := r.n(len(p.Tasks))
	o := r.n(len(p.Tasks[t].Ops))
	def := p.Tasks[t].Ops[o].DB
	rows := len(def.Rows)
	f := &Fault{Task: t, Op: o, Nth: 1}
	canCancel := def.Ctx == "cancel" || def.Ctx == "deadline"
	wrapped := def.Via == "wrap" || def.Via == "wraptx"
	scan := def.Call == "scan" || def.Call == "scanb"
	keys := []string{"dquery", "dnext", "dnext", "dnext", "dclose"}
	if scan {
		keys = append(keys, "dfn", "dfn")
	}
	if r.p(30) {
		keys = append(keys, "dconnect")
	}
	for _, k := range def.Dests {
		if k == "scanner" {
			keys = append(keys, "dscan", "dscan")
			break
		}
	}
	if canCancel {
		keys = append(keys, "dfn", "dfn", "dquery")
		if wrapped {
			keys = append(keys, "dopen", "dopen")
		}
	}
	f.At = pick(r, keys)
	switch f.At {
	case "dconnect":
		f.Kind = pick(r, []string{"err", "werr", "badconn"})
	case "dquery":
		f.Kind = pick(r, []string{"err", "werr", "badconn", "slow"})
		if r.p(20) {
			f.Kind = g.lookAlike(def)
		}
		if canCancel && r.p(50) {
			f.Kind = "cancel"
		}
		if f.Kind == "badconn" && r.p(60) {
			p.Faults = append(p.Faults, &Fault{Task: t, Op: o, At: f.At, Nth: 2, Kind: pick(r, []string{"badconn", "err"})})
			if r.p(60) {
				p.Faults = append(p.Faults, &Fault{Task: t, Op: o, At: f.At, Nth: 3, Kind: "badconn"})
			}
		}
	case "dnext":
		f.Kind = pick(r, []string{"err", "err", "werr", "badconn", "slow", "eoflike"})
		if r.p(20) {
			f.Kind = g.lookAlike(def)
		}
		f.Nth = r.in(1, rows+1)
	case "dclose":
		f.Kind = pick(r, []string{"err", "werr"})
	case "dfn":
		f.Nth = r.in(1, max(1, rows))
		f.Kind = pick(r, []string{"perr", "pstr", "pnil", "pidx"})
		if canCancel && (r.p(70) || !scan) {
			f.Kind = "cancel"
			if def.Ctx == "deadline" && r.p(70) {
				f.Kind = "sleep"
			}
		} else if r.p(15) {
			f.Kind = "sleep"
		}
	case "dscan":
		f.Kind = pick(r, []string{"err", "werr"})
		f.Nth = r.in(1, max(1, rows))
	case "dopen":
		f.Kind = "cancel"
		if def.Ctx == "deadline" && r.p(60) {
			f.Kind = "sleep"
		}
	}
	p.Faults = append(p.Faults, f)
}
