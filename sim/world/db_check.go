package world

import (
	"context"
	"database/sql/driver"
	"errors"
	"fmt"
	"reflect"
	"regexp"
	"strings"
)

var countHead = regexp.MustCompile(`(?is)^\s*SELECT\s+COUNT\s*\(\s*(?:1|\*)\s*\)[^()]*?\bFROM\s*\(`)

// unwrapCount extracts the counted query.
func unwrapCount(q string) (string, bool) {
	loc := countHead.FindStringIndex(q)
	end := strings.LastIndexByte(q, ')')
	if loc == nil || end < loc[1] {
		return "", false
	}
	return q[loc[1]:end], true
}

func (w *World) checkDB(m *Model, op *Op, oo *opOut, out *Outcome) *trouble {
	db, def := oo.db, op.DB
	if db == nil {
		return &trouble{"harness", "no outcome"}
	}
	st := db.st
	if db.notrun != "" {
		if len(oo.o.fired) == 0 {
			return &trouble{"starved", "the client got no connection: " + db.notrun}
		}
		return nil
	}
	if db.leak != "" {
		return &trouble{"leak", def.Call + " returned: " + db.leak}
	}
	if db.slice != "" {
		return &trouble{"slice", db.slice}
	}
	if tr := w.interpInputs(op, &stepOut{args: db.args}); tr != nil {
		return tr
	}
	isCount := strings.HasPrefix(def.Call, "count")
	built := def.built()
	var t toks
	if built {
		var err *mErr
		t, err = m.buildQuery(m.node(op.Node))
		m.failed = m.failed || err != nil
		if err != nil {
			out.OpErrs++
			s := &stepOut{err: db.err, pan: db.pan, stack: db.stack, query: "the query"}
			if tr := checkErr(s, err, oo); tr != nil {
				return tr
			}
			if len(st.attempts)+st.connects+st.prepares+db.wcalls > 0 {
				return &trouble{"contact", "the build failed, but the database was contacted"}
			}
			if len(db.results) > 0 || db.count != 0 {
				return &trouble{"partial", "the build failed, but results were returned"}
			}
			return nil
		}
	}
	if def.User == "half" || def.User == "handerr" {
		out.OpErrs++
		switch {
		case db.pan != nil:
			return &trouble{"panic", fmt.Sprintf("panic: %v\n%s", db.pan, db.stack)}
		case len(st.attempts)+st.connects+st.prepares+db.wcalls > 0:
			return &trouble{"contact", "the builder failed, but the database was contacted"}
		case len(db.results) > 0 || db.count != 0:
			return &trouble{"partial", "the builder failed, but results were returned"}
		case !errors.Is(db.err, errUserBuilder):
			return &trouble{"lost-cause", fmt.Sprintf("the error of the builder was not returned: %v", db.err)}
		}
		return nil
	}
	// what was submitted
	submitted, bad := 0, 0
	var last *attempt
	for i := range st.attempts {
		a := &st.attempts[i]
		last = a
		if a.how != "query" {
			return &trouble{"submission", "the statement was executed, not queried"}
		}
		if a.bad {
			bad++
		} else {
			submitted++
		}
		if tr := w.checkSubmitted(t, op, a, isCount, built); tr != nil {
			return tr
		}
	}
	maxBad := 3
	if def.Via == "tx" || def.Via == "wraptx" {
		maxBad = 1
	}
	if submitted > 1 || bad > maxBad || db.wrapped && db.wcalls > 1 {
		return &trouble{"submission", fmt.Sprintf("the statement was submitted more than once: %d times, %d rejected", submitted, bad)}
	}
	panicked := false
	for _, f := range oo.o.fired {
		if f.At == "dfn" && f.Kind[0] == 'p' && def.Call != "row" {
			panicked = true
		}
	}
	if db.pan != nil && !panicked {
		return &trouble{"panic", fmt.Sprintf("panic: %v\n%s", db.pan, db.stack)}
	}
	started := submitted == 1 && last.err == nil
	if tr := checkDests(db, def, st); tr != nil {
		return tr
	}
	if def.Call == "row" {
		return checkRowCalls(db, def, st, out)
	}
	// what must come of it
	convOK := st.delivered == 0 || len(def.Dests) <= def.Cols
	for i := 0; i < st.delivered && convOK; i++ {
		_, bad := wantRow(def, i)
		convOK = bad < 0
	}
	var ok bool
	if isCount {
		ok = started && st.closeErr == nil && (st.delivered >= 1 || st.eof)
		if ok && st.delivered >= 1 {
			_, ok = convert("int", def.Rows[0][0])
		}
	} else {
		ok = started && st.eof && convOK && st.scanErr == nil && !panicked
	}
	if ok {
		if db.err != nil {
			if !isCount && st.closeErr != nil && errors.Is(db.err, st.closeErr) {
				out.OpErrs++
				if len(db.results) > 0 {
					return &trouble{"partial", "failed, but returned rows"}
				}
				return nil
			}
			return &trouble{"spurious-error", fmt.Sprintf("failed: %v", db.err)}
		}
		if isCount {
			want := int64(0)
			if st.delivered >= 1 {
				s, _ := convert("int", def.Rows[0][0])
				fmt.Sscanf(s, "int:%d", &want)
			}
			if db.count != want {
				return &trouble{"count", fmt.Sprintf("the count is %d, the database reported %d", db.count, want)}
			}
			return nil
		}
		if len(db.results) != len(def.Rows) {
			return &trouble{"rows", fmt.Sprintf("%d rows were returned without error, the database has %d", len(db.results), len(def.Rows))}
		}
		seen := map[*dests]bool{}
		for i, r := range db.results {
			if r == nil || seen[r] {
				return &trouble{"rows", fmt.Sprintf("row %d has no destination of its own", i)}
			}
			seen[r] = true
			want, _ := wantRow(def, i)
			if !reflect.DeepEqual(want, r.values()) {
				return &trouble{"rows", fmt.Sprintf("row %d is %q, want %q", i, r.values(), want)}
			}
		}
		return nil
	}
	out.OpErrs++
	if db.pan != nil {
		return nil
	}
	if isCount && def.More && st.eof && st.delivered == 0 && st.nextErr == nil && db.err == nil && db.count == 0 {
		// database/sql does not report a close that fails after no row
		return nil
	}
	why := failure(db, st, last, started)
	if db.err == nil {
		return &trouble{"missed-error", fmt.Sprintf("success was reported (%d rows, count %d), but %s", len(db.results), db.count, why)}
	}
	if len(db.results) > 0 || db.count != 0 {
		return &trouble{"partial", fmt.Sprintf("failed, but returned %d rows, count %d", len(db.results), db.count)}
	}
	if panicked {
		return nil
	}
	if causes := w.rootCauses(db, t, op, oo, last, started); len(causes) > 0 {
		for _, c := range causes {
			if errors.Is(db.err, c) {
				return nil
			}
		}
		return &trouble{"lost-cause", fmt.Sprintf("the error does not wrap its cause (%v): %v", causes[0], db.err)}
	}
	return nil
}

func failure(db *dbOut, st *dbOpState, last *attempt, started bool) string {
	switch {
	case st.cancelled || st.slept:
		return "its context was over"
	case !started && last != nil && last.err != nil:
		return fmt.Sprintf("the query failed: %v", last.err)
	case !started && st.connErr != nil:
		return fmt.Sprintf("connecting failed: %v", st.connErr)
	case !started:
		return "the query was not submitted"
	case st.nextErr != nil:
		return fmt.Sprintf("the iteration failed after %d rows: %v", st.delivered, st.nextErr)
	case st.scanErr != nil:
		return fmt.Sprintf("a destination failed: %v", st.scanErr)
	case !st.eof:
		return fmt.Sprintf("the result was not read to its end: %d rows", st.delivered)
	}
	return "a value cannot be converted, or closing failed"
}

// takes tells if a driver takes the argument, but for faults.
func takes(v any) bool {
	if x, ok := v.(*valuer); ok && x != nil {
		return driver.IsValue(x.out)
	}
	_, err := driver.DefaultParameterConverter.ConvertValue(v)
	return err == nil
}

// rootCauses are the errors one of which a failure must wrap. None: unknown.
func (w *World) rootCauses(db *dbOut, t toks, op *Op, oo *opOut, last *attempt, started bool) []error {
	st := db.st
	if st.cancelled || st.slept && op.DB.Ctx == "deadline" {
		if op.DB.Via == "db" || op.DB.Via == "wrap" {
			return []error{context.Canceled, context.DeadlineExceeded}
		}
		return nil // the transaction may be over first, which database/sql reports without cause
	}
	var out []error
	if !started {
		if st.connErr != nil {
			out = append(out, st.connErr)
		}
		if last != nil && last.err != nil {
			out = append(out, last.err)
		}
		// an argument that does not convert
		if !w.p.DB.Convert {
			return out
		}
		vals := op.Vals
		if op.DB.built() {
			vals = nil
			for _, k := range t {
				if k.Bind {
					vals = append(vals, k.Val)
				}
			}
		}
		for _, v := range vals {
			if !takes(w.vals[v]) {
				return nil
			}
		}
		for _, f := range oo.o.fired {
			if f.At[0] == 'V' {
				out = append(out, f.cause)
			}
		}
		return out
	}
	switch {
	case st.nextErr != nil:
		out = append(out, st.nextErr)
	case st.scanErr != nil:
		out = append(out, st.scanErr)
	case st.closeErr != nil && st.delivered == 0:
		out = append(out, st.closeErr)
	case st.closeErr != nil && len(op.DB.Rows) > 0 && strings.HasPrefix(op.DB.Call, "count"):
		if _, ok := convert("int", op.DB.Rows[0][0]); ok {
			out = append(out, st.closeErr)
		}
	}
	return out
}

func (w *World) checkSubmitted(t toks, op *Op, a *attempt, isCount, built bool) *trouble {
	q := a.query
	if isCount {
		inner, ok := unwrapCount(q)
		if !ok {
			return &trouble{"submission", fmt.Sprintf("submitted %q, which is not a count of a sub-query", q)}
		}
		q = inner
	}
	if built {
		var tr *trouble
		for _, s := range []string{q, strings.TrimSpace(q)} {
			refd := make([]bool, len(a.args))
			pos := 0
			tr = w.match(t, op.Style, s, a.args, &pos, refd)
			if tr == nil {
				tr = allBound(refd, &stepOut{query: q, args: a.args})
			}
			if tr == nil || !isCount {
				break
			}
		}
		if tr != nil {
			tr.msg = "submitted: " + tr.msg + "\nwant " + t.String() + "\ngot  " + q + " " + showArgs(a.args)
		}
		return tr
	}
	want := render(op.P)
	if q != want && !(isCount && strings.TrimSpace(q) == strings.TrimSpace(want)) {
		return &trouble{"submission", fmt.Sprintf("submitted %q instead of %q", q, want)}
	}
	if len(a.args) != len(op.Vals) {
		return &trouble{"submission", fmt.Sprintf("%d arguments were submitted instead of %d", len(a.args), len(op.Vals))}
	}
	for i, v := range op.Vals {
		if !w.p.DB.Convert {
			if !sameVal(a.args[i], w.vals[v]) {
				return &trouble{"submission", fmt.Sprintf("argument %d was submitted as %s", i+1, show(a.args[i]))}
			}
			continue
		}
		c, err := driver.DefaultParameterConverter.ConvertValue(w.vals[v])
		if err != nil || !sameVal(a.args[i], c) && !reflect.DeepEqual(a.args[i], c) {
			return &trouble{"submission", fmt.Sprintf("argument %d was submitted as %s", i+1, show(a.args[i]))}
		}
	}
	return nil
}

// wantRow predicts the destinations of a row, and the first one that fails.
func wantRow(def *DBOp, row int) ([]string, int) {
	var out []string
	for i, k := range def.Dests {
		if i >= def.Cols {
			return out, i
		}
		s, ok := convert(k, def.Rows[row][i])
		if !ok {
			return out, i
		}
		out = append(out, s)
	}
	return out, -1
}

// checkDests: a destination holds what its row has for it, or what it held before.
func checkDests(db *dbOut, def *DBOp, st *dbOpState) *trouble {
	check := func(ds *dests, row int, what string) *trouble {
		for i, c := range ds.cells {
			got := c.String()
			if got == newCell(c.kind, c.o).String() {
				continue
			}
			if row >= 0 && row < len(def.Rows) && i < def.Cols {
				want, ok := convert(c.kind, def.Rows[row][i])
				if !ok || got == want {
					continue
				}
				return &trouble{"dest", fmt.Sprintf("%s: destination %d of row %d holds %q, want %q", what, i+1, row, got, want)}
			}
			return &trouble{"dest", fmt.Sprintf("%s: destination %d was written to, without a row: %q", what, i+1, got)}
		}
		return nil
	}
	for i, ds := range db.rows {
		row := i
		if i >= st.delivered {
			row = -1
		}
		if tr := check(ds, row, def.Call); tr != nil {
			return tr
		}
	}
	for _, c := range db.calls {
		if tr := check(c.d, c.row, c.when); tr != nil {
			return tr
		}
	}
	return nil
}

func checkRowCalls(db *dbOut, def *DBOp, st *dbOpState, out *Outcome) *trouble {
	for _, c := range db.calls {
		over := c.row < 0 || len(c.d.cells) > def.Cols
		conv := true
		var want []string
		if !over {
			for i, cl := range c.d.cells {
				s, ok := convert(cl.kind, def.Rows[c.row][i])
				conv = conv && ok
				want = append(want, s)
			}
		}
		if c.err == nil {
			if over {
				return &trouble{"missed-error", fmt.Sprintf("scanning %d destinations from %d columns (%s) succeeded", len(c.d.cells), def.Cols, c.when)}
			}
			if !conv {
				return &trouble{"missed-error", "a value that cannot be converted was scanned without error"}
			}
			if !reflect.DeepEqual(want, c.d.values()) && len(want) > 0 {
				return &trouble{"dest", fmt.Sprintf("row %d was scanned as %q, want %q", c.row, c.d.values(), want)}
			}
			continue
		}
		out.OpErrs++
		if over || !conv || c.over(st) {
			continue
		}
		known := false
		for _, e := range st.scanErrs {
			known = known || errors.Is(c.err, e)
		}
		if known {
			continue
		}
		return &trouble{"spurious-error", fmt.Sprintf("scanning row %d into %d of %d columns failed: %v", c.row, len(c.d.cells), def.Cols, c.err)}
	}
	return nil
}

func (c *rowCall) over(st *dbOpState) bool { return c.ctx }
