package world

import (
	"context"
	"database/sql"
	"fmt"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	sqlf "github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/util"

	"verif.local/sim/simrt"
)

// DBOp is an operation on the database.
type DBOp struct {
	Call  string   `json:"call"`          // scan, scanb, count, countb, row
	Via   string   `json:"via"`           // db, tx, wrap, wraptx
	Ctx   string   `json:"ctx,omitempty"` // "", bg, cancelled, cancel, deadline
	Cols  int      `json:"cols"`
	Rows  [][]Val  `json:"rows,omitempty"`
	Dests []string `json:"dests,omitempty"`
	Lens  []int    `json:"lens,omitempty"` // row: number of destinations of each call
	Spare int      `json:"spare,omitempty"`
	More  bool     `json:"more,omitempty"` // another result follows
	Reuse bool     `json:"reuse,omitempty"`
	Early bool     `json:"early,omitempty"` // row: scan before the first row
	Late  bool     `json:"late,omitempty"`  // row: scan after the last row
	Twice bool     `json:"twice,omitempty"` // row: scan each row twice
	End   string   `json:"end,omitempty"`   // commit or rollback
	User  string   `json:"user,omitempty"`  // scanb, countb: a builder of the client
}

// built tells if the statement is built from a node.
func (d *DBOp) built() bool {
	return (d.Call == "scanb" || d.Call == "countb") && !d.byHand()
}

func (d *DBOp) byHand() bool { return d.User == "hand" || d.User == "handerr" }

// theT is what synctest wants.
var theT *testing.T

type dbEnv struct {
	p         *Plan
	mu        sync.Mutex
	db        *sql.DB
	conns     int
	openConns int
	starved   bool
	watch     *time.Timer
	cancels   []context.CancelFunc
}

func (e *dbEnv) sleep(d time.Duration) { time.Sleep(d) }
func (e *dbEnv) settle()               { synctest.Wait() }

func execDB(p *Plan) (out *Outcome) {
	synctest.Test(theT, func(t *testing.T) {
		env := &dbEnv{p: p}
		env.db = sql.OpenDB(&simConnector{env})
		env.db.SetMaxOpenConns(p.DB.MaxOpen)
		env.db.SetMaxIdleConns(p.DB.MaxIdle)
		env.watch = time.AfterFunc(2*time.Hour, func() {
			env.mu.Lock()
			env.starved = true
			env.mu.Unlock()
			env.db.SetMaxOpenConns(0)
		})
		out = execIn(p, env)
		env.watch.Stop()
		for _, c := range env.cancels {
			c()
		}
		env.db.SetMaxOpenConns(0)
		env.db.Close()
		synctest.Wait()
	})
	return out
}

// finish checks that the pool serves the next client.
func (e *dbEnv) finish() *trouble {
	synctest.Wait()
	e.mu.Lock()
	starved := e.starved
	e.mu.Unlock()
	if starved {
		return &trouble{"starved", "a client waits for a connection for ever: the pool has none left"}
	}
	if st := e.db.Stats(); st.InUse != 0 {
		return &trouble{"leak", fmt.Sprintf("%d connections are still in use after all clients are done", st.InUse)}
	}
	e.db.SetMaxOpenConns(1)
	ctx, cancel := context.WithTimeout(context.Background(), time.Hour)
	defer cancel()
	var n int
	err := e.db.QueryRowContext(ctx, "probe").Scan(&n)
	if err != nil || n != 1 {
		return &trouble{"starved", fmt.Sprintf("the pool does not serve a query after all clients are done: %v", err)}
	}
	return nil
}

// wrapper is a QueryAble that carries a context and counts the calls.
type wrapper struct {
	o     *opState
	d     *dbOpState
	db    *sql.DB
	tx    *sql.Tx
	calls int
}

func (w *wrapper) Exec(query string, args ...any) (sql.Result, error) {
	w.calls++
	if w.tx != nil {
		return w.tx.ExecContext(w.d.ctx, query, args...)
	}
	return w.db.ExecContext(w.d.ctx, query, args...)
}

func (w *wrapper) Prepare(query string) (*sql.Stmt, error) {
	w.calls++
	if w.tx != nil {
		return w.tx.PrepareContext(w.d.ctx, query)
	}
	return w.db.PrepareContext(w.d.ctx, query)
}

func (w *wrapper) Query(query string, args ...any) (*sql.Rows, error) {
	w.calls++
	var rows *sql.Rows
	var err error
	if w.tx != nil {
		rows, err = w.tx.QueryContext(w.d.ctx, query, args...)
	} else {
		rows, err = w.db.QueryContext(w.d.ctx, query, args...)
	}
	if err == nil {
		w.opened()
	}
	return rows, err
}

func (w *wrapper) QueryRow(query string, args ...any) *sql.Row {
	w.calls++
	var row *sql.Row
	if w.tx != nil {
		row = w.tx.QueryRowContext(w.d.ctx, query, args...)
	} else {
		row = w.db.QueryRowContext(w.d.ctx, query, args...)
	}
	if row.Err() == nil {
		w.opened()
	}
	return row
}

// opened is the time between the begin of a result and its first row.
func (w *wrapper) opened() {
	if f := w.o.fire("dopen"); f != nil {
		w.d.interrupt(f)
	}
}

// interrupt cancels the context, or lets time pass.
func (d *dbOpState) interrupt(f *firedFault) {
	switch f.Kind {
	case "cancel":
		if d.cancel != nil {
			d.cancelled = true
			d.cancel()
			synctest.Wait()
		}
	case "sleep":
		d.slept = true
		simrt.Sleep(3*time.Second + 11)
		synctest.Wait()
	}
}

// cell is a destination.
type cell struct {
	kind string
	i    int64
	s    string
	a    any
	ni   sql.NullInt64
	ns   sql.NullString
	b    []byte
	t    time.Time
	p    *int64
	d    *dbOpState
	o    *opState
}

const unset = -7777

func newCell(kind string, o *opState) *cell {
	n := int64(unset)
	return &cell{kind: kind, i: unset, s: "unset", a: "unset", ni: sql.NullInt64{Int64: unset}, ns: sql.NullString{String: "unset"}, b: []byte("unset"), t: time.Unix(unset, 0), p: &n, o: o, d: o.db}
}

func (c *cell) dest() any {
	switch c.kind {
	case "int":
		return &c.i
	case "str":
		return &c.s
	case "any":
		return &c.a
	case "nint":
		return &c.ni
	case "nstr":
		return &c.ns
	case "bytes":
		return &c.b
	case "time":
		return &c.t
	case "ptr":
		return &c.p
	case "scanner":
		return c
	}
	panic("unknown destination kind " + c.kind)
}

// Scan implements sql.Scanner.
func (c *cell) Scan(src any) error {
	if f := c.o.fire("dscan"); f != nil && f.Kind != "cancel" && f.Kind != "sleep" {
		c.d.scanErr = f.err()
		c.d.scanErrs = append(c.d.scanErrs, c.d.scanErr)
		return c.d.scanErr
	}
	c.s = showDriverValue(src)
	return nil
}

func (c *cell) String() string {
	switch c.kind {
	case "int":
		return "int:" + strconv.FormatInt(c.i, 10)
	case "str":
		return "str:" + c.s
	case "any":
		return "any:" + showDriverValue(c.a)
	case "nint":
		if !c.ni.Valid && c.ni.Int64 == 0 {
			return "nint:NULL"
		}
		return "nint:" + strconv.FormatInt(c.ni.Int64, 10)
	case "nstr":
		if !c.ns.Valid && c.ns.String == "" {
			return "nstr:NULL"
		}
		return "nstr:" + c.ns.String
	case "bytes":
		if c.b == nil {
			return "bytes:NULL"
		}
		return "bytes:" + string(c.b)
	case "time":
		return "time:" + strconv.FormatInt(c.t.Unix(), 10)
	case "ptr":
		if c.p == nil {
			return "ptr:NULL"
		}
		return "ptr:" + strconv.FormatInt(*c.p, 10)
	case "scanner":
		return "scanner:" + c.s
	}
	return c.kind
}

// dests is a list of destinations for one row, with the slice they are passed in.
type dests struct {
	cells []*cell
	slice []any
	ptrs  []any
}

type spareDest struct{ n int }

func newDests(kinds []string, spare int, backing []any, o *opState) *dests {
	d := &dests{}
	var s []any
	if backing != nil {
		s = backing[:0]
	} else {
		s = make([]any, 0, len(kinds)+spare)
	}
	for _, k := range kinds {
		c := newCell(k, o)
		d.cells = append(d.cells, c)
		s = append(s, c.dest())
		d.ptrs = append(d.ptrs, c.dest())
	}
	for i := len(s); i < cap(s); i++ {
		s[:cap(s)][i] = &spareDest{i}
	}
	d.slice = s
	return d
}

// intact reports what was done to the slice.
func (d *dests) intact() string {
	for i, p := range d.ptrs {
		if d.slice[i] != p {
			return fmt.Sprintf("destination %d of the caller's slice was replaced", i+1)
		}
	}
	full := d.slice[:cap(d.slice)]
	for i := len(d.slice); i < len(full); i++ {
		if s, ok := full[i].(*spareDest); !ok || s.n != i {
			return "the spare capacity of the caller's slice of destinations was written to"
		}
	}
	return ""
}

func (d *dests) values() []string {
	var out []string
	for _, c := range d.cells {
		out = append(out, c.String())
	}
	return out
}

type rowCall struct {
	d    *dests
	row  int // number of the row it was for, -1: none
	err  error
	when string
	ctx  bool // the context was over
}

// dbOut is what came of an operation.
type dbOut struct {
	call    string
	rows    []*dests // as the callback handed them out
	results []*dests
	count   int64
	err     error
	pan     any
	stack   string
	calls   []rowCall
	end     error // row: the iteration error
	slice   string
	args    []any
	wcalls  int
	wrapped bool
	notrun  string // the operation did not get as far as the helper
	leak    string
	st      *dbOpState
}

func (d *dbOut) String() string {
	b := new(strings.Builder)
	fmt.Fprintf(b, "%s %d %v %v %d %d", d.call, d.count, d.err != nil, d.pan != nil, len(d.results), len(d.rows))
	for _, r := range d.rows {
		fmt.Fprint(b, r.values())
	}
	for _, c := range d.calls {
		fmt.Fprint(b, c.d.values(), c.err != nil)
	}
	if d.st != nil {
		fmt.Fprintf(b, " %d %d %d", len(d.st.attempts), d.st.delivered, d.st.connects)
	}
	return b.String()
}

func (e *dbEnv) runOp(w *World, r *realm, ti, oi int, op *Op, oo *opOut) {
	def := op.DB
	d := &dbOpState{def: def}
	o := oo.o
	o.db = d
	out := &dbOut{call: def.Call, st: d}
	oo.db = out
	switch def.Ctx {
	case "cancelled", "cancel":
		d.ctx, d.cancel = context.WithCancel(context.Background())
	case "deadline":
		d.ctx, d.cancel = context.WithTimeout(context.Background(), 2*time.Second+101)
	default:
		d.ctx = context.Background()
	}
	if d.cancel != nil {
		defer d.cancel()
	}
	var tx *sql.Tx
	if def.Via == "tx" || def.Via == "wraptx" {
		var err error
		tx, err = e.db.BeginTx(d.ctx, nil)
		if err != nil {
			out.notrun = err.Error()
			return
		}
	}
	if def.Ctx == "cancelled" {
		d.cancelled = true
		d.cancel()
		synctest.Wait()
	}
	wr := &wrapper{o: o, d: d, db: e.db, tx: tx}
	var qa util.QueryAble = wr
	switch {
	case def.Via == "db":
		qa = e.db
	case def.Via == "tx":
		qa = tx
	default:
		out.wrapped = true
	}
	args := w.interpArgs(op)
	out.args = args
	var backing []any
	if def.Reuse {
		backing = make([]any, 0, len(def.Dests)+def.Spare)
	}
	fn := func() (*dests, []any) {
		simrt.Point()
		ds := newDests(def.Dests, def.Spare, backing, o)
		out.rows = append(out.rows, ds)
		if f := o.fire("dfn"); f != nil {
			switch f.Kind {
			case "perr", "pstr", "pnil", "pidx":
				panicAs(f)
			default:
				d.interrupt(f)
			}
		}
		return ds, ds.slice
	}
	var qb sqlf.QueryBuilder
	if def.built() {
		qb = r.node(op.Node).(sqlf.QueryBuilder)
	}
	var ub *userBuilt
	if def.User != "" {
		ub = &userBuilt{how: def.User, query: render(op.P), args: args, style: styleOf(op.Style)}
		qb = userBuilder{qb, ub}
	}
	call := func() {
		defer func() {
			if r := recover(); r != nil {
				out.pan = r
				out.stack = CleanStack(string(debug.Stack()))
			}
		}()
		switch def.Call {
		case "scan":
			out.results, out.err = util.Scan[*dests](qa, render(op.P), args, fn)
		case "scanb":
			out.results, out.err = util.ScanBuilder[*dests](qa, qb, styleOf(op.Style), fn)
		case "count":
			out.count, out.err = util.Count(qa, render(op.P), args)
		case "countb":
			out.count, out.err = util.CountBuilder(qa, qb, styleOf(op.Style))
		case "row":
			e.scanRows(qa, op, o, out, args)
		default:
			panic("unknown call " + def.Call)
		}
	}
	d.in = true
	call()
	d.in = false
	out.wcalls = wr.calls
	if ub != nil {
		out.slice = ub.intact()
	}
	// what the helpers leave to a context that is over counts as closed
	synctest.Wait()
	d.mu.Lock()
	if d.opened != d.closed {
		out.leak = fmt.Sprintf("%d of %d result sets are still open", d.opened-d.closed, d.opened)
	} else if d.stmts != d.stmtsEnd {
		out.leak = fmt.Sprintf("%d of %d prepared statements are still open", d.stmts-d.stmtsEnd, d.stmts)
	}
	d.mu.Unlock()
	for _, ds := range out.rows {
		if !def.Reuse || ds == out.rows[len(out.rows)-1] {
			if s := ds.intact(); s != "" {
				out.slice = s
			}
		}
	}
	if out.leak != "" {
		// let the others go on
		e.db.SetMaxOpenConns(0)
		return // the transaction could not end
	}
	if tx != nil {
		if def.End == "commit" {
			tx.Commit()
		} else {
			tx.Rollback()
		}
		synctest.Wait()
	}
}

// scanRows is a client that iterates by itself.
func (e *dbEnv) scanRows(qa util.QueryAble, op *Op, o *opState, out *dbOut, args []any) {
	def, d := op.DB, o.db
	rows, err := qa.Query(render(op.P), args...)
	if err != nil {
		out.end = err
		return
	}
	defer rows.Close()
	n := 0
	backing := make([]any, 0, len(def.Dests)+def.Spare)
	scan := func(row int, when string) {
		k := len(def.Dests)
		if len(def.Lens) > 0 {
			k = def.Lens[n%len(def.Lens)]
		}
		n++
		var b []any
		if def.Reuse {
			b = backing
		}
		if k > len(def.Dests) {
			k = len(def.Dests)
		}
		ds := newDests(def.Dests[:k], def.Spare, b, o)
		c := rowCall{d: ds, row: row, when: when, ctx: d.ctx.Err() != nil}
		c.err = util.ScanRow(rows, ds.slice...)
		out.calls = append(out.calls, c)
		if s := ds.intact(); s != "" && out.slice == "" {
			out.slice = s
		}
	}
	if def.Early {
		scan(-1, "early")
	}
	for i := 0; rows.Next(); i++ {
		simrt.Point()
		if f := o.fire("dfn"); f != nil && f.Kind[0] != 'p' {
			d.interrupt(f)
		}
		scan(i, "row")
		if def.Twice {
			scan(i, "row")
		}
	}
	if def.Late {
		scan(-1, "late")
	}
	out.end = rows.Err()
}
