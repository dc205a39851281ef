package world

import (
	"context"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"strconv"
	"sync"
	"testing/synctest"
	"time"

	"verif.local/sim/simrt"
)

// The simulated database: a driver under the real database/sql. It obeys the script of
// the operation that calls it, fails where the plan says so, and records what happens.

// DBPlan configures the database handle.
type DBPlan struct {
	MaxOpen  int  `json:"max_open"`
	MaxIdle  int  `json:"max_idle"`
	Prepare  bool `json:"prepare,omitempty"`  // the driver only runs prepared statements
	Convert  bool `json:"convert,omitempty"`  // the driver leaves conversion of args to database/sql
	Validate bool `json:"validate,omitempty"` // connections have a session resetter and validator
}

type attempt struct {
	query string
	args  []any
	how   string // query, exec
	bad   bool   // rejected as a bad connection: not submitted
	err   error
}

// dbOpState is what the database saw of one operation.
type dbOpState struct {
	mu        sync.Mutex
	def       *DBOp
	in        bool // inside of the helper
	ctx       context.Context
	cancel    context.CancelFunc
	attempts  []attempt
	connects  int
	connErr   error
	prepares  int
	delivered int
	eof       bool
	nextErr   error
	closeErr  error
	scanErr   error // the last one
	scanErrs  []error
	cancelled bool
	slept     bool
	opened    int
	closed    int
	stmts     int
	stmtsEnd  int
	early     int
	skip      bool
}

type simDriver struct{ env *dbEnv }

func (d *simDriver) Open(string) (driver.Conn, error) { return nil, errors.New("not used") }

type simConnector struct{ env *dbEnv }

func (c *simConnector) Driver() driver.Driver { return &simDriver{c.env} }

func opNow() (*opState, *dbOpState) {
	o, _ := simrt.LocalState().(*opState)
	if o == nil || o.db == nil {
		return nil, nil
	}
	return o, o.db
}

func (c *simConnector) Connect(ctx context.Context) (driver.Conn, error) {
	o, d := opNow()
	if d != nil {
		if d.in {
			d.connects++
		}
		if f := o.fire("dconnect"); f != nil {
			err := f.err()
			if f.Kind == "badconn" {
				err = driver.ErrBadConn
			}
			if d.in {
				d.connErr = err
			}
			return nil, err
		}
		if d.in {
			d.connErr = nil
		}
	}
	env := c.env
	env.mu.Lock()
	env.conns++
	env.openConns++
	env.mu.Unlock()
	conn := &simConn{env: env}
	switch {
	case !env.p.DB.Convert && env.p.DB.Validate:
		return &checkedValidConn{checkedConn{conn}}, nil
	case !env.p.DB.Convert:
		return &checkedConn{conn}, nil
	case env.p.DB.Validate:
		return &validConn{conn}, nil
	}
	return conn, nil
}

type simConn struct {
	env    *dbEnv
	closed bool
	broken bool
}

// checkedConn accepts arguments of every type.
type checkedConn struct{ *simConn }

func (c *checkedConn) CheckNamedValue(*driver.NamedValue) error { return nil }

type checkedValidConn struct{ checkedConn }

func (c *checkedValidConn) ResetSession(context.Context) error { return nil }
func (c *checkedValidConn) IsValid() bool                      { return !c.broken }

type validConn struct{ *simConn }

func (c *validConn) ResetSession(context.Context) error { return nil }
func (c *validConn) IsValid() bool                      { return !c.broken }

func (c *simConn) Prepare(query string) (driver.Stmt, error) {
	_, d := opNow()
	if d != nil {
		d.mu.Lock()
		if d.in {
			d.prepares++
		}
		d.stmts++
		d.mu.Unlock()
	}
	return &simStmt{c: c, query: query, d: d}, nil
}

func (c *simConn) Close() error {
	c.env.mu.Lock()
	if !c.closed {
		c.env.openConns--
		c.closed = true
	}
	c.env.mu.Unlock()
	return nil
}

func (c *simConn) Begin() (driver.Tx, error) { return simTx{}, nil }

func (c *simConn) BeginTx(context.Context, driver.TxOptions) (driver.Tx, error) { return simTx{}, nil }

type simTx struct{}

func (simTx) Commit() error   { return nil }
func (simTx) Rollback() error { return nil }

func (c *simConn) QueryContext(ctx context.Context, query string, args []driver.NamedValue) (driver.Rows, error) {
	if c.env.p.DB.Prepare {
		return nil, driver.ErrSkip
	}
	return c.run("query", query, args)
}

type simStmt struct {
	c     *simConn
	query string
	d     *dbOpState
	done  bool
}

func (s *simStmt) Close() error {
	if s.d != nil {
		s.d.mu.Lock()
		if !s.done {
			s.d.stmtsEnd++
		}
		s.done = true
		s.d.mu.Unlock()
	}
	return nil
}
func (s *simStmt) NumInput() int { return -1 }
func (s *simStmt) Exec([]driver.Value) (driver.Result, error) {
	return nil, errors.New("not used")
}
func (s *simStmt) Query([]driver.Value) (driver.Rows, error) { return nil, errors.New("not used") }
func (s *simStmt) ExecContext(ctx context.Context, args []driver.NamedValue) (driver.Result, error) {
	_, err := s.c.run("exec", s.query, args)
	if err != nil {
		return nil, err
	}
	return driver.RowsAffected(1), nil
}
func (s *simStmt) QueryContext(ctx context.Context, args []driver.NamedValue) (driver.Rows, error) {
	return s.c.run("query", s.query, args)
}

// run is the arrival of a statement at the database.
func (c *simConn) run(how, query string, args []driver.NamedValue) (driver.Rows, error) {
	o, d := opNow()
	if d == nil {
		// the final probe
		return &simRows{c: c, cols: []string{"n"}, rows: [][]Val{{{K: "int", I: 1}}}}, nil
	}
	simrt.Point()
	a := attempt{query: query, how: how}
	for _, nv := range args {
		a.args = append(a.args, nv.Value)
	}
	var rows driver.Rows
	if f := o.fire("dquery"); f != nil {
		switch f.Kind {
		case "badconn":
			a.bad = true
			a.err = driver.ErrBadConn
			c.broken = true
		case "cancel":
			if d.cancel != nil {
				d.cancelled = true
				d.cancel()
				a.err = d.ctx.Err()
			}
		case "slow":
			if d.cancel == nil {
				simrt.Sleep(1500*time.Millisecond + 7)
			}
		case "sleep":
		default:
			a.err = f.err()
		}
	}
	if a.err == nil && how == "query" {
		def := d.def
		r := &simRows{c: c, o: o, d: d, rows: def.Rows}
		for i := 0; i < def.Cols; i++ {
			r.cols = append(r.cols, "c"+itoa(i))
		}
		if f := o.fire("dclose"); f != nil {
			r.closeErr = f.err()
		}
		d.opened++
		rows = r
		if def.More {
			rows = &moreRows{r}
		}
	}
	d.attempts = append(d.attempts, a)
	return rows, a.err
}

type simRows struct {
	c        *simConn
	o        *opState
	d        *dbOpState
	cols     []string
	rows     [][]Val
	pos      int
	closed   bool
	closeErr error
	buf      [][]byte
}

func (r *simRows) Columns() []string { return append([]string{}, r.cols...) }

func (r *simRows) Close() error {
	if r.closed || r.d == nil {
		return nil
	}
	r.closed = true
	r.d.mu.Lock()
	r.d.closed++
	r.d.mu.Unlock()
	// memory handed out by Next is no longer valid
	for _, b := range r.buf {
		for i := range b {
			b[i] = '!'
		}
	}
	if r.closeErr != nil {
		r.d.mu.Lock()
		r.d.closeErr = r.closeErr
		r.d.mu.Unlock()
	}
	return r.closeErr
}

func (r *simRows) Next(dest []driver.Value) error {
	for _, b := range r.buf {
		for i := range b {
			b[i] = '!'
		}
	}
	r.buf = r.buf[:0]
	if r.d != nil {
		simrt.Point()
		if f := r.o.fire("dnext"); f != nil {
			switch f.Kind {
			case "badconn":
				r.d.nextErr = driver.ErrBadConn
				r.c.broken = true
				return driver.ErrBadConn
			case "slow":
				if r.d.cancel == nil {
					simrt.Sleep(300*time.Millisecond + 3)
				}
			case "eoflike":
				r.d.nextErr = fmt.Errorf("%w: %w", f.cause, io.ErrUnexpectedEOF)
				return r.d.nextErr
			case "cancel", "sleep":
			default:
				r.d.nextErr = f.err()
				return r.d.nextErr
			}
		}
	}
	if r.pos >= len(r.rows) {
		if r.d != nil {
			r.d.eof = true
		}
		return io.EOF
	}
	row := r.rows[r.pos]
	r.pos++
	for i := range dest {
		dest[i] = r.value(row[i])
	}
	if r.d != nil {
		r.d.delivered++
	}
	return nil
}

// moreRows is a result that another result, which is empty, follows.
type moreRows struct{ *simRows }

func (r *moreRows) HasNextResultSet() bool { return true }
func (r *moreRows) NextResultSet() error   { return nil }

func (r *simRows) value(v Val) driver.Value {
	switch v.K {
	case "int":
		return v.I
	case "float":
		return float64(v.I) + 0.5
	case "bool":
		return v.I != 0
	case "str":
		return v.S
	case "bytes":
		b := []byte(v.S)
		r.buf = append(r.buf, b)
		return b
	case "time":
		return time.Unix(v.I, 5).UTC()
	case "nil":
		return nil
	}
	panic("unknown cell kind " + v.K)
}

// convert predicts what a destination of a kind holds after it was assigned a cell.
func convert(kind string, v Val) (string, bool) {
	txt := func() (string, bool) { // as text
		switch v.K {
		case "int":
			return strconv.FormatInt(v.I, 10), true
		case "float":
			return strconv.FormatFloat(float64(v.I)+0.5, 'g', -1, 64), true
		case "bool":
			return strconv.FormatBool(v.I != 0), true
		case "str", "bytes":
			return v.S, true
		case "time":
			return time.Unix(v.I, 5).UTC().Format(time.RFC3339Nano), true
		}
		return "", false
	}
	num := func() (string, bool) {
		t, ok := txt()
		if !ok || v.K == "time" || v.K == "bool" || v.K == "float" {
			return "", false
		}
		i, err := strconv.ParseInt(t, 10, 64)
		return strconv.FormatInt(i, 10), err == nil
	}
	switch kind {
	case "int":
		s, ok := num()
		return "int:" + s, ok
	case "nint":
		if v.K == "nil" {
			return "nint:NULL", true
		}
		s, ok := num()
		return "nint:" + s, ok
	case "ptr":
		if v.K == "nil" {
			return "ptr:NULL", true
		}
		s, ok := num()
		return "ptr:" + s, ok
	case "str":
		s, ok := txt()
		return "str:" + s, ok
	case "nstr":
		if v.K == "nil" {
			return "nstr:NULL", true
		}
		s, ok := txt()
		return "nstr:" + s, ok
	case "bytes":
		if v.K == "nil" {
			return "bytes:NULL", true
		}
		s, ok := txt()
		return "bytes:" + s, ok
	case "any":
		return "any:" + showCell(v), true
	case "scanner":
		return "scanner:" + showCell(v), true
	case "time":
		if v.K != "time" {
			return "", false
		}
		return "time:" + strconv.FormatInt(v.I, 10), true
	}
	panic("unknown destination kind " + kind)
}

func showCell(v Val) string {
	switch v.K {
	case "int", "time":
		return v.K + " " + strconv.FormatInt(v.I, 10)
	case "float":
		return "float " + strconv.FormatFloat(float64(v.I)+0.5, 'g', -1, 64)
	case "bool":
		return "bool " + strconv.FormatBool(v.I != 0)
	case "str", "bytes":
		return v.K + " " + v.S
	}
	return v.K
}

func showDriverValue(v any) string {
	switch v := v.(type) {
	case nil:
		return "nil"
	case int64:
		return "int " + strconv.FormatInt(v, 10)
	case float64:
		return "float " + strconv.FormatFloat(v, 'g', -1, 64)
	case bool:
		return "bool " + strconv.FormatBool(v)
	case string:
		return "str " + v
	case []byte:
		return "bytes " + string(v)
	case time.Time:
		return "time " + strconv.FormatInt(v.Unix(), 10)
	}
	return fmt.Sprintf("%T", v)
}

func settle() { synctest.Wait() }
