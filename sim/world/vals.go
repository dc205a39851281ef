package world

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"
	"time"

	"verif.local/sim/simrt"
)

// valuer is an argument with a converter of its own, which may fail.
type valuer struct {
	id  int
	out any
}

// Value implements driver.Valuer.
func (v *valuer) Value() (driver.Value, error) {
	if v == nil {
		return nil, nil
	}
	if f := fire(fmt.Sprintf("V%d", v.id)); f != nil {
		switch f.Kind {
		case "pstr", "pnil", "perr", "pidx":
			panicAs(f)
		default:
			return nil, f.err()
		}
	}
	return v.out, nil
}

// vvaluer has a converter that is declared on the value, not on the pointer.
type vvaluer struct{ s string }

// Value implements driver.Valuer.
func (v vvaluer) Value() (driver.Value, error) { return v.s, nil }

// stringer is an argument with a String method.
type stringer struct {
	id int
	s  string
}

// String implements fmt.Stringer.
func (v *stringer) String() string { return v.s }

// enum is a number with a String method that only knows some of its values.
type enum int

// String implements fmt.Stringer.
func (e enum) String() string { return []string{"none", "it's", "all"}[e] }

// selfValuer has a converter that does not convert.
type selfValuer struct{ I int64 }

// Value implements driver.Valuer.
func (v selfValuer) Value() (driver.Value, error) { return v, nil }

// pairValuer converts back and forth.
type pairValuer struct{ b bool }

// Value implements driver.Valuer.
func (v pairValuer) Value() (driver.Value, error) { return &pairValuer{!v.b}, nil }

// boxed is of a comparable type, but its values panic when compared.
type boxed struct{ v any }

type pair struct {
	A int
	B string
}

type myString string

type myInt int64

type myBool bool

// makeVal makes the value.
func makeVal(id int, v Val) any {
	switch v.K {
	case "int":
		return int(v.I)
	case "i64":
		return v.I
	case "i32":
		return int32(v.I)
	case "i8":
		return int8(v.I)
	case "i16":
		return int16(v.I)
	case "uint":
		return uint(v.I)
	case "u16":
		return uint16(v.I)
	case "u32":
		return uint32(v.I)
	case "f32":
		return float32(v.I) / 2
	case "myint":
		return myInt(v.I)
	case "mybool":
		return myBool(v.I != 0)
	case "u8":
		return uint8(v.I)
	case "u64":
		return uint64(v.I)
	case "f64":
		return float64(v.I) / 2
	case "str":
		return v.S
	case "mystr":
		return myString(v.S)
	case "bool":
		return v.I != 0
	case "nil":
		return nil
	case "nan":
		return math.NaN()
	case "negzero":
		return math.Copysign(0, -1)
	case "negzero32":
		return float32(math.Copysign(0, -1))
	case "bytes":
		return []byte(v.S)
	case "ints":
		return []int{int(v.I), int(v.I) + 1}
	case "map":
		return map[string]int{v.S: int(v.I)}
	case "ptr":
		i := int(v.I)
		return &i
	case "nilptr":
		return (*int)(nil)
	case "nilvaluer":
		return (*valuer)(nil)
	case "nilvvaluer":
		return (*vvaluer)(nil)
	case "vvaluer":
		return &vvaluer{v.S}
	case "niltime":
		return (*time.Time)(nil)
	case "time":
		return time.Unix(v.I, 123456789).UTC()
	case "timeloc":
		return time.Unix(v.I, 123456789).In(time.FixedZone("", 19800))
	case "valuert":
		return &valuer{id: id, out: time.Unix(v.I, 123456789).In(time.FixedZone("", -3600))}
	case "valuerf":
		return &valuer{id: id, out: float64(v.I) / 2}
	case "zerotime":
		return time.Time{}
	case "struct":
		return pair{int(v.I), v.S}
	case "valuer":
		return &valuer{id: id, out: v.S}
	case "valueri":
		return &valuer{id: id, out: v.I}
	case "valuern":
		return &valuer{id: id, out: nil}
	case "valuerbad":
		return &valuer{id: id, out: []int{1}}
	case "stringer":
		return &stringer{id: id, s: v.S}
	case "enum":
		return enum(v.I)
	case "selfvaluer":
		return selfValuer{v.I}
	case "pairvaluer":
		return pairValuer{v.I%2 == 0}
	case "deepvaluer":
		return &valuer{id: id, out: &vvaluer{v.S}}
	case "boxed":
		return boxed{[]int{int(v.I)}}
	case "arr":
		return [2]any{int(v.I), v.S}
	case "chan":
		return make(chan int)
	}
	panic("unknown value kind " + v.K)
}

// sameVal reports whether a is the very value b, or indistinguishable from it.
func sameVal(a, b any) bool {
	ta, tb := reflect.TypeOf(a), reflect.TypeOf(b)
	if ta != tb {
		return false
	}
	if ta == nil {
		return true
	}
	switch ta.Kind() {
	case reflect.Float32, reflect.Float64:
		fa, fb := reflect.ValueOf(a).Float(), reflect.ValueOf(b).Float()
		return fa == fb && math.Signbit(fa) == math.Signbit(fb) || math.IsNaN(fa) && math.IsNaN(fb)
	}
	if ta.Kind() == reflect.Pointer || ta.Kind() == reflect.Chan {
		return a == b
	}
	return reflect.DeepEqual(a, b)
}

// literal is the model of a rendered literal. ok is false if the value cannot be
// rendered.
func literal(id int, v Val, o *opState, timefmt string) (s string, ok bool, f *firedFault) {
	switch v.K {
	case "int", "i64", "i32", "u8", "u64", "i8", "i16", "uint", "u16", "u32", "myint":
		return fmt.Sprint(makeVal(id, v)), true, nil
	case "f64", "f32":
		return fmt.Sprintf("%f", float64(v.I)/2), true, nil
	case "negzero", "negzero32":
		return "-0.000000", true, nil
	case "str", "stringer", "mystr", "vvaluer":
		return quoteLit(v.S), true, nil
	case "bool", "mybool":
		if v.I != 0 {
			return "TRUE", true, nil
		}
		return "FALSE", true, nil
	case "nil", "nilptr", "nilvaluer", "nilvvaluer", "niltime":
		return "NULL", true, nil
	case "enum":
		if v.I < 0 || v.I > 2 {
			return "", false, nil
		}
		return quoteLit(enum(v.I).String()), true, nil
	case "valuern", "valuer", "valueri", "valuerbad", "valuert", "valuerf", "deepvaluer":
		if f := o.fire(fmt.Sprintf("V%d", id)); f != nil {
			return "", false, f
		}
		switch v.K {
		case "valuern":
			return "NULL", true, nil
		case "valuer", "deepvaluer":
			return quoteLit(v.S), true, nil
		case "valuert":
			return quoteTime(time.Unix(v.I, 123456789).In(time.FixedZone("", -3600)), timefmt), true, nil
		case "valuerf":
			return fmt.Sprintf("%f", float64(v.I)/2), true, nil
		case "valueri":
			return fmt.Sprint(v.I), true, nil
		}
		return "", false, nil
	case "time":
		return quoteTime(time.Unix(v.I, 123456789).UTC(), timefmt), true, nil
	case "timeloc":
		return quoteTime(time.Unix(v.I, 123456789).In(time.FixedZone("", 19800)), timefmt), true, nil
	case "zerotime":
		return "'0000-00-00'", true, nil
	case "nan":
		return "NaN", true, nil
	}
	return "", false, nil
}

func quoteTime(t time.Time, timefmt string) string {
	return "'" + t.Round(time.Microsecond).Format(timefmt) + "'"
}

func quoteLit(s string) string {
	out := []byte{'\''}
	for i := 0; i < len(s); i++ {
		if s[i] == '\'' {
			out = append(out, '\'')
		}
		out = append(out, s[i])
	}
	return string(append(out, '\''))
}

// simErr is the cause injected by a fault.
type simErr struct{ n int }

func (e *simErr) Error() string { return fmt.Sprintf("injected fault %d", e.n) }

type isIndexErr struct{ error }

func (e isIndexErr) Is(target error) bool { return target == errInvalidIndex }
func (e isIndexErr) Unwrap() error        { return e.error }

// firedFault is a fault that fired in an operation.
type firedFault struct {
	*Fault
	cause error
}

func (f *firedFault) err() error {
	switch f.Kind {
	case "werr":
		return fmt.Errorf("contributor %s: %w", f.At, f.cause)
	case "idx":
		return &joinedErr{f.cause, errInvalidIndex}
	case "jerr":
		return fmt.Errorf("contributor %s: %w", f.At, &joinedErr{errors.New("one"), &joinedErr{f.cause, errors.New("two")}})
	case "isidx":
		return isIndexErr{f.cause}
	case "norows":
		return &joinedErr{f.cause, sql.ErrNoRows}
	case "eofwrap":
		return &joinedErr{f.cause, io.EOF}
	case "txdone":
		return &joinedErr{f.cause, sql.ErrTxDone}
	case "ctxlike":
		return &joinedErr{f.cause, context.Canceled}
	case "timeout":
		return &joinedErr{f.cause, context.DeadlineExceeded}
	}
	return f.cause
}

// joinedErr wraps two errors, like fmt.Errorf with two %w.
type joinedErr struct{ a, b error }

func (e *joinedErr) Error() string   { return e.a.Error() + ": " + e.b.Error() }
func (e *joinedErr) Unwrap() []error { return []error{e.a, e.b} }

// opState is the state of an operation: how often which contributor was invoked and
// which faults fired. The model has one of its own.
type opState struct {
	task, op int
	faults   []*Fault
	counts   map[string]int
	fired    []*firedFault
	causes   map[*Fault]error
	db       *dbOpState
	off      bool // no more faults: a build failed, what it evaluated first does not matter
}

func newOpState(p *Plan, causes map[*Fault]error, task, op int) *opState {
	o := &opState{task: task, op: op, counts: map[string]int{}, causes: causes}
	for _, f := range p.Faults {
		if f.Task == task && f.Op == op {
			o.faults = append(o.faults, f)
		}
	}
	return o
}

func (o *opState) fire(at string) *firedFault {
	if o.off && (at[0] == 'N' || at[0] == 'F') {
		return nil
	}
	o.counts[at]++
	n := o.counts[at]
	for _, f := range o.faults {
		if f.At == at && f.Nth == n {
			ff := &firedFault{f, o.causes[f]}
			o.fired = append(o.fired, ff)
			return ff
		}
	}
	return nil
}

// fire counts an invocation of a contributor by the running operation.
func fire(at string) *firedFault {
	o, ok := simrt.LocalState().(*opState)
	if !ok || o == nil {
		return nil
	}
	return o.fire(at)
}

// failedBuild ends the injection of faults into the builds of the running operation.
func failedBuild() {
	if o, ok := simrt.LocalState().(*opState); ok && o != nil {
		o.off = true
	}
}

func panicAs(f *firedFault) {
	switch f.Kind {
	case "pstr":
		panic("injected panic: " + f.cause.Error())
	case "pnil":
		var p *pair
		p.A++
	case "pidx":
		panic((&firedFault{&Fault{At: f.At, Kind: "idx"}, f.cause}).err())
	}
	panic(f.cause)
}

// show prints a value without the addresses in it, which differ from one process to
// another.
func show(v any) string {
	switch v := v.(type) {
	case nil:
		return "nil"
	case *valuer:
		if v != nil {
			return fmt.Sprintf("*valuer %d", v.id)
		}
	case *stringer:
		if v != nil {
			return fmt.Sprintf("*stringer %d", v.id)
		}
	case *int:
		if v != nil {
			return fmt.Sprintf("*int to %d", *v)
		}
	case *vvaluer:
		if v != nil {
			return fmt.Sprintf("*vvaluer %q", v.s)
		}
	case time.Time:
		return "time " + v.Format(time.RFC3339Nano)
	}
	switch rv := reflect.ValueOf(v); rv.Kind() {
	case reflect.Pointer:
		if rv.IsNil() {
			return fmt.Sprintf("%T nil", v)
		}
		return fmt.Sprintf("%T", v)
	case reflect.Chan, reflect.Func:
		return fmt.Sprintf("%T", v)
	}
	return fmt.Sprintf("%T %#v", v, v)
}
