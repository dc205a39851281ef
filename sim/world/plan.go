// Package world is the simulated deployment of go-sqlf: clients (tasks) that compose and
// build statements from shared parts and run them on a simulated database, a reference
// model that predicts what they get, and the generators of both workload and faults.
package world

import (
	"encoding/hex"
	"encoding/json"

	"verif.local/sim/simrt"
)

// Plan is everything that decides a run: objects, tasks with their operations, faults
// and schedule. It is the replay file.
type Plan struct {
	Prop    string            `json:"prop"`
	Seed    uint64            `json:"seed"`
	Salt    string            `json:"salt,omitempty"`
	Vals    []Val             `json:"vals,omitempty"`
	Nodes   []*Node           `json:"nodes,omitempty"`
	ASlices []ASlice          `json:"aslices,omitempty"`
	FSlices []FSlice          `json:"fslices,omitempty"`
	PropsA  [][]int           `json:"props_a,omitempty"` // global args properties, by value
	PropsF  [][]int           `json:"props_f,omitempty"` // global fragment properties, by node
	Funcs   []*FuncSet        `json:"funcs,omitempty"`
	Tasks   []*TaskPlan       `json:"tasks"`
	Faults  []*Fault          `json:"faults,omitempty"`
	MapSeed uint64            `json:"map_seed"`
	DB      *DBPlan           `json:"db,omitempty"`
	Log     string            `json:"log,omitempty"` // behaviour of the log output: "", fail, short
	Mode    int               `json:"mode"`          // preemption strategy
	Period  int               `json:"period,omitempty"`
	MaxPre  int               `json:"max_pre,omitempty"`
	Starts  []int             `json:"starts,omitempty"`
	Sched   bool              `json:"sched,omitempty"` // the schedule is Pre, not drawn
	Pre     []simrt.Preempt   `json:"preempts,omitempty"`
	Note    map[string]string `json:"note,omitempty"`
}

// TaskPlan is a client.
type TaskPlan struct {
	Ops []*Op `json:"ops"`
}

// Val is a bound value.
type Val struct {
	K string `json:"k"`
	I int64  `json:"i,omitempty"`
	S string `json:"s,omitempty"`
}

// ASlice is an argument slice owned by a caller, with spare capacity.
type ASlice struct {
	Vals  []int `json:"vals"`
	Spare int   `json:"spare"`
}

// FSlice is a slice of fragments owned by a caller, with spare capacity.
type FSlice struct {
	Nodes []int `json:"nodes"`
	Spare int   `json:"spare"`
}

// Node kinds.
const (
	NFrag    = "frag"
	NNilFrag = "nilfrag" // (*sqlf.Fragment)(nil)
	NNilIf   = "nilif"   // FragmentBuilder(nil)
	NTable   = "table"
	NAliased = "aliased"
	NCol     = "col"
	NAnon    = "anon"
	NExpr    = "expr"
	NCB      = "cb" // custom builder
	NQB      = "qb"
	NNilQB   = "nilqb"
	NNilCol  = "nilcol" // (*sqlb.Column)(nil)
)

// Node is a part: a fragment, table, column, custom builder or query builder.
type Node struct {
	K string `json:"k"`
	// fragment
	P    []*Piece `json:"p,omitempty"`
	Pre  string   `json:"pre,omitempty"`
	Suf  string   `json:"suf,omitempty"`
	Args []int    `json:"args,omitempty"`
	Frs  []int    `json:"frs,omitempty"`
	ASl  int      `json:"asl,omitempty"` // 1+index of the shared slice that Args come from
	FSl  int      `json:"fsl,omitempty"`
	AppA []int    `json:"appa,omitempty"` // then appended
	AppF []int    `json:"appf,omitempty"`
	Lit  bool     `json:"lit,omitempty"` // composed as a struct literal
	// table, column
	Name  string `json:"name,omitempty"`
	Alias string `json:"alias,omitempty"`
	Col   string `json:"col,omitempty"`
	// custom builder, expr column
	Mode  string `json:"mode,omitempty"`
	Child int    `json:"child,omitempty"`
	Vals  []int  `json:"vals,omitempty"`
	Text  string `json:"text,omitempty"`
	FS    int    `json:"fs,omitempty"`
	// query builder
	Cfg []*QOp `json:"cfg,omitempty"`
}

// Piece kinds.
const (
	PText  = "t"   // plain text
	PBind  = "b"   // bind var; N is the number, Form 1: '?' style
	PFrag  = "f"   // #f1
	PArg   = "a"   // #arg1
	PJoin  = "j"   // #join(...)
	PCall  = "c"   // #name(...)
	PValue = "v"   // function value, in join templates
	PBad   = "bad" // something that must fail the build: S is the text
)

// Piece is a part of a template.
type Piece struct {
	K    string   `json:"k"`
	S    string   `json:"s,omitempty"`
	N    int      `json:"n,omitempty"`
	Form int      `json:"form,omitempty"`
	Name string   `json:"name,omitempty"`
	T    []*Piece `json:"t,omitempty"`
	Sep  string   `json:"sep,omitempty"`
	From int      `json:"from,omitempty"`
	To   int      `json:"to,omitempty"`
	NIdx int      `json:"nidx,omitempty"`
	CA   []CArg   `json:"ca,omitempty"`
	Sp   string   `json:"sp,omitempty"` // white space between arguments
}

// CArg is an argument of a function call.
type CArg struct {
	K string  `json:"k"` // n, s, b, nil
	N float64 `json:"n,omitempty"`
	S string  `json:"s,omitempty"`
	B bool    `json:"b,omitempty"`
}

// FuncSet is a set of preprocessing functions, registered together.
type FuncSet struct {
	Fns []*FuncSpec `json:"fns"`
}

// FuncSpec is a preprocessing function.
type FuncSpec struct {
	Name string `json:"name"`
	K    string `json:"k"`
	Vals []int  `json:"vals,omitempty"`
	Ns   []int  `json:"ns,omitempty"`
	N    int    `json:"n,omitempty"`
	Text string `json:"text,omitempty"`
	FS   int    `json:"fs,omitempty"`
	T    string `json:"t,omitempty"` // number type
}

// Op is an operation of a client.
type Op struct {
	K     string   `json:"k"`
	Local []*Node  `json:"local,omitempty"` // parts composed by this operation: node LocalBase+i
	Node  int      `json:"node,omitempty"`
	Style string   `json:"style,omitempty"` // "$" or "?"
	Ctxs  []CtxDef `json:"ctxs,omitempty"`
	Steps []Step   `json:"steps,omitempty"`
	// mutations
	Mut  string `json:"mut,omitempty"`
	Vals []int  `json:"vals,omitempty"`
	Ns   []int  `json:"ns,omitempty"`
	Text string `json:"text,omitempty"`
	ASl  int    `json:"asl,omitempty"`
	FSl  int    `json:"fsl,omitempty"`
	Cfg  *QOp   `json:"cfg,omitempty"`
	// templates and literals
	P       []*Piece `json:"p,omitempty"`
	Cut     int      `json:"cut,omitempty"`
	Flips   []Flip   `json:"flips,omitempty"`
	Rep     int      `json:"rep,omitempty"` // the template so many times over
	TimeFmt string   `json:"timefmt,omitempty"`
	// database
	DB *DBOp `json:"db,omitempty"`
}

// Flip replaces the byte at Pos.
type Flip struct {
	Pos int    `json:"pos"`
	S   string `json:"s"`
	Del int    `json:"del"`
	Hex string `json:"hex,omitempty"` // instead of S: bytes that are not valid UTF-8
}

func (f Flip) text() string {
	if f.Hex != "" {
		b, err := hex.DecodeString(f.Hex)
		if err != nil {
			panic(err)
		}
		return string(b)
	}
	return f.S
}

// LocalBase is the id of the first local node of an operation.
const LocalBase = 1000

// CtxDef is a context of a session: the first one is the root, the others are derived.
type CtxDef struct {
	Parent int `json:"parent"`
	FS     int `json:"fs"` // function set
}

// Step builds a node in a context.
type Step struct {
	Ctx  int `json:"ctx"`
	Node int `json:"node"`
	// App: afterwards the client appends to the list of arguments of this step (1) or of an
	// earlier one (2, 3, ...), for a statement of its own
	App int `json:"app,omitempty"`
}

// QOp configures a query builder.
type QOp struct {
	K     string   `json:"k"`
	Ns    []int    `json:"ns,omitempty"`
	Name  string   `json:"name,omitempty"`
	Alias string   `json:"alias,omitempty"`
	N     int64    `json:"n,omitempty"`
	S     string   `json:"s,omitempty"`
	Vals  []int    `json:"vals,omitempty"`
	Deps  []string `json:"deps,omitempty"`
	Ptr   bool     `json:"ptr,omitempty"`
}

// Fault makes a contributor fail at its Nth invocation in an operation.
type Fault struct {
	Task int    `json:"task"`
	Op   int    `json:"op"`
	At   string `json:"at"`
	Nth  int    `json:"nth"`
	Kind string `json:"kind"`
}

// Clone copies a plan.
func (p *Plan) Clone() *Plan {
	data, err := json.Marshal(p)
	if err != nil {
		panic(err)
	}
	c := new(Plan)
	if err := json.Unmarshal(data, c); err != nil {
		panic(err)
	}
	return c
}
