// Package simrt is the runtime of the simulator: the yield hook that the build-time
// overlay puts before every statement of the library, and the scheduler that decides,
// from a seed or from a recorded schedule, which task runs next.
//
// Exactly one task (goroutine) runs at a time. Everything a running task touches here is
// only ever accessed by the goroutine that holds the baton, and is hidden from the race
// detector (go:norace, RaceDisable), so that the detector judges the library by the
// library's own synchronisation only.
package simrt

import (
	"runtime"
	"sort"
	"time"
)

// MaxSites is the limit of instrumented statements.
const MaxSites = 1 << 14

// Preempt is one involuntary switch: when the task has made Step steps, To runs next.
type Preempt struct {
	Task int   `json:"task"`
	Step int64 `json:"step"`
	To   int   `json:"to"`
	Site int   `json:"site,omitempty"` // where that was, for the reader
}

// Task states.
const (
	stReady = iota
	stSleeping
	stBlocked
	stDone
)

// Task is one simulated client.
type Task struct {
	ID    int
	Local any // state of the operation in progress, for harness callbacks
	Hung  bool
	Panic any // a panic that escaped the task body

	resume chan struct{}
	state  int
	wake   int64
	steps  int64
	opBase int64
	pre    []Preempt
	pi     int
	body   func()
	lock   *Lock
	noPre  int
}

// Config of one run.
type Config struct {
	Seed     uint64
	Explicit bool      // use Preempts only, draw nothing
	Preempts []Preempt // recorded schedule
	Mode     int       // 0 never preempt, 1 uniform, 2 rare sites first, 3 first steps of each site and function
	Period   int       // mean steps between preemptions (mode 1), scale in mode 2
	MaxPre   int       // bound on the number of preemptions
	Starts   []int     // order in which tasks get their first turn
	Limit    int64     // steps per operation
	Sleep    func(d time.Duration)
	Settle   func()
}

// Result of one run.
type Result struct {
	Taken    []Preempt // preemptions that happened, to replay with
	Digest   uint64    // digest of the sequence of switches
	Steps    int64
	Deadlock bool
	Switches int
}

type sched struct {
	cfg     Config
	tasks   []*Task
	parked  chan struct{}
	next    int // hint for the next task
	rng     uint64
	taken   []Preempt
	ntaken  int
	digest  uint64
	steps   int64
	visits  [MaxSites]uint16
	quantum int64
	bias    int
}

var (
	cur *Task
	s   *sched

	// Visited counts the steps at each site, Preempted the preemptions.
	Visited   [MaxSites]uint32
	Preempted [MaxSites]uint32

	mapSeed uint64
)

//go:norace
func (x *sched) rand() uint64 {
	x.rng += 0x9e3779b97f4a7c15
	z := x.rng
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

var resets []func()

// OnRun registers what must happen before each run.
func OnRun(f func()) { resets = append(resets, f) }

// SetMapSeed sets the seed of the order in which instrumented code iterates over maps.
//
//go:norace
func SetMapSeed(seed uint64) { mapSeed = seed }

// Cur returns the running task, or nil.
//
//go:norace
func Cur() *Task { return cur }

// LocalState returns the operation state of the running task.
//
//go:norace
func LocalState() any {
	if cur == nil {
		return nil
	}
	return cur.Local
}

// SetLocal sets the operation state of the running task and starts its step budget anew.
//
//go:norace
func SetLocal(v any) {
	if cur != nil {
		cur.Local = v
		cur.opBase = cur.steps
	}
}

// OpSteps returns the number of steps of the operation in progress.
//
//go:norace
func OpSteps() int64 {
	if cur == nil {
		return 0
	}
	return cur.steps - cur.opBase
}

// Y is called before every statement of the library.
//
//go:norace
func Y(site int) {
	t := cur
	if t == nil {
		return
	}
	if t.Hung {
		return
	}
	t.steps++
	x := s
	x.steps++
	Visited[site]++
	if t.steps-t.opBase > x.cfg.Limit {
		t.Hung = true
		runtime.Goexit()
	}
	if x.cfg.Explicit {
		if t.pi < len(t.pre) && t.pre[t.pi].Step <= t.steps {
			p := t.pre[t.pi]
			t.pi++
			Preempted[site]++
			if x.ntaken < len(x.taken) {
				x.taken[x.ntaken] = Preempt{Task: t.ID, Step: t.steps, To: p.To, Site: site}
				x.ntaken++
			}
			x.switchTo(t, p.To)
		}
		return
	}
	if x.cfg.Mode == 0 || x.ntaken >= x.cfg.MaxPre || t.noPre > 0 {
		return
	}
	n := x.visits[site]
	if n < 65535 {
		x.visits[site] = n + 1
	}
	r := x.rand()
	hit := false
	switch x.cfg.Mode {
	case 1:
		hit = r%uint64(x.cfg.Period) == 0
	case 2:
		hit = r%uint64(uint64(x.cfg.Period)*(1+uint64(n))/4+1) == 0
	case 3:
		hit = n < 2 && r%4 == 0
	}
	if !hit {
		return
	}
	to := int((r >> 32) % uint64(len(x.tasks)))
	if to == t.ID || x.tasks[to].state != stReady {
		return
	}
	if x.ntaken < len(x.taken) {
		x.taken[x.ntaken] = Preempt{Task: t.ID, Step: t.steps, To: to, Site: site}
		x.ntaken++
	}
	Preempted[site]++
	x.switchTo(t, to)
}

// Exits is called where the library is about to end the process.
func Exits(how string) { panic("the library ends the process: " + how) }

// Point is a voluntary scheduling point in harness code (driver, callbacks).
//
//go:norace
func Point() { Y(0) }

// NoPreempt brackets harness code in which a switch must not happen.
//
//go:norace
func NoPreempt(d int) {
	if cur != nil {
		cur.noPre += d
	}
}

//go:norace
func (x *sched) switchTo(t *Task, to int) {
	x.next = to
	x.park(t)
}

//go:norace
func (x *sched) park(t *Task) {
	cur = nil
	quiet()
	x.parked <- struct{}{}
	<-t.resume
	loud()
}

// Sleep makes the running task sleep in simulated time.
//
//go:norace
func Sleep(d time.Duration) {
	t := cur
	if t == nil {
		return
	}
	t.state = stSleeping
	t.wake = time.Now().UnixNano() + int64(d)
	s.next = -1
	s.park(t)
}

// Lock is a lock of a sync shim.
type Lock struct {
	writer  *Task
	readers int
	held    bool
}

// Acquire blocks the running task until the lock is free. It reports false outside of a
// simulation.
//
//go:norace
func (l *Lock) Acquire(write bool) bool {
	t := cur
	if t == nil {
		return false
	}
	for l.held || (write && l.readers > 0) {
		t.state = stBlocked
		t.lock = l
		s.next = -1
		s.park(t)
	}
	if write {
		l.held = true
	} else {
		l.readers++
	}
	return true
}

// TryAcquire is Acquire that does not block.
//
//go:norace
func (l *Lock) TryAcquire(write bool) bool {
	if l.held || (write && l.readers > 0) {
		return false
	}
	if write {
		l.held = true
	} else {
		l.readers++
	}
	return true
}

// Release frees the lock.
//
//go:norace
func (l *Lock) Release(write bool) {
	if write {
		l.held = false
	} else if l.readers > 0 {
		l.readers--
	}
	if s == nil {
		return
	}
	for _, t := range s.tasks {
		if t.state == stBlocked && t.lock == l {
			t.state = stReady
			t.lock = nil
		}
	}
}

// Run runs the bodies as tasks until all of them are done.
//
//go:norace
func Run(cfg Config, bodies []func()) (*Result, []*Task) {
	for _, f := range resets {
		f()
	}
	x := &sched{cfg: cfg, parked: make(chan struct{}), rng: cfg.Seed}
	if cfg.Limit <= 0 {
		x.cfg.Limit = 1 << 40
	}
	if cfg.Period <= 0 {
		x.cfg.Period = 1
	}
	if cfg.MaxPre > 0 && !cfg.Explicit {
		x.taken = make([]Preempt, cfg.MaxPre)
	}
	if cfg.Explicit {
		x.taken = make([]Preempt, len(cfg.Preempts))
	}
	for i, b := range bodies {
		t := &Task{ID: i, resume: make(chan struct{}), body: b}
		for _, p := range cfg.Preempts {
			if p.Task == i && p.To >= 0 && p.To < len(bodies) {
				t.pre = append(t.pre, p)
			}
		}
		sort.SliceStable(t.pre, func(i, j int) bool { return t.pre[i].Step < t.pre[j].Step })
		x.tasks = append(x.tasks, t)
	}
	s = x
	done := make(chan struct{}, len(bodies))
	for _, t := range x.tasks {
		go taskMain(x, t, done)
	}
	res := &Result{}
	last := -1
	x.next = -1
	for {
		t := x.pick(last)
		if t == nil {
			// nobody is ready: let simulated time pass, if somebody sleeps
			min := int64(-1)
			alive := false
			for _, t := range x.tasks {
				if t.state == stSleeping && (min < 0 || t.wake < min) {
					min = t.wake
				}
				if t.state != stDone {
					alive = true
				}
			}
			if !alive {
				break
			}
			if min < 0 || cfg.Sleep == nil {
				res.Deadlock = true
				break
			}
			d := time.Duration(min - time.Now().UnixNano())
			if d > 0 {
				cfg.Sleep(d)
			}
			now := time.Now().UnixNano()
			for _, t := range x.tasks {
				if t.state == stSleeping && t.wake <= now {
					t.state = stReady
				}
			}
			continue
		}
		if cfg.Settle != nil {
			cfg.Settle()
		}
		if last >= 0 && last != t.ID {
			res.Switches++
		}
		x.digest = (x.digest ^ uint64(t.ID+1)) * 0x100000001b3
		x.digest = (x.digest ^ uint64(x.steps)) * 0x100000001b3
		last = t.ID
		x.next = -1
		cur = t
		quiet()
		t.resume <- struct{}{}
		<-x.parked
		loud()
		cur = nil
	}
	if !res.Deadlock {
		for range x.tasks {
			<-done // real synchronisation: results of the tasks may be read from here on
		}
	}
	s = nil
	res.Taken = x.taken[:x.ntaken:x.ntaken]
	res.Digest = x.digest
	res.Steps = x.steps
	return res, x.tasks
}

//go:norace
func (x *sched) pick(last int) *Task {
	if x.next >= 0 && x.next < len(x.tasks) && x.tasks[x.next].state == stReady {
		return x.tasks[x.next]
	}
	if last >= 0 && x.tasks[last].state == stReady {
		return x.tasks[last]
	}
	for _, i := range x.cfg.Starts {
		if i >= 0 && i < len(x.tasks) && x.tasks[i].state == stReady {
			return x.tasks[i]
		}
	}
	for _, t := range x.tasks {
		if t.state == stReady {
			return t
		}
	}
	return nil
}

//go:norace
func taskMain(x *sched, t *Task, done chan struct{}) {
	quiet()
	<-t.resume
	loud()
	defer taskEnd(x, t, done)
	t.body()
}

//go:norace
func taskEnd(x *sched, t *Task, done chan struct{}) {
	if !t.Hung {
		if r := recover(); r != nil {
			t.Panic = r
		}
	}
	t.state = stDone
	x.next = -1
	done <- struct{}{}
	cur = nil
	quiet()
	x.parked <- struct{}{}
	loud()
}

// permute shuffles n elements in an order that depends only on the map seed of the run.
func permute(n int, swap func(i, j int)) {
	seed := mapSeedNow()
	z := seed
	for i := n - 1; i > 0; i-- {
		z = z*6364136223846793005 + 1442695040888963407
		j := int((z >> 33) % uint64(i+1))
		swap(i, j)
	}
}

//go:norace
func mapSeedNow() uint64 { return mapSeed }
