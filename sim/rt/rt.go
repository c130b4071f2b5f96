// Package rt is the simulator's scheduler.
//
// The tasks of a run are goroutines, but only the one that holds the token
// runs; the others spin on runtime.Gosched until the scheduler hands it to
// them.  Every statement of the code under test calls Y, and every operation of
// package simsync calls Point; those are the only places where the token moves,
// and who gets it, and for how many steps, is decided by one PRNG or by a
// recorded schedule.  So one seed (or one schedule) is one execution.
//
// All scheduler state is touched by functions marked norace only, through plain
// loads and stores, and no channel, lock or atomic is used to pass the token:
// in a race build the scheduler therefore adds no happens-before edge between
// tasks, and the race detector judges the code under test by the edges that
// code itself establishes.
//
// Worker processes run with GOMAXPROCS=1.
package rt

import (
	"fmt"
	"runtime"
	"sync"
	"unsafe"
)

const (
	// maxRun is the longest a task runs while others could: code that waits
	// for another goroutine by polling must not be starved for ever.
	maxRun   = 300000
	MaxTasks = 16
	maxSegs  = 1 << 16
)

// Seg is one stretch of a schedule: Task ran for N steps.
type Seg struct {
	Task int
	N    int64
}

// Strategy says how the scheduler picks.
type Strategy struct {
	Kind    string // "solo", "quantum", "pct", "sync", "hot", "replay"
	Seed    uint64
	Mean    int64 // quantum: mean quantum; pct: estimated number of steps
	Depth   int   // pct: number of priority changes
	HotMask uint32
	HotWant uint32
	Segs    []Seg // replay
	Budget  int64 // step limit of the run, 0 = none
	Watch   func() string
	OnStep  bool // evaluate Watch at each switch
}

const (
	kSolo = iota
	kQuantum
	kPCT
	kSync
	kHot
	kReplay
)

type task struct {
	fn      func()
	done    bool
	killed  bool
	dying   bool
	left    int32
	waitOn  *int32
	waitMax int32
	prio    int64
	panicV  interface{}
}

// Outcome of a run.
type Outcome struct {
	Steps     int64
	Switches  int64
	Points    int64
	Hash      uint64 // hash of (task, site) over all switches
	Segs      []Seg
	Truncated bool
	Deadlock  bool
	Budget    bool
	WatchMsg  string
	Killed    []int
}

// Abort is what an aborted task panics with.
type Abort struct{}

func (Abort) Error() string { return "simulated run aborted" }

var (
	active   bool
	cur      int32
	steps    int64
	nextStop int64
	tasks    [MaxTasks]task
	ntasks   int32

	kind    int
	rng     uint64
	mean    int64
	chg     [64]int64
	nchg    int
	lowPrio int64
	hotMask uint32
	hotWant uint32
	rseg    []Seg
	rpos    int
	budget  int64
	watch   func() string
	inWatch bool

	segBuf   [maxSegs]Seg
	nseg     int
	segStart int64
	switches int64
	points   int64
	hash     uint64
	deadlock bool
	overrun  bool
	watchMsg string
	aborting bool
	mainWait bool

	spawnMu sync.Mutex
	wg      sync.WaitGroup

	// SiteHit records at which sites the token was taken away.
	SiteHit [1 << 15]uint32
)

//go:norace
func rnd() uint64 {
	rng += 0x9e3779b97f4a7c15
	z := rng
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Y is called before every statement of the code under test.
//
//go:norace
func Y(site uint32) {
	if !active {
		return
	}
	steps++
	if steps >= nextStop {
		slow(site, false)
	}
}

// Point is called by the simulated synchronisation primitives and by the
// simulated devices: a place where strategies that preempt at
// synchronisation only may switch.
//
//go:norace
func Point(site uint32) {
	if !active {
		return
	}
	steps++
	points++
	if kind == kSync || kind == kHot || steps >= nextStop {
		slow(site, true)
	}
}

// Active reports whether a simulated run is going on.
//
//go:norace
func Active() bool { return active && !inWatch }

// Cur returns the running task.
//
//go:norace
func Cur() int { return int(cur) }

// Steps returns the number of steps so far.
//
//go:norace
func Steps() int64 { return steps }

//go:norace
func runnable(i int32) bool {
	t := &tasks[i]
	if t.done {
		return false
	}
	if aborting {
		return true
	}
	return t.waitOn == nil || *t.waitOn <= t.waitMax
}

//go:norace
func quantum() int64 {
	switch kind {
	case kQuantum:
		// roughly geometric, mean "mean"
		q := int64(1)
		for r := rnd(); r&3 != 0 && q < 8; r >>= 2 {
			q++
		}
		return 1 + int64(rnd()%uint64(q*mean/2+1))
	case kHot:
		return 1
	}
	return maxRun
}

//go:norace
func pickRandom() int32 {
	var c [MaxTasks]int32
	n := 0
	for i := int32(0); i < ntasks; i++ {
		if runnable(i) {
			c[n] = i
			n++
		}
	}
	if n == 0 {
		return -1
	}
	return c[rnd()%uint64(n)]
}

//go:norace
func pickPrio() int32 {
	best := int32(-1)
	for i := int32(0); i < ntasks; i++ {
		if runnable(i) && (best < 0 || tasks[i].prio > tasks[best].prio) {
			best = i
		}
	}
	return best
}

//go:norace
func pickFirst() int32 {
	for i := int32(0); i < ntasks; i++ {
		if runnable(i) {
			return i
		}
	}
	return -1
}

// pickAfter picks the next task in turn.
//
//go:norace
func pickAfter() int32 {
	for k := int32(1); k <= ntasks; k++ {
		i := cur + k
		if i < 0 {
			i = k - 1
		}
		i %= ntasks
		if runnable(i) {
			return i
		}
	}
	return -1
}

// choose picks the next task and sets nextStop.
//
//go:norace
func choose() int32 {
	switch kind {
	case kPCT:
		if cur >= 0 && cur < ntasks && steps-segStart >= maxRun {
			lowPrio--
			tasks[cur].prio = lowPrio
		}
		for nchg > 0 && steps >= chg[nchg-1] {
			nchg--
			lowPrio--
			if cur >= 0 && cur < ntasks {
				tasks[cur].prio = lowPrio
			}
		}
		t := pickPrio()
		nextStop = steps + maxRun
		if nchg > 0 && chg[nchg-1] < nextStop {
			nextStop = chg[nchg-1]
		}
		return t
	case kReplay:
		for rpos < len(rseg) {
			s := rseg[rpos]
			rpos++
			if s.Task < int(ntasks) && s.N > 0 && runnable(int32(s.Task)) {
				nextStop = steps + s.N
				return int32(s.Task)
			}
		}
		nextStop = steps + maxRun
		return pickAfter()
	case kSolo:
		nextStop = 1 << 60
		return pickFirst()
	}
	t := pickRandom()
	nextStop = steps + quantum()
	return t
}

//go:norace
func slow(site uint32, point bool) {
	me := cur
	if aborting {
		// Code under test may swallow the panic, as fmt does; a task that
		// goes on running is hit again.
		tasks[me].left--
		if !tasks[me].dying || tasks[me].left < 0 {
			tasks[me].left = 5000
			tasks[me].dying = true
			tasks[me].killed = true
			panic(Abort{})
		}
		return
	}
	if inWatch {
		return
	}
	if budget > 0 && steps >= budget {
		overrun = true
		abortAll(me)
		return
	}
	switch kind {
	case kHot:
		if steps-segStart >= maxRun {
			break
		}
		if !point && (site*2654435761>>16)&hotMask != hotWant {
			capStop(steps + 1)
			return
		}
		if rnd()&1 == 0 {
			capStop(steps + 1)
			return
		}
	case kSync:
		if !point && steps-segStart < maxRun {
			capStop(steps + maxRun)
			return
		}
		if point && rnd()&1 == 0 {
			return
		}
	}
	next := choose()
	capStop(nextStop)
	if next < 0 {
		// Cannot happen here: the current task is runnable.
		return
	}
	if next == me {
		return
	}
	SiteHit[site&(1<<15-1)]++
	hash = (hash ^ uint64(site)) * 0x100000001b3
	switchTo(me, next)
}

//go:norace
func capStop(n int64) {
	if budget > 0 && n > budget {
		n = budget
	}
	nextStop = n
}

//go:norace
func record(me int32) {
	if steps > segStart || true {
		if nseg < maxSegs {
			segBuf[nseg] = Seg{int(me), steps - segStart}
			nseg++
		}
	}
	segStart = steps
}

// switchTo hands the token to next and waits for it to come back.
//
//go:norace
func switchTo(me, next int32) {
	record(me)
	switches++
	hash = (hash ^ uint64(next+1)) * 0x100000001b3
	if watch != nil && watchMsg == "" {
		inWatch = true
		active = false
		watchMsg = watch()
		active = true
		inWatch = false
		if watchMsg != "" {
			abortAll(me)
			return
		}
	}
	cur = next
	for cur != me {
		runtime.Gosched()
	}
	afterResume(me)
}

//go:norace
func afterResume(me int32) {
	if aborting && !tasks[me].dying {
		tasks[me].dying = true
		tasks[me].left = 5000
		tasks[me].killed = true
		panic(Abort{})
	}
}

//go:norace
func abortAll(me int32) {
	aborting = true
	nextStop = 0
	tasks[me].left = 5000
	if !tasks[me].dying {
		tasks[me].dying = true
		tasks[me].killed = true
		panic(Abort{})
	}
}

// Block waits until *p <= max.  It returns at once if no run is active.
//
//go:norace
func Block(p *int32, max int32) {
	if !active {
		if *p > max {
			panic(Deadlock{})
		}
		return
	}
	me := cur
	t := &tasks[me]
	for *p > max {
		if aborting {
			t.left -= 500
			if !t.dying || t.left < 0 {
				t.left = 5000
				t.dying = true
				t.killed = true
				panic(Abort{})
			}
			return
		}
		t.waitOn, t.waitMax = p, max
		next := choose()
		capStop(nextStop)
		if next < 0 {
			t.waitOn = nil
			deadlock = true
			abortAll(me)
			return
		}
		if next != me {
			hash = (hash ^ 0xb10c) * 0x100000001b3
			switchTo(me, next)
		}
		t.waitOn = nil
	}
}

// Deadlock is what a lock operation panics with that can never succeed, when
// no run is active.
type Deadlock struct{}

func (Deadlock) Error() string { return "deadlock" }

// Go starts a simulated task from code under test.
func Go(fn func()) {
	if !Active() {
		panic("go statement outside a simulated run")
	}
	i := addTask(fn)
	if i < 0 {
		panic("too many simulated tasks")
	}
	wg.Add(1)
	go runTask(i)
	Point(0)
}

//go:norace
func addTask(fn func()) int32 {
	if ntasks >= MaxTasks {
		return -1
	}
	i := ntasks
	tasks[i] = task{fn: fn, prio: int64(rnd() >> 2)}
	ntasks++
	return i
}

//go:norace
func waitFor(i int32) {
	for cur != i {
		runtime.Gosched()
	}
}

func runTask(i int32) {
	defer wg.Done()
	waitFor(i)
	defer finish(i)
	defer catch(i)
	if !isAborting() {
		taskFn(i)()
	}
}

//go:norace
func isAborting() bool { return aborting }

//go:norace
func taskFn(i int32) func() { return tasks[i].fn }

func catch(i int32) {
	if v := recover(); v != nil {
		setPanic(i, v)
	}
}

//go:norace
func setPanic(i int32, v interface{}) {
	if _, ok := v.(Abort); ok {
		tasks[i].killed = true
		return
	}
	tasks[i].panicV = v
}

//go:norace
func finish(i int32) {
	tasks[i].done = true
	record(i)
	next := choose2()
	cur = next
}

//go:norace
func choose2() int32 {
	if aborting {
		n := pickFirst()
		nextStop = 0
		if n < 0 {
			return -1
		}
		return n
	}
	n := choose()
	capStop(nextStop)
	if n < 0 {
		for i := int32(0); i < ntasks; i++ {
			if !tasks[i].done {
				deadlock = true
				aborting = true
				nextStop = 0
				return i
			}
		}
		return -1
	}
	hash = (hash ^ uint64(n+1)) * 0x100000001b3
	return n
}

//go:norace
func setup(st *Strategy, n int) {
	switch st.Kind {
	case "solo":
		kind = kSolo
	case "quantum":
		kind = kQuantum
	case "pct":
		kind = kPCT
	case "sync":
		kind = kSync
	case "hot":
		kind = kHot
	case "replay":
		kind = kReplay
	default:
		panic("unknown strategy " + st.Kind)
	}
	rng = st.Seed
	mean = st.Mean
	if mean < 1 {
		mean = 1
	}
	hotMask, hotWant = st.HotMask, st.HotWant
	rseg, rpos = st.Segs, 0
	budget = st.Budget
	watch = st.Watch
	watchMsg = ""
	steps, segStart, nseg, switches, points = 0, 0, 0, 0, 0
	hash = 14695981039346656037
	deadlock, overrun, aborting, inWatch = false, false, false, false
	lowPrio = 0
	nchg = 0
	ntasks = int32(n)
	if kind == kPCT {
		d := st.Depth
		if d > len(chg) {
			d = len(chg)
		}
		for i := 0; i < d; i++ {
			chg[i] = 1 + int64(rnd()%uint64(mean))
		}
		nchg = d
		// insertion sort, descending: the next change point is the last
		for i := 1; i < d; i++ {
			for j := i; j > 0 && chg[j] > chg[j-1]; j-- {
				chg[j], chg[j-1] = chg[j-1], chg[j]
			}
		}
	}
	for i := 0; i < n; i++ {
		tasks[i].prio = 1 + int64(rnd()>>2)
	}
}

//go:norace
func setTask(i int, fn func()) { tasks[i] = task{fn: fn} }

//go:norace
func start() int32 {
	active = true
	cur = -2
	n := choose()
	capStop(nextStop)
	return n
}

//go:norace
func handOver(n int32) { cur = n }

//go:norace
func stop(o *Outcome) {
	active = false
	o.Steps, o.Switches, o.Points, o.Hash = steps, switches, points, hash
	o.Deadlock, o.Budget, o.WatchMsg = deadlock, overrun, watchMsg
	o.Truncated = nseg >= maxSegs
	o.Segs = make([]Seg, nseg)
	for i := 0; i < nseg; i++ {
		o.Segs[i] = segBuf[i]
	}
	watch = nil
}

// Run executes the tasks under the strategy and returns when all are done.
// A panic that leaves a task is returned in panics (nil if none).
func Run(st *Strategy, fns ...func()) (o Outcome, panics []interface{}) {
	if len(fns) > MaxTasks {
		panic("too many tasks")
	}
	for i, f := range fns {
		setTask(i, f)
	}
	setup(st, len(fns))
	wg.Add(len(fns))
	for i := range fns {
		go runTask(int32(i))
	}
	handOver(start())
	wg.Wait()
	stop(&o)
	for i := 0; i < int(ntasks); i++ {
		panics = append(panics, tasks[i].panicV)
		if tasks[i].killed {
			o.Killed = append(o.Killed, i)
		}
		tasks[i] = task{}
	}
	return o, panics
}

// RegisterReset registers the function that puts a package's variables back
// to what they are when a process starts.  Registration happens in package
// initialisation order, so dependencies come first.
func RegisterReset(path string, f func()) {
	resets = append(resets, f)
	ResetPkgs = append(ResetPkgs, path)
}

var (
	resets []func()
	// ResetPkgs lists the packages that can be restarted.
	ResetPkgs []string
	// Restarts counts simulated process restarts.
	Restarts int64
)

// Restart simulates a restart of the process: all package state goes back to
// its initial value.
func Restart() {
	Restarts++
	for _, f := range resets {
		f()
	}
}

// Addr is for the race annotations.
type Addr = unsafe.Pointer

var _ = fmt.Sprint
