// Package simsync stands in for package sync in the code under test.
//
// Every operation is a scheduling point; a blocked operation hands the
// simulator's token on instead of parking the goroutine, so a deadlock is
// something the scheduler sees.  In race builds each primitive publishes
// exactly the happens-before edges the real one guarantees.
package simsync

import (
	"sync"
	"unsafe"

	"verifsim/rt"
)

// Locker is sync.Locker.
type Locker = sync.Locker

const wlock = 1 << 20

// Mutex is a simulated sync.Mutex.
type Mutex struct{ s int32 }

//go:norace
func (m *Mutex) tryset() bool {
	if m.s > 0 {
		return false
	}
	m.s = 1
	return true
}

//go:norace
func (m *Mutex) clear() bool {
	if m.s != 1 {
		return false
	}
	m.s = 0
	return true
}

// Lock locks m.
func (m *Mutex) Lock() {
	Stats.lock()
	rt.Point(1)
	for !m.tryset() {
		Stats.blocked()
		rt.Block(&m.s, 0)
	}
	rt.RaceAcquire(unsafe.Pointer(m))
}

// TryLock tries to lock m.
func (m *Mutex) TryLock() bool {
	rt.Point(2)
	if !m.tryset() {
		return false
	}
	rt.RaceAcquire(unsafe.Pointer(m))
	return true
}

// Unlock unlocks m.
func (m *Mutex) Unlock() {
	rt.RaceRelease(unsafe.Pointer(m))
	if !m.clear() {
		panic("sync: unlock of unlocked mutex")
	}
	rt.Point(3)
}

// RWMutex is a simulated sync.RWMutex.
type RWMutex struct {
	s    int32 // readers, or wlock
	r, w byte  // addresses for the race annotations
}

//go:norace
func (m *RWMutex) add(lim, d int32) bool {
	if m.s > lim {
		return false
	}
	m.s += d
	return true
}

//go:norace
func (m *RWMutex) sub(min, d int32) bool {
	if m.s < min {
		return false
	}
	m.s -= d
	return true
}

// Lock locks m for writing.
func (m *RWMutex) Lock() {
	Stats.lock()
	rt.Point(4)
	for !m.add(0, wlock) {
		Stats.blocked()
		rt.Block(&m.s, 0)
	}
	rt.RaceAcquire(unsafe.Pointer(&m.r))
	rt.RaceAcquire(unsafe.Pointer(&m.w))
}

// TryLock tries to lock m for writing.
func (m *RWMutex) TryLock() bool {
	rt.Point(4)
	if !m.add(0, wlock) {
		return false
	}
	rt.RaceAcquire(unsafe.Pointer(&m.r))
	rt.RaceAcquire(unsafe.Pointer(&m.w))
	return true
}

// Unlock unlocks m for writing.
func (m *RWMutex) Unlock() {
	rt.RaceRelease(unsafe.Pointer(&m.r))
	rt.RaceRelease(unsafe.Pointer(&m.w))
	if !m.sub(wlock, wlock) {
		panic("sync: Unlock of unlocked RWMutex")
	}
	rt.Point(5)
}

// RLock locks m for reading.
func (m *RWMutex) RLock() {
	Stats.lock()
	rt.Point(6)
	for !m.add(wlock-1, 1) {
		Stats.blocked()
		rt.Block(&m.s, wlock-1)
	}
	rt.RaceAcquire(unsafe.Pointer(&m.r))
}

// TryRLock tries to lock m for reading.
func (m *RWMutex) TryRLock() bool {
	rt.Point(6)
	if !m.add(wlock-1, 1) {
		return false
	}
	rt.RaceAcquire(unsafe.Pointer(&m.r))
	return true
}

// RUnlock undoes RLock.
func (m *RWMutex) RUnlock() {
	rt.RaceReleaseMerge(unsafe.Pointer(&m.w))
	if !m.sub(1, 1) {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	rt.Point(7)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns a Locker for reading.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once is a simulated sync.Once.
type Once struct {
	busy int32
	done bool
}

//go:norace
func (o *Once) state() (done, busy bool) { return o.done, o.busy > 0 }

//go:norace
func (o *Once) begin() { o.busy = 1 }

//go:norace
func (o *Once) end() { o.busy = 0; o.done = true }

// Do calls f the first time.
func (o *Once) Do(f func()) {
	rt.Point(8)
	for {
		done, busy := o.state()
		if done {
			rt.RaceAcquire(unsafe.Pointer(o))
			return
		}
		if !busy {
			break
		}
		Stats.blocked()
		rt.Block(&o.busy, 0)
	}
	o.begin()
	Stats.once()
	defer func() {
		rt.RaceRelease(unsafe.Pointer(o))
		o.end()
		rt.Point(9)
	}()
	f()
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var (
		once  Once
		valid bool
		p     interface{}
	)
	return func() {
		once.Do(func() {
			defer func() {
				p = recover()
				if !valid {
					panic(p)
				}
			}()
			f()
			valid = true
		})
		if !valid {
			panic(p)
		}
	}
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var r T
	g := OnceFunc(func() { r = f() })
	return func() T { g(); return r }
}

// OnceValues is sync.OnceValues.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var r1 T1
	var r2 T2
	g := OnceFunc(func() { r1, r2 = f() })
	return func() (T1, T2) { g(); return r1, r2 }
}

// WaitGroup is a simulated sync.WaitGroup.
type WaitGroup struct{ n int32 }

//go:norace
func (w *WaitGroup) add(d int32) int32 { w.n += d; return w.n }

// Add adds to the counter.
func (w *WaitGroup) Add(d int) {
	if d < 0 {
		rt.RaceReleaseMerge(unsafe.Pointer(w))
	}
	if w.add(int32(d)) < 0 {
		panic("sync: negative WaitGroup counter")
	}
	rt.Point(10)
}

// Done decrements the counter.
func (w *WaitGroup) Done() { w.Add(-1) }

// Wait waits for the counter to become zero.
func (w *WaitGroup) Wait() {
	rt.Point(11)
	rt.Block(&w.n, 0)
	rt.RaceAcquire(unsafe.Pointer(w))
}

// Go runs f in a new task.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	rt.Go(func() { defer w.Done(); f() })
}

// Cond is a simulated sync.Cond.
type Cond struct {
	L       Locker
	waiters []*int32
}

// NewCond returns a new Cond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func setw(p *int32, v int32) { *p = v }

// Wait waits for a signal.
func (c *Cond) Wait() {
	p := new(int32)
	setw(p, 1)
	c.waiters = append(c.waiters, p)
	c.L.Unlock()
	rt.Block(p, 0)
	rt.RaceAcquire(unsafe.Pointer(c))
	c.L.Lock()
}

// Signal wakes one waiter.
func (c *Cond) Signal() {
	rt.RaceReleaseMerge(unsafe.Pointer(c))
	if len(c.waiters) > 0 {
		setw(c.waiters[0], 0)
		c.waiters = c.waiters[1:]
	}
	rt.Point(12)
}

// Broadcast wakes all waiters.
func (c *Cond) Broadcast() {
	rt.RaceReleaseMerge(unsafe.Pointer(c))
	for _, p := range c.waiters {
		setw(p, 0)
	}
	c.waiters = nil
	rt.Point(13)
}

// Map is a simulated sync.Map: the real one behind scheduling points (its
// operations are atomic, and none of them blocks).
type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool) { rt.Point(14); return m.m.Load(k) }
func (m *Map) Store(k, v any)         { rt.Point(14); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	rt.Point(14)
	return m.m.LoadOrStore(k, v)
}
func (m *Map) LoadAndDelete(k any) (any, bool) { rt.Point(14); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                    { rt.Point(14); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)       { rt.Point(14); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool { rt.Point(14); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool  { rt.Point(14); return m.m.CompareAndDelete(k, o) }
func (m *Map) Clear()                          { rt.Point(14); m.m.Range(func(k, _ any) bool { m.m.Delete(k); return true }) }
func (m *Map) Range(f func(k, v any) bool)     { rt.Point(14); m.m.Range(f) }

// counters is what fired, for the evidence.
type counters struct {
	Locks, Blocked, Onces                  int64
	PoolGet, PoolMiss, PoolStale, PoolDrop int64
	PoolPut                                int64
}

// Stats counts synchronisation events.
var Stats counters

//go:norace
func (c *counters) lock() { c.Locks++ }

//go:norace
func (c *counters) blocked() { c.Blocked++ }

//go:norace
func (c *counters) once() { c.Onces++ }

// ---- Pool ----

// Ghost is how the simulator treats an item while it lies in a pool: nobody
// may read or write it then, so its content is replaced by rubbish, which is
// checked and taken out again before the item is handed out.
type Ghost interface {
	// Check reports whether the rubbish is untouched.
	Check() string
	// Restore puts the content back that the item had when it was put.
	Restore()
}

// Scribble, if set, is called for every item put.
var Scribble func(x interface{}) Ghost

// PoolPlan is how the pools of a run behave.
type PoolPlan struct {
	Mode string // "miss": always empty; "stale": reuse as much as possible; "mixed"
	Seed uint64
	Miss int // mixed: percentage of Gets that find nothing
	Drop int // mixed: percentage of Puts that are dropped
}

var (
	plan    PoolPlan
	prng    uint64
	gen     uint64
	poolMsg string
	live    []*Pool
)

// SetPlan begins a run with the given plan; all pools are empty.
func SetPlan(p PoolPlan) {
	plan = p
	prng = p.Seed*0x9e3779b97f4a7c15 + 1
	gen++
	poolMsg = ""
	live = live[:0]
}

//go:norace
func prnd() uint64 {
	prng += 0x9e3779b97f4a7c15
	z := prng
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Drain ends a run: the items still in the pools are checked.
func Drain() string {
	if !rt.RaceBuild {
		for _, p := range live {
			for i := 0; i < p.n; i++ {
				if g := p.items[i].g; g != nil {
					note(g.Check())
					g.Restore()
				}
				p.items[i] = slot{}
			}
			p.n = 0
		}
	}
	live = live[:0]
	m := poolMsg
	poolMsg = ""
	return m
}

func note(s string) {
	if s != "" && poolMsg == "" {
		poolMsg = s
	}
}

type slot struct {
	x interface{}
	g Ghost
}

const poolCap = 64

// Pool is a simulated sync.Pool: which items survive, and which of them a Get
// returns, is the simulator's choice.
type Pool struct {
	New func() interface{}

	gen   uint64
	n     int
	items [poolCap]slot
	edge  [poolCap]byte
}

//go:norace
func (p *Pool) refresh() bool {
	if p.gen != gen {
		p.gen = gen
		p.n = 0
		return true
	}
	return false
}

//go:norace
func (p *Pool) take() (s slot, e int, ok bool) {
	if p.n == 0 || plan.Mode == "miss" || plan.Mode == "" {
		return slot{}, 0, false
	}
	i := p.n - 1
	if plan.Mode == "mixed" {
		if int(prnd()%100) < plan.Miss {
			return slot{}, 0, false
		}
		i = int(prnd() % uint64(p.n))
	}
	s.x, s.g = p.items[i].x, p.items[i].g
	p.n--
	p.items[i].x, p.items[i].g = p.items[p.n].x, p.items[p.n].g
	p.items[p.n].x, p.items[p.n].g = nil, nil
	return s, i, true
}

//go:norace
func (p *Pool) give(x interface{}, g Ghost) {
	p.items[p.n].x, p.items[p.n].g = x, g
	p.n++
}

//go:norace
func (p *Pool) dropped() bool {
	if plan.Mode == "miss" || plan.Mode == "" || p.n == poolCap {
		return true
	}
	return plan.Mode == "mixed" && int(prnd()%100) < plan.Drop
}

//go:norace
func count(c *int64) { *c++ }

//go:norace
func dataptr(x interface{}) unsafe.Pointer {
	return (*[2]unsafe.Pointer)(unsafe.Pointer(&x))[1]
}

func (p *Pool) register() {
	if p.refresh() && !rt.RaceBuild {
		live = append(live, p)
	}
}

// Get returns an item.
func (p *Pool) Get() interface{} {
	count(&Stats.PoolGet)
	if rt.Active() {
		rt.Point(15)
		p.register()
		if s, _, ok := p.take(); ok {
			count(&Stats.PoolStale)
			rt.RaceAcquire(dataptr(s.x))
			if s.g != nil {
				note(s.g.Check())
				s.g.Restore()
			}
			return s.x
		}
	}
	count(&Stats.PoolMiss)
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put puts x in the pool.
func (p *Pool) Put(x interface{}) {
	if x == nil {
		return
	}
	count(&Stats.PoolPut)
	if !rt.Active() {
		return
	}
	p.register()
	if p.dropped() {
		count(&Stats.PoolDrop)
		rt.Point(16)
		return
	}
	var g Ghost
	if Scribble != nil {
		g = Scribble(x)
	}
	rt.RaceRelease(dataptr(x))
	p.give(x, g)
	rt.Point(16)
}
