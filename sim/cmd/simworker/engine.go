package main

import (
	"fmt"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"unsafe"

	"github.com/ericlagergren/decimal"
	"github.com/ericlagergren/decimal/sql/postgres"
	"verifsim/rt"
	"verifsim/simsync"
)

// Case is one simulated run, complete: what is in it determines everything.
type Case struct {
	Prop  string `json:"property"`
	Seed  uint64 `json:"seed"` // where it came from; not used by the run
	Race  bool   `json:"race,omitempty"`
	Vals  []Val  `json:"vals"`
	Warm  []Op   `json:"warm,omitempty"` // history of the process before
	Tasks [][]Op `json:"tasks"`
	After []Op   `json:"after,omitempty"` // operations after all tasks are done
	Sched Sched  `json:"sched"`
	Pool  simsync.PoolPlan
	Opt   string `json:"opt,omitempty"`
	Base  uint64 `json:"base"` // VERIF_SEED it was drawn under; not used by the run
	Note  string `json:"note,omitempty"`
}

// Sched is how tasks are interleaved: a strategy, or recorded segments.
type Sched struct {
	Kind  string     `json:"kind"`
	Seed  uint64     `json:"seed,omitempty"`
	Mean  int64      `json:"mean,omitempty"`
	Depth int        `json:"depth,omitempty"`
	Mask  uint32     `json:"mask,omitempty"`
	Want  uint32     `json:"want,omitempty"`
	Segs  [][2]int64 `json:"segs,omitempty"`
}

// Violation of a property.
type Violation struct {
	Class string `json:"class"` // stable over minimisation
	Msg   string `json:"msg"`
	Op    string `json:"op,omitempty"`
}

// Rec is what one executed operation did.
type Rec struct {
	Op    *Op
	Task  int
	Pre   []string // receiver, second receiver, operands before
	PreV  []Val
	Out   string
	Z, R  string // states after
	ZF    string
	Panic string
	Args  []string // operands after
	Steps int64
	Done  bool
	Kill  bool
	Skip  bool // operands out of bounds for a simulation
}

// tooFar says that x would make an operation compute with powers of ten that
// take too long or do not fit in memory: an operation on it is left out.
func tooFar(x *decimal.Big, max int) bool {
	if !x.IsFinite() {
		return false
	}
	if max == 0 {
		max = 20000
	}
	s := x.Scale()
	return s > max || s < -max || x.Precision() > max
}

// World is the state of a run.
type World struct {
	c     *Case
	slots []*decimal.Big
	watch []int // slots nobody writes
	watS  []string
	watR  []rawImage
	own   [][]*Owned // by task
	vio   *Violation
	recs  [][]*Rec
	mine  [][]int             // by task: the slots only it uses ("own" runs)
	known map[int]string      // their content
	wraps []*postgres.Decimal // shared database wrappers, two for each variable
}

func (w *World) violate(class, f string, a ...interface{}) {
	if w.vio == nil {
		w.vio = &Violation{Class: class, Msg: fmt.Sprintf(f, a...)}
	}
}

// panicClass reduces a panic to what must not depend on circumstances.
func panicClass(v interface{}) string {
	switch v := v.(type) {
	case nil:
		return ""
	case decimal.ErrNaN:
		return "ErrNaN: " + v.Msg
	case Injected:
		return v.Error()
	case runtime.Error:
		return "runtime error: " + v.Error()
	case error:
		return "error: " + v.Error()
	}
	return fmt.Sprint(v)
}

// isExit marks an operation that ended its goroutine.
const exited = "goroutine exited"

// call runs op in env and catches what comes out of it.
func call(e *Env, d *OpDef) (out, pan string, killed bool) {
	pan = exited
	func() {
		defer func() {
			if pan == exited {
				if v := recover(); v != nil {
					if _, ok := v.(rt.Abort); ok {
						killed = true
						pan = "aborted"
						return
					}
					pan = panicClass(v)
				}
			}
		}()
		out = d.Exec(e)
		pan = ""
	}()
	return
}

// usedSlots lists the slots op touches: receiver(s) first.
func (d *OpDef) receivers(o *Op) []int {
	var l []int
	if d.Rcv {
		l = append(l, o.Z)
	}
	if d.R2 {
		l = append(l, o.R)
	}
	return l
}

func (w *World) env(o *Op, d *OpDef) *Env {
	e := &Env{op: o, w: w}
	if d.Rcv {
		e.z = w.slots[o.Z]
	}
	if d.R2 {
		e.r = w.slots[o.R]
	}
	for _, a := range o.A {
		e.a = append(e.a, w.slots[a])
	}
	return e
}

// do executes one operation and records it.
func (w *World) do(task int, o *Op) *Rec {
	d := ops[o.K]
	if d == nil {
		panic("unknown operation " + o.K)
	}
	e := w.env(o, d)
	e.task = task
	r := &Rec{Op: o, Task: task}
	if d.Rcv {
		r.PreV = append(r.PreV, valOf(e.z))
	} else {
		r.PreV = append(r.PreV, Val{})
	}
	if d.R2 {
		r.PreV = append(r.PreV, valOf(e.r))
	} else {
		r.PreV = append(r.PreV, Val{})
	}
	for _, a := range e.a {
		r.PreV = append(r.PreV, valOf(a))
		r.Pre = append(r.Pre, full(a))
	}
	w.recs[task] = append(w.recs[task], r)
	if d.InZ && tooFar(e.z, d.Far) {
		r.Skip = true
	}
	for _, a := range e.a {
		if tooFar(a, d.Far) {
			r.Skip = true
		}
	}
	if strings.HasSuffix(o.K, ".Tan") && e.a[0].IsFinite() && e.a[0].Precision()-e.a[0].Scale() > 4 {
		// The argument reduction of Tan computes pi to x/31 digits.
		r.Skip = true
	}
	if r.Skip {
		r.Done = true
		return r
	}
	s0 := rt.Steps()
	defer func() {
		// also on Goexit
		r.Steps = rt.Steps() - s0
		if r.Kill {
			return
		}
		if d.Rcv {
			r.Z = snap(e.z)
		}
		if d.R2 {
			r.R = snap(e.r)
		}
		for _, a := range e.a {
			r.Args = append(r.Args, full(a))
		}
		if w.c.has("usable") && r.Panic != "" {
			for _, s := range d.receivers(o) {
				if m := wellFormed(w.slots[s]); m != "" {
					w.violate("unusable "+o.K, "task %d: %s panicked (%s) and left a malformed receiver: %s", task, o, r.Panic, m)
				}
			}
		}
		r.Done = true
	}()
	r.Panic = exited
	r.Out, r.Panic, r.Kill = call(e, d)
	w.own[task] = append(w.own[task], e.own...)
	if w.known != nil && !r.Kill {
		w.ownStep(task, o, d, r.Out)
	}
	return r
}

// ownStep checks after an operation that nothing but its receivers changed:
// neither the other variables of the task nor the objects it exchanged with
// the library.
func (w *World) ownStep(task int, o *Op, d *OpDef, out string) {
	for _, s := range w.mine[task] {
		g := full(w.slots[s])
		if !isReceiver(o, d, s) && g != w.known[s] {
			w.violate("shared "+o.K, "task %d: %s, which does not write variable %d, changed it from %s to %s", task, o, s, clip(w.known[s]), clip(g))
		}
		w.known[s] = g
	}
	for i, b := range w.own[task] {
		if o.K == "own.dirty" && i == int(o.N[0])%len(w.own[task]) {
			b.Given = b.Snap()
			continue
		}
		if g := b.Snap(); g != b.Given {
			w.violate("shared "+o.K, "task %d: %s changed the caller's %s from %s to %s", task, o, b.Name, clip(b.Given), clip(g))
			b.Given = g
		}
	}
}

// isReceiver reports whether slot s is written by o.
func isReceiver(o *Op, d *OpDef, s int) bool {
	return d.Rcv && o.Z == s || d.R2 && o.R == s
}

// soloResult is what an operation does when run alone.
type soloResult struct {
	Out, Z, R, Panic string
	Steps            int64
	Over             bool
	Vio              string
}

const soloBudget = 400000

// solo runs o alone in a fresh process, on distinct variables: the reference.
// fresh asks for a new receiver (same context, no conditions).
func solo(o *Op, pre []Val, fresh bool) soloResult { return soloUpTo(soloBudget, o, pre, fresh) }

// endBudget is the number of steps within which every operation has to end.
const endBudget = 100000000

func soloUpTo(budget int64, o *Op, pre []Val, fresh bool) soloResult {
	d := ops[o.K]
	rt.Restart()
	simsync.SetPlan(simsync.PoolPlan{Mode: "miss"})
	e := &Env{op: o}
	if d.Rcv {
		v := pre[0]
		if fresh && !d.InZ {
			v.V = "0e0"
			v.C.C = 0
		}
		e.z = v.Build()
	}
	if d.R2 {
		v := pre[1]
		if fresh {
			v.V = "0e0"
			v.C.C = 0
		}
		e.r = v.Build()
	}
	for _, v := range pre[2:] {
		e.a = append(e.a, v.Build())
	}
	var s soloResult
	out, pans := rt.Run(&rt.Strategy{Kind: "solo", Budget: budget}, func() {
		s.Panic = exited
		s.Out, s.Panic, _ = call(e, d)
	})
	s.Steps = out.Steps
	s.Over = out.Budget
	if out.Deadlock {
		s.Vio = "deadlock of a single operation"
	}
	if pans[0] != nil {
		s.Panic = "uncaught: " + panicClass(pans[0])
	}
	if d.Rcv {
		s.Z = snap(e.z)
	}
	if d.R2 {
		s.R = snap(e.r)
	}
	simsync.Drain()
	return s
}

// ---- scribbling over pooled items ----

type ghost struct {
	x     interface{}
	saved []byte
	junk  []byte
	words []savedWords
}

type savedWords struct {
	w    []uint
	orig []uint
}

// scribble replaces the content of a pooled decimal by rubbish until it is
// taken out of the pool again.
func scribble(x interface{}) simsync.Ghost {
	v := reflect.ValueOf(x)
	if v.Kind() != reflect.Ptr || v.IsNil() {
		return nil
	}
	g := &ghost{x: x}
	g.walk(v.Elem(), true)
	return g
}

func bytesAt(p unsafe.Pointer, n uintptr) []byte { return unsafe.Slice((*byte)(p), n) }

// leaves calls f for every addressable scalar in v and w for word slices.
func leaves(v reflect.Value, f func(p unsafe.Pointer, k reflect.Kind, n uintptr), w func(p *[]uint)) {
	switch v.Kind() {
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr,
		reflect.Float32, reflect.Float64:
		f(unsafe.Pointer(v.UnsafeAddr()), v.Kind(), v.Type().Size())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			leaves(v.Field(i), f, w)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			leaves(v.Index(i), f, w)
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint {
			w((*[]uint)(unsafe.Pointer(v.UnsafeAddr())))
		}
	}
}

func (g *ghost) walk(v reflect.Value, save bool) {
	leaves(v, func(p unsafe.Pointer, k reflect.Kind, n uintptr) {
		b := bytesAt(p, n)
		g.saved = append(g.saved, b...)
		switch k {
		case reflect.Bool:
			if b[0] != 0 {
				b[0] = 0
			} else {
				b[0] = 1
			}
		default:
			for i := range b {
				b[i] ^= 0x15
			}
			if n > 1 {
				b[n-1] ^= 0x15 // keep integers moderate
			}
		}
		g.junk = append(g.junk, b...)
	}, func(p *[]uint) {
		w := (*p)[:cap(*p)]
		o := append([]uint(nil), w...)
		for i := range w {
			w[i] = 0xbad0bad0bad0bad0 ^ uint(i)
		}
		g.words = append(g.words, savedWords{w, o})
	})
}

func (g *ghost) Check() string {
	var now []byte
	leaves(reflect.ValueOf(g.x).Elem(), func(p unsafe.Pointer, k reflect.Kind, n uintptr) {
		now = append(now, bytesAt(p, n)...)
	}, func(*[]uint) {})
	if string(now) != string(g.junk) {
		return "a released temporary was written while it lay in the pool"
	}
	for _, s := range g.words {
		for i := range s.w {
			if s.w[i] != 0xbad0bad0bad0bad0^uint(i) {
				return "the digits of a released temporary were written while it lay in the pool"
			}
		}
	}
	return ""
}

func (g *ghost) Restore() {
	i := 0
	leaves(reflect.ValueOf(g.x).Elem(), func(p unsafe.Pointer, k reflect.Kind, n uintptr) {
		copy(bytesAt(p, n), g.saved[i:])
		i += int(n)
	}, func(*[]uint) {})
	for _, s := range g.words {
		copy(s.w, s.orig)
	}
}

// ---- running ----

// RunOut is what came out of a run.
type RunOut struct {
	Vio      *Violation
	Outcome  rt.Outcome
	Ops      int
	Panics   int
	Skipped  bool // not a usable case
	LogHash  uint64
	Nontriv  bool
	SoloStep int64
}

func (s *Sched) strategy(est int64) *rt.Strategy {
	st := &rt.Strategy{Kind: s.Kind, Seed: s.Seed, Mean: s.Mean, Depth: s.Depth, HotMask: s.Mask, HotWant: s.Want}
	if s.Kind == "pct" {
		st.Mean = est
	}
	for _, g := range s.Segs {
		st.Segs = append(st.Segs, rt.Seg{Task: int(g[0]), N: g[1]})
	}
	return st
}

// genSched draws a schedule strategy.
func genSched(r *Rng) Sched {
	switch k := r.N(10); {
	case k < 5:
		return Sched{Kind: "quantum", Seed: r.U64(), Mean: int64(r.PickI(1, 2, 4, 10, 30, 100, 400))}
	case k < 7:
		return Sched{Kind: "pct", Seed: r.U64(), Depth: r.R(1, 4)}
	case k < 8:
		return Sched{Kind: "sync", Seed: r.U64()}
	default:
		m := uint32(r.PickI(1, 3, 7, 15))
		return Sched{Kind: "hot", Seed: r.U64(), Mask: m, Want: uint32(r.U64()) & m}
	}
}

func genPool(r *Rng) simsync.PoolPlan {
	switch r.N(5) {
	case 0:
		return simsync.PoolPlan{Mode: "miss"}
	case 1, 2:
		return simsync.PoolPlan{Mode: "stale"}
	}
	return simsync.PoolPlan{Mode: "mixed", Seed: r.U64(), Miss: r.PickI(5, 20, 50), Drop: r.PickI(0, 10, 40)}
}

// build makes the variables.
func (w *World) build() {
	for _, v := range w.c.Vals {
		x := v.Build()
		w.slots = append(w.slots, x)
		w.wraps = append(w.wraps, &postgres.Decimal{V: x, Zero: true}, &postgres.Decimal{V: x, Zero: true, Round: true})
	}
}

func ownCheck(w *World) {
	for _, l := range w.own {
		for _, o := range l {
			if !o.In {
				continue
			}
			if s := o.Snap(); s != o.Given {
				w.violate("input-modified", "the caller's %s was modified: %s became %s", o.Name, clip(o.Given), clip(s))
			}
		}
	}
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:140] + "..." + s[len(s)-140:]
	}
	return s
}

// runConcurrent runs the tasks of c under its schedule and checks every
// operation against itself run alone.
func runConcurrent(c *Case) (ro RunOut) {
	w := &World{c: c}
	n := len(c.Tasks)
	// Which variables does nobody write?
	written := map[int]bool{}
	for _, t := range append(append([][]Op{}, c.Tasks...), c.Warm, c.After) {
		for i := range t {
			for _, s := range ops[t[i].K].receivers(&t[i]) {
				written[s] = true
			}
		}
	}

	rt.Restart()
	simsync.SetPlan(c.Pool)
	w.build()
	for i := range c.Vals {
		if !written[i] {
			w.watch = append(w.watch, i)
			w.watS = append(w.watS, full(w.slots[i]))
			w.watR = append(w.watR, imageOf(w.slots[i]))
		}
	}
	w.recs = make([][]*Rec, n+1)
	w.own = make([][]*Owned, n+1)
	if c.has("own") {
		w.known = map[int]string{}
		w.mine = make([][]int, n+1)
		for t, l := range c.Tasks {
			used := map[int]bool{}
			for i := range l {
				d := ops[l[i].K]
				for _, s := range append(d.receivers(&l[i]), l[i].A...) {
					if written[s] && !used[s] {
						used[s] = true
						w.mine[t] = append(w.mine[t], s)
						w.known[s] = full(w.slots[s])
					}
				}
			}
		}
	}

	// Estimate of the length, for schedules that place their preemptions in
	// advance, and the bound on the run.  The first operation of each task
	// alone gives a rough figure; the bound is generous.
	est := c.est()

	hist := func(l []Op) bool {
		if len(l) == 0 {
			return true
		}
		o, p := rt.Run(&rt.Strategy{Kind: "solo", Budget: soloBudget * int64(len(l)+1)}, func() {
			for i := range l {
				if r := w.do(n, &l[i]); r.Kill {
					return
				}
			}
		})
		ro.SoloStep += o.Steps
		if o.Deadlock {
			w.violate("deadlock", "an operation run on its own after others blocked for ever")
			return false
		}
		if o.Budget {
			ro.Skipped = true
			return false
		}
		if p[0] != nil {
			w.violate("panic", "uncaught panic: %v", p[0])
		}
		return true
	}
	if !hist(c.Warm) {
		ro.Vio = w.vio
		simsync.Drain()
		return
	}

	var fns []func()
	for t := 0; t < n; t++ {
		t := t
		fns = append(fns, func() {
			for i := range c.Tasks[t] {
				if r := w.do(t, &c.Tasks[t][i]); r.Kill {
					return
				}
			}
		})
	}
	st := c.Sched.strategy(est)
	st.Budget = 40*est + 20*soloBudget
	if c.has("ends") {
		st.Budget = 30000000
	}
	if !rt.RaceBuild && len(w.watch) > 0 {
		st.Watch = w.watchCheck
	}
	out, pans := rt.Run(st, fns...)
	ro.Outcome = out
	for t, p := range pans {
		if p != nil {
			w.violate("panic", "task %d ended with panic %v", t, p)
		}
	}
	if out.Deadlock {
		w.violate("deadlock", "deadlock: no task can run, tasks %v are not finished", out.Killed)
	}
	if out.WatchMsg != "" {
		w.violate("operand-changed", "%s", out.WatchMsg)
	}
	if m := w.watchCheck(); m != "" {
		w.violate("operand-changed", "%s", m)
	}
	if w.vio == nil && !out.Budget {
		hist(c.After)
	}
	if m := simsync.Drain(); m != "" {
		w.violate("use-after-release", "%s", m)
	}
	ownCheck(w)
	w.check(&ro, out)
	ro.Vio = w.vio
	ro.Nontriv = (out.Switches > int64(n) || c.has("own")) && ro.Ops >= 2
	return
}

// est estimates the number of steps of the run.
func (c *Case) est() int64 {
	var e int64
	for _, t := range c.Tasks {
		for i := range t {
			if ops[t[i].K].Cost > 0 {
				e += 6000
			} else {
				e += 150
			}
		}
	}
	return e + 1
}

// rawImage is the memory of a decimal.  Equal images mean equal values; the
// converse need not hold, so different images are followed by a comparison of
// what can be observed.
type rawImage struct {
	b []byte
	w []uint
}

func words(x *decimal.Big) []uint {
	_, u := decimal.Raw(x)
	if u == nil {
		return nil
	}
	b := u.Bits()
	return unsafe.Slice((*uint)(unsafe.Pointer(unsafe.SliceData(b))), len(b))
}

func imageOf(x *decimal.Big) rawImage {
	return rawImage{append([]byte(nil), bytesAt(unsafe.Pointer(x), unsafe.Sizeof(*x))...), append([]uint(nil), words(x)...)}
}

func (m *rawImage) same(x *decimal.Big) bool {
	if string(m.b) != string(bytesAt(unsafe.Pointer(x), unsafe.Sizeof(*x))) {
		return false
	}
	w := words(x)
	if len(w) != len(m.w) {
		return false
	}
	for i := range w {
		if w[i] != m.w[i] {
			return false
		}
	}
	return true
}

func (c *Case) has(opt string) bool { return strings.Contains(" "+c.Opt+" ", " "+opt+" ") }

// keepsZ says that the operation stored nothing: the receiver is still what
// it was.
func (d *OpDef) keepsZ(o *Op, out string) bool {
	return o.K == "Compose" && strings.Contains(out, "unknown form") || o.K == "BinarySplit" && o.N[1] == o.N[2] ||
		(o.K == "c.Lentz" || o.K == "c.Wallis") && o.N[1] == 0 // undefined
}

// addConds adds conditions to a state written by snap.
func addConds(s string, c uint32) string {
	i := strings.LastIndex(s, " c")
	if i < 0 {
		return s
	}
	v, err := strconv.ParseUint(s[i+2:], 16, 32)
	if err != nil {
		return s
	}
	return fmt.Sprintf("%s c%x", s[:i], uint32(v)|c)
}

func (w *World) watchCheck() string {
	for i, s := range w.watch {
		if w.watR[i].same(w.slots[s]) {
			continue
		}
		if g := full(w.slots[s]); g != w.watS[i] {
			return fmt.Sprintf("variable %d, which the tasks only read, changed from %s to %s", s, clip(w.watS[i]), clip(g))
		}
	}
	return ""
}

// check compares every operation of the run with itself run alone.
func (w *World) check(ro *RunOut, out rt.Outcome) {
	h := uint64(14695981039346656037)
	mix := func(s string) { h = h*0x100000001b3 ^ hashStr(s) }
	mix(fmt.Sprint(out.Hash, out.Steps, out.Switches))
	var refSteps int64
	over := false
	for t := range w.recs {
		for i, r := range w.recs[t] {
			if r.Skip {
				continue
			}
			ro.Ops++
			if r.Panic != "" {
				ro.Panics++
			}
			if w.c.has("ends") {
				mix(r.Out + "|" + r.Z + "|" + r.R + "|" + r.Panic)
				continue
			}
			mix(r.Out + "|" + r.Z + "|" + r.R + "|" + r.Panic)
			if r.Kill || !r.Done {
				if r.Panic == exited && !r.Kill {
					continue
				}
				if out.Budget {
					s := solo(r.Op, r.PreV, false)
					if s.Over {
						over = true
					}
					refSteps += s.Steps
				}
				continue
			}
			d := ops[r.Op.K]
			where := fmt.Sprintf("task %d op %d %s", t, i, r.Op)
			if t == len(w.c.Tasks) {
				where = fmt.Sprintf("history op %d %s", i, r.Op)
			}
			if w.c.has("oracle") {
				if m := oracleNote(w.c.Prop, r.Out+r.Panic); m != "" {
					w.violate("oracle "+r.Op.K, "%s: %s", where, clip(m))
					continue
				}
				if !foreseen(r.Panic) {
					w.violate("crash "+r.Op.K, "%s panicked: %s", where, clip(r.Panic))
					continue
				}
			}
			for j, a := range r.Op.A {
				if !isReceiver(r.Op, d, a) && r.Args[j] != r.Pre[j] {
					w.violate("operand-changed", "%s: operand %d changed from %s to %s", where, a, clip(r.Pre[j]), clip(r.Args[j]))
				}
			}
			fresh := w.c.has("fresh") && d.Rcv
			ro2, pre2 := r.Op, r.PreV
			if w.c.has("ctx") {
				var how string
				ro2, pre2, how = variant(NewRng(hashStr(w.c.Prop), w.c.Seed, uint64(t), uint64(i)), r.Op, r.PreV)
				where += " (compared with" + how + " changed)"
			}
			s := solo(ro2, pre2, fresh)
			if s.Over {
				over = true
				continue
			}
			if fresh {
				// The conditions of a used receiver are those it had and
				// those the operation raises.
				s.Z = addConds(s.Z, r.PreV[0].C.C)
				if d.R2 {
					s.R = addConds(s.R, r.PreV[1].C.C)
				}
			}
			refSteps += s.Steps
			if s.Vio != "" {
				w.violate("solo "+r.Op.K, "%s: %s", where, s.Vio)
				continue
			}
			if c := r.Panic; c != "" && fresh && strings.HasPrefix(c, "ErrNaN: ") && strings.HasPrefix(s.Panic, "ErrNaN: ") {
				// The message lists the accumulated conditions.
				s.Panic = r.Panic
			}
			if r.Panic != "" && s.Panic != "" && (fresh || w.c.has("alias")) {
				// What a panicking operation leaves in its receiver is not
				// specified.
				s.Z, s.R = r.Z, r.R
			}
			if fresh && d.keepsZ(r.Op, r.Out) {
				s.Z = r.Z
			}
			if r.Out != s.Out || r.Z != s.Z || r.R != s.R || r.Panic != s.Panic {
				w.violate("differs "+r.Op.K, "%s on %s gave %s; run alone it gives %s", where, preStr(r), res(r.Out, r.Z, r.R, r.Panic), res(s.Out, s.Z, s.R, s.Panic))
			}
		}
	}
	if out.Budget && w.c.has("ends") {
		// Does each operation end, given enough time?
		for t := range w.recs {
			for _, r := range w.recs[t] {
				if r.Skip || w.vio != nil {
					continue
				}
				s := soloUpTo(endBudget, r.Op, r.PreV, false)
				refSteps += s.Steps
				if s.Over {
					w.violate("endless "+r.Op.K, "%s on %s does not end within %d steps, on its own", r.Op, preStr(r), int64(endBudget))
				}
			}
		}
	}
	if out.Budget && !over && w.vio == nil {
		if out.Steps > 50*refSteps+1000000 {
			w.violate("no-progress", "the run did not end within %d steps; alone its operations take %d", out.Steps, refSteps)
		} else {
			ro.Skipped = true
		}
	}
	ro.LogHash = h
}

// foreseen says whether an operation may panic like that: with the documented
// error in Go mode, because a callback did, or about the range of a sum.
func foreseen(pan string) bool {
	return pan == "" || pan == exited || strings.HasPrefix(pan, "ErrNaN: ") || strings.HasPrefix(pan, "injected ") ||
		strings.HasPrefix(pan, "math: ")
}

// oracleNote finds a complaint of an operation's own oracle in its output:
// "!!" followed by text, or by the properties it is about in brackets.
func oracleNote(prop, s string) string {
	for {
		i := strings.Index(s, "!!")
		if i < 0 {
			return ""
		}
		s = s[i+2:]
		if !strings.HasPrefix(s, "[") {
			return s
		}
		j := strings.IndexByte(s, ']')
		if j < 0 {
			return s
		}
		if strings.Contains(","+s[1:j]+",", ","+prop+",") {
			return s[j+1:]
		}
	}
}

func preStr(r *Rec) string {
	var s []string
	d := ops[r.Op.K]
	if d.Rcv {
		s = append(s, fmt.Sprintf("z=%s %+v", clip(r.PreV[0].V), r.PreV[0].C))
	}
	if d.R2 {
		s = append(s, "r="+clip(r.PreV[1].V))
	}
	for _, v := range r.PreV[2:] {
		s = append(s, clip(v.V))
	}
	return "[" + strings.Join(s, ", ") + "]"
}

func res(out, z, r, pan string) string {
	s := ""
	if out != "" {
		s += fmt.Sprintf("output %q ", clip(out))
	}
	if z != "" {
		s += fmt.Sprintf("z=%s ", clip(z))
	}
	if r != "" {
		s += fmt.Sprintf("r=%s ", clip(r))
	}
	if pan != "" {
		s += fmt.Sprintf("panic %q", clip(pan))
	}
	return "{" + strings.TrimSpace(s) + "}"
}
