package main

import (
	"fmt"
	"math/big"
	"runtime"

	"github.com/ericlagergren/decimal"
	dmath "github.com/ericlagergren/decimal/math"
	"verifsim/rt"
)

// Injected is what a faulty callback panics with.
type Injected struct{ Where string }

func (i Injected) Error() string { return "injected panic in " + i.Where }

// A fault of a callback: at call At, do Kind.
//
//	"stop"   the generator has no further term
//	"panic"  the callback panics
//	"exit"   the callback ends its goroutine (runtime.Goexit)
//	"stall"  other tasks run before the callback returns
//	"reuse"  terms live in storage that is overwritten at the next call
//	"own"    the generator brings its own working storage
//	"endless" the generator always has another term
//	"ctx"    the generator brings its own context
type Dev struct {
	Kind string `json:"k"`
	At   int    `json:"at"`
	N    int    `json:"n,omitempty"`
	Err  string `json:"e,omitempty"`
}

func devOf(o *Op, kind string) *Dev {
	for i := range o.D {
		if o.D[i].Kind == kind {
			return &o.D[i]
		}
	}
	return nil
}

// fire counts a fault that took effect.  Tasks call it concurrently, so that
// it must be invisible to the race detector.
//
//go:norace
func fire(kind string) {
	for i := 0; i < nFaults; i++ {
		if faultCount[i].kind == kind {
			faultCount[i].n++
			return
		}
	}
	faultCount[nFaults].kind = kind
	faultCount[nFaults].n = 1
	nFaults++
}

var (
	faultCount [128]struct {
		kind string
		n    int64
	}
	nFaults int
)

func callFault(o *Op, at int, where string) {
	for i := range o.D {
		d := &o.D[i]
		switch d.Kind {
		case "panic":
			if d.At == at {
				fire("callback-panic")
				panic(Injected{where})
			}
		case "exit":
			if d.At == at {
				fire("callback-goexit")
				runtime.Goexit()
			}
		case "stall":
			if d.At == 0 || at%d.At == 0 {
				fire("callback-stall")
				for j := 0; j < 1+d.N; j++ {
					rt.Point(20)
				}
			}
		}
	}
}

// frac is a continued fraction generator with terms drawn from a seed.
type frac struct {
	op      *Op
	a, b    []int64
	scale   int
	shift   int // a1 is smaller by that many digits
	endless bool
	n       int // terms handed out
	calls   int
	offered bool
	bad     string
	reuse   bool
	ta, tb  *decimal.Big
	last    [2]*decimal.Big
	lastS   [2]string
}

func (f *frac) note(s string) {
	if f.bad == "" {
		f.bad = s
	}
}

func (f *frac) check() {
	if f.last[0] != nil && (full(f.last[0]) != f.lastS[0] || full(f.last[1]) != f.lastS[1]) {
		f.note(fmt.Sprintf("term %d was modified by the callee: %s/%s became %s/%s", f.n-1, f.lastS[0], f.lastS[1], full(f.last[0]), full(f.last[1])))
	}
}

func (f *frac) Next() bool {
	f.calls++
	if f.offered {
		// Asking again without taking the term is not forbidden.
		return true
	}
	f.check()
	if f.reuse && f.ta != nil {
		fire("term-storage-overwritten")
		f.last[0] = nil
		f.ta.SetMantScale(-7777777, 3)
		f.tb.SetMantScale(-1234567, 9)
	}
	callFault(f.op, f.calls, "Generator.Next")
	if f.n >= len(f.a) && f.endless {
		f.note(fmt.Sprintf("a fraction that converges had not ended after %d terms", f.n))
		return false
	}
	if f.n >= len(f.a) {
		fire("generator-stop")
		return false
	}
	f.offered = true
	return true
}

func (f *frac) ascale(i int) int {
	if i == 1 {
		return f.scale + f.shift
	}
	return f.scale
}

func (f *frac) Term() decimal.Term {
	f.calls++
	if !f.offered {
		f.note(fmt.Sprintf("Term called without a preceding Next (after %d terms)", f.n))
		panic("protocol violation")
	}
	f.offered = false
	f.check()
	callFault(f.op, f.calls, "Generator.Term")
	var ta, tb *decimal.Big
	if f.reuse {
		if f.ta == nil {
			f.ta, f.tb = new(decimal.Big), new(decimal.Big)
		} else {
			fire("term-storage-reused")
		}
		ta, tb = f.ta, f.tb
	} else {
		ta, tb = new(decimal.Big), new(decimal.Big)
	}
	ta.SetMantScale(f.a[f.n], f.ascale(f.n))
	tb.SetMantScale(f.b[f.n], f.scale)
	f.last = [2]*decimal.Big{ta, tb}
	f.lastS = [2]string{full(ta), full(tb)}
	f.n++
	return decimal.Term{A: ta, B: tb}
}

// variants with the optional interfaces
type fracOwn struct {
	*frac
	prec int
	bufs []*decimal.Big
}

func (f *fracOwn) get(n int) []*decimal.Big {
	fire("own-working-storage")
	var l []*decimal.Big
	for i := 0; i < n; i++ {
		// used storage, with rubbish of an earlier computation
		b := decimal.WithPrecision(f.prec)
		b.SetMantScale(int64(i)*7+3, 2)
		b.Context.Precision = f.prec
		l = append(l, b)
	}
	l = append(l, decimal.New(1, f.prec))
	f.bufs = l
	return l
}

func (f *fracOwn) Lentz() (a, b, c, d, eps *decimal.Big) {
	l := f.get(4)
	return l[0], l[1], l[2], l[3], l[4]
}

func (f *fracOwn) Wallis() (a, a1, b, b1, p, eps *decimal.Big) {
	l := f.get(5)
	return l[0], l[1], l[2], l[3], l[4], l[5]
}

type fracCtx struct {
	*frac
	c decimal.Context
}

func (f *fracCtx) Context() decimal.Context { return f.c }

type fracOwnCtx struct {
	*fracOwn
	c decimal.Context
}

func (f *fracOwnCtx) Context() decimal.Context { return f.c }

func genFrac(r *Rng, o *Op) {
	c := Ctx{P: r.PickI(16, 20, 30, 45, 70)}
	if r.P(40) {
		c.R = uint8(r.N(7))
	}
	o.C = &c
	o.N = []int64{int64(r.N(1 << 30)), int64(r.PickI(0, 1, 1, 2, 2, 3, 4, 5, 8, 13, 20, 40, 60, 120)), int64(r.PickI(0, 0, 0, 1, 3, 17))}
	o.N = append(o.N, int64(r.PickI(0, 0, 0, 0, 0, 0, 3, 10, 13, 30)))
	genCallFaults(r, o, 2*int(o.N[1])+1)
	if r.P(50) {
		o.D = append(o.D, Dev{Kind: "reuse"})
	}
	if r.P(20) {
		o.D = append(o.D, Dev{Kind: "endless"})
	}
	if r.P(30) {
		o.D = append(o.D, Dev{Kind: "own"})
	}
	if r.P(30) {
		o.D = append(o.D, Dev{Kind: "ctx"})
	}
}

func genCallFaults(r *Rng, o *Op, calls int) {
	if r.P(25) {
		o.D = append(o.D, Dev{Kind: r.Pick("panic", "panic", "panic", "exit"), At: r.R(1, calls)})
	}
	if r.P(30) {
		o.D = append(o.D, Dev{Kind: "stall", At: r.R(1, 4), N: r.N(3)})
	}
}

func fracTerms(seed int64, n int) (a, b []int64, kind int) {
	r := NewRng(uint64(seed), 77)
	kind = r.N(9)
	if kind == 8 && n > 8 {
		kind = 1
	}
	for i := 0; i < n; i++ {
		switch kind {
		case 0: // golden ratio like: slow
			a, b = append(a, 1), append(b, 1)
		case 1:
			a, b = append(a, int64(r.R(1, 3))), append(b, int64(r.R(1, 9)))
		case 2:
			a, b = append(a, int64(i+1)), append(b, int64(2*i+1))
		case 3:
			a, b = append(a, int64(r.R(1, 40))), append(b, int64(r.R(20, 90)))
		case 4: // no b0
			a, b = append(a, int64(r.R(1, 9))), append(b, int64(r.R(1, 9)))
			if i == 0 {
				b[0] = 0
			}
		case 5: // both signs; converges because |b| > |a|
			x := int64(r.R(1, 9))
			y := x + int64(r.R(2, 9))
			if r.P(50) {
				x = -x
			}
			if r.P(50) {
				y = -y
			}
			a, b = append(a, x), append(b, y)
		case 7: // zeros among the b
			a, b = append(a, int64(r.R(1, 9))), append(b, int64(r.R(1, 9)))
			if i < n-1 && (i == 0 || b[i-1] != 0) && r.P(40) {
				b[i] = 0
			}
		case 8: // fractions cut off early have the value zero or none
			x, y := int64(r.R(1, 9)), int64(r.R(1, 9))
			if i > 0 && r.P(50) && a[i-1] > 0 {
				x = -b[i-1] * y
			}
			a, b = append(a, x), append(b, y)
		default: // more digits than a word
			a, b = append(a, int64(r.U64()>>2)), append(b, int64(r.U64()>>2))
		}
	}
	return
}

func execFrac(e *Env) string {
	o := e.op
	f := &frac{op: o}
	var kind int
	f.a, f.b, kind = fracTerms(o.N[0], int(o.N[1]))
	if devOf(o, "endless") != nil && len(f.a) > 0 && kind != 7 && kind != 8 {
		f.endless = true
		f.a, f.b, _ = fracTerms(o.N[0], 3000)
	}
	if len(o.N) > 2 && kind != 5 && kind != 8 && !f.endless {
		f.scale = int(o.N[2])
	}
	if len(o.N) > 3 && kind <= 3 && len(f.a) > 1 && devOf(o, "own") == nil {
		// a small value: a0 is nought, a1 is small
		f.shift = int(o.N[3])
		if o.K == "c.Lentz" && f.scale+f.shift > 13 {
			f.shift = 0 // Lentz adds a1 / 1e-60 to b1
		}
		if f.shift > 0 {
			f.b[0] = 0
		}
	}
	f.reuse = devOf(o, "reuse") != nil
	c := e.ctx()
	cond := e.z.Context.Conditions
	mode := e.z.Context.OperatingMode
	e.z.Context = c
	e.z.Context.Conditions = cond
	e.z.Context.OperatingMode = mode
	prec := c.Precision
	var g decimal.Generator = f
	own, cx := devOf(o, "own") != nil, devOf(o, "ctx") != nil
	fo := &fracOwn{frac: f, prec: prec + 8}
	cc := c
	cc.Precision = prec + 9
	switch {
	case own && cx:
		g = &fracOwnCtx{fo, cc}
	case own:
		g = fo
	case cx:
		g = &fracCtx{f, cc}
	}
	done := false
	defer func() {
		if !done && f.bad != "" {
			panic("!! " + f.bad)
		}
	}()
	var got *decimal.Big
	switch {
	case o.K == "c.Lentz" && o.N[0]%3 == 0:
		got = dmath.Lentz(e.z, g)
	case o.K == "c.Lentz":
		got = c.Lentz(e.z, g)
	case o.N[0]%3 == 0:
		got = dmath.Wallis(e.z, g)
	default:
		got = c.Wallis(e.z, g)
	}
	done = true
	f.check()
	if f.bad != "" {
		return "!! " + f.bad
	}
	if s := same(e.z, got); s != "" {
		return s
	}
	if len(f.a) == 0 {
		return "" // undefined, says the documentation
	}
	if f.n == 0 {
		return "!! no term was asked for"
	}
	if v := f.value(f.n); v != nil {
		if s := near(e.z, v, prec-4); s != "" {
			return fmt.Sprintf("!! fraction of %d terms (%d offered): %s", f.n, len(f.a), s)
		}
	}
	all := len(f.a)
	if f.endless && all > f.n+100 {
		fire("endless-fraction")
		all = f.n + 100
	}
	if v := f.value(all); v != nil && f.n < len(f.a) {
		if s := near(e.z, v, prec-4); s != "" {
			return fmt.Sprintf("!! evaluation stopped after %d of %d terms: %s", f.n, len(f.a), s)
		}
	}
	return ""
}

// value is the convergent of n terms, exactly; nil if it is infinite or has
// no value.
func (f *frac) value(n int) *big.Rat {
	one := big.NewInt(1)
	sc := new(big.Rat).SetFrac(one, pow10(f.scale))
	t := func(x int64) *big.Rat { return new(big.Rat).Mul(new(big.Rat).SetInt64(x), sc) }
	a := func(i int) *big.Rat {
		x := t(f.a[i])
		if i == 1 && f.shift > 0 {
			x.Mul(x, new(big.Rat).SetFrac(one, pow10(f.shift)))
		}
		return x
	}
	// p/q, so that tails may be infinite
	p, q := new(big.Rat), one1()
	for i := n - 1; i >= 0; i-- {
		if i == n-1 {
			p.Set(t(f.b[i]))
			continue
		}
		// b + a/(p/q)
		p, q = new(big.Rat).Add(new(big.Rat).Mul(t(f.b[i]), p), new(big.Rat).Mul(a(i+1), q)), p
	}
	if q.Sign() == 0 {
		return nil
	}
	return p.Quo(p, q)
}

func one1() *big.Rat { return big.NewRat(1, 1) }

// near checks |x - v| <= |v| 10^-d.
func near(x *decimal.Big, v *big.Rat, d int) string {
	if !x.IsFinite() {
		return fmt.Sprintf("result %s, want about %s", text(x), v.FloatString(d))
	}
	df := new(big.Rat).Sub(exactRat(x), v)
	df.Abs(df)
	lim := new(big.Rat).SetFrac(big.NewInt(1), pow10(d))
	if v.Sign() != 0 {
		lim.Mul(lim, new(big.Rat).Abs(v))
	}
	if df.Cmp(lim) > 0 {
		return fmt.Sprintf("result %s, want %s", text(x), v.FloatString(d))
	}
	return ""
}

func pow10(n int) *big.Int { return new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(n)), nil) }

// exactRat reads x through its accessors only.
func exactRat(x *decimal.Big) *big.Rat {
	c, u := decimal.Raw(x)
	m := new(big.Int)
	if *c != maxUint64 {
		m.SetUint64(*c)
	} else {
		m.Set(u)
	}
	if x.Signbit() {
		m.Neg(m)
	}
	if s := x.Scale(); s >= 0 {
		return new(big.Rat).SetFrac(m, pow10(s))
	}
	return new(big.Rat).SetInt(m.Mul(m, pow10(-x.Scale())))
}

// ---- binary splitting ----

type splitFn struct {
	name  string
	st    *splitState
	v     func(n uint64) int64
	reuse bool
	cur   *decimal.Big
	curS  string
}

type splitState struct {
	op    *Op
	calls int
	bad   string
	lo    uint64
	hi    uint64
	fns   [4]*splitFn
}

func (f *splitFn) check() {
	if f.cur != nil && full(f.cur) != f.curS && f.st.bad == "" {
		f.st.bad = fmt.Sprintf("the value returned by function %s was modified: %s became %s", f.name, f.curS, full(f.cur))
	}
}

func (f *splitFn) call(n uint64) *decimal.Big {
	s := f.st
	s.calls++
	if (n < s.lo || n >= s.hi) && s.bad == "" {
		s.bad = fmt.Sprintf("function %s called with %d, outside [%d, %d)", f.name, n, s.lo, s.hi)
	}
	f.check()
	callFault(s.op, s.calls, "SplitFunc "+f.name)
	x := new(decimal.Big)
	if f.reuse {
		if f.cur != nil {
			fire("term-storage-reused")
			x = f.cur
		}
	}
	x.SetMantScale(f.v(n), 0)
	f.cur, f.curS = x, full(x)
	return x
}

func genSplit(r *Rng, o *Op) {
	start := r.PickI(0, 0, 0, 1, 2, 7)
	n := r.PickI(1, 2, 3, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 16, 17, 23, r.R(24, 60))
	if r.P(15) {
		n = 0 // dynamic
		start = 0
	}
	c := Ctx{P: 400}
	if n == 0 {
		c.P = r.PickI(10, 20, 30)
	}
	o.C = &c
	o.N = []int64{int64(r.N(1 << 30)), int64(start), int64(start + n)}
	if n > 0 && r.P(4) {
		// nothing to sum: refused before any term is asked for
		o.D = append(o.D, Dev{Kind: "range", N: r.N(2)})
		return
	}
	genCallFaults(r, o, 4*n+1)
	if r.P(60) {
		o.D = append(o.D, Dev{Kind: "reuse"})
	}
}

func execSplit(e *Env) string {
	o := e.op
	st := &splitState{op: o, lo: uint64(o.N[1]), hi: uint64(o.N[2])}
	dynamic := o.N[1] == o.N[2]
	if dynamic {
		st.hi = 1 << 40
	}
	reuse := devOf(o, "reuse") != nil
	slow := dynamic && o.N[0]%5 < 2
	rng := NewRng(uint64(o.N[0]), 99)
	mk := func(name string, kind int) *splitFn {
		k := rng.U64()
		base := int64(rng.R(2, 9))
		return &splitFn{name: name, st: st, reuse: reuse, v: func(n uint64) int64 {
			switch {
			case slow && name == "Q":
				return 10
			case slow && name == "P":
				return 9 - int64(k%5)
			case dynamic && name == "Q":
				return base + 2
			case dynamic && name == "P":
				return 1 + int64(k%2)
			case dynamic && kind == 3:
				return 7
			case kind == 0:
				return 1
			case kind == 1:
				return base
			case kind == 2:
				return int64(n) + base
			}
			v := int64(NewRng(k, n).R(1, 99))
			if name == "A" && v%2 == 0 {
				v = -v
			}
			return v
		}}
	}
	a, p0, b, q := mk("A", rng.N(4)), mk("P", rng.N(4)), mk("B", rng.N(4)), mk("Q", rng.N(4))
	c := e.ctx()
	if d := devOf(o, "range"); d != nil {
		lo, hi := st.hi, st.lo
		if d.N == 0 {
			lo = hi
		}
		p := func() (p interface{}) {
			defer func() { p = recover() }()
			decimal.BinarySplit(e.z, c, lo, hi, a.call, p0.call, b.call, q.call)
			return nil
		}()
		if s, ok := p.(string); !ok || st.bad != "" {
			return fmt.Sprintf("!! range [%d, %d): panic value %v, %s", lo, hi, p, st.bad)
		} else {
			e.z.SetUint64(1)
			return s
		}
	}
	done := false
	defer func() {
		if !done && st.bad != "" {
			panic("!! " + st.bad)
		}
	}()
	var got *decimal.Big
	if dynamic {
		if o.N[0]%2 == 0 {
			got = decimal.BinarySplitDynamic(c, a.call, p0.call, b.call, q.call)
		} else {
			got = dmath.BinarySplitDynamic(c, a.call, p0.call, b.call, q.call)
		}
	} else if o.N[0]%2 == 0 {
		got = decimal.BinarySplit(e.z, c, st.lo, st.hi, a.call, p0.call, b.call, q.call)
	} else {
		got = dmath.BinarySplit(e.z, c, st.lo, st.hi, a.call, p0.call, b.call, q.call)
	}
	done = true
	for _, f := range []*splitFn{a, p0, b, q} {
		f.check()
	}
	if st.bad != "" {
		return "!! " + st.bad
	}
	if dynamic {
		sum, prod := new(big.Float).SetPrec(400), new(big.Float).SetPrec(400).SetInt64(1)
		fl := func(x int64) *big.Float { return new(big.Float).SetPrec(400).SetInt64(x) }
		for n := uint64(0); n < 1500; n++ {
			prod.Mul(prod, fl(p0.v(n)))
			prod.Quo(prod, fl(q.v(n)))
			t := new(big.Float).Mul(prod, fl(a.v(n)))
			sum.Add(sum, t.Quo(t, fl(b.v(n))))
		}
		v, _ := sum.Rat(nil)
		if s := near(got, v, c.Precision-4); s != "" {
			return "!! dynamic sum: " + s
		}
		return text(got)
	}
	if s := same(e.z, got); s != "" {
		return s
	}
	sum, prod := new(big.Rat), new(big.Rat).SetInt64(1)
	for n := st.lo; n < st.hi; n++ {
		prod.Mul(prod, new(big.Rat).SetFrac64(p0.v(n), q.v(n)))
		t := new(big.Rat).Mul(prod, new(big.Rat).SetFrac64(a.v(n), b.v(n)))
		sum.Add(sum, t)
	}
	if sum.Sign() == 0 {
		if got.Sign() != 0 {
			return "!! sum is zero, got " + text(got)
		}
		return ""
	}
	if c.Precision < 400 {
		return text(got) // not exact; only compared
	}
	if s := near(got, sum, c.Precision-50); s != "" {
		return fmt.Sprintf("!! sum over [%d, %d): %s", st.lo, st.hi, s)
	}
	return ""
}
