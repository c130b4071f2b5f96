package main

import (
	"encoding/hex"
	"fmt"
	"math"
	"math/big"
	"sort"
	"strings"

	"github.com/ericlagergren/decimal"
	dmath "github.com/ericlagergren/decimal/math"
	"github.com/ericlagergren/decimal/misc"
	"github.com/ericlagergren/decimal/sql/postgres"
)

// Op is one call.
type Op struct {
	K string   `json:"k"`
	Z int      `json:"z"`
	R int      `json:"r,omitempty"` // second receiver
	A []int    `json:"a,omitempty"`
	N []int64  `json:"n,omitempty"`
	S string   `json:"s,omitempty"`
	C *Ctx     `json:"c,omitempty"`
	D []Dev    `json:"d,omitempty"` // simulated devices and their faults
	X []string `json:"x,omitempty"`
}

func (o Op) String() string {
	s := o.K
	s += fmt.Sprintf("(z%d", o.Z)
	if d := ops[o.K]; d != nil && d.R2 {
		s += fmt.Sprintf(",r%d", o.R)
	}
	for _, a := range o.A {
		s += fmt.Sprintf(",v%d", a)
	}
	for _, n := range o.N {
		s += fmt.Sprintf(",%d", n)
	}
	if o.S != "" {
		s += fmt.Sprintf(",%q", clip(o.S))
	}
	for _, x := range o.X {
		s += fmt.Sprintf(",%q", x)
	}
	if o.C != nil {
		s += fmt.Sprintf(",ctx%+v", *o.C)
	}
	for _, d := range o.D {
		s += fmt.Sprintf(",dev%+v", d)
	}
	return s + ")"
}

// Env is what an operation runs on.
type Env struct {
	z, r *decimal.Big
	a    []*decimal.Big
	op   *Op
	// caller-owned objects the operation was given or returned; the world
	// watches or overwrites them
	own  []*Owned
	task int
	// task-visible extras
	w *World
}

// Owned is an object a caller exchanged with the library.
type Owned struct {
	Name  string
	Snap  func() string // content
	Dirty func()        // overwrite in place
	Given string        // content when it was handed over
	In    bool          // the library was given it to read
}

// OpDef defines an operation.
type OpDef struct {
	Name  string
	NArg  int
	Rcv   bool // writes z
	InZ   bool // z's content is an operand
	R2    bool // writes r
	Read  bool // only reads
	Tags  string
	Kinds []string // operand kinds to prefer
	Gen   func(r *Rng, o *Op)
	Exec  func(e *Env) string
	Cost  int // 0 cheap, 1 transcendental
	Far   int // how far operands may be, if not 20000
}

var ops = map[string]*OpDef{}
var opNames []string

func def(d OpDef) {
	if ops[d.Name] != nil {
		panic("duplicate op " + d.Name)
	}
	d.Tags = " " + d.Tags + " "
	ops[d.Name] = &d
	opNames = append(opNames, d.Name)
}

func (d *OpDef) has(tag string) bool { return strings.Contains(d.Tags, " "+tag+" ") }

// tagged lists the operations with any of the tags.
func tagged(tags ...string) []string {
	var l []string
	for _, n := range opNames {
		for _, t := range tags {
			if ops[n].has(t) {
				l = append(l, n)
				break
			}
		}
	}
	sort.Strings(l)
	return l
}

func (e *Env) ctx() decimal.Context {
	if e.op.C != nil {
		return e.op.C.Context()
	}
	return e.z.Context
}

func same(z, got *decimal.Big) string {
	if got == nil {
		return "nil"
	}
	if got != z {
		return "returned another decimal: " + text(got)
	}
	return ""
}

func n0(e *Env) int { return int(e.op.N[0]) }

func init() {
	type b1 = func(z, x *decimal.Big) *decimal.Big
	type b2 = func(z, x, y *decimal.Big) *decimal.Big
	bin := func(name, tags string, f b2) {
		def(OpDef{Name: name, NArg: 2, Rcv: true, Tags: tags, Exec: func(e *Env) string { return same(e.z, f(e.z, e.a[0], e.a[1])) }})
	}
	un := func(name, tags string, f b1) {
		def(OpDef{Name: name, NArg: 1, Rcv: true, Tags: tags, Exec: func(e *Env) string { return same(e.z, f(e.z, e.a[0])) }})
	}
	type c1 = func(c decimal.Context, z, x *decimal.Big) *decimal.Big
	type c2 = func(c decimal.Context, z, x, y *decimal.Big) *decimal.Big
	ctxgen := func(mode string) func(r *Rng, o *Op) {
		return func(r *Rng, o *Op) {
			c := genCtx(r, mode)
			if mode == "trans" && (r.P(2) || strings.HasPrefix(o.K, "c.Log") && r.P(8)) {
				// Beyond the digits of the constants that are stored; from 750
				// digits on, logarithms are computed in another way.
				c.P = r.PickI(310, 420, 750, 770, r.R(751, 800))
				c.Max, c.Min = 0, 0
			}
			odd(r, 3, &c)
			o.C = &c
		}
	}
	cbin := func(name, tags string, f c2) {
		def(OpDef{Name: name, NArg: 2, Rcv: true, Tags: tags, Gen: ctxgen(""), Exec: func(e *Env) string { return same(e.z, f(e.ctx(), e.z, e.a[0], e.a[1])) }})
	}
	cun := func(name, tags string, f c1) {
		def(OpDef{Name: name, NArg: 1, Rcv: true, Tags: tags, Gen: ctxgen(""), Exec: func(e *Env) string { return same(e.z, f(e.ctx(), e.z, e.a[0])) }})
	}
	// operations that are exact in an unlimited context
	cbinU := func(name, tags string, f c2) { cbin(name, tags, f); ops[name].Gen = ctxgen("unlimited") }
	cunU := func(name, tags string, f c1) { cun(name, tags, f); ops[name].Gen = ctxgen("unlimited") }
	// transcendental: context of bounded precision, moderate operands
	tun := func(name, tags string, f c1, kinds ...string) {
		def(OpDef{Name: name, NArg: 1, Rcv: true, Cost: 1, Tags: "trans ctxop " + tags, Kinds: kinds, Gen: ctxgen("trans"), Exec: func(e *Env) string { return same(e.z, f(e.ctx(), e.z, e.a[0])) }})
	}
	tbin := func(name, tags string, f c2, kinds ...string) {
		def(OpDef{Name: name, NArg: 2, Rcv: true, Cost: 1, Tags: "trans ctxop " + tags, Kinds: kinds, Gen: ctxgen("trans"), Exec: func(e *Env) string { return same(e.z, f(e.ctx(), e.z, e.a[0], e.a[1])) }})
	}

	// ---- arithmetic with the receiver's context ----
	bin("Add", "arith far", (*decimal.Big).Add)
	bin("Sub", "arith far", (*decimal.Big).Sub)
	bin("Mul", "arith", (*decimal.Big).Mul)
	bin("Quo", "arith", (*decimal.Big).Quo)
	bin("QuoInt", "arith", (*decimal.Big).QuoInt)
	bin("Rem", "arith", (*decimal.Big).Rem)
	un("Abs", "arith copy", (*decimal.Big).Abs)
	un("Neg", "arith copy", (*decimal.Big).Neg)
	un("Set", "arith copy", (*decimal.Big).Set)
	un("Copy", "copy", (*decimal.Big).Copy)
	un("CopyAbs", "copy", (*decimal.Big).CopyAbs)
	un("CopyNeg", "copy", (*decimal.Big).CopyNeg)
	un("Canonical", "copy", (*decimal.Big).Canonical)
	bin("CopySign", "copy", (*decimal.Big).CopySign)
	def(OpDef{Name: "FMA", NArg: 3, Rcv: true, Tags: "arith pool", Exec: func(e *Env) string { return same(e.z, e.z.FMA(e.a[0], e.a[1], e.a[2])) }})
	def(OpDef{Name: "QuoRem", NArg: 2, Rcv: true, R2: true, Tags: "arith", Exec: func(e *Env) string {
		q, r := e.z.QuoRem(e.a[0], e.a[1], e.r)
		return same(e.z, q) + same(e.r, r)
	}})

	// ---- arithmetic with an explicit context ----
	cbinU("c.Add", "arith ctxop far", decimal.Context.Add)
	cbinU("c.Sub", "arith ctxop far", decimal.Context.Sub)
	cbinU("c.Mul", "arith ctxop", decimal.Context.Mul)
	cbinU("c.Quo", "arith ctxop", decimal.Context.Quo)
	cbin("c.QuoInt", "arith ctxop", decimal.Context.QuoInt)
	cbin("c.Rem", "arith ctxop", decimal.Context.Rem)
	cunU("c.Abs", "arith ctxop copy", decimal.Context.Abs)
	cunU("c.Neg", "arith ctxop copy", decimal.Context.Neg)
	cunU("c.Set", "arith ctxop copy", decimal.Context.Set)
	cun("c.Floor", "arith ctxop", decimal.Context.Floor)
	cun("c.Ceil", "arith ctxop", decimal.Context.Ceil)
	cun("c.NextPlus", "arith ctxop", decimal.Context.NextPlus)
	cun("c.NextMinus", "arith ctxop", decimal.Context.NextMinus)
	un("misc.NextPlus", "arith next", misc.NextPlus)
	un("misc.NextMinus", "arith next", misc.NextMinus)
	un("misc.CopyAbs", "copy", misc.CopyAbs)
	un("misc.CopyNeg", "copy", misc.CopyNeg)
	un("misc.Canonical", "copy", misc.Canonical)
	def(OpDef{Name: "c.FMA", NArg: 3, Rcv: true, Tags: "arith ctxop pool", Gen: ctxgen("unlimited"), Exec: func(e *Env) string {
		return same(e.z, e.ctx().FMA(e.z, e.a[0], e.a[1], e.a[2]))
	}})
	def(OpDef{Name: "c.QuoRem", NArg: 2, Rcv: true, R2: true, Tags: "arith ctxop", Gen: ctxgen(""), Exec: func(e *Env) string {
		q, r := e.ctx().QuoRem(e.z, e.a[0], e.a[1], e.r)
		return same(e.z, q) + same(e.r, r)
	}})

	// ---- transcendental ----
	tun("c.Sqrt", "pool const", decimal.Context.Sqrt, "small", "mid", "unit", "big", "int")
	tun("c.Exp", "pool const", decimal.Context.Exp, "small", "unit", "int")
	tun("c.Log", "pool const", decimal.Context.Log, "small", "mid", "unit", "int", "near1")
	tun("c.Log10", "pool const", decimal.Context.Log10, "small", "mid", "unit", "int", "near1")
	tun("c.Sin", "pool const", decimal.Context.Sin, "small", "unit", "int", "vast", "near1")
	tun("c.Cos", "pool const", decimal.Context.Cos, "small", "unit", "int", "vast", "near1")
	tun("c.Tan", "pool const", decimal.Context.Tan, "small", "unit", "int", "vast", "near1")
	tun("c.Asin", "pool const", decimal.Context.Asin, "unit", "unit", "small", "near1")
	tun("c.Acos", "pool const", decimal.Context.Acos, "unit", "unit", "small", "near1")
	tun("c.Atan", "pool const", decimal.Context.Atan, "small", "unit", "mid")
	tbin("c.Atan2", "pool const", decimal.Context.Atan2, "small", "unit", "int")
	tbin("c.Hypot", "pool", decimal.Context.Hypot, "small", "mid", "unit")
	tbin("c.Pow", "pool const", decimal.Context.Pow, "small", "int", "unit")
	for _, m := range []struct {
		n string
		f b1
	}{{"Sqrt", dmath.Sqrt}, {"Exp", dmath.Exp}, {"Log", dmath.Log}, {"Sin", dmath.Sin}, {"Atan", dmath.Atan}, {"Tan", dmath.Tan}, {"Asin", dmath.Asin}, {"Acos", dmath.Acos}, {"Cos", dmath.Cos}, {"Log10", dmath.Log10}, {"Floor", dmath.Floor}, {"Ceil", dmath.Ceil}} {
		f := m.f
		def(OpDef{Name: "math." + m.n, NArg: 1, Rcv: true, Cost: 1, Tags: "trans mathop pool const", Kinds: []string{"small", "unit", "int"}, Exec: func(e *Env) string { return same(e.z, f(e.z, e.a[0])) }})
	}
	for _, m := range []struct {
		n string
		f b2
	}{{"Pow", dmath.Pow}, {"Hypot", dmath.Hypot}, {"Atan2", dmath.Atan2}} {
		f := m.f
		def(OpDef{Name: "math." + m.n, NArg: 2, Rcv: true, Cost: 1, Tags: "trans mathop pool const", Kinds: []string{"small", "unit", "int"}, Exec: func(e *Env) string { return same(e.z, f(e.z, e.a[0], e.a[1])) }})
	}
	constGen := func(r *Rng, o *Op) {
		c := genCtx(r, "trans")
		c.P = r.PickI(1, 5, 16, 0, 40, 100, 200, 290, 298, r.R(1, 295))
		c.Max, c.Min = 0, 0
		odd(r, 3, &c)
		o.C = &c
	}
	def(OpDef{Name: "c.Pi", Rcv: true, Tags: "constop const ctxop", Gen: constGen, Exec: func(e *Env) string { return same(e.z, e.ctx().Pi(e.z)) }})
	def(OpDef{Name: "c.E", Rcv: true, Tags: "constop const ctxop", Gen: constGen, Exec: func(e *Env) string { return same(e.z, e.ctx().E(e.z)) }})
	def(OpDef{Name: "math.Pi", Rcv: true, Tags: "constop const mathop", Exec: func(e *Env) string { return same(e.z, dmath.Pi(e.z)) }})
	def(OpDef{Name: "math.E", Rcv: true, Tags: "constop const mathop", Exec: func(e *Env) string { return same(e.z, dmath.E(e.z)) }})
	// Beyond the stored digits the constants are computed.
	bigGen := func(r *Rng, o *Op) { o.C = &Ctx{P: r.R(299, 330)} }
	def(OpDef{Name: "c.Pi/long", Rcv: true, Cost: 1, Tags: "constlong const ctxop split", Gen: bigGen, Exec: func(e *Env) string { return same(e.z, e.ctx().Pi(e.z)) }})
	def(OpDef{Name: "c.E/long", Rcv: true, Cost: 1, Tags: "constlong const ctxop", Gen: bigGen, Exec: func(e *Env) string { return same(e.z, e.ctx().E(e.z)) }})

	// ---- in-place operations ----
	ngen := func(lo, hi int) func(r *Rng, o *Op) {
		return func(r *Rng, o *Op) { o.N = []int64{int64(r.R(lo, hi))} }
	}
	def(OpDef{Name: "Quantize", Rcv: true, InZ: true, Tags: "inplace far", Gen: ngen(-30, 40), Exec: func(e *Env) string { return same(e.z, e.z.Quantize(n0(e))) }})
	def(OpDef{Name: "Round", Rcv: true, InZ: true, Tags: "inplace", Gen: ngen(1, 40), Exec: func(e *Env) string { return same(e.z, e.z.Round(n0(e))) }})
	def(OpDef{Name: "RoundToInt", Rcv: true, InZ: true, Tags: "inplace", Exec: func(e *Env) string { return same(e.z, e.z.RoundToInt()) }})
	def(OpDef{Name: "Reduce", Rcv: true, InZ: true, Tags: "inplace", Exec: func(e *Env) string { return same(e.z, e.z.Reduce()) }})
	def(OpDef{Name: "SetScale", Rcv: true, InZ: true, Tags: "inplace", Gen: ngen(-50, 50), Exec: func(e *Env) string { return same(e.z, e.z.SetScale(n0(e))) }})
	def(OpDef{Name: "SetSignbit", Rcv: true, InZ: true, Tags: "inplace", Gen: ngen(0, 1), Exec: func(e *Env) string { return same(e.z, e.z.SetSignbit(n0(e) == 1)) }})
	def(OpDef{Name: "misc.SetSignbit", Rcv: true, InZ: true, Tags: "inplace", Gen: ngen(0, 1), Exec: func(e *Env) string { return same(e.z, misc.SetSignbit(e.z, n0(e) == 1)) }})
	def(OpDef{Name: "c.Quantize", Rcv: true, InZ: true, Tags: "inplace ctxop", Gen: func(r *Rng, o *Op) { ngen(-30, 40)(r, o); ctxgen("")(r, o) }, Exec: func(e *Env) string { return same(e.z, e.ctx().Quantize(e.z, n0(e))) }})
	def(OpDef{Name: "c.Round", Rcv: true, InZ: true, Tags: "inplace ctxop", Gen: ctxgen("tight"), Exec: func(e *Env) string { return same(e.z, e.ctx().Round(e.z)) }})
	def(OpDef{Name: "c.RoundToInt", Rcv: true, InZ: true, Tags: "inplace ctxop", Gen: ctxgen(""), Exec: func(e *Env) string { return same(e.z, e.ctx().RoundToInt(e.z)) }})
	def(OpDef{Name: "c.Reduce", Rcv: true, InZ: true, Tags: "inplace ctxop", Gen: ctxgen("tight"), Exec: func(e *Env) string { return same(e.z, e.ctx().Reduce(e.z)) }})

	// ---- setters; objects the caller passes in are registered as owned ----
	intGen := func(r *Rng, o *Op) {
		o.S = strings.SplitN(genVal(r, r.Pick("small", "mid", "big", "huge", "edge", "zero")), "e", 2)[0]
		if o.S == "-0" {
			o.S = "0"
		}
	}
	def(OpDef{Name: "SetBigMantScale", Rcv: true, Tags: "set own", Gen: func(r *Rng, o *Op) { intGen(r, o); o.N = []int64{int64(r.R(-20, 20))} }, Exec: func(e *Env) string {
		b := e.bigIn("mantissa", e.op.S)
		return same(e.z, e.z.SetBigMantScale(b, n0(e)))
	}})
	def(OpDef{Name: "SetMantScale", Rcv: true, Tags: "set", Gen: func(r *Rng, o *Op) {
		o.N = []int64{int64(r.U64()) >> uint(r.N(64)), int64(r.R(-20, 20))}
	}, Exec: func(e *Env) string { return same(e.z, e.z.SetMantScale(e.op.N[0], int(e.op.N[1]))) }})
	def(OpDef{Name: "SetUint64", Rcv: true, Tags: "set", Gen: func(r *Rng, o *Op) {
		o.N = []int64{int64(r.U64() >> uint(r.N(64)))}
		if r.P(10) {
			o.N[0] = -1
		}
	}, Exec: func(e *Env) string { return same(e.z, e.z.SetUint64(uint64(e.op.N[0]))) }})
	def(OpDef{Name: "SetInf", Rcv: true, Tags: "set", Gen: ngen(0, 1), Exec: func(e *Env) string { return same(e.z, e.z.SetInf(n0(e) == 1)) }})
	def(OpDef{Name: "SetNaN", Rcv: true, Tags: "set", Gen: ngen(0, 1), Exec: func(e *Env) string { return same(e.z, e.z.SetNaN(n0(e) == 1)) }})
	def(OpDef{Name: "SetFloat64", Rcv: true, Tags: "set", Gen: func(r *Rng, o *Op) { o.N = []int64{int64(floatBits(r))} }, Exec: func(e *Env) string {
		return same(e.z, e.z.SetFloat64(math.Float64frombits(uint64(e.op.N[0]))))
	}})
	def(OpDef{Name: "SetFloat", Rcv: true, Tags: "set own", Gen: func(r *Rng, o *Op) {
		o.S = r.Pick("0", "-0", "+Inf", "-Inf", "1.5", "-2.75", "1e20", fmt.Sprint(float64(r.N(100000))/64), digits(r, 30), "-"+digits(r, 18), digits(r, 5)+"."+digits(r, 12))
	}, Exec: func(e *Env) string {
		f, _, err := big.ParseFloat(e.op.S, 10, 120, big.ToNearestEven)
		if err != nil {
			panic(err)
		}
		e.own1(&Owned{Name: "float", In: true, Snap: func() string { return f.Text('p', 0) }, Dirty: func() { f.SetInt64(-77777) }})
		return same(e.z, e.z.SetFloat(f))
	}})
	ratGen := func(r *Rng, o *Op) {
		n := r.Pick(fmt.Sprint(r.R(-1000, 1000)), digits(r, r.R(1, 40)), "-"+digits(r, r.R(1, 25)), "0")
		d := r.Pick("1", "2", "3", "7", "8", "125", fmt.Sprint(1+r.N(1000)), digits(r, r.R(1, 30)))
		o.S = n + "/" + d
	}
	def(OpDef{Name: "SetRat", Rcv: true, Tags: "set own", Gen: ratGen, Exec: func(e *Env) string { return same(e.z, e.z.SetRat(e.ratIn())) }})
	def(OpDef{Name: "c.SetRat", Rcv: true, Tags: "set own ctxop", Gen: func(r *Rng, o *Op) { ratGen(r, o); ctxgen("")(r, o) }, Exec: func(e *Env) string { return same(e.z, e.ctx().SetRat(e.z, e.ratIn())) }})
	strGen := func(r *Rng, o *Op) { o.S = genText(r) }
	def(OpDef{Name: "SetString", Rcv: true, Tags: "set parse", Gen: strGen, Exec: func(e *Env) string {
		g, ok := e.z.SetString(e.op.S)
		return parseOut(e.z, g, ok)
	}})
	def(OpDef{Name: "c.SetString", Rcv: true, Tags: "set parse ctxop", Gen: func(r *Rng, o *Op) { strGen(r, o); ctxgen("")(r, o) }, Exec: func(e *Env) string {
		g, ok := e.ctx().SetString(e.z, e.op.S)
		return parseOut(e.z, g, ok)
	}})
	def(OpDef{Name: "UnmarshalText", Rcv: true, Tags: "set parse own", Gen: strGen, Exec: func(e *Env) string {
		return errStr(e.z.UnmarshalText(e.bufIn("text", []byte(e.op.S))))
	}})
	def(OpDef{Name: "UnmarshalJSON", Rcv: true, Tags: "set parse own", Gen: func(r *Rng, o *Op) {
		strGen(r, o)
		if r.P(50) {
			o.S = `"` + o.S + `"`
		}
	}, Exec: func(e *Env) string {
		return errStr(e.z.UnmarshalJSON(e.bufIn("json", []byte(e.op.S))))
	}})
	def(OpDef{Name: "Sscan", Rcv: true, Tags: "set parse", Gen: strGen, Exec: func(e *Env) string {
		n, err := fmt.Sscan(e.op.S, e.z)
		return fmt.Sprint(n, errStr(err))
	}})
	def(OpDef{Name: "pg.Scan", Rcv: true, Tags: "set parse own", Gen: func(r *Rng, o *Op) { strGen(r, o); o.N = []int64{int64(r.N(2))} }, Exec: func(e *Env) string {
		d := postgres.Decimal{V: e.z}
		var v interface{} = e.op.S
		if n0(e) == 1 {
			v = e.bufIn("row", []byte(e.op.S))
		}
		err := d.Scan(v)
		if d.V != e.z {
			return "replaced the decimal"
		}
		if err != nil {
			// the text may list conditions accumulated earlier
			return "refused"
		}
		return ""
	}})
	def(OpDef{Name: "Compose", Rcv: true, Tags: "set own compose", Gen: func(r *Rng, o *Op) {
		o.N = []int64{int64(r.PickI(0, 0, 0, 0, 0, 1, 2, 3)), int64(r.N(2)), int64(r.R(-40, 40))}
		b := make([]byte, r.PickI(0, 1, 4, 8, 9, 16, 17))
		for i := range b {
			b[i] = byte(r.U64())
		}
		o.S = hex.EncodeToString(b)
	}, Exec: func(e *Env) string {
		b, _ := hex.DecodeString(e.op.S)
		return errStr(e.z.Compose(byte(e.op.N[0]), e.op.N[1] == 1, e.bufIn("coefficient", b), int32(e.op.N[2])))
	}})

	// ---- reading ----
	rd := func(name string, nargs int, tags string, gen func(r *Rng, o *Op), f func(e *Env) string) {
		def(OpDef{Name: name, NArg: nargs, Read: true, Tags: "read " + tags, Gen: gen, Exec: f})
	}
	rd("Cmp", 2, "cmp far", nil, func(e *Env) string { return fmt.Sprint(e.a[0].Cmp(e.a[1])) })
	rd("CmpAbs", 2, "cmp far", nil, func(e *Env) string { return fmt.Sprint(e.a[0].CmpAbs(e.a[1])) })
	rd("CmpTotal", 2, "cmp far", nil, func(e *Env) string { return fmt.Sprint(e.a[0].CmpTotal(e.a[1])) })
	rd("CmpTotalAbs", 2, "cmp", nil, func(e *Env) string { return fmt.Sprint(e.a[0].CmpTotalAbs(e.a[1])) })
	rd("misc.CmpTotal", 2, "cmp", nil, func(e *Env) string { return fmt.Sprint(misc.CmpTotal(e.a[0], e.a[1])) })
	rd("misc.CmpTotalAbs", 2, "cmp", nil, func(e *Env) string { return fmt.Sprint(misc.CmpTotalAbs(e.a[0], e.a[1])) })
	rd("SameQuantum", 2, "cmp", nil, func(e *Env) string { return fmt.Sprint(e.a[0].SameQuantum(e.a[1]), misc.SameQuantum(e.a[0], e.a[1])) })
	minmax := func(name string, f func(a, b, c *decimal.Big) *decimal.Big, nargs int) {
		rd(name, nargs, "minmax cmp", nil, func(e *Env) string {
			var c *decimal.Big
			if nargs > 2 {
				c = e.a[2]
			}
			g := f(e.a[0], e.a[1], c)
			return "value " + text(g)
		})
	}
	minmax("Max", func(a, b, c *decimal.Big) *decimal.Big { return decimal.Max(a, b) }, 2)
	minmax("Min", func(a, b, c *decimal.Big) *decimal.Big { return decimal.Min(a, b, c) }, 3)
	minmax("MaxAbs", func(a, b, c *decimal.Big) *decimal.Big { return decimal.MaxAbs(a, b, c) }, 3)
	minmax("MinAbs", func(a, b, c *decimal.Big) *decimal.Big { return decimal.MinAbs(a, b, c) }, 3)
	minmax("misc.Max", func(a, b, c *decimal.Big) *decimal.Big { return misc.Max(a, b, c) }, 3)
	minmax("misc.Min", func(a, b, c *decimal.Big) *decimal.Big { return misc.Min(a, b, c) }, 3)
	minmax("misc.MaxAbs", func(a, b, c *decimal.Big) *decimal.Big { return misc.MaxAbs(a, b, c) }, 3)
	minmax("misc.MinAbs", func(a, b, c *decimal.Big) *decimal.Big { return misc.MinAbs(a, b, c) }, 3)
	rd("Queries", 1, "query", nil, func(e *Env) string {
		x := e.a[0]
		m, mok := x.Mantissa()
		m2, mok2 := misc.Mantissa(x)
		sc := 0
		if x.IsFinite() {
			sc = x.Scale()
		} else {
			m, m2 = 0, 0
		}
		return fmt.Sprint(x.Class(), x.Sign(), x.Signbit(), sc, x.Precision(), x.IsFinite(), x.IsInf(0), x.IsInf(1), x.IsInf(-1), x.IsInt(),
			x.IsNaN(0), x.IsNaN(1), x.IsNaN(-1), x.IsNormal(), x.IsSubnormal(), x.Payload(), m, mok, m2, mok2, x.Context.Err())
	})
	rd("Int64", 1, "conv", nil, func(e *Env) string { v, ok := e.a[0].Int64(); return fmt.Sprint(v, ok) })
	rd("Uint64", 1, "conv", nil, func(e *Env) string { v, ok := e.a[0].Uint64(); return fmt.Sprint(v, ok) })
	rd("Float64", 1, "conv", nil, func(e *Env) string { v, ok := e.a[0].Float64(); return fmt.Sprint(math.Float64bits(v), ok) })
	rd("IsInt", 1, "query far", nil, func(e *Env) string { return fmt.Sprint(e.a[0].IsInt()) })
	zgen := ngen(0, 2)
	rd("Int", 1, "conv ownout far", zgen, func(e *Env) string {
		var z *big.Int
		switch n0(e) {
		case 1:
			z = new(big.Int)
		case 2:
			z = new(big.Int).Lsh(big.NewInt(-3), 900)
		}
		g := e.a[0].Int(z)
		if z != nil && g != z {
			return "Int returned another big.Int"
		}
		s := g.String()
		e.own1(&Owned{Name: "Int result", Snap: g.String, Dirty: func() { scribbleInt(g) }})
		return s
	})
	rd("Rat", 1, "conv ownout", ngen(0, 1), func(e *Env) string {
		var z *big.Rat
		if n0(e) == 1 {
			z = big.NewRat(-77, 13)
		}
		g := e.a[0].Rat(z)
		if z != nil && g != z {
			return "Rat returned another big.Rat"
		}
		s := g.String()
		e.own1(&Owned{Name: "Rat result", Snap: g.String, Dirty: func() { scribbleInt(g.Num()) }})
		return s
	})
	rd("Float", 1, "conv ownout", ngen(0, 1), func(e *Env) string {
		var z *big.Float
		if n0(e) == 1 {
			z = new(big.Float).SetPrec(200).SetInt64(-5)
		}
		g := e.a[0].Float(z)
		if z != nil && g != z {
			return "Float returned another big.Float"
		}
		s := g.Text('p', 0)
		e.own1(&Owned{Name: "Float result", Snap: func() string { return g.Text('p', 0) }, Dirty: func() { g.SetInt64(999) }})
		return s
	})
	rd("String", 1, "fmtop", nil, func(e *Env) string { return e.a[0].String() })
	rd("MarshalText", 1, "fmtop ownout", nil, func(e *Env) string {
		b, err := e.a[0].MarshalText()
		s := string(b)
		e.bufOut("MarshalText result", b)
		return s + errStr(err)
	})
	rd("Sprintf", 1, "fmtop", func(r *Rng, o *Op) { o.S = genVerb(r) }, func(e *Env) string { return fmt.Sprintf(e.op.S, e.a[0]) })
	rd("Decompose", 1, "conv ownout", ngen(0, 40), func(e *Env) string {
		if s := e.a[0].Scale(); e.a[0].IsFinite() && (s > math.MaxInt32 || s < math.MinInt32) {
			return "skipped"
		}
		buf := make([]byte, n0(e))
		f, neg, co, exp := e.a[0].Decompose(buf)
		s := fmt.Sprint(f, neg, new(big.Int).SetBytes(co), exp)
		e.bufOut("Decompose result", co)
		return s
	})
	rd("pg.Value", 1, "conv pg", ngen(0, 1), func(e *Env) string {
		d := postgres.Decimal{V: e.a[0], Round: n0(e) == 1}
		v, err := d.Value()
		if d.V != e.a[0] {
			return "replaced the decimal"
		}
		return fmt.Sprint(v, errStr(err))
	})

	// ---- callbacks ----
	def(OpDef{Name: "c.Lentz", Rcv: true, Cost: 1, Tags: "callback gen pool ctxop", Gen: genFrac, Exec: execFrac})
	def(OpDef{Name: "c.Wallis", Rcv: true, Cost: 1, Tags: "callback gen ctxop", Gen: genFrac, Exec: execFrac})
	def(OpDef{Name: "BinarySplit", Rcv: true, Cost: 1, Tags: "callback split pool ctxop", Gen: genSplit, Exec: execSplit})

	sort.Strings(opNames)
}

func errStr(err error) string {
	if err == nil {
		return ""
	}
	return "error: " + err.Error()
}

func parseOut(z, g *decimal.Big, ok bool) string {
	if g != nil && g != z {
		return "returned another decimal"
	}
	return fmt.Sprint(g != nil, ok)
}

func floatBits(r *Rng) uint64 {
	switch r.N(8) {
	case 0:
		return math.Float64bits(0)
	case 1:
		return math.Float64bits(math.Copysign(0, -1))
	case 2:
		return math.Float64bits(math.Inf(1))
	case 3:
		return math.Float64bits(math.Inf(-1))
	case 4:
		return math.Float64bits(math.NaN())
	case 5:
		return math.Float64bits(float64(r.R(-1000000, 1000000)) / 1024)
	case 6:
		return math.Float64bits(float64(r.U64()))
	}
	return math.Float64bits(float64(int64(r.U64())) * math.Pow(2, float64(r.R(-120, 60))))
}

// scribbleInt overwrites the words of z in place.
func scribbleInt(z *big.Int) {
	b := z.Bits()
	b = b[:cap(b)]
	for i := range b {
		b[i] = 0xdeadbeefdeadbeef
	}
}

func (e *Env) own1(o *Owned) {
	if e.w == nil {
		return
	}
	if o.Given == "" {
		o.Given = o.Snap()
	}
	e.own = append(e.own, o)
}

func (e *Env) bigIn(name, s string) *big.Int {
	b, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic("bad int " + s)
	}
	// spare capacity, so that a callee that grabs the storage can also write it
	b.Lsh(b, 300)
	b.Rsh(b, 300)
	e.own1(&Owned{Name: name, In: true, Given: s, Snap: b.String, Dirty: func() { scribbleInt(b) }})
	return b
}

func (e *Env) ratIn() *big.Rat {
	q, ok := new(big.Rat).SetString(e.op.S)
	if !ok {
		panic("bad rat " + e.op.S)
	}
	e.own1(&Owned{Name: "rat", In: true, Snap: q.String, Dirty: func() { scribbleInt(q.Num()) }})
	return q
}

func (e *Env) bufIn(name string, b []byte) []byte {
	// The caller's buffer is larger than the text in it, as a driver's row
	// buffer is.
	full := make([]byte, len(b)+16)
	copy(full, b)
	for i := len(b); i < len(full); i++ {
		full[i] = '7'
	}
	given := string(full)
	e.own1(&Owned{Name: name, In: true, Given: given, Snap: func() string { return string(full) }, Dirty: func() {
		for i := range full {
			full[i] = '9'
		}
	}})
	return full[:len(b)]
}

func (e *Env) bufOut(name string, b []byte) {
	e.own1(&Owned{Name: name, Snap: func() string { return string(b) }, Dirty: func() {
		b := b[:cap(b)]
		for i := range b {
			b[i] = 0xa5
		}
	}})
}

// genVerb draws a format specification.
func genVerb(r *Rng) string {
	s := "%"
	for _, f := range "+- 0#" {
		if r.P(18) {
			s += string(f)
		}
	}
	if r.P(40) {
		s += fmt.Sprint(r.N(45))
	}
	if r.P(45) {
		s += "." + fmt.Sprint(r.N(30))
	}
	v := r.Pick("s", "v", "d", "e", "E", "f", "F", "g", "G", "q", "x", "t")
	if v == "v" {
		s = strings.NewReplacer("#", "", "+", "").Replace(s) // these show internals
	}
	return s + v
}

// genText draws a text to parse: mostly valid numbers, and damaged ones.
func genText(r *Rng) string {
	s := r.Pick("", "", "-", "+")
	switch r.N(12) {
	case 0:
		s += r.Pick("Infinity", "inf", "Inf", "INFINITY", "iNf")
	case 1:
		s += r.Pick("NaN", "nan", "sNaN", "SNAN", "qNaN", "NaN123", "sNaN7", "nan000", "NaN18446744073709551615")
	case 2:
		s += strings.Repeat("0", r.R(1, 4)) + r.Pick("", ".", ".0", ".000", "e5", "e-7")
	default:
		n := r.PickI(1, 2, 3, 5, 18, 19, 20, 21, 30, 60, 130)
		d := digits(r, n)
		if r.P(60) {
			i := r.N(n + 1)
			d = d[:i] + "." + d[i:]
		}
		s += d
		if r.P(40) {
			s += r.Pick("e", "E") + r.Pick("", "+", "-") + fmt.Sprint(r.N(r.PickI(5, 50, 400)))
		}
	}
	if r.P(25) {
		// damage
		b := []byte(s)
		i := r.N(len(b) + 1)
		switch r.N(3) {
		case 0:
			s = string(b[:i])
		case 1:
			s = string(b[:i]) + r.Pick("x", ".", "e", "-", " ", "+", "n", "i", "0", "\n", "\x00") + string(b[i:])
		default:
			if i < len(b) {
				s = string(b[:i]) + string(b[i+1:])
			}
		}
	}
	return s
}
