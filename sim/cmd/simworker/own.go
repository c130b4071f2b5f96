package main

import (
	"fmt"

	"github.com/ericlagergren/decimal"
)

// Runs that look for shared storage: a few variables per task, operations
// that copy, convert and exchange objects in every direction between them, and
// writes to either side in between.

func init() {
	// The caller overwrites an object it exchanged with the library earlier.
	def(OpDef{Name: "own.dirty", Tags: "owndirty", Gen: func(r *Rng, o *Op) { o.N = []int64{int64(r.N(1 << 20))} }, Exec: func(e *Env) string {
		if e.w == nil {
			return ""
		}
		if l := e.w.own[e.task]; len(l) > 0 {
			l[int(e.op.N[0])%len(l)].Dirty()
			fire("caller-overwrote-object")
		}
		return ""
	}})
	// Every word of the variable's storage is overwritten.
	def(OpDef{Name: "own.scribble", Rcv: true, Tags: "ownscribble", Gen: func(r *Rng, o *Op) { o.N = []int64{int64(r.N(1000))} }, Exec: func(e *Env) string {
		_, u := decimal.Raw(e.z)
		scribbleInt(u)
		fire("storage-overwritten")
		e.z.SetMantScale(e.op.N[0], 1)
		return ""
	}})
	// A value that grows within its storage.
	def(OpDef{Name: "own.grow", Rcv: true, InZ: true, Tags: "owngrow", Exec: func(e *Env) string {
		if e.z.IsFinite() && e.z.Precision() < 2000 {
			c := decimal.Context{Precision: decimal.UnlimitedPrecision}
			c.Mul(e.z, e.z, decimal.New(1<<62, 3))
		}
		return ""
	}})
	def(OpDef{Name: "New", NArg: 0, Rcv: true, Tags: "copy", Gen: func(r *Rng, o *Op) { o.N = []int64{int64(r.U64()), int64(r.R(-9, 9))} }, Exec: func(e *Env) string {
		e.z.Copy(decimal.New(e.op.N[0], int(e.op.N[1])))
		return fmt.Sprint(decimal.WithPrecision(7).Context, decimal.WithContext(e.z.Context).Context == e.z.Context)
	}})
}

func genOwn(r *Rng, all []string) *Case {
	c := &Case{Opt: "own"}
	c.Pool = genPool(r)
	if r.P(50) {
		c.Pool.Mode = "stale"
	}
	c.Sched = Sched{Kind: "solo"}
	nt := 1
	if r.P(25) {
		nt = r.R(2, 3)
		c.Sched = genSched(r)
	}
	kinds := []string{"big", "big", "huge", "edge", "mid", "small", "nan", "inf", "zero", "far"}
	sub := pickOps(r, all, r.R(2, 8))
	for i, n := range sub {
		if ops[n].Cost > 0 && r.P(70) {
			sub[i] = all[r.N(len(all))]
		}
	}
	kk := pickOps(r, kinds, r.R(1, 4))
	for _, n := range sub {
		if k := ops[n].Kinds; len(k) > 0 && r.P(60) {
			kk = append(kk, k...)
		}
	}
	for t := 0; t < nt; t++ {
		base := len(c.Vals)
		n := r.R(2, 5)
		for i := 0; i < n; i++ {
			c.Vals = append(c.Vals, Val{V: genVal(r, kk[r.N(len(kk))]), C: genCtx(r, ""), H: r.Pick("", "", "", "fat", "fat", "stale", "stale", "copy", "text", "sum", "parts", "neg")})
		}
		if r.P(20) {
			c.Vals[base].V, c.Vals[base+1].V = relate(r, c.Vals[base].V)
		}
		var l []Op
		for i := r.R(3, 14); i > 0; i-- {
			name := sub[r.N(len(sub))]
			switch {
			case r.P(12):
				name = "own.dirty"
			case r.P(12):
				name = "own.scribble"
			case r.P(8):
				name = "own.grow"
			}
			d := ops[name]
			o := Op{K: name, Z: base + r.N(n)}
			if d.R2 {
				o.R = base + (o.Z-base+1+r.N(n-1))%n
			}
			for j := 0; j < d.NArg; j++ {
				o.A = append(o.A, base+r.N(n))
			}
			if d.Gen != nil {
				d.Gen(r, &o)
			}
			l = append(l, o)
		}
		c.Tasks = append(c.Tasks, l)
	}
	return c
}
