package main

import "strings"

// Case generation shared by the concurrent properties.

// mix describes the workload of a property.
type mix struct {
	ops      []string // candidate operations
	kinds    []string // operand kinds
	ctxMode  string
	goMode   int // percentage of Go-mode contexts
	minTasks int
	maxTasks int
	maxOps   int // per task
	shared   [2]int
	warm     int // percentage of cases with an earlier history
	warmOps  []string
	after    int
	afterOps []string
	dirty    int // percentage of receivers with an earlier life
	pool     bool
	fat      bool // shape storage
	alias    int  // percentage of operands that are a receiver
	opt      string
	follow   []string // operations that use the receiver afterwards
	noCost   bool     // leave out some of the expensive operations
	sane     bool     // only contexts that are valid
	harsh    int      // percentage of cases whose contexts have narrow exponent limits and directed rounding
	again    int      // percentage of cases in which operations of the tasks are tried again
}

func pickOps(r *Rng, all []string, n int) []string {
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, all[r.N(len(all))])
	}
	return l
}

// genOp draws an operation name from set with the given slots.
func genOp(r *Rng, m *mix, name string, shared int, z, z2 int) Op {
	d := ops[name]
	o := Op{K: name, Z: z}
	if d.R2 {
		o.R = z2
	}
	if m.alias > 0 && r.P(40) {
		o.Z, z = z2, o.Z
		z2 = o.Z
		if d.R2 {
			o.R = z
		}
	}
	for i := 0; i < d.NArg; i++ {
		switch {
		case r.P(m.alias):
			o.A = append(o.A, o.Z)
		case m.alias > 0 && d.R2 && r.P(30):
			o.A = append(o.A, o.R)
		case m.alias > 0 && i > 0 && r.P(30):
			o.A = append(o.A, o.A[i-1])
		case m.alias > 0 && r.P(20):
			o.A = append(o.A, z)
		default:
			o.A = append(o.A, r.N(shared))
		}
	}
	if d.Gen != nil {
		d.Gen(r, &o)
	}
	return o
}

// genConcurrent draws a case: shared operands, and tasks with receivers of
// their own.
func genConcurrent(r *Rng, m *mix) *Case {
	c := &Case{Sched: genSched(r), Opt: m.opt}
	if m.maxTasks == 1 {
		c.Sched = Sched{Kind: "solo"}
	}
	if m.pool {
		c.Pool = genPool(r)
	} else {
		c.Pool.Mode = "miss"
	}
	// swarm: a random subset of the operations and of the operand kinds
	sub := pickOps(r, m.ops, r.R(1, 6))
	for i, n := range sub {
		// expensive operations, thinned out
		if m.noCost && ops[n].Cost > 0 && r.P(75) {
			sub[i] = m.ops[r.N(len(m.ops))]
		}
	}
	kinds := pickOps(r, m.kinds, r.R(1, 5))
	for _, n := range sub {
		if k := ops[n].Kinds; len(k) > 0 && r.P(70) {
			kinds = append(kinds, k...)
		}
	}
	// Go mode does not round, so that long computations explode.
	goMode := r.P(m.goMode)
	for _, n := range sub {
		if ops[n].Cost > 0 {
			goMode = false
		}
	}
	nsh := r.R(m.shared[0], m.shared[1])
	for i := 0; i < nsh; i++ {
		v := Val{V: genVal(r, kinds[r.N(len(kinds))])}
		v.C = genCtx(r, m.ctxMode)
		odd(r, 1, &v.C)
		v.C.O %= 2
		if m.fat && r.P(40) {
			v.H = r.Pick("fat", "stale", "fat", "stale", "copy", "text", "sum", "parts", "neg")
		}
		if goMode {
			v.C.O = 1
		}
		c.Vals = append(c.Vals, v)
	}
	if nsh > 1 && r.P(30) {
		i, j := r.N(nsh), r.N(nsh-1)
		if j >= i {
			j++
		}
		c.Vals[i].V, c.Vals[j].V = relate(r, c.Vals[i].V)
	}
	nt := r.R(m.minTasks, m.maxTasks)
	for t := 0; t < nt; t++ {
		z := len(c.Vals)
		for k := 0; k < 2; k++ {
			v := Val{V: "0e0", C: genCtx(r, m.ctxMode)}
			if !m.sane {
				odd(r, 2, &v.C)
			}
			v.C.O %= 2
			if goMode && v.C.O == 0 {
				v.C.O = 1
			}
			if r.P(m.dirty) {
				v.V = genVal(r, kinds[r.N(len(kinds))])
				if r.P(30) {
					v.V = genVal(r, m.kinds[r.N(len(m.kinds))])
				} else if r.P(15) {
					_, v.V = relate(r, c.Vals[r.N(nsh)].V)
				}
				if r.P(50) {
					v.C.C = uint32(r.N(1 << 15))
				}
				if m.fat {
					v.H = r.Pick("", "fat", "stale", "", "fat", "stale", "copy", "text", "sum", "parts")
				}
			}
			c.Vals = append(c.Vals, v)
		}
		var l []Op
		for i := r.R(1, m.maxOps); i > 0; i-- {
			o := genOp(r, m, sub[r.N(len(sub))], nsh, z, z+1)
			if goMode && o.C != nil {
				o.C.O = 1
			}
			l = append(l, o)
		}
		if len(m.follow) > 0 {
			for i := r.R(1, 3); i > 0; i-- {
				name := m.follow[r.N(len(m.follow))]
				o := genOp(r, m, name, nsh, z+1, z+1)
				for j := range o.A {
					if j == 0 || r.P(40) {
						o.A[j] = z
					}
				}
				d := ops[name]
				if d.InZ || r.P(25) {
					o.Z, o.R = z, z+1
				} else if d.R2 {
					o.R = z
				}
				if !d.R2 {
					o.R = 0
				}
				l = append(l, o)
			}
		}
		c.Tasks = append(c.Tasks, l)
	}
	hist := func(n int, src []string) (l []Op) {
		hz := len(c.Vals)
		c.Vals = append(c.Vals, Val{V: "0e0", C: genCtx(r, m.ctxMode)}, Val{V: "0e0", C: genCtx(r, m.ctxMode)})
		if len(src) == 0 {
			src = m.ops
		}
		for i := 0; i < n; i++ {
			name := src[r.N(len(src))]
			if r.P(25) {
				name = sub[r.N(len(sub))]
			}
			l = append(l, genOp(r, m, name, nsh, hz, hz+1))
		}
		return
	}
	if r.P(m.warm) {
		c.Warm = hist(r.R(1, 3), m.warmOps)
	}
	if r.P(m.after) {
		c.After = hist(r.R(1, 3), m.afterOps)
	}
	if r.P(m.again) {
		var l []Op
		for _, t := range c.Tasks {
			for _, o := range t {
				if r.P(60) {
					l = append(l, o)
				}
			}
		}
		c.After = append(l, c.After...)
	}
	if r.P(m.harsh) {
		c.harsh(r)
	}
	if r.P(35) {
		c.alike(r, nsh)
	} else if r.P(30) {
		c.palette(r)
	}
	return c
}

// harsh gives contexts narrow exponent limits and makes many of them round
// away from zero, under which what ought to vanish never does.
func (c *Case) harsh(r *Rng) {
	mode := uint8(r.PickI(2, 2, 2, 3, 4, 5, 7))
	set := func(x *Ctx) {
		if r.P(80) {
			x.Max, x.Min = r.PickI(1, 2, 10, 50, 400, 1000), -r.PickI(1, 2, 10, 50, 400, 1000)
			if r.P(20) {
				x.Max = 0
			} else if r.P(20) {
				x.Min = 0
			}
		}
		if mode != 7 && r.P(80) {
			x.R = mode
		}
	}
	for i := range c.Vals {
		set(&c.Vals[i].C)
	}
	for _, l := range append(append([][]Op{c.Warm}, c.Tasks...), c.After) {
		for i := range l {
			o := &l[i]
			if o.C == nil || len(o.N) > 0 { // what a callback's numbers may be goes by its context
				continue
			}
			cc := *o.C
			set(&cc)
			o.C = &cc
		}
	}
}

// palette makes operations of a kind use two different contexts only.
func (c *Case) palette(r *Rng) {
	pal := map[string][]*Ctx{}
	for _, l := range append(append([][]Op{c.Warm}, c.Tasks...), c.After) {
		for i := range l {
			o := &l[i]
			// what a callback's numbers may be goes by its context
			if o.C == nil || len(o.N) > 0 && !strings.HasPrefix(o.K, "const.") {
				continue
			}
			k := o.K
			if strings.HasPrefix(k, "const.") {
				k = "const."
				if strings.HasSuffix(o.K, "/long") {
					k += "long"
				}
				if len(o.N) > 0 {
					k += "q"
				}
			}
			if len(pal[k]) < 2 {
				pal[k] = append(pal[k], o.C)
				continue
			}
			cc := *pal[k][r.N(2)]
			o.C = &cc
		}
	}
}

// alike makes operations of the same name use the same context, and some of
// them the same arguments: what one of them leaves behind might be found by
// the next.
func (c *Case) alike(r *Rng, nsh int) {
	first := map[string]*Op{}
	for _, l := range append(append([][]Op{c.Warm}, c.Tasks...), c.After) {
		for i := range l {
			o := &l[i]
			f := first[o.K]
			if f == nil {
				first[o.K] = o
				continue
			}
			both := r.P(50) && !ops[o.K].InZ
			if f.C != nil && (both || len(f.N) == 0 || strings.HasPrefix(o.K, "const.")) {
				cc := *f.C
				o.C = &cc
			}
			if both {
				own := false
				for _, a := range append(append([]int(nil), o.A...), f.A...) {
					own = own || a >= nsh
				}
				if !own {
					o.A = append([]int(nil), f.A...)
				}
				o.N = append([]int64(nil), f.N...)
				o.S = f.S
			}
		}
	}
}
