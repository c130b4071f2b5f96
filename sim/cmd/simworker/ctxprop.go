package main

import (
	"strings"

	"github.com/ericlagergren/decimal"
)

// otherCtx is another context for a decimal whose own context is not to
// matter.  The operating mode and the traps stay: it is the receiver that
// panics.
func otherCtx(r *Rng, c Ctx) Ctx {
	n := genCtx(r, "")
	odd(r, 8, &n)
	n.T, n.O, n.C = c.T, c.O, c.C
	return n
}

// respell writes the context in another way: what is zero means the default.
func respell(r *Rng, c Ctx) Ctx {
	if r.P(60) {
		switch c.P {
		case 0:
			c.P = decimal.DefaultPrecision
		case decimal.DefaultPrecision:
			c.P = 0
		}
	}
	if r.P(60) {
		switch c.Max {
		case 0:
			c.Max = decimal.MaxScale
		case decimal.MaxScale:
			c.Max = 0
		}
	}
	if r.P(60) {
		switch c.Min {
		case 0:
			c.Min = decimal.MinScale
		case decimal.MinScale:
			c.Min = 0
		}
	}
	return c
}

// ctxForm gives the name of the operation that takes the context explicitly.
func ctxForm(k string) string {
	if i := strings.IndexByte(k, '.'); i >= 0 {
		if p := k[:i]; p != "math" && p != "misc" {
			return ""
		}
		k = k[i+1:]
	}
	k = "c." + k
	if ops[k] == nil || k == "c.Round" || k == "c.SetString" { // Round is told the precision; SetString does not round
		return ""
	}
	return k
}

// variant is the same operation on the same numbers in the same context, but
// with everything else about contexts changed: those of the operands, that of
// the receiver if the operation is told another, the way defaults are written,
// and whether the context is that of the receiver or given.
func variant(r *Rng, o *Op, pre []Val) (*Op, []Val, string) {
	d := ops[o.K]
	n := *o
	v := append([]Val(nil), pre...)
	how := ""
	for i := 2; i < len(v); i++ {
		if r.P(70) {
			v[i].C = otherCtx(r, v[i].C)
			v[i].C.O = uint8(r.N(2))
			v[i].C.T = uint32(r.N(1 << 15))
			v[i].C.C = uint32(r.N(1 << 15))
			how += " operand"
		}
	}
	if o.C == nil && d.Rcv && r.P(60) {
		if k := ctxForm(o.K); k != "" && len(o.A) == ops[k].NArg {
			n.K = k
			c := v[0].C
			c.C = 0
			n.C = &c
			how += " explicit"
		}
	}
	switch {
	case n.C != nil:
		c := respell(r, *n.C)
		n.C = &c
		how += " spelling"
		// what the receiver's own context is does not matter
		for i := 0; i < 2; i++ {
			if i == 0 && d.Rcv || i == 1 && d.R2 {
				v[i].C = otherCtx(r, v[i].C)
				how += " receiver"
			}
		}
	case d.Rcv:
		v[0].C = respell(r, v[0].C)
		how += " spelling"
	}
	return &n, v, how
}
