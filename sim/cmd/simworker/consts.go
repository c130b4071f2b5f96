package main

import (
	"fmt"
	"math/big"

	"github.com/ericlagergren/decimal"
	dmath "github.com/ericlagergren/decimal/math"
)

// Digits of constants, computed here with integers only.

const constDigits = 720

var (
	refPi, refE, refLn10 *big.Int // times 10^constDigits, cut off
	refLn2, refLog2      *big.Int // ln 2, log10 2
)

// Computed when the process starts: tasks only read them.
func init() {
	prec := constDigits + 30
	unit := pow10(prec)
	// atan(1/n), atanh(1/n)
	series := func(n int64, alternate bool) *big.Int {
		sum := new(big.Int)
		t := new(big.Int).Quo(unit, big.NewInt(n))
		n2 := big.NewInt(n * n)
		for k := int64(1); t.Sign() != 0; k += 2 {
			u := new(big.Int).Quo(t, big.NewInt(k))
			if alternate && k%4 == 3 {
				sum.Sub(sum, u)
			} else {
				sum.Add(sum, u)
			}
			t.Quo(t, n2)
		}
		return sum
	}
	lin := func(c1, x, c2, y *big.Int) *big.Int {
		return new(big.Int).Add(new(big.Int).Mul(c1, x), new(big.Int).Mul(c2, y))
	}
	cut := func(x *big.Int) *big.Int { return x.Quo(x, pow10(30)) }
	// Machin: pi = 16 atan(1/5) - 4 atan(1/239)
	refPi = cut(lin(big.NewInt(16), series(5, true), big.NewInt(-4), series(239, true)))
	// ln 10 = 3 ln 2 + ln 1.25 = 6 atanh(1/3) + 2 atanh(1/9)
	refLn2 = cut(lin(big.NewInt(2), series(3, false), new(big.Int), unit))
	refLn10 = cut(lin(big.NewInt(6), series(3, false), big.NewInt(2), series(9, false)))
	l2 := lin(big.NewInt(2), series(3, false), new(big.Int), unit)
	l10 := lin(big.NewInt(6), series(3, false), big.NewInt(2), series(9, false))
	refLog2 = cut(l2.Quo(l2.Mul(l2, unit), l10))
	e := new(big.Int)
	t := new(big.Int).Set(unit)
	for k := int64(1); t.Sign() != 0; k++ {
		e.Add(e, t)
		t.Quo(t, big.NewInt(k))
	}
	refE = cut(e)
}

// rounded gives the P-digit coefficient of ref under the mode.
func rounded(ref *big.Int, p int, mode decimal.RoundingMode) (*big.Int, int) {
	drop := len(ref.String()) - p
	q, r := new(big.Int).QuoRem(ref, pow10(drop), new(big.Int))
	up := false
	half := new(big.Int).Mul(big.NewInt(5), pow10(drop-1))
	switch mode {
	case decimal.ToNearestEven, decimal.ToNearestAway, decimal.ToNearestTowardZero:
		up = r.Cmp(half) > 0 // never exactly half
	case decimal.AwayFromZero, decimal.ToPositiveInf:
		up = true
	}
	if up {
		q.Add(q, big.NewInt(1))
	}
	e := drop - constDigits
	if len(q.String()) > p {
		q.Quo(q, big.NewInt(10))
		e++
	}
	return q, e
}

func checkConst(name string, z *decimal.Big, ref *big.Int, c decimal.Context) string {
	p := c.Precision
	if p == 0 {
		p = decimal.DefaultPrecision
	}
	q, e := rounded(ref, p, c.RoundingMode)
	want := new(big.Rat).SetInt(q)
	if e >= 0 {
		want.Mul(want, new(big.Rat).SetInt(pow10(e)))
	} else {
		want.Quo(want, new(big.Rat).SetInt(pow10(-e)))
	}
	if !z.IsFinite() || exactRat(z).Cmp(want) != 0 {
		return bad("C04", "%s to %d digits (%v) is %se%d, got %s", name, p, c.RoundingMode, q, e, text(z))
	}
	if z.Precision() != p {
		return bad("C04", "%s to %d digits has %d", name, p, z.Precision())
	}
	return ""
}

func init() {
	gen := func(r *Rng, o *Op) {
		c := Ctx{P: r.PickI(1, 2, 5, 16, 0, 40, 100, 200, 290, 299, 300, r.R(1, 300), r.R(1, 300))}
		if r.P(60) {
			c.R = uint8(r.N(7))
		}
		o.C = &c
		// how it is called; whether the caller then writes over the receiver
		o.N = []int64{int64(r.N(3)), int64(r.N(3))}
	}
	con := func(name string, ref **big.Int, f func(c decimal.Context, z *decimal.Big) *decimal.Big, f2 func(z *decimal.Big) *decimal.Big) {
		def(OpDef{Name: "const." + name, Rcv: true, Tags: "constq", Gen: gen, Exec: func(e *Env) string {
			c := e.ctx()
			var g *decimal.Big
			if n0(e) == 1 {
				conds := e.z.Context.Conditions
				e.z.Context = c
				e.z.Context.Conditions = conds
				g = f2(e.z)
			} else {
				g = f(c, e.z)
			}
			s := same(e.z, g) + checkConst(name, e.z, *ref, c)
			if len(e.op.N) > 1 && e.op.N[1] == 1 {
				scribbleDec(e.z)
				fire("constant-overwritten")
			}
			return s
		}})
		def(OpDef{Name: "const." + name + "/long", Rcv: true, Cost: 1, Tags: "constqlong", Gen: func(r *Rng, o *Op) {
			gen(r, o)
			o.C.P = r.PickI(301, 302, 330, r.R(301, 340), r.R(301, 600), 600, 520)
		}, Exec: ops["const."+name].Exec})
	}
	con("pi", &refPi, decimal.Context.Pi, dmath.Pi)
	con("e", &refE, decimal.Context.E, dmath.E)
	// Functions whose value at a point is a constant.
	at := func(name string, ref **big.Int, div int64, f func(c decimal.Context, z *decimal.Big) *decimal.Big) {
		exec := func(e *Env) string {
			c := e.ctx()
			p := c.Precision
			if p == 0 {
				p = decimal.DefaultPrecision
			}
			s := same(e.z, f(c, e.z))
			want := new(big.Rat).SetFrac(*ref, pow10(constDigits))
			want.Quo(want, new(big.Rat).SetInt64(div))
			if m := near(e.z, want, p-2); m != "" {
				s += bad("C04", "%s to %d digits: %s", name, p, m)
			}
			return s
		}
		def(OpDef{Name: "const." + name, Rcv: true, Cost: 1, Tags: "constat", Gen: func(r *Rng, o *Op) {
			o.C = &Ctx{P: r.PickI(3, 9, 16, 0, 34, 50, r.R(3, 120), r.R(3, 280))}
		}, Exec: exec})
		// beyond the digits that are built in
		def(OpDef{Name: "const." + name + "/long", Rcv: true, Cost: 2, Tags: "constatlong", Gen: func(r *Rng, o *Op) {
			o.C = &Ctx{P: r.PickI(297, 298, 300, 301, 310, r.R(290, 420), 460, r.R(430, 520))}
		}, Exec: exec})
	}

	at("log(10)", &refLn10, 1, func(c decimal.Context, z *decimal.Big) *decimal.Big { return c.Log(z, decimal.New(10, 0)) })
	at("log(1e5)/5", &refLn10, 1, func(c decimal.Context, z *decimal.Big) *decimal.Big {
		d := c
		d.Precision = d.Precision + 3
		if c.Precision == 0 {
			d.Precision = decimal.DefaultPrecision + 3
		}
		d.Log(z, decimal.New(1, -5))
		return c.Quo(z, z, decimal.New(5, 0))
	})
	at("log(2)", &refLn2, 1, func(c decimal.Context, z *decimal.Big) *decimal.Big { return c.Log(z, decimal.New(2, 0)) })
	at("log10(2)", &refLog2, 1, func(c decimal.Context, z *decimal.Big) *decimal.Big { return c.Log10(z, decimal.New(2, 0)) })
	at("log10(4)/2", &refLog2, 1, func(c decimal.Context, z *decimal.Big) *decimal.Big {
		if c.Precision == 0 {
			c.Precision = decimal.DefaultPrecision
		}
		c.Precision += 3
		c.Log10(z, decimal.New(4, 0))
		return c.Quo(z, z, decimal.New(2, 0))
	})
	at("exp(1)", &refE, 1, func(c decimal.Context, z *decimal.Big) *decimal.Big { return c.Exp(z, decimal.New(1, 0)) })
	at("acos(-1)", &refPi, 1, func(c decimal.Context, z *decimal.Big) *decimal.Big { return c.Acos(z, decimal.New(-1, 0)) })
	at("acos(0)", &refPi, 2, func(c decimal.Context, z *decimal.Big) *decimal.Big { return c.Acos(z, decimal.New(0, 0)) })
	at("asin(1)", &refPi, 2, func(c decimal.Context, z *decimal.Big) *decimal.Big { return c.Asin(z, decimal.New(1, 0)) })
	at("asin(0.5)", &refPi, 6, func(c decimal.Context, z *decimal.Big) *decimal.Big { return c.Asin(z, decimal.New(5, 1)) })
	at("acos(0.5)", &refPi, 3, func(c decimal.Context, z *decimal.Big) *decimal.Big { return c.Acos(z, decimal.New(5, 1)) })
	at("atan(1)", &refPi, 4, func(c decimal.Context, z *decimal.Big) *decimal.Big { return c.Atan(z, decimal.New(1, 0)) })
	at("atan(Inf)", &refPi, 2, func(c decimal.Context, z *decimal.Big) *decimal.Big {
		return c.Atan(z, new(decimal.Big).SetInf(false))
	})
	at("atan2(0,-1)", &refPi, 1, func(c decimal.Context, z *decimal.Big) *decimal.Big {
		return c.Atan2(z, decimal.New(0, 0), decimal.New(-1, 0))
	})
	at("atan2(1,0)", &refPi, 2, func(c decimal.Context, z *decimal.Big) *decimal.Big {
		return c.Atan2(z, decimal.New(1, 0), decimal.New(0, 0))
	})
	at("pow(10,0.5)^2", &ref10, 1, func(c decimal.Context, z *decimal.Big) *decimal.Big {
		c.Precision += 3
		if c.Precision == 3 {
			c.Precision = decimal.DefaultPrecision + 3
		}
		c.Pow(z, decimal.New(10, 0), decimal.New(5, 1))
		return c.Mul(z, z, z)
	})
}

var ref10 = new(big.Int).Mul(big.NewInt(10), pow10(constDigits))

var _ = fmt.Sprint
