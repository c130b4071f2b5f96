package main

import (
	"fmt"
	"math/big"
	"strings"

	"github.com/ericlagergren/decimal"
)

// Operations that scale by a power of ten, judged by exact arithmetic with
// powers the harness computes itself.  N[0] is the power, S and X are
// coefficients.

// tenTo is 10^n, computed without the library.
func tenTo(n int) *big.Int { return pow10(n) }

func powSize(r *Rng) int64 {
	switch k := r.N(100); {
	case k < 25:
		return int64(r.R(0, 45))
	case k < 60:
		// where the table ends after having been doubled some times
		return int64(20<<uint(r.N(8)) + r.R(-2, 2))
	case k < 90:
		return int64(r.R(20, 2600))
	case k < 96:
		return int64(r.R(2500, 7000))
	case k < 97:
		return int64(r.R(5000, 9000))
	}
	return int64(100000 + r.PickI(0, 0, 1, 2, 50, r.N(20000)))
}

func powInt(s string) *big.Int {
	b, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic("bad int " + s)
	}
	return b
}

// decOf makes coefficient m with exponent e.
func decOf(m *big.Int, e int) *decimal.Big {
	z := new(decimal.Big)
	setVal(z, m.String()+"e"+fmt.Sprint(e))
	return z
}

// coefOf is the signed coefficient of x.
func coefOf(x *decimal.Big) *big.Int {
	c, u := decimal.Raw(x)
	m := new(big.Int)
	if *c != maxUint64 {
		m.SetUint64(*c)
	} else {
		m.Set(u)
	}
	if x.Signbit() {
		m.Neg(m)
	}
	return m
}

func brief(x *big.Int) string {
	s := x.String()
	if len(s) > 60 {
		return fmt.Sprintf("%s...%s (%d digits)", s[:25], s[len(s)-25:], len(s))
	}
	return s
}

func wantInt(what string, got, want *big.Int) string {
	if got.Cmp(want) != 0 {
		return bad("C03", "%s gave %s, want %s", what, brief(got), brief(want))
	}
	return ""
}

// wantDec checks coefficient and exponent.
func wantDec(what string, z *decimal.Big, m *big.Int, e int) string {
	if !z.IsFinite() {
		return bad("C03", "%s gave %s", what, text(z))
	}
	if -z.Scale() != e {
		return bad("C03", "%s gave exponent %d, want %d", what, -z.Scale(), e)
	}
	s := wantInt(what, coefOf(z), m)
	if s == "" {
		n := len(strings.TrimPrefix(m.String(), "-"))
		if z.Precision() != n {
			s = bad("C03", "%s: the result has %d digits, and says %d", what, n, z.Precision())
		}
	}
	return s
}

// finishPow ends an operation: the storage it gave the caller may be written.
func scribbleDec(z *decimal.Big) {
	_, u := decimal.Raw(z)
	scribbleInt(u)
	z.SetMantScale(3, 0)
}

func init() {
	gen := func(r *Rng, o *Op) {
		n := powSize(r)
		m := func() string {
			s := digits(r, r.PickI(1, 1, 2, 5, 19, 20, 21, 40))
			if r.P(15) {
				s = "1"
			}
			if r.P(30) {
				s = "-" + s
			}
			return s
		}
		o.N = []int64{n, int64(r.R(-30, 30)), int64(r.N(4))}
		o.S = m()
		o.X = []string{m()}
	}
	unl := decimal.Context{Precision: decimal.UnlimitedPrecision, MaxScale: decimal.MaxScale, MinScale: decimal.MinScale}
	pw := func(name string, f func(e *Env, n, e0, k int, m, m2 *big.Int) string) {
		def(OpDef{Name: name, Rcv: true, Tags: "pow10", Gen: gen, Exec: func(e *Env) string {
			if e.op.N[0] > 20000 && name != "pow.Int" && name != "pow.Rat" {
				return "" // a decimal of that many digits makes the table grow to its full size, which takes gigabytes
			}
			return f(e, int(e.op.N[0]), int(e.op.N[1]), int(e.op.N[2]), powInt(e.op.S), powInt(e.op.X[0]))
		}})
	}
	pw("pow.Int", func(e *Env, n, e0, k int, m, m2 *big.Int) string {
		x := decOf(m, n)
		var z *big.Int
		if k == 1 {
			z = new(big.Int).Lsh(big.NewInt(7), 300)
		}
		g := x.Int(z)
		s := wantInt(fmt.Sprintf("Int of %se%d", m, n), g, new(big.Int).Mul(m, tenTo(n)))
		scribbleInt(g)
		if n > 20000 || n == 0 {
			return s
		}
		// and down again
		x = decOf(new(big.Int).Add(new(big.Int).Mul(m, tenTo(n)), big.NewInt(int64(m.Sign()))), -n)
		g = x.Int(nil)
		s += wantInt(fmt.Sprintf("Int of a number with %d decimals", n), g, m)
		scribbleInt(g)
		return s
	})
	pw("pow.Cmp", func(e *Env, n, e0, k int, m, m2 *big.Int) string {
		// m e(e0+n) against m*10^n + d e e0
		big1 := new(big.Int).Mul(m, tenTo(n))
		s := ""
		for d := int64(-1); d <= 1; d++ {
			y := decOf(new(big.Int).Add(big1, big.NewInt(d)), e0)
			x := decOf(m, e0+n)
			if g := x.Cmp(y); g != int(-d) {
				s += bad("C03", "comparing %se%d with itself written with %d more digits plus %d gave %d", m, e0+n, n, d, g)
			}
			if g := y.Cmp(x); g != int(d) {
				s += bad("C03", "comparing %se%d, written with %d more digits and %d added, with itself gave %d", m, e0+n, n, d, g)
			}
			if k == 0 {
				break
			}
		}
		return s
	})
	pw("pow.Add", func(e *Env, n, e0, k int, m, m2 *big.Int) string {
		x, y := decOf(m, e0+n), decOf(m2, e0)
		want := new(big.Int).Mul(m, tenTo(n))
		if k%2 == 1 {
			x, y = y, x
		}
		if k < 2 {
			want.Add(want, m2)
			unl.Add(e.z, x, y)
		} else {
			want.Sub(want, m2)
			if k == 3 {
				want.Neg(want)
			}
			unl.Sub(e.z, x, y)
		}
		if want.Sign() == 0 {
			return ""
		}
		s := wantDec(fmt.Sprintf("adding (%d) %se%d and %se%d", k, m, e0+n, m2, e0), e.z, want, e0)
		scribbleDec(e.z)
		return s
	})
	pw("pow.Quantize", func(e *Env, n, e0, k int, m, m2 *big.Int) string {
		c := unl
		c.RoundingMode = decimal.ToZero
		z := e.z
		setVal(z, m.String()+"e"+fmt.Sprint(e0))
		c.Quantize(z, -(e0 - n))
		up := new(big.Int).Mul(m, tenTo(n))
		s := wantDec(fmt.Sprintf("giving %se%d %d more digits", m, e0, n), z, up, e0-n)
		scribbleDec(z)
		// down, cutting off n digits of which the last is not zero
		setVal(z, new(big.Int).Add(up, big.NewInt(int64(m.Sign()))).String()+"e"+fmt.Sprint(e0))
		if n == 0 {
			return s
		}
		c.Quantize(z, -(e0 + n))
		s += wantDec(fmt.Sprintf("cutting %d digits off", n), z, m, e0+n)
		scribbleDec(z)
		return s
	})
	pw("pow.Round", func(e *Env, n, e0, k int, m, m2 *big.Int) string {
		if n == 0 {
			return ""
		}
		c := unl
		c.RoundingMode = []decimal.RoundingMode{decimal.ToZero, decimal.AwayFromZero, decimal.ToNearestEven, decimal.ToNearestAway}[k]
		c.Precision = len(strings.TrimPrefix(m.String(), "-"))
		// m followed by half of a unit, or one less
		tail := new(big.Int).Mul(big.NewInt(5), tenTo(n-1))
		want := new(big.Int).Set(m)
		sg := big.NewInt(int64(m.Sign()))
		inc := k == 1 || k == 3 || k == 2 && m.Bit(0) == 1
		if e.op.N[1]%2 != 0 {
			tail.Sub(tail, big.NewInt(1))
			inc = k == 1 && tail.Sign() > 0
		}
		if inc {
			want.Add(want, sg)
		}
		ex := e0 + n
		if len(strings.TrimPrefix(want.String(), "-")) > c.Precision {
			want.Quo(want, big.NewInt(10))
			ex++
		}
		x := new(big.Int).Mul(m, tenTo(n))
		x.Add(x, tail.Mul(tail, sg))
		setVal(e.z, x.String()+"e"+fmt.Sprint(e0))
		c.Round(e.z)
		s := wantDec(fmt.Sprintf("rounding off %d digits (mode %v, coefficient %s)", n, c.RoundingMode, brief(x)), e.z, want, ex)
		scribbleDec(e.z)
		return s
	})
	pw("pow.QuoInt", func(e *Env, n, e0, k int, m, m2 *big.Int) string {
		c := unl
		x, y := decOf(m, e0+n), decOf(m2, e0)
		a := new(big.Int).Mul(m, tenTo(n))
		if a.Sign() == 0 || m2.Sign() == 0 {
			return ""
		}
		if k == 0 {
			// the other way round
			x, y = decOf(new(big.Int).Mul(a, m2), e0), decOf(m2, e0+n)
			c.QuoInt(e.z, x, y)
			s := wantDec(fmt.Sprintf("%s10^%de%d / %se%d", m, n, e0, m2, e0+n), e.z, m, 0)
			scribbleDec(e.z)
			return s
		}
		q, r := new(big.Int).QuoRem(a, m2, new(big.Int))
		s := ""
		if k != 1 {
			c.QuoInt(e.z, x, y)
			if q.Sign() != 0 {
				s = wantDec(fmt.Sprintf("%se%d div %se%d", m, e0+n, m2, e0), e.z, q, 0)
			}
		} else {
			c.Rem(e.z, x, y)
			if r.Sign() != 0 {
				s = wantDec(fmt.Sprintf("%se%d rem %se%d", m, e0+n, m2, e0), e.z, r, e0)
			}
		}
		scribbleDec(e.z)
		return s
	})
	pw("pow.Rat", func(e *Env, n, e0, k int, m, m2 *big.Int) string {
		var z *big.Rat
		if k == 1 {
			z = new(big.Rat).SetFrac64(-7, 11)
		}
		g := decOf(m, -n).Rat(z)
		want := new(big.Rat).SetFrac(m, tenTo(n))
		s := ""
		if g.Cmp(want) != 0 {
			s += bad("C03", "Rat of %se-%d gave %s/%s", m, n, brief(g.Num()), brief(g.Denom()))
		}
		scribbleInt(g.Num())
		scribbleInt(g.Denom())
		g = decOf(m, n).Rat(nil)
		if !g.IsInt() || g.Num().Cmp(new(big.Int).Mul(m, tenTo(n))) != 0 {
			s += bad("C03", "Rat of %se%d gave %s", m, n, brief(g.Num()))
		}
		scribbleInt(g.Num())
		return s
	})
	pw("pow.IsInt", func(e *Env, n, e0, k int, m, m2 *big.Int) string {
		if n > 20000 || n == 0 {
			return ""
		}
		m.Abs(m)
		for new(big.Int).Mod(m, big.NewInt(10)).Sign() == 0 {
			m.Add(m, big.NewInt(1))
		}
		x := new(big.Int).Mul(m, tenTo(n))
		s := ""
		for d := -1; d <= 1; d++ {
			if g := decOf(x, -(n + d)).IsInt(); g != (d <= 0) {
				s += bad("C03", "%s10^%de%d: IsInt is %v", m, n, -(n + d), g)
			}
		}
		return s
	})
	pw("pow.nines", func(e *Env, n, e0, k int, m, m2 *big.Int) string {
		if n == 0 || n > 20000 {
			return ""
		}
		c := decimal.Context{Precision: n}
		x := new(decimal.Big).SetInf(false)
		c.NextMinus(e.z, x)
		s := wantInt(fmt.Sprintf("the largest coefficient of %d digits", n), coefOf(e.z), new(big.Int).Sub(tenTo(n), big.NewInt(1)))
		scribbleDec(e.z)
		return s
	})
	pw("pow.Quo", func(e *Env, n, e0, k int, m, m2 *big.Int) string {
		if m2.Sign() == 0 || m.Sign() == 0 || n > 20000 {
			return ""
		}
		// a quotient of n+5 digits, cut off
		c := unl
		c.Precision = n + 5
		c.RoundingMode = decimal.ToZero
		c.Quo(e.z, decOf(m, e0), decOf(m2, 0))
		v := new(big.Rat).SetFrac(m, m2)
		if e0 >= 0 {
			v.Mul(v, new(big.Rat).SetInt(tenTo(e0)))
		} else {
			v.Quo(v, new(big.Rat).SetInt(tenTo(-e0)))
		}
		s := ""
		if nr := near(e.z, v, n+3); nr != "" {
			s = bad("C03", "%se%d / %s to %d digits: %s", m, e0, m2, n+5, clip(nr))
		}
		scribbleDec(e.z)
		return s
	})
	pw("pow.FMA", func(e *Env, n, e0, k int, m, m2 *big.Int) string {
		x, y, u := decOf(m, n), decOf(m2, e0), decOf(m2, e0-3)
		want := new(big.Int).Mul(m, m2)
		want.Mul(want, tenTo(n+3))
		want.Add(want, m2)
		if want.Sign() == 0 {
			return ""
		}
		unl.FMA(e.z, x, y, u)
		s := wantDec(fmt.Sprintf("%se%d * %se%d + %se%d", m, n, m2, e0, m2, e0-3), e.z, want, e0-3)
		scribbleDec(e.z)
		return s
	})
	// every power, at the end
	def(OpDef{Name: "pow.sweep", Rcv: true, Tags: "powsweep", Gen: func(r *Rng, o *Op) { o.N = []int64{int64(r.PickI(60, 200, 700, 1400)), int64(r.N(3))} }, Exec: func(e *Env) string {
		p := big.NewInt(1)
		ten := big.NewInt(10)
		for n := 0; n < int(e.op.N[0]); n++ {
			if n < 50 || n%3 == int(e.op.N[1]) {
				if s := wantInt(fmt.Sprintf("10^%d", n), decOf(big.NewInt(1), n).Int(nil), p); s != "" {
					return s
				}
			}
			p.Mul(p, ten)
		}
		return ""
	}})
}
