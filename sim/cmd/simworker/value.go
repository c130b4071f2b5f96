package main

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"

	"github.com/ericlagergren/decimal"
)

// Ctx is a decimal.Context in a case file.
type Ctx struct {
	P   int    `json:"p,omitempty"`
	R   uint8  `json:"r,omitempty"`
	O   uint8  `json:"o,omitempty"`
	Max int    `json:"max,omitempty"`
	Min int    `json:"min,omitempty"`
	T   uint32 `json:"t,omitempty"`
	C   uint32 `json:"c,omitempty"` // accumulated conditions
}

func (c Ctx) Context() decimal.Context {
	return decimal.Context{
		Precision: c.P, RoundingMode: decimal.RoundingMode(c.R), OperatingMode: decimal.OperatingMode(c.O),
		MaxScale: c.Max, MinScale: c.Min, Traps: decimal.Condition(c.T), Conditions: decimal.Condition(c.C),
	}
}

func ctxOf(c decimal.Context) Ctx {
	return Ctx{P: c.Precision, R: uint8(c.RoundingMode), O: uint8(c.OperatingMode), Max: c.MaxScale, Min: c.MinScale,
		T: uint32(c.Traps), C: uint32(c.Conditions)}
}

// Val describes a decimal.
type Val struct {
	// V is the value: [-]digits"e"exponent, [-]Inf, [-][s]NaN[payload].
	V string `json:"v"`
	C Ctx    `json:"c,omitempty"`
	// H shapes the storage the value sits in: "fat" (spare capacity of an
	// earlier larger value), "stale" (words of an earlier larger value still
	// present), "" (plain); or the way the value got there: "copy", "text",
	// "sum", "parts" (composed), "neg".
	H string `json:"h,omitempty"`
}

// Build makes the decimal.
func (v Val) Build() *decimal.Big {
	z := new(decimal.Big)
	switch v.H {
	case "fat", "stale":
		// An earlier life as a large number.
		w := new(big.Int).Lsh(big.NewInt(0x5bd1e995), 700)
		z.SetBigMantScale(w, 7)
	}
	setVal(z, v.V)
	if y := new(decimal.Big); via(v.H, y, z) && text(y) == v.V {
		z = y
	}
	z.Context = v.C.Context()
	return z
}

// via stores x into y in the given way.
func via(how string, y, x *decimal.Big) bool {
	y.Context = decimal.ContextUnlimited
	switch how {
	case "copy":
		y.Copy(x)
	case "text":
		b, err := peek(x).MarshalText()
		if err != nil || len(b) > 2000 {
			return false
		}
		return y.UnmarshalText(b) == nil
	case "sum":
		if !x.IsFinite() {
			return false
		}
		y.Add(x, new(decimal.Big).SetScale(x.Scale()))
	case "neg":
		y.Copy(x)
		y.CopyNeg(y)
		y.CopyNeg(y)
	case "parts":
		if !x.IsFinite() {
			return false
		}
		return y.Compose(peek(x).Decompose(nil)) == nil
	default:
		return false
	}
	return true
}

// peek gives a copy of x that can be asked anything without x noticing.
func peek(x *decimal.Big) *decimal.Big {
	y := *x
	if c, u := decimal.Raw(&y); *c == maxUint64 {
		u.SetBits(append([]big.Word(nil), u.Bits()...))
	}
	return &y
}

// setVal stores the value through the public setters, without rounding.
func setVal(z *decimal.Big, s string) {
	z.Context = decimal.Context{}
	t := s
	neg := strings.HasPrefix(t, "-")
	if neg {
		t = t[1:]
	}
	switch {
	case t == "Inf":
		z.SetInf(neg)
		return
	case strings.HasPrefix(t, "sNaN"), strings.HasPrefix(t, "NaN"):
		sig := t[0] == 's'
		p := strings.TrimPrefix(strings.TrimPrefix(t, "s"), "NaN")
		z.SetNaN(sig)
		var u uint64
		if p != "" {
			fmt.Sscan(p, &u)
		}
		c, _ := decimal.Raw(z)
		*c = u
		z.SetSignbit(neg)
		z.Context = decimal.Context{}
		return
	}
	i := strings.IndexByte(t, 'e')
	m, ok := new(big.Int).SetString(t[:i], 10)
	if !ok {
		panic("bad value " + s)
	}
	var e int
	if _, err := fmt.Sscan(t[i+1:], &e); err != nil {
		panic("bad value " + s)
	}
	if m.IsUint64() && m.Uint64() != 1<<64-1 {
		z.SetUint64(m.Uint64())
		z.SetScale(-e)
	} else {
		z.SetBigMantScale(m, -e)
	}
	z.SetSignbit(neg)
}

// text gives the value (not the context) of x, read through the public
// accessors.
func text(x *decimal.Big) string {
	if x == nil {
		return "<nil>"
	}
	return peeked(peek(x))
}

func peeked(x *decimal.Big) string {
	s := ""
	if x.Signbit() {
		s = "-"
	}
	switch {
	case x.IsNaN(0):
		if !x.IsNaN(+1) {
			s += "s"
		}
		s += "NaN"
		if p := uint64(x.Payload()); p != 0 {
			s += fmt.Sprint(p)
		}
		return s
	case x.IsInf(0):
		return s + "Inf"
	}
	c, u := decimal.Raw(x)
	if *c != 1<<64-1 {
		return s + fmt.Sprint(*c) + "e" + fmt.Sprint(-x.Scale())
	}
	return s + u.String() + "e" + fmt.Sprint(-x.Scale())
}

func valOf(x *decimal.Big) Val { return Val{V: text(x), C: ctxOf(x.Context)} }

// snap is the whole observable state of x.
func snap(x *decimal.Big) string {
	if x == nil {
		return "<nil>"
	}
	x = peek(x)
	return fmt.Sprintf("%s p%d c%x", peeked(x), x.Precision(), uint32(x.Context.Conditions))
}

// full is snap with the context.
func full(x *decimal.Big) string {
	if x == nil {
		return "<nil>"
	}
	x = peek(x)
	return fmt.Sprintf("%s p%d %+v", peeked(x), x.Precision(), ctxOf(x.Context))
}

// wellFormed checks that everything that can be asked about x agrees with
// everything else.
func wellFormed(x *decimal.Big) (msg string) {
	defer func() {
		if v := recover(); v != nil {
			msg = fmt.Sprintf("asking the value panicked: %v", v)
		}
	}()
	x = peek(x)
	t := peeked(x)
	y := new(decimal.Big)
	setVal(y, t)
	y.Context = x.Context
	if full(x) != full(y) {
		return fmt.Sprintf("accessors report %s, a new decimal of that value %s", full(x), full(y))
	}
	q := func(b *decimal.Big) string {
		i, iok := int64(0), false
		if e := -b.Scale(); !b.IsFinite() || (e < 5000 && e > -5000) {
			i, iok = b.Int64()
		}
		return fmt.Sprint(b.Class(), b.Sign(), b.IsFinite(), b.IsInt(), b.String(), i, iok)
	}
	if a, b := q(x), q(y); a != b {
		return fmt.Sprintf("value %s: queries give %q, for a new decimal %q", t, a, b)
	}
	if x.CmpTotal(y) != 0 {
		return fmt.Sprintf("value %s: differs from a new decimal in total order", t)
	}
	// The representation must be the one a new decimal has, since every
	// operation relies on it.
	c1, _ := decimal.Raw(x)
	c2, _ := decimal.Raw(y)
	if x.IsFinite() && *c1 != *c2 {
		return fmt.Sprintf("value %s: not stored the way a new decimal is", t)
	}
	return ""
}

// ---- generation ----

const (
	maxUint64 = 1<<64 - 1
)

func digits(r *Rng, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('0' + r.N(10))
	}
	if b[0] == '0' {
		b[0] = byte('1' + r.N(9))
	}
	return string(b)
}

// genVal draws a value of the given kind.
func genVal(r *Rng, kind string) string {
	sign := ""
	if r.P(35) {
		sign = "-"
	}
	switch kind {
	case "small":
		return fmt.Sprintf("%s%de%d", sign, r.N(21), -r.PickI(0, 0, 0, 1, 2, 3))
	case "int":
		return fmt.Sprintf("%s%de0", sign, r.N(1000))
	case "unit":
		n := r.R(1, 12)
		return fmt.Sprintf("%s%se%d", sign, digits(r, n), -n-r.PickI(0, 0, 1, 3))
	case "mid":
		return fmt.Sprintf("%s%se%d", sign, digits(r, r.R(1, 19)), r.R(-22, 6))
	case "big":
		n := r.R(20, 60)
		return fmt.Sprintf("%s%se%d", sign, digits(r, n), r.R(-n-5, 10))
	case "huge":
		n := r.R(60, 320)
		if r.P(12) {
			n = r.R(320, 2500)
		}
		return fmt.Sprintf("%s%se%d", sign, digits(r, n), r.R(-n-5, 40))
	case "edge":
		switch r.N(6) {
		case 0:
			return fmt.Sprintf("%s1%se%d", sign, strings.Repeat("0", r.R(0, 45)), r.R(-30, 5))
		case 1:
			return fmt.Sprintf("%s%se%d", sign, strings.Repeat("9", r.R(1, 45)), r.R(-30, 5))
		case 2:
			return fmt.Sprintf("%s%de%d", sign, uint64(maxUint64-uint64(r.N(3))), r.R(-20, 3))
		case 3:
			u := new(big.Int).Lsh(big.NewInt(1), uint(64*r.R(1, 3)))
			u.Add(u, big.NewInt(int64(r.R(-2, 2))))
			return fmt.Sprintf("%s%se%d", sign, u, r.R(-20, 3))
		case 4:
			return fmt.Sprintf("%s%s5%se%d", sign, digits(r, r.R(1, 20)), strings.Repeat("0", r.R(0, 25)), r.R(-30, 5))
		default:
			return fmt.Sprintf("%s%de%d", sign, uint64(1)<<63-1+uint64(r.N(3)), r.R(-20, 3))
		}
	case "far":
		return fmt.Sprintf("%s%se%d", sign, digits(r, r.R(1, 25)), r.R(-700, 700))
	case "vfar":
		return fmt.Sprintf("%s%se%d", sign, digits(r, r.R(1, 25)), r.R(-5000, 5000))
	case "pgfrac":
		n := r.PickI(1, 1, 2, 3, 5, 9, 19, 20, 21, r.R(1, 60))
		e := -r.PickI(16383, 16384, 16385, 16383+n-1, 16383+n, 16383+n+1, 16383+n+2, r.R(16360, 16480), r.R(16380, 20000))
		switch r.N(5) {
		case 0:
			return fmt.Sprintf("%s%se%d", sign, strings.Repeat("9", n), e)
		case 1:
			return fmt.Sprintf("%s%s5%se%d", sign, digits(r, r.R(1, 3)), strings.Repeat("0", r.R(0, 4)), e)
		case 2:
			return fmt.Sprintf("%s%de%d", sign, r.PickI(0, 1, 5, 9, 50, 49, 51, 100), e)
		}
		return fmt.Sprintf("%s%se%d", sign, digits(r, n), e)
	case "pgint":
		n := r.PickI(1, 2, 5, 19, 20, 40)
		return fmt.Sprintf("%s%se%d", sign, digits(r, n), 131072-n+r.PickI(-2, -1, 0, 0, 1, 1, 2, 30))
	case "near1":
		n := r.R(1, 40)
		u := pow10(n)
		u.Add(u, big.NewInt(int64(r.PickI(-9, -1, 1, 1, 5, r.R(-99, 99)))))
		return fmt.Sprintf("%s%se%d", sign, u, -n)
	case "vast":
		return fmt.Sprintf("%s%se%d", sign, digits(r, r.R(1, 25)), r.R(25, 60))
	case "zero":
		return fmt.Sprintf("%s0e%d", sign, r.R(-40, 10))
	case "nan":
		p := ""
		if r.P(50) {
			p = fmt.Sprint(r.N(1000) + 1)
		}
		return sign + r.Pick("", "", "s") + "NaN" + p
	case "inf":
		return sign + "Inf"
	}
	panic("unknown kind " + kind)
}

var kindMix = []string{"small", "small", "small", "int", "unit", "unit", "mid", "mid", "big", "big", "huge", "edge", "edge", "far", "zero", "nan", "inf"}

func genCtx(r *Rng, mode string) Ctx {
	var c Ctx
	switch mode {
	case "tight":
		c.P = r.PickI(1, 2, 3, 5, 9, 16, 0)
	case "trans":
		c.P = r.PickI(3, 9, 16, 0, 19, 25, 34, 40)
	default:
		c.P = r.PickI(1, 3, 5, 9, 16, 0, 19, 20, 34, 50, 100)
		if mode == "unlimited" && r.P(15) {
			c.P = decimal.UnlimitedPrecision
		}
	}
	if r.P(50) {
		c.R = uint8(r.N(7))
	}
	if r.P(10) {
		c.Max, c.Min = r.PickI(1, 10, 50, 400), -r.PickI(1, 10, 50, 400)
	}
	if r.P(15) {
		c.T = uint32(r.PickI(r.N(1<<15), 1<<15-1, int(^(decimal.Inexact|decimal.Rounded|decimal.Subnormal))&(1<<15-1)))
	}
	return c
}

// odd makes the context one that no operation accepts, in p cases of a hundred.
func odd(r *Rng, p int, c *Ctx) {
	if !r.P(p) {
		return
	}
	switch r.N(6) {
	case 0, 1:
		c.P = -r.R(1, 9)
		if r.P(30) {
			c.P = decimal.UnlimitedPrecision + r.R(1, 9)
		}
	case 2:
		c.R = uint8(r.R(7, 9))
	case 3:
		c.O = 2
	case 4:
		c.Max = decimal.MaxScale + 1
	default:
		c.Min = decimal.MinScale - 1
	}
}

// sentinels are coefficients at which representations change.
func sentinel(r *Rng) *big.Int {
	u := new(big.Int)
	switch r.N(8) {
	case 0, 1, 2:
		u.SetUint64(maxUint64) // marks an inflated coefficient
	case 3:
		u.SetUint64(maxUint64 - 1)
	case 4:
		u.Lsh(big.NewInt(1), 64)
	case 5:
		u.SetUint64(1 << 63)
	case 6:
		u.Exp(big.NewInt(10), big.NewInt(int64(r.PickI(18, 19, 20))), nil)
	default:
		u.Exp(big.NewInt(10), big.NewInt(int64(r.R(1, 45))), nil)
		u.Sub(u, big.NewInt(int64(r.R(0, 1))))
	}
	return u
}

// relate draws two values that have something to do with each other: equal
// ones, neighbours, values that cancel, and values whose sum, difference,
// product or quotient is a coefficient at which representations change.
func relate(r *Rng, v string) (string, string) {
	neg := strings.HasPrefix(v, "-")
	t := strings.TrimPrefix(v, "-")
	i := strings.IndexByte(t, 'e')
	sign := func(n bool) string {
		if n {
			return "-"
		}
		return ""
	}
	if i < 0 {
		if r.P(50) {
			return v, v
		}
		return v, sign(!neg) + t
	}
	m, ok := new(big.Int).SetString(t[:i], 10)
	var e int
	if _, err := fmt.Sscan(t[i+1:], &e); err != nil || !ok {
		panic("bad value " + v)
	}
	make := func(n bool, m *big.Int, e int) string {
		if m.Sign() < 0 {
			n, m = !n, new(big.Int).Neg(m)
		}
		return sign(n) + m.String() + "e" + strconv.Itoa(e)
	}
	u := new(big.Int)
	other := neg != r.P(30)
	switch r.N(10) {
	case 0:
		return v, v
	case 1:
		return v, sign(!neg) + t
	case 2:
		return v, make(other, u.Add(m, big.NewInt(int64(r.R(-2, 2)))), e)
	case 3:
		k := r.R(1, 30)
		return v, make(other, u.Mul(m, pow10(k)), e-k)
	case 4: // the sum or difference
		s := sentinel(r)
		return v, make(neg != r.P(20), u.Sub(s, m), e)
	case 5, 6, 7: // the product
		s := sentinel(r)
		d := big.NewInt(1)
		rest := new(big.Int).Set(s)
		for _, p := range []int64{2, 2, 2, 3, 5, 5, 5, 17, 257, 641, 65537, 6700417} {
			q, rem := new(big.Int).QuoRem(rest, big.NewInt(p), new(big.Int))
			if rem.Sign() == 0 && r.P(50) {
				rest = q
				d.Mul(d, big.NewInt(p))
			}
		}
		return make(neg, d, r.R(-20, 3)), make(other, rest, r.R(-20, 3))
	case 8: // the quotient
		k := big.NewInt(int64(r.R(1, 1000)))
		return make(neg, u.Mul(sentinel(r), k), e), make(other, k, e-r.PickI(0, 0, 0, 1, 5))
	default: // far apart or overlapping
		return v, make(other, m, e+r.R(-60, 60))
	}
}
