package main

import (
	"errors"
	"fmt"
	"math/big"
	"strings"
	"time"

	"github.com/ericlagergren/decimal"
	"github.com/ericlagergren/decimal/sql/postgres"
	"verifsim/rt"
)

// The simulated database: a driver that asks for values again and again,
// through one wrapper from several connections, and that hands out its row
// buffer and fills it with the next row.

const pgFar = 150000

// wrapper returns the wrapper all tasks share for a variable.
func (e *Env) wrapper(round bool) *postgres.Decimal {
	if e.w == nil {
		return &postgres.Decimal{V: e.a[0], Round: round, Zero: true}
	}
	k := e.op.A[0] * 2
	if round {
		k++
	}
	return e.w.wraps[k]
}

// roundTo drops k digits of m by the mode.
func roundTo(m *big.Int, neg bool, k int, mode decimal.RoundingMode) *big.Int {
	if n := len(m.String()) + 2; k > n && m.Sign() != 0 {
		m = big.NewInt(1) // any number below a tenth of the last place rounds alike
		k = 2
	}
	p := pow10(k)
	q, r := new(big.Int).QuoRem(m, p, new(big.Int))
	half := new(big.Int).Lsh(r, 1).Cmp(p)
	up := false
	switch mode {
	case decimal.ToNearestEven:
		up = half > 0 || half == 0 && q.Bit(0) == 1
	case decimal.ToNearestAway:
		up = half >= 0
	case decimal.ToNearestTowardZero:
		up = half > 0
	case decimal.AwayFromZero:
		up = r.Sign() != 0
	case decimal.ToNegativeInf:
		up = neg && r.Sign() != 0
	case decimal.ToPositiveInf:
		up = !neg && r.Sign() != 0
	}
	if up {
		q.Add(q, big.NewInt(1))
	}
	return q
}

// pgWant gives what Value has to return for x: an error, a text, or the
// number m*10^-s the text has to stand for.
func pgWant(x *decimal.Big, round bool) (fail bool, s string, m *big.Int, scale int) {
	if x.IsNaN(0) {
		return false, "NaN", nil, 0
	}
	if x.IsInf(0) {
		return true, "", nil, 0
	}
	t := strings.TrimPrefix(text(x), "-")
	t = t[:strings.IndexByte(t, 'e')]
	m, _ = new(big.Int).SetString(t, 10)
	il, sl := len(t)-x.Scale(), x.Scale()
	if il <= postgres.MaxIntegralDigits && sl <= postgres.MaxFractionalDigits {
		return false, x.String(), nil, 0
	}
	if !round {
		return true, "", nil, 0
	}
	drop := 0
	if il > postgres.MaxIntegralDigits {
		if drop = len(t) - postgres.MaxIntegralDigits; drop < 0 {
			drop = 0
		}
	} else {
		drop = sl - postgres.MaxFractionalDigits
	}
	return false, "", roundTo(m, x.Signbit(), drop, x.Context.RoundingMode), sl - drop
}

// fracDigits counts the digits of a numeric text that are significant, and
// those after the decimal point.
func textDigits(s string) (sig, frac int) {
	s = strings.TrimLeft(s, "+-")
	e := 0
	if i := strings.IndexAny(s, "eE"); i >= 0 {
		fmt.Sscan(s[i+1:], &e)
		s = s[:i]
	}
	if i := strings.IndexByte(s, '.'); i >= 0 {
		frac = len(s) - i - 1
		s = s[:i] + s[i+1:]
	}
	if frac -= e; frac < 0 {
		frac = 0
	}
	return len(strings.TrimLeft(s, "0")), frac
}

// checkPgText compares the text of x with what it has to be.
func checkPgText(x *decimal.Big, round bool, got string) string {
	fail, s, m, scale := pgWant(x, round)
	switch {
	case fail:
		return bad("C16", "%s (round=%v) was turned into %q, although it does not fit", text(x), round, clip(got))
	case s != "":
		if got != s {
			return bad("C16", "%s was turned into %q", text(x), clip(got))
		}
	case !validCtx(x.Context):
		// Rounding with it gives NaN, like every operation.
	case x.Context.MaxScale != 0 || x.Context.MinScale != 0:
		// Rounding also applies the exponent limits of the decimal's own
		// context, which this number need not be within.
	default:
		sig, frac := textDigits(got)
		if sig > postgres.MaxIntegralDigits+frac || frac > postgres.MaxFractionalDigits {
			return bad("C16", "%s was turned into a text of %d significant and %d fractional digits", text(x), sig, frac)
		}
		y := new(decimal.Big)
		if _, ok := y.SetString(got); !ok || !y.IsFinite() {
			return bad("C16", "%s was turned into %q, which is not a number", text(x), clip(got))
		}
		if (y.Signbit() != x.Signbit()) && m.Sign() != 0 {
			return bad("C16", "%s was turned into %q", text(x), clip(got))
		}
		// m * 10^-scale against the text
		c, u := decimal.Raw(y)
		n := new(big.Int).SetUint64(*c)
		if *c == 1<<64-1 {
			n.Set(u)
		}
		a, b := new(big.Int).Set(m), n
		if m.Sign() != 0 && n.Sign() != 0 {
			d := y.Scale() - scale
			if d > 40000 || d < -40000 {
				return bad("C16", "%s was turned into %q", text(x), clip(got))
			}
			if d > 0 {
				a.Mul(a, pow10(d))
			} else {
				b.Mul(b, pow10(-d))
			}
		}
		if a.Cmp(b) != 0 {
			return bad("C16", "%s with %v was turned into %q, which is not %se%d", text(x), x.Context.RoundingMode, clip(got), clip(m.String()), -scale)
		}
	}
	return ""
}

// sameNumber: y was scanned from what x was turned into.
// validCtx reports whether operations accept the context.
func validCtx(c decimal.Context) bool {
	return c.Precision >= 0 && c.Precision <= decimal.UnlimitedPrecision && c.RoundingMode <= decimal.ToNearestTowardZero &&
		c.OperatingMode <= decimal.Go && c.MaxScale <= decimal.MaxScale && c.MinScale >= decimal.MinScale
}

func sameNumber(x, y *decimal.Big, round bool) bool {
	switch {
	case x.IsNaN(0):
		return y.IsNaN(0)
	case !x.IsFinite():
		return false
	case x.Context.MaxScale != 0 || x.Context.MinScale != 0 || !validCtx(x.Context):
		return true
	case x.Sign() == 0:
		return y.IsFinite() && y.Sign() == 0
	case x.Signbit() != y.Signbit():
		return false
	}
	_, s, _, _ := pgWant(x, round)
	return s == "" || text(x) == text(y) || x.Cmp(y) == 0
}

func execPgValue(e *Env) string {
	x := e.a[0]
	round := n0(e)&1 == 1
	d := e.wrapper(round)
	before := full(x)
	out, first := "", ""
	for i := 0; i <= n0(e)>>1; i++ {
		v, err := d.Value()
		if e.op.N[0]%3 == 0 {
			rt.Point(33) // the driver waits for its connection
		}
		if d.V != x || d.Round != round || !d.Zero {
			out += bad("C16", "Value changed the wrapper")
			d.V = x
		}
		if g := full(x); g != before {
			out += bad("C16,C02", "Value changed the decimal from %s to %s", clip(before), clip(g))
		}
		got := errStr(err)
		if s, ok := v.(string); ok && err == nil {
			got = s
			if i == 0 {
				out += checkPgText(x, round, s)
			}
			// what it produced is accepted
			w := &postgres.Decimal{}
			var in interface{} = s
			if n0(e)&4 != 0 {
				in = []byte(s)
			}
			if err := w.Scan(in); err != nil {
				out += bad("C16", "%q, which Value produced, is refused: %v", clip(s), err)
			} else if y := w.V; !sameNumber(x, y, round) {
				out += bad("C16", "%q, which Value produced from %s, is scanned as %s", clip(s), text(x), text(y))
			}
		} else if err == nil || v != nil {
			out += bad("C16", "Value gives %T, %v", v, err)
		} else {
			if fail, _, _, _ := pgWant(x, round); !fail {
				out += bad("C16", "%s (round=%v) is refused: %v", text(x), round, err)
			}
			var le *postgres.LengthError
			if x.IsFinite() && !errors.As(err, &le) {
				out += bad("C16", "%s is refused with %v", text(x), err)
			}
		}
		if i == 0 {
			first = got
		} else if got != first {
			out += bad("C16", "Value of %s gave %q, then %q", text(x), clip(first), clip(got))
		}
	}
	return out + clip(first)
}

// A row is written as a kind and a text.
//
//	s text   b buffer   n nil   i int64   f float64   t time   B empty buffer
func execPgRows(e *Env) string {
	rows := strings.Split(e.op.S, "\x1f")
	d := &postgres.Decimal{V: e.z, Round: n0(e)&1 == 1, Zero: n0(e)&4 == 4}
	lazy := n0(e)&6 == 2
	if lazy {
		d.V = nil
	}
	driver := make([]byte, 0, 4096) // the driver's row buffer
	out := ""
	for i, row := range rows {
		kind, t := row[0], row[1:]
		var in interface{}
		switch kind {
		case 's':
			in = t
		case 'b':
			driver = append(driver[:0], t...)
			in = driver[:len(t):cap(driver)]
		case 'i':
			in = int64(len(t))
		case 'f':
			in = float64(len(t)) / 3
		case 't':
			in = time.Unix(int64(len(t)), 0)
		}
		preC := decimal.Condition(0)
		var ctx decimal.Context
		if d.V != nil {
			preC, ctx = d.V.Context.Conditions, d.V.Context
		}
		held := ""
		if d.V != nil {
			held = text(d.V)
		}
		err := d.Scan(in)
		if kind == 'b' {
			if string(driver) != t {
				out += bad("C16,C08", "Scan changed the driver's buffer to %q", driver)
			}
			// the next row arrives
			for j := range driver[:cap(driver)] {
				driver[:cap(driver)][j] = '8'
			}
			rt.Point(34)
		}
		if d.V == nil {
			out += bad("C16", "row %d: Scan left no decimal", i)
			d.V = e.z
			continue
		}
		if !lazy && d.V != e.z {
			out += bad("C16", "row %d: Scan replaced the decimal", i)
		}
		if d.Round != (n0(e)&1 == 1) || d.Zero != (n0(e)&4 == 4) {
			out += bad("C16", "row %d: Scan changed the wrapper", i)
		}
		// the same with a new wrapper
		ctx.Conditions = 0
		f := &postgres.Decimal{V: decimal.WithContext(ctx)}
		var again interface{} = in
		if kind == 'b' {
			again = []byte(t)
		}
		ferr := f.Scan(again)
		if (err == nil) != (ferr == nil) {
			out += bad("C16", "row %d, %q: error %v, for a new wrapper %v", i, row, err, ferr)
		}
		if kind == 's' || kind == 'b' {
			// and as a row of the other kind
			var other interface{} = t
			if kind == 's' {
				other = []byte(t)
			}
			g := &postgres.Decimal{V: decimal.WithContext(ctx)}
			if gerr := g.Scan(other); (gerr == nil) != (ferr == nil) || text(g.V) != text(f.V) {
				out += bad("C16,C10", "row %d, %q: scanned as %s, %v; as %T %s, %v", i, row, text(f.V), ferr, other, text(g.V), gerr)
			}
			if text(d.V) != text(f.V) {
				out += bad("C16", "row %d, %q: scanned as %s, by a new wrapper as %s", i, row, text(d.V), text(f.V))
			}
			if d.V.Context.Conditions != f.V.Context.Conditions|preC {
				out += bad("C16", "row %d, %q: conditions %v, of a new wrapper %v", i, row, d.V.Context.Conditions, f.V.Context.Conditions)
			}
			if ref := refParse(t); ref.ok && (err != nil || ref.val != "" && text(d.V) != ref.val) {
				out += bad("C16", "row %d, %q: scanned as %s, %v", i, row, text(d.V), err)
			} else if !ref.ok && err == nil && !d.V.IsNaN(0) {
				out += bad("C16", "row %d, %q: accepted as %s", i, row, text(d.V))
			}
		} else {
			if err == nil {
				out += bad("C16", "row %d: %T was accepted", i, in)
			}
			if held != "" && text(d.V) != held {
				out += bad("C16", "row %d: a refused %T changed the value from %s to %s", i, in, held, text(d.V))
			}
		}
		if m := wellFormed(d.V); m != "" {
			out += bad("C16,C11", "row %d, %q: %s", i, row, m)
		}
	}
	if lazy {
		e.z.Copy(d.V)
	}
	return out
}

// execPgNull: a wrapper without a decimal.
func execPgNull(e *Env) string {
	out := ""
	for i := 0; i < 2; i++ {
		d := &postgres.Decimal{Zero: n0(e)&1 == 1, Round: n0(e)&2 == 2}
		v, err := d.Value()
		if want := n0(e)&1 == 1; err != nil || want && v != "0" || !want && v != nil || d.V != nil {
			out += bad("C16", "a wrapper without a decimal (Zero=%v) gives %v, %v", d.Zero, v, err)
		}
	}
	return out
}

// execPgLong: more than 131072 digits.
func execPgLong(e *Env) string {
	n := postgres.MaxIntegralDigits + int(e.op.N[1])
	r := NewRng(uint64(e.op.N[2]), 3)
	m := pow10(n - 6)
	m.Mul(m, big.NewInt(int64(r.PickI(123456, 999999, 100000))))
	switch r.N(3) {
	case 0:
		m.Add(m, pow10(n-6))
		m.Sub(m, big.NewInt(1)) // nines
		if r.N(2) == 0 {
			m.Sub(m, new(big.Int).Sub(pow10(n-postgres.MaxIntegralDigits+3), big.NewInt(int64(r.N(3)))))
		}
	case 1:
		m.Add(m, big.NewInt(int64(r.N(1<<30))))
	}
	scale := int(e.op.N[3])
	x := new(decimal.Big)
	x.Context = decimal.ContextUnlimited
	x.SetBigMantScale(m, scale)
	neg := r.N(2) == 1
	x.SetSignbit(neg)
	x.Context = decimal.Context{RoundingMode: decimal.RoundingMode(r.N(6))}
	p := len(m.String())
	round := n0(e)&1 == 1
	d := &postgres.Decimal{V: x, Round: round}
	drop := 0
	if p-scale > postgres.MaxIntegralDigits {
		drop = p - postgres.MaxIntegralDigits
		if drop < 0 {
			drop = 0
		}
	} else if scale > postgres.MaxFractionalDigits {
		drop = scale - postgres.MaxFractionalDigits
	}
	fits := p-scale <= postgres.MaxIntegralDigits && scale <= postgres.MaxFractionalDigits
	want := strings.TrimRight(roundTo(m, neg, drop, x.Context.RoundingMode).String(), "0")
	out := ""
	for i := 0; i < 2; i++ {
		v, err := d.Value()
		if _, u := decimal.Raw(x); u.CmpAbs(m) != 0 || x.Precision() != p || x.Scale() != scale || x.Context.Conditions != 0 || d.V != x {
			return out + bad("C16,C02", "Value changed a number of %d digits", p)
		}
		if !round && !fits {
			if err == nil {
				out += bad("C16", "a number of %d digits, scale %d, was accepted", p, scale)
			}
			continue
		}
		s, ok := v.(string)
		if err != nil || !ok {
			out += bad("C16", "a number of %d digits, scale %d (round=%v) is refused: %v", p, scale, round, err)
			continue
		}
		if (s[0] == '-') != neg {
			out += bad("C16", "wrong sign of a number of %d digits", p)
		}
		if sig, frac := textDigits(s); frac > postgres.MaxFractionalDigits || sig-frac > postgres.MaxIntegralDigits {
			out += bad("C16", "a number of %d digits, scale %d, was turned into a text of %d significant and %d fractional digits", p, scale, sig, frac)
		}
		s = strings.TrimLeft(s, "-0.")
		if i := strings.IndexAny(s, "eE"); i >= 0 {
			s = s[:i]
		}
		if s = strings.TrimRight(strings.Replace(s, ".", "", 1), "0"); s != want {
			out += bad("C16", "a number of %d digits, scale %d, with %v, was turned into %s, want %s", p, scale, x.Context.RoundingMode, clip(s), clip(want))
		}
	}
	return out
}

func genPgText(r *Rng) string {
	switch r.N(10) {
	case 0:
		return hardText(r)
	case 1:
		return r.Pick("", "NaN", "nan", "Infinity", "-Infinity", " 1", "1 ", "0", "-0", "0.000", "1e5", "12,5", "$5", "0x10", "1_000", "null", "\x00")
	case 2:
		return "0." + strings.Repeat("0", r.PickI(16379, 16382, 16383, 16384, 200)) + digits(r, r.R(1, 5))
	}
	return genText(r)
}

func init() {
	def(OpDef{Name: "pg.value", NArg: 1, Read: true, Far: pgFar, Tags: "pgdb pgvalue", Gen: func(r *Rng, o *Op) {
		o.N = []int64{int64(r.N(8))}
	}, Exec: execPgValue})
	def(OpDef{Name: "pg.rows", Rcv: true, Far: pgFar, Tags: "pgdb pgrows", Gen: func(r *Rng, o *Op) {
		var l []string
		for i := r.R(1, 5); i > 0; i-- {
			switch r.N(8) {
			case 0:
				l = append(l, r.Pick("n", "i12", "fabc", "tx", "b", "s"))
			case 1, 2, 3:
				l = append(l, "s"+genPgText(r))
			default:
				l = append(l, "b"+genPgText(r))
			}
		}
		o.S = strings.Join(l, "\x1f")
		o.N = []int64{int64(r.N(8))}
	}, Exec: execPgRows})
	def(OpDef{Name: "pg.null", Tags: "pgdb pgnull", Gen: func(r *Rng, o *Op) { o.N = []int64{int64(r.N(4))} }, Exec: execPgNull})
	def(OpDef{Name: "pg.long", Cost: 1, Tags: "pglong xlong", Gen: func(r *Rng, o *Op) {
		o.N = []int64{int64(r.N(8)), int64(r.PickI(-2, 0, 1, 2, 9, 60)), int64(r.N(1 << 20)), int64(r.PickI(0, 0, 0, 1, 5, 16383, 16384, -3))}
	}, Exec: execPgLong})
}
