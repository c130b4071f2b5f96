package main

import (
	"bufio"
	"errors"
	"fmt"
	"math/big"
	"regexp"
	"strings"

	"github.com/ericlagergren/decimal"
	"github.com/ericlagergren/decimal/dectest"
	"github.com/ericlagergren/decimal/suite"
)

// Test vectors read from simulated streams.  What the readers have to deliver
// is taken from the text by splitting it at blanks.

var (
	dtOps = map[string]dectest.Op{"abs": dectest.OpAbs, "add": dectest.OpAdd, "apply": dectest.OpApply, "class": dectest.OpClass, "compare": dectest.OpCompare,
		"comparesig": dectest.OpCompareSig, "comparetotal": dectest.OpCompareTotal, "copy": dectest.OpCopy, "copysign": dectest.OpCopySign, "divide": dectest.OpDivide,
		"divideint": dectest.OpDivideInt, "exp": dectest.OpExp, "fma": dectest.OpFMA, "ln": dectest.OpLn, "log10": dectest.OpLog10, "max": dectest.OpMax, "maxmag": dectest.OpMaxMag,
		"minus": dectest.OpMinus, "multiply": dectest.OpMultiply, "nextplus": dectest.OpNextPlus, "plus": dectest.OpPlus, "power": dectest.OpPower, "quantize": dectest.OpQuantize,
		"remainder": dectest.OpRemainder, "remaindernear": dectest.OpRemainderNear, "rotate": dectest.OpRotate, "squareroot": dectest.OpSquareRoot, "subtract": dectest.OpSubtract,
		"tosci": dectest.OpToSci, "tointegralx": dectest.OpToIntegralX, "xor": dectest.OpXor, "samequantum": dectest.OpSameQuantum}
	dtConds = map[string]decimal.Condition{"clamped": decimal.Clamped, "conversion_syntax": decimal.ConversionSyntax, "division_by_zero": decimal.DivisionByZero,
		"division_impossible": decimal.DivisionImpossible, "division_undefined": decimal.DivisionUndefined, "inexact": decimal.Inexact, "insufficient_storage": decimal.InsufficientStorage,
		"invalid_context": decimal.InvalidContext, "invalid_operation": decimal.InvalidOperation, "overflow": decimal.Overflow, "rounded": decimal.Rounded,
		"subnormal": decimal.Subnormal, "underflow": decimal.Underflow}
	dtModes = map[string]decimal.RoundingMode{"ceiling": decimal.ToPositiveInf, "down": decimal.ToZero, "floor": decimal.ToNegativeInf,
		"half_down": decimal.ToNearestTowardZero, "half_even": decimal.ToNearestEven, "half_up": decimal.ToNearestAway}
	stOps = map[string]suite.Op{"+": suite.Add, "-": suite.Sub, "*": suite.Mul, "/": suite.Div, "*-": suite.FMA, "V": suite.Sqrt, "%": suite.Rem, "rfi": suite.RFI, "cff": suite.CFF,
		"cfd": suite.CFD, "qC": suite.QuietCmp, "cp": suite.Copy, "~": suite.Neg, "A": suite.Abs, "quant": suite.Quantize, "//": suite.IntDiv, "sC": suite.SigCmp, "?-": suite.IsSigned, "pow": suite.Pow, "shift": suite.Shift, "rat": suite.SetRat}
	stModes = map[string]big.RoundingMode{">": big.ToPositiveInf, "<": big.ToNegativeInf, "0": big.ToZero, "=0": big.ToNearestEven, "=^": big.ToNearestAway, "^": big.AwayFromZero}
	stConds = map[rune]suite.Condition{'x': suite.Inexact, 'u': suite.Underflow, 'o': suite.Overflow, 'z': suite.DivisionByZero, 'i': suite.InvalidOperation, 'c': suite.Clamped, 'r': suite.Rounded, 's': suite.Subnormal}
)

// The lines the generator makes.
var (
	dtLine = regexp.MustCompile(`^(--.*|[a-z]{3,}[0-9]{3} [a-z0-9]+([ \t]+'?` + numRE + `'?)+ -> ` + numRE + `( [A-Za-z_]+)*\s*|(?i:(precision|maxexponent|minexponent|clamp|extended|version|rounding): +[-a-z0-9_.]+)|)\r?$`)
	stLine = regexp.MustCompile(`^(#.*|d[0-9]+` + stOpRE + ` (=0|=\^|[0^<>])( [xuozi]+)?( ` + numRE + `)+ -> (#|` + numRE + `)( [xuozicrs]+)?\s*|)\r?$`)
)

const stOpRE = `(\+|-|\*|/|\*-|V|%|rfi|cff|cfd|qC|cp|~|A|quant|//|sC|\?-|pow|shift|rat)`

const numRE = `([-+]?([0-9]+(\.[0-9]+)?([eE][-+][0-9]+)?|Inf|Infinity)|s?NaN)`

// dtExpect gives the cases on the lines of text.
func dtExpect(text string) (l []string) {
	var prec, max, min, clamp int
	var mode decimal.RoundingMode
	for _, line := range strings.Split(text, "\n") {
		f := strings.Fields(line)
		if len(f) < 2 || strings.HasPrefix(f[0], "--") {
			continue
		}
		num := func() (n int) { fmt.Sscan(strings.TrimPrefix(f[1], "+"), &n); return }
		switch strings.ToLower(f[0]) {
		case "precision:":
			prec = num()
		case "clamp:":
			clamp = num()
		case "maxexponent:":
			max = num()
		case "minexponent:":
			min = num()
		case "rounding:":
			mode = dtModes[strings.ToLower(f[1])]
		case "extended:", "version:":
		default:
			c := dectest.Case{ID: f[0], Prec: prec, Clamp: clamp == 1, Mode: mode, MaxScale: max, MinScale: min, Op: dtOps[strings.ToLower(f[1])]}
			i := 2
			for ; f[i] != "->"; i++ {
				c.Inputs = append(c.Inputs, dectest.Data(strings.Trim(f[i], `'"`)))
			}
			c.Output = dectest.Data(strings.Trim(f[i+1], `'"`))
			for _, k := range f[i+2:] {
				c.Conditions |= dtConds[strings.ToLower(k)]
			}
			l = append(l, fmt.Sprintf("%+v", c))
		}
	}
	return
}

func stCond(s string) (c suite.Condition) {
	for _, r := range s {
		c |= stConds[r]
	}
	return
}

func stExpect(text string) (l []string) {
	for _, line := range strings.Split(text, "\n") {
		f := strings.Fields(line)
		if len(f) < 2 || strings.HasPrefix(f[0], "#") {
			continue
		}
		c := suite.Case{Prefix: f[0][:1]}
		op := strings.TrimLeft(f[0][1:], "0123456789")
		fmt.Sscan(f[0][1:len(f[0])-len(op)], &c.Prec)
		c.Op = stOps[op]
		c.Mode = stModes[f[1]]
		i := 2
		if strings.Trim(f[i], "xuozi") == "" {
			c.Trap = stCond(f[i])
			i++
		}
		for ; f[i] != "->"; i++ {
			c.Inputs = append(c.Inputs, suite.Data(f[i]))
		}
		c.Output = suite.Data(f[i+1])
		if len(f) > i+2 {
			c.Excep = stCond(f[i+2])
		}
		l = append(l, fmt.Sprintf("%+q", stFields(c)))
	}
	return
}

func stFields(c suite.Case) []string {
	var in []string
	for _, d := range c.Inputs {
		in = append(in, string(d))
	}
	return []string{c.Prefix, fmt.Sprint(c.Prec, uint8(c.Op), c.Mode, uint32(c.Trap), uint32(c.Excep)), strings.Join(in, ","), string(c.Output)}
}

// execCases: S is the text, N = [reader].
func execCases(e *Env) string {
	o := e.op
	src := newSource(o, o.S)
	re := stLine
	if n0(e) == 0 {
		re = dtLine
	}
	for _, line := range strings.Split(o.S, "\n") {
		if !re.MatchString(line) {
			return "not a file of test vectors"
		}
	}
	var got []string
	var err error
	out := ""
	expect := stExpect
	if n0(e) == 0 {
		expect = dtExpect
		s := dectest.NewScanner(src)
		var kept []*dectest.Case
		for s.Scan() {
			c := s.Case()
			kept = append(kept, c)
			got = append(got, fmt.Sprintf("%+v", *c))
			if len(got) > 10000 {
				return out + bad("C17", "the reader does not end")
			}
		}
		err = s.Err()
		for i, c := range kept {
			if g := fmt.Sprintf("%+v", *c); g != got[i] {
				out += bad("C17", "case %d changed after it was delivered, from %s to %s", i, clip(got[i]), clip(g))
			}
		}
		if src.fired {
			if s.Scan() {
				out += bad("C17", "after the failure of the stream there is another case")
			}
			if s.Err() == nil {
				out += bad("C17", "the failure of the stream is forgotten when asked again")
			}
		}
	} else {
		var l []suite.Case
		l, err = suite.ParseCases(src)
		for _, c := range l {
			got = append(got, fmt.Sprintf("%+q", stFields(c)))
		}
	}
	text := string(src.data)
	if src.fired {
		text = text[:src.failPos()]
	} else if errors.Is(err, bufio.ErrTooLong) && strings.Contains(o.S, strings.Repeat(" ", 65536)) {
		// bufio refuses such a line
	} else if src.fail >= 0 && src.fail < len(src.data) {
		out += bad("C17", "the reader ended (error %v) without having met the failure at byte %d of %d", err, src.fail, len(src.data))
		return out
	}
	whole := text
	rest := ""
	if src.fired {
		i := strings.LastIndexByte(text, '\n') + 1
		whole, rest = text[:i], text[i:]
	}
	long := false
	for _, line := range strings.Split(whole+rest, "\n") {
		long = long || len(line) >= 64<<10-1
	}
	var want []string
	if !long {
		want = expect(whole)
	} else {
		// bufio refuses such a line
		i := 0
		for _, line := range strings.SplitAfter(whole, "\n") {
			if len(line) >= 64<<10-1 {
				break
			}
			i += len(line)
		}
		want = expect(whole[:i])
	}
	for i, w := range want {
		if i >= len(got) {
			out += bad("C17", "%d of the %d cases before the end are missing (stream failed: %v, error %v), for one %s", len(want)-i, len(want), src.fired, err, clip(w))
			break
		}
		if got[i] != w {
			out += bad("C17", "case %d is %s, want %s", i, clip(got[i]), clip(w))
			break
		}
	}
	extra := 0
	if rest != "" {
		extra = 1
	}
	if !long && len(got) > len(want)+extra {
		out += bad("C17", "%d cases delivered, there are %d", len(got), len(want))
	}
	switch {
	case src.fired && err == nil:
		out += bad("C17", "the stream failed with %q after %d of %d bytes, yet no error is reported", src.err, src.failPos(), len(src.data))
	case src.fired && !long && (n0(e) == 1 || rest == "") && !errors.Is(err, src.err):
		out += bad("C17", "the stream failed with %q, yet the error is %v", src.err, err)
	case long && err == nil:
		out += bad("C17", "a line that is too long was not reported")
	case !src.fired && !long && err != nil:
		out += bad("C17", "reading a good stream failed: %v", err)
	}
	return out + fmt.Sprint(len(got))
}

func genNumber(r *Rng) string {
	if r.P(10) {
		return r.Pick("NaN", "sNaN", "Inf", "-Inf", "+Inf", "0", "-0")
	}
	s := r.Pick("", "", "-", "+")
	n := r.PickI(1, 2, 3, 9, 17, 40)
	if r.P(6) {
		n = r.R(100, 6000)
	}
	d := digits(r, n)
	if r.P(40) {
		i := r.R(1, n)
		d = d[:i] + "." + d[i:]
		if i == n {
			d += "0"
		}
	}
	if r.P(40) {
		d += r.Pick("E", "e") + r.Pick("+", "-") + fmt.Sprint(r.N(1000))
	}
	return s + d
}

func pickKey(r *Rng, l []string) string { return l[r.N(len(l))] }

func genCaseLine(r *Rng, kind, i int) string {
	if kind == 0 {
		s := fmt.Sprintf("%s%03d %s", r.Pick("addx", "mulx", "dvix", "abs", "qqqqq"), r.N(1000), pickKey(r, sortedKeys(dtOps)))
		q := ""
		for k := r.R(1, 3); k > 0; k-- {
			if r.P(15) {
				q = "'"
			}
			s += r.Pick(" ", " ", "  ", "\t") + q + strings.Replace(genNumber(r), "+Inf", "Inf", 1) + q
			q = ""
		}
		s += " -> " + strings.Replace(genNumber(r), "+Inf", "Infinity", 1)
		for k := r.N(4); k > 0; k-- {
			c := pickKey(r, sortedKeys(dtConds))
			if r.P(50) {
				c = strings.ToUpper(c[:1]) + c[1:]
			}
			s += " " + c
		}
		return s
	}
	s := "d" + fmt.Sprint(r.R(1, 400)) + pickKey(r, sortedKeys(stOps)) + " " + pickKey(r, sortedKeys(stModes))
	conds := func(l ...string) (s string) {
		for k := r.R(1, 3); k > 0; k-- {
			s += pickKey(r, l)
		}
		return
	}
	if r.P(20) {
		s += " " + conds("x", "u", "o", "z", "i")
	}
	for k := r.R(1, 3); k > 0; k-- {
		s += " " + genNumber(r)
	}
	s += " -> " + r.Pick(genNumber(r), genNumber(r), genNumber(r), "#")
	if r.P(40) {
		s += " " + conds("x", "u", "o", "z", "i", "c", "r", "s")
	}
	return s
}

func init() {
	gen := func(fail int) func(r *Rng, o *Op) {
		return func(r *Rng, o *Op) {
			kind := r.N(2)
			o.N = []int64{int64(kind)}
			end := r.Pick("\n", "\n", "\n", "\r\n")
			var b strings.Builder
			n := r.PickI(1, 2, 3, 5, 8, 20, 60)
			for i := 0; i < n; i++ {
				switch {
				case r.P(8):
					b.WriteString(end)
				case r.P(8):
					b.WriteString(r.Pick("-- a comment", "--", "--addx001 add 1 1 -> 2") + end)
					if kind == 1 {
						b.Reset()
						b.WriteString("# a comment" + end)
					}
				case kind == 0 && r.P(25):
					b.WriteString(r.Pick("precision: 9", "precision:   16", "Precision: 34", "maxExponent: 384", "maxexponent: 999", "minExponent: -383", "minexponent: -99",
						"rounding: half_up", "rounding: half_even", "rounding: down", "Rounding:  floor", "rounding: ceiling", "rounding: half_down", "clamp: 1", "clamp: 0", "extended: 1", "version: 2.59") + end)
				default:
					b.WriteString(genCaseLine(r, kind, i) + end)
				}
			}
			if r.P(1) {
				b.WriteString(genCaseLine(r, kind, 0) + strings.Repeat(" ", 70000) + end + genCaseLine(r, kind, 1))
			}
			o.S = b.String()
			if r.P(40) {
				o.S = strings.TrimSuffix(o.S, end)
			}
			genSource(r, o, len(o.S), fail, 0, 0)
			for i := range o.D {
				if o.D[i].Kind == "chunk" && r.P(70) {
					o.D[i].N = r.PickI(20, 100, 1000, 4096)
				}
			}
		}
	}
	def(OpDef{Name: "cases.faulty", Tags: "cases casesfail", Gen: gen(80), Exec: execCases})
	def(OpDef{Name: "cases.calm", Tags: "cases", Gen: gen(0), Exec: execCases})
}
