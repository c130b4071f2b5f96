package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/ericlagergren/decimal"
	"github.com/ericlagergren/decimal/sql/postgres"
)

// refNum is what the numeric-string grammar says about a text.
type refNum struct {
	ok   bool
	val  string // in the form text uses; "" if it is beyond the oracle
	flow string // out of range: what it becomes
}

// refParse implements the grammar of
// http://speleotrove.com/decimal/daconvs.html#refnumsyn with the documented
// deviations: words in any case, qNaN.
func refParse(t string) refNum {
	s := t
	sign := ""
	if s != "" && (s[0] == '+' || s[0] == '-') {
		if s[0] == '-' {
			sign = "-"
		}
		s = s[1:]
	}
	low := strings.ToLower(s)
	for i := 0; i < len(s); i++ {
		if s[i] >= utf8.RuneSelf {
			return refNum{}
		}
	}
	if low == "inf" || low == "infinity" {
		return refNum{ok: true, val: sign + "Inf"}
	}
	for _, p := range []string{"nan", "qnan", "snan"} {
		if !strings.HasPrefix(low, p) {
			continue
		}
		d := low[len(p):]
		for i := 0; i < len(d); i++ {
			if d[i] < '0' || d[i] > '9' {
				return refNum{}
			}
		}
		v := sign
		if p == "snan" {
			v += "s"
		}
		v += "NaN"
		if d != "" {
			u, err := strconv.ParseUint(d, 10, 64)
			if err != nil {
				return refNum{} // no such payload
			}
			if u != 0 {
				v += fmt.Sprint(u)
			}
		}
		return refNum{ok: true, val: v}
	}
	var dig []byte
	exp := 0
	dot := false
	i := 0
	for ; i < len(s); i++ {
		if s[i] == '.' && !dot {
			dot = true
			continue
		}
		if s[i] < '0' || s[i] > '9' {
			break
		}
		dig = append(dig, s[i])
		if dot {
			exp--
		}
	}
	if len(dig) == 0 {
		return refNum{}
	}
	if i < len(s) {
		if s[i] != 'e' && s[i] != 'E' {
			return refNum{}
		}
		e := s[i+1:]
		neg := false
		if e != "" && (e[0] == '+' || e[0] == '-') {
			neg = e[0] == '-'
			e = e[1:]
		}
		if e == "" {
			return refNum{}
		}
		for j := 0; j < len(e); j++ {
			if e[j] < '0' || e[j] > '9' {
				return refNum{}
			}
		}
		e = strings.TrimLeft(e, "0")
		// The exponent is an int, and so is its negation.
		max := big.NewInt(math.MaxInt64)
		b, _ := new(big.Int).SetString("0"+e, 10)
		if neg {
			b.Neg(b)
			b.Add(b, big.NewInt(int64(exp)))
			if b.CmpAbs(max) > 0 {
				return refNum{ok: true, flow: sign + "0e"}
			}
			exp = int(b.Int64())
		} else if b.Cmp(max) > 0 {
			if strings.Trim(string(dig), "0") == "" {
				return refNum{ok: true}
			}
			return refNum{ok: true, flow: sign + "Inf"}
		} else {
			exp += int(b.Int64())
		}
	}
	m, _ := new(big.Int).SetString(string(dig), 10)
	return refNum{ok: true, val: sign + m.String() + "e" + strconv.Itoa(exp)}
}

// viable says that t can be continued to a number.
func viable(t string) bool {
	for _, e := range []string{"", "0", "1", "nan", "an", "n", "inf", "nf", "f", "nfinity", "finity", "inity", "nity", "ity", "ty", "y"} {
		if refParse(t + e).ok {
			return true
		}
	}
	return false
}

// Ways in.
const (
	inState = iota
	inFscanPlain
	inFscanRunes
	inFscanf
	inFscanfWidth
	inFscanln
	inFscanBufio
	inFscanTwo
	nStreamIn
)

const (
	inSetString = 100 + iota
	inCtxSetString
	inUnmarshalText
	inUnmarshalJSON
	inUnmarshalJSONQuoted
	inPgString
	inPgBytes
	inSscan
	inJSON
	inJSONDecoder
	inTextEnd
)

// verdict of one read.
type verdict struct {
	err    error
	rest   string // unread part of the input
	hasRst bool
	note   string
}

// execParse: S is the input, N = [way in, width].
func execParse(e *Env) string {
	o := e.op
	z := e.z
	preC := z.Context.Conditions
	way := int(o.N[0])
	var (
		v    verdict
		num  string // what is parsed, without faults
		need int    // bytes of the input that must have been read
		src  *source
		st   *scanState
	)
	stream := way < nStreamIn
	if stream {
		src = newSource(o, o.S)
		in := string(src.data)
		start := len(in) - len(strings.TrimLeftFunc(in, unicode.IsSpace))
		byLine := way == inFscanln || way == inFscanf || way == inFscanfWidth
		if byLine {
			// fmt ends the search for a number at the end of the line
			start = len(in) - len(strings.TrimLeftFunc(in, func(r rune) bool { return r != '\n' && unicode.IsSpace(r) }))
		}
		end := len(in)
		if i := strings.IndexFunc(in[start:], unicode.IsSpace); i >= 0 {
			end = start + i
		}
		_, n := utf8.DecodeRuneInString(in[end:])
		need = end + n
		if n == 0 {
			need++ // the end has to be seen
		}
		if way == inFscanfWidth {
			p := start
			for k := 0; k < int(o.N[1]) && p < end; k++ {
				_, n := utf8.DecodeRuneInString(in[p:])
				p += n
			}
			if p < end || utf8.RuneCountInString(in[start:end]) == int(o.N[1]) {
				end = p
				need = end
			}
		}
		num = in[start:end]
		rn := &runes{source: src}
		switch way {
		case inState:
			st = newScanState(src)
			v.err = z.Scan(st, 'v')
			v.rest, v.hasRst = string(src.data[src.pos:]), true
		case inFscanPlain:
			_, v.err = fmt.Fscan(src, z)
		case inFscanRunes:
			_, v.err = fmt.Fscan(rn, z)
			v.rest, v.hasRst = string(src.data[src.pos:]), true
		case inFscanf:
			_, v.err = fmt.Fscanf(rn, "%v", z)
			v.rest, v.hasRst = string(src.data[src.pos:]), true
		case inFscanfWidth:
			_, v.err = fmt.Fscanf(rn, "%"+fmt.Sprint(o.N[1])+"v", z)
			v.rest, v.hasRst = string(src.data[src.pos:]), true
		case inFscanln:
			_, v.err = fmt.Fscanln(rn, z)
		case inFscanBufio:
			b := bufio.NewReaderSize(src, 16)
			_, v.err = fmt.Fscan(b, z)
			if src.fail < 0 && !src.fired {
				x, _ := io.ReadAll(b)
				v.rest, v.hasRst = string(x), true
			}
		case inFscanTwo:
			var next string
			n, err := fmt.Fscan(src, z, &next)
			if n >= 1 {
				if f := strings.Fields(in[end:]); len(f) > 0 && !src.fired && utf8.ValidString(in) {
					if err != nil || next != f[0] {
						v.note += bad("C10", "the word after the number is %q, %v; want %q", next, err, f[0])
					}
				}
				err = nil
			}
			v.err = err
		}
		if byLine && v.err != nil && v.err.Error() == "unexpected newline" && num == "" {
			return v.note + "error" // z.Scan was not asked for a number
		}
		if way == inFscanln && v.err != nil && strings.HasPrefix(v.err.Error(), "expected newline") {
			// fmt complains about what follows the number
			v.err = nil
		}
	} else {
		num = o.S
		switch way {
		case inSetString:
			g, ok := z.SetString(o.S)
			if ok != (g != nil) || g != nil && g != z {
				v.note += bad("C10", "SetString returned %p, %v", g, ok)
			}
			if !ok {
				v.err = errors.New("not set")
			}
		case inCtxSetString:
			g, ok := decimal.Context{Precision: decimal.UnlimitedPrecision}.SetString(z, o.S)
			if ok != (g != nil) || g != nil && g != z {
				v.note += bad("C10", "Context.SetString returned %p, %v", g, ok)
			}
			if !ok {
				v.err = errors.New("not set")
			}
		case inUnmarshalText:
			b := []byte(o.S)
			v.err = z.UnmarshalText(b)
			if string(b) != o.S {
				v.note += bad("C10,C08", "UnmarshalText changed its argument to %q", b)
			}
			dirty(b)
		case inUnmarshalJSON:
			if len(num) >= 2 && num[0] == '"' && num[len(num)-1] == '"' {
				num = num[1 : len(num)-1]
			}
			b := []byte(o.S)
			v.err = z.UnmarshalJSON(b)
			dirty(b)
		case inUnmarshalJSONQuoted:
			b := []byte(`"` + o.S + `"`)
			v.err = z.UnmarshalJSON(b)
			dirty(b)
		case inPgString:
			d := postgres.Decimal{V: z}
			v.err = d.Scan(o.S)
		case inPgBytes:
			d := postgres.Decimal{V: z}
			b := []byte(o.S)
			v.err = d.Scan(b)
			dirty(b)
		case inSscan:
			if i := strings.IndexFunc(num, unicode.IsSpace); i >= 0 {
				num = strings.TrimLeftFunc(num, unicode.IsSpace)
				if i := strings.IndexFunc(num, unicode.IsSpace); i >= 0 {
					num = num[:i]
				}
			}
			_, v.err = fmt.Sscan(o.S, z)
		case inJSON, inJSONDecoder:
			for i := 0; i < len(num); i++ {
				if num[i] < ' ' || num[i] > '~' || num[i] == '"' || num[i] == '\\' {
					num = "1"
				}
			}
			doc := `["` + num + `", 7]`
			if json.Valid([]byte(num)) && num == strings.TrimSpace(num) && num != "null" && strings.IndexAny(num[:1], "-0123456789") == 0 && len(num)%2 == 0 {
				doc = `[` + num + `, 7]`
			}
			arr := []interface{}{z, new(int)}
			if way == inJSON {
				v.err = json.Unmarshal([]byte(doc), &arr)
			} else {
				src = newSource(o, doc)
				v.err = json.NewDecoder(src).Decode(&arr)
				if src.fired {
					stream, need = true, len(doc)
				}
				if devOf(o, "trunc") != nil && len(src.data) < len(doc) {
					if v.err == nil {
						v.note += bad("C09,C10", "a document cut off after %q was accepted", src.data)
					}
					return v.note + "error"
				}
			}
			if _, ok := arr[0].(*decimal.Big); !ok {
				return "json replaced the decimal"
			}
		}
	}
	newC := z.Context.Conditions &^ preC
	reject := v.err != nil || z.Context.Conditions&decimal.ConversionSyntax != 0 && z.IsNaN(0) && !refParse(num).ok
	failed := src != nil && src.fired || st != nil && st.unreadHit
	out := v.note

	// the failure of the device
	switch {
	case st != nil && st.unreadHit:
		if v.err == nil {
			out += bad("C09", "a rune could not be taken back, yet reading %q reported no error and gave %s", num, text(z))
		} else if !src.fired && !errors.Is(v.err, errUnread) {
			out += bad("C09", "a rune could not be taken back, yet the error is %v", v.err)
		}
	case src != nil && src.fired && stream && src.failPos() < need:
		seen := string(src.data[:src.failPos()])
		seen = strings.TrimLeftFunc(seen, unicode.IsSpace)
		switch {
		case way == inJSONDecoder:
			if v.err == nil {
				out += bad("C09", "input failed at byte %d of %d, yet no error is reported; the value is %s", src.failPos(), need, text(z))
			}
		case v.err == nil && (viable(seen) || !reject):
			out += bad("C09", "input failed with %q at byte %d of %q, yet reading reported no error and gave %s", src.err, src.failPos(), src.data, text(z))
		case v.err != nil && viable(seen) && !errors.Is(v.err, src.err):
			out += bad("C09", "input failed with %q at byte %d of %q, yet the error is %q", src.err, src.failPos(), src.data, v.err)
		}
	case src != nil && src.fail >= 0 && src.fail < need && stream && v.err == nil && !reject:
		out += bad("C09", "reading %q reported success with %s without having seen byte %d, which cannot be read", src.data, text(z), src.fail)
	case stream && way == inFscanTwo && failed:
		// the second value met the failure
	case src != nil && src.fired && stream:
		// failed after the number was complete: whatever came of it is fmt's
		if way <= inState && v.err != nil && refParse(num).ok {
			out += bad("C09", "reading %q failed with %v after it was complete", num, v.err)
		}
	}

	if i := strings.IndexAny(num, "eE"); way == inCtxSetString && i >= 0 && len(num)-i > 9 {
		return out // beyond the limits of any context
	}
	if !failed {
		// without a failure the text decides
		ref := refParse(num)
		if ref.ok == reject {
			out += bad("C10", "%q: accepted=%v, the grammar says %v (error %v, conditions %v, value %s)", num, !reject, ref.ok, v.err, newC, text(z))
		} else if ref.ok && ref.val != "" && text(z) != ref.val {
			out += bad("C10", "%q was read as %s", num, text(z))
		} else if ref.flow != "" && !strings.HasPrefix(text(z), ref.flow) {
			out += bad("C10", "%q, which is out of range, was read as %s", num, text(z))
		}
		if v.hasRst {
			if want := restAfter(string(src.data), num, way); v.rest != want {
				out += bad("C10", "reading %q left %q, want %q", src.data, v.rest, want)
			}
		}
		// the same as any other way in
		t := new(decimal.Big)
		t.Context = z.Context
		t.Context.Conditions = 0
		var ok bool
		if way%2 == 0 {
			ok = t.UnmarshalText([]byte(num)) == nil
		} else {
			_, ok = t.SetString(num)
		}
		if text(t) != text(z) || ok != (v.err == nil) || t.Context.Conditions|preC != z.Context.Conditions {
			out += bad("C10", "%q: %s, error %v, conditions %v; passed as a string: %s, ok=%v, conditions %v", num, text(z), v.err, z.Context.Conditions, text(t), ok, t.Context.Conditions)
		}
	}
	if reject || failed {
		if m := wellFormed(z); m != "" {
			out += bad("C11", "after a failed parse of %q: %s", o.S, m)
		}
		if newC&decimal.ConversionSyntax != 0 && (!z.IsNaN(0) || z.Payload() != 0) {
			out += bad("C11", "after a syntax error in %q the value is %s", o.S, text(z))
		}
	}
	es := ""
	if v.err != nil {
		es = "error"
	}
	return out + es
}

// failPos is where the source failed.
func (s *source) failPos() int { return s.failAt }

func restAfter(in, num string, way int) string {
	i := len(in) - len(strings.TrimLeftFunc(in, unicode.IsSpace))
	return in[i+len(num):]
}

func dirty(b []byte) {
	for i := range b {
		b[i] = '5'
	}
}

// genParse draws the input of a parse.
func genParse(ways []int, fail, trunc, unread int) func(r *Rng, o *Op) {
	return func(r *Rng, o *Op) {
		way := ways[r.N(len(ways))]
		t := genText(r)
		if r.P(10) {
			t = hardText(r)
		}
		o.N = []int64{int64(way), int64(r.R(1, 12))}
		if way < nStreamIn {
			lead := r.Pick("", "", "", " ", "\t ", "   ")
			tail := r.Pick("", "", " ", "\n", " 12 x", "\t-5", " \n ", "\r\n9", "\u00a0z", "\u2003q")
			if way == inFscanln {
				tail = r.Pick("", "\n", "\n ")
			}
			o.S = lead + t + tail
		} else {
			o.S = t
		}
		genSource(r, o, len(o.S), fail, trunc, unread)
		if way >= nStreamIn && way != inJSONDecoder {
			o.D = nil
		}
		if way == inFscanTwo || way == inFscanPlain || way == inFscanln {
			for i := range o.D {
				if o.D[i].Kind == "unread" {
					o.D[i].Kind = "nerr"
				}
			}
		}
	}
}

// hardText: exponents and payloads at their limits, odd bytes.
func hardText(r *Rng) string {
	s := r.Pick("", "-", "+")
	near := func(p uint) string {
		u := new(big.Int).Lsh(big.NewInt(1), p)
		return u.Add(u, big.NewInt(int64(r.R(-6, 5)))).String()
	}
	switch r.N(9) {
	case 6:
		t := strings.Repeat("0", r.PickI(0, 0, 1, 3, 20)) + near(64)
		if i := r.N(len(t)); r.P(60) {
			t = t[:i] + "." + t[i:]
		}
		return s + t + r.Pick("", "", "0", "00000", digits(r, r.R(1, 5))) + r.Pick("", "", "e3", "E-9")
	case 7:
		return s + digits(r, r.R(1, 3)) + r.Pick("", ".", ".") + digits(r, r.R(1, 9)) + r.Pick("e", "E") + r.Pick("", "+", "-", "-") + r.Pick("", "0", "000") + near(uint(r.PickI(63, 63, 64))) + r.Pick("", "", "", "0", "7")
	case 8:
		return s + r.Pick("nan", "snan", "NaN") + r.Pick("", "", "0", "0000") + near(64) + r.Pick("", "", "1")
	case 0:
		return s + digits(r, r.R(1, 30)) + r.Pick("e", "E") + r.Pick("", "+", "-") + digits(r, r.R(16, 45))
	case 1:
		return s + r.Pick("", "0.", "12.") + strings.Repeat("0", r.R(0, 40)) + digits(r, 3) + "e" + r.Pick("", "-") + strings.Repeat("0", r.R(0, 30)) + fmt.Sprint(r.N(500))
	case 2:
		return s + r.Pick("nan", "sNaN", "QNAN") + digits(r, r.R(17, 25)) + r.Pick("", "", "x", ".5", "e1")
	case 3:
		return s + r.Pick("1\u00e9", "\u0661", "1\xff", "\xc3", "1e\u0665", "\u221e", "N\u00e4N", "\x80", "1\u200b2")
	case 4:
		return s + strings.Repeat("9", r.R(1, 400)) + r.Pick("", ".", "e-3", "e7")
	}
	return s + r.Pick(".", "e5", ".e5", "+1", "--1", "1e", "1e+", "1.e1", ".1e1", "1..", "1e5.", "infin", "infinityx", "in", "na", "nanx", "snan-1", "1e1e1", "")
}

func seq(lo, hi int) (l []int) {
	for i := lo; i < hi; i++ {
		l = append(l, i)
	}
	return
}

func init() {
	streams := seq(0, nStreamIn)
	texts := seq(inSetString, inTextEnd)
	all := append(append([]int{}, streams...), texts...)
	def(OpDef{Name: "parse.faulty", Rcv: true, Tags: "pdev pfail", Gen: genParse(append([]int{inState, inState, inJSONDecoder}, streams...), 70, 15, 30), Exec: execParse})
	def(OpDef{Name: "parse.calm", Rcv: true, Tags: "pdev pcalm", Gen: genParse(all, 0, 30, 0), Exec: execParse})
	calm := genParse(streams, 15, 20, 0)
	def(OpDef{Name: "parse.panicky", Rcv: true, Tags: "pdev ppanic", Gen: func(r *Rng, o *Op) {
		calm(r, o)
		o.D = append(o.D, Dev{Kind: r.Pick("panic", "panic", "exit"), At: r.R(1, 9)})
	}, Exec: execParse})
	def(OpDef{Name: "parse.any", Rcv: true, Tags: "pdev pany", Gen: genParse(append(all, streams...), 35, 30, 15), Exec: execParse})
}

var _ = bytes.Equal
