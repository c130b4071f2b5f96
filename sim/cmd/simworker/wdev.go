package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"strconv"
	"strings"

	"github.com/ericlagergren/decimal"
	"verifsim/rt"
)

// Simulated output devices.  Faults, from Op.D:
//
//	ofail   At=byte Err N  that byte is refused with Err; once if N=1
//	oshort  At=k Err N     the k-th write takes only part of what it is given
//	                       (N=1: without saying so)
//	stall, panic, exit     as for callbacks
type sink struct {
	op    *Op
	got   []byte
	calls int
	fail  int
	err   error
	once  bool
	short int
	quiet bool
	hit   bool
	name  string
}

func newSink(o *Op, faulty bool, name string) *sink {
	w := &sink{fail: -1, op: &Op{}, name: name}
	if !faulty {
		return w
	}
	w.op = o
	if d := devOf(o, "ofail"); d != nil {
		w.fail, w.err, w.once = d.At, devErrs[d.Err], d.N == 1
	}
	if d := devOf(o, "oshort"); d != nil {
		w.short, w.quiet = d.At, d.N == 1
	}
	return w
}

func (w *sink) Write(p []byte) (int, error) { return w.take(string(p)) }

func (w *sink) take(p string) (int, error) {
	w.calls++
	callFault(w.op, w.calls, w.name+".Write")
	rt.Point(31)
	if w.calls == w.short && len(p) > 0 {
		n := len(p) / 2
		w.got = append(w.got, p[:n]...)
		w.hit = true
		fire("short-write")
		if w.quiet {
			return n, nil
		}
		return n, io.ErrShortWrite
	}
	if w.fail >= 0 && len(w.got)+len(p) > w.fail {
		n := w.fail - len(w.got)
		if n < 0 {
			n = 0
		}
		w.got = append(w.got, p[:n]...)
		w.hit = true
		if w.once {
			w.fail = -1
		}
		fire("write-error")
		return n, w.err
	}
	w.got = append(w.got, p...)
	return len(p), nil
}

// spec is a format specification taken apart.
type spec struct {
	flags       string
	width, prec int // -1: none
	verb        rune
}

func parseSpec(s string) (f spec) {
	f.width, f.prec = -1, -1
	i := 1
	for i < len(s) && strings.IndexByte("+- 0#", s[i]) >= 0 {
		i++
	}
	f.flags = s[1:i]
	j := i
	for j < len(s) && s[j] >= '0' && s[j] <= '9' {
		j++
	}
	if j > i {
		f.width, _ = strconv.Atoi(s[i:j])
	}
	if j < len(s) && s[j] == '.' {
		i = j + 1
		for j = i; j < len(s) && s[j] >= '0' && s[j] <= '9'; j++ {
		}
		f.prec, _ = strconv.Atoi("0" + s[i:j])
	}
	f.verb = rune(s[j])
	return
}

// plainState offers only what fmt.State demands.
type plainState struct {
	*sink
	f spec
}

func (s plainState) Width() (int, bool) {
	if s.f.width < 0 {
		return 0, false
	}
	return s.f.width, true
}

func (s plainState) Precision() (int, bool) {
	if s.f.prec < 0 {
		return 0, false
	}
	return s.f.prec, true
}

func (s plainState) Flag(c int) bool { return strings.IndexByte(s.f.flags, byte(c)) >= 0 }

// stringState also takes strings, as fmt's own state does.
type stringState struct{ plainState }

func (s stringState) WriteString(p string) (int, error) { return s.take(p) }

// richState takes everything.
type richState struct{ stringState }

func (s richState) WriteByte(c byte) error {
	_, err := s.take(string([]byte{c}))
	return err
}

func (s richState) ReadFrom(r io.Reader) (n int64, err error) {
	var b [7]byte
	for {
		m, e := r.Read(b[:])
		if m > 0 {
			k, werr := s.take(string(b[:m]))
			n += int64(k)
			if werr == nil && k < m {
				werr = io.ErrShortWrite
			}
			if werr != nil {
				return n, werr
			}
		}
		if e == io.EOF {
			return n, nil
		}
		if e != nil {
			return n, e
		}
	}
}

const (
	outPlain = iota
	outString
	outRich
	outFprintf
	outFprint
	outJSON
	nOut
)

func formatTo(x *decimal.Big, way int, sp string, w *sink) (err error) {
	f := parseSpec(sp)
	switch way {
	case outPlain:
		x.Format(plainState{w, f}, f.verb)
	case outString:
		x.Format(stringState{plainState{w, f}}, f.verb)
	case outRich:
		x.Format(richState{stringState{plainState{w, f}}}, f.verb)
	case outFprintf:
		_, err = fmt.Fprintf(w, sp, x)
	case outFprint:
		_, err = fmt.Fprint(w, x)
	case outJSON:
		err = json.NewEncoder(w).Encode(x)
	}
	return err
}

// execFormat: S is the format, N = [way].
func execFormat(e *Env) string {
	o := e.op
	x := e.a[0]
	way := int(o.N[0])
	showsInternals := strings.HasSuffix(o.S, "v") && strings.ContainsAny(o.S, "#+")
	before := full(x)
	out := ""
	// what a writer that takes everything gets
	ref := newSink(o, false, "")
	var err error
	guard := func(f func() error) {
		defer func() {
			if v := recover(); v != nil {
				if _, ok := v.(rt.Abort); ok {
					panic(v)
				}
				if i, ok := v.(Injected); ok {
					panic(i)
				}
				out += bad("C12", "formatting %s as %s panicked with %v", text(x), o.S, v)
			}
		}()
		err = f()
	}
	guard(func() error { return formatTo(x, way, o.S, ref) })
	if err != nil {
		out += bad("C12", "writing %s as %s failed although the writer did not: %v", text(x), o.S, err)
	}
	want := string(ref.got)
	if strings.Contains(want, "PANIC=") {
		out += bad("C12", "formatting %s as %s panicked: %s", text(x), o.S, clip(want))
	}
	if way < outFprintf && !showsInternals {
		if s := fmt.Sprintf(o.S, x); s != want {
			out += bad("C12", "formatting %s as %s with another fmt.State gives %q, with fmt's %q", text(x), o.S, clip(want), clip(s))
		}
	}
	w := newSink(o, true, "Writer")
	err = nil
	guard(func() error { return formatTo(x, way, o.S, w) })
	got := string(w.got)
	if w.hit {
		if !strings.HasPrefix(want, got) {
			out += bad("C12", "formatting %s as %s: the writer that failed accepted %q, which is not a prefix of %q", text(x), o.S, clip(got), clip(want))
		}
		if way >= outFprintf && err == nil && !w.quiet {
			out += bad("C12", "formatting %s: the writer's failure was not reported", text(x))
		}
		if w.err != nil && err != nil && way >= outFprintf && !errors.Is(err, w.err) && w.short == 0 {
			out += bad("C12", "formatting %s: the writer's failure was reported as %v", text(x), err)
		}
	} else if got != want {
		out += bad("C12", "formatting %s as %s gave %q, to another writer of the same kind %q", text(x), o.S, clip(got), clip(want))
	}
	// and once more
	ref = newSink(o, false, "")
	formatTo(x, way, o.S, ref)
	if s := string(ref.got); s != want {
		out += bad("C12", "formatting %s as %s gave %q, after a writer failed %q", text(x), o.S, clip(want), clip(s))
	}
	if s := full(x); s != before {
		out += bad("C12,C02", "formatting changed %s to %s", before, s)
	}
	if showsInternals {
		return out // an earlier life of the value is visible
	}
	return out + clip(want)
}

func genFormat(fail, pan int) func(r *Rng, o *Op) {
	return func(r *Rng, o *Op) {
		o.S = genVerb(r)
		if r.P(10) {
			o.S = r.Pick("%+v", "%#v", "%-#v", "%0+v", "% v", "%z", "%10z", "%+z", "%c", "%U")
		}
		if r.P(4) {
			o.S = "%" + r.Pick("", "-", "0", "+") + fmt.Sprint(r.PickI(100, 600, 5000, 40000)) + r.Pick("s", "f", "e", "q")
		}
		if strings.Contains(o.S, "-") {
			o.S = strings.Replace(o.S, "0", "", strings.Count(o.S[:parseFlagEnd(o.S)], "0"))
		}
		way := r.PickI(outPlain, outPlain, outString, outString, outRich, outFprintf, outFprint, outJSON)
		o.N = []int64{int64(way)}
		at := r.N(30)
		if r.P(20) {
			at = r.N(300)
		}
		if r.P(fail) {
			if r.P(75) {
				o.D = append(o.D, Dev{Kind: "ofail", At: at, Err: devErrNames[r.N(len(devErrNames))], N: r.N(2)})
			} else {
				o.D = append(o.D, Dev{Kind: "oshort", At: r.R(1, 8), N: r.N(2)})
			}
		}
		if r.P(40) {
			o.D = append(o.D, Dev{Kind: "stall", At: r.R(1, 3), N: r.N(2)})
		}
		if r.P(pan) {
			o.D = append(o.D, Dev{Kind: r.Pick("panic", "panic", "exit"), At: r.R(1, 6)})
		}
	}
}

func parseFlagEnd(s string) int {
	i := 1
	for i < len(s) && strings.IndexByte("+- 0#", s[i]) >= 0 {
		i++
	}
	return i
}

func init() {
	def(OpDef{Name: "format.faulty", NArg: 1, Read: true, Tags: "wdev wfail", Gen: genFormat(80, 0), Exec: execFormat})
	def(OpDef{Name: "format.calm", NArg: 1, Read: true, Tags: "wdev wcalm", Gen: genFormat(0, 0), Exec: execFormat})
	def(OpDef{Name: "format.panicky", NArg: 1, Read: true, Tags: "wdev wpanic", Gen: genFormat(20, 80), Exec: execFormat})
}
