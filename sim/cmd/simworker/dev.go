package main

import (
	"errors"
	"fmt"
	"io"
	"syscall"
	"unicode"
	"unicode/utf8"

	"verifsim/rt"
)

// Simulated input devices.  Faults, from Op.D:
//
//	chunk  At=seed N=max  deliver the data in pieces of 1..N bytes
//	zero   At=k           every k-th read delivers nothing and no error
//	fail   At=byte Err N  the read of that byte fails with Err; once if N=1
//	nerr                  the last byte before a failure or the end of input
//	                      is delivered together with the error
//	trunc  At=byte        the input ends there
//	unread At=n           the n-th attempt to take a rune back fails
//	stall  At=k N         other tasks run during every k-th call
//	panic, exit At=n      the n-th call panics or ends the goroutine

type timeoutError struct{}

func (timeoutError) Error() string   { return "injected: i/o timeout" }
func (timeoutError) Timeout() bool   { return true }
func (timeoutError) Temporary() bool { return true }

var (
	errInjected = errors.New("injected: input/output error")
	errUnread   = errors.New("injected: cannot take the rune back")
	devErrs     = map[string]error{
		"eio":        errInjected,
		"errno":      syscall.EIO,
		"unexpected": io.ErrUnexpectedEOF,
		"closed":     io.ErrClosedPipe,
		"timeout":    timeoutError{},
		"noprogress": io.ErrNoProgress,
		"short":      io.ErrShortBuffer,
		"wrapped":    fmt.Errorf("injected: reading: %w", errInjected),
		"eofwrap":    fmt.Errorf("injected: connection lost: %w", io.EOF),
	}
	devErrNames = []string{"eio", "errno", "unexpected", "closed", "timeout", "noprogress", "short", "wrapped", "eofwrap"}
)

// source is a scripted stream of bytes.
type source struct {
	op      *Op
	data    []byte
	pos     int
	calls   int
	chunk   *Rng
	max     int
	zero    int
	fail    int // -1: never
	failAt  int
	err     error
	once    bool
	nerr    bool
	fired   bool // a failure was delivered
	name    string
	ended   bool
	lastErr error
}

func newSource(o *Op, data string) *source {
	s := &source{op: o, data: []byte(data), fail: -1, name: "Reader"}
	if d := devOf(o, "chunk"); d != nil {
		s.chunk, s.max = NewRng(uint64(d.At), 5), d.N
	}
	if d := devOf(o, "zero"); d != nil {
		s.zero = d.At
	}
	if d := devOf(o, "trunc"); d != nil && d.At < len(s.data) {
		s.data = s.data[:d.At]
		fire("input-truncated")
	}
	if d := devOf(o, "fail"); d != nil && d.At <= len(s.data) {
		at := d.At
		for at > 0 && at < len(s.data) && !utf8.RuneStart(s.data[at]) {
			at-- // not inside a rune
		}
		s.fail, s.err, s.once = at, devErrs[d.Err], d.N == 1
		s.failAt = at
	}
	s.nerr = devOf(o, "nerr") != nil
	return s
}

// end is the position at which the stream ends or fails next.
func (s *source) end() int {
	if s.fail >= 0 {
		return s.fail
	}
	return len(s.data)
}

func (s *source) endErr() error {
	if s.fail < 0 {
		return io.EOF
	}
	s.fired = true
	fire("read-error")
	if s.once {
		s.fail = -1
	}
	return s.err
}

func (s *source) Read(p []byte) (int, error) {
	s.calls++
	callFault(s.op, s.calls, s.name+".Read")
	rt.Point(30)
	if len(p) == 0 {
		return 0, nil
	}
	if s.zero > 1 && s.calls%s.zero == 0 {
		fire("read-nothing")
		return 0, nil
	}
	n := len(p)
	if s.chunk != nil {
		if k := s.chunk.R(1, s.max); k < n {
			n = k
			fire("short-read")
		}
	}
	if e := s.end(); n > e-s.pos {
		n = e - s.pos
	}
	if n == 0 {
		return 0, s.endErr()
	}
	copy(p, s.data[s.pos:s.pos+n])
	s.pos += n
	if s.nerr && s.pos == s.end() && !s.once {
		fire("data-with-error")
		return n, s.endErr()
	}
	return n, nil
}

// runes is a source read rune by rune, as fmt wants it.
type runes struct {
	*source
	back  int // size of the last rune
	unrds int
	buf   [1]byte
}

func (r *runes) readByte() (byte, error) {
	for {
		n, err := r.source.Read(r.buf[:])
		if n == 1 {
			r.lastErr = err
			return r.buf[0], nil
		}
		if err != nil {
			return 0, err
		}
	}
}

func (r *runes) ReadRune() (rune, int, error) {
	r.back = 0
	b, err := r.readByte()
	if err != nil {
		return 0, 0, err
	}
	r.back = 1
	if b < utf8.RuneSelf {
		return rune(b), 1, nil
	}
	// the rest of the rune
	p := []byte{b}
	for !utf8.FullRune(p) && r.pos < r.end() {
		p = append(p, r.data[r.pos])
		r.pos++
	}
	ch, n := utf8.DecodeRune(p)
	r.pos -= len(p) - n
	r.back = n
	return ch, n, nil
}

func (r *runes) UnreadRune() error {
	r.unrds++
	callFault(r.op, -1, "UnreadRune")
	if r.back == 0 {
		return errors.New("UnreadRune without ReadRune")
	}
	r.pos -= r.back
	r.back = 0
	return nil
}

// scanState is a fmt.ScanState that is not fmt's.
type scanState struct {
	*runes
	failUnread int
	unreadHit  bool
	pending    error
}

func newScanState(s *source) *scanState {
	st := &scanState{runes: &runes{source: s}}
	if d := devOf(s.op, "unread"); d != nil {
		st.failUnread = d.At
	}
	return st
}

func (s *scanState) ReadRune() (rune, int, error) {
	if err := s.pending; err != nil {
		s.pending = nil
		return 0, 0, err
	}
	return s.runes.ReadRune()
}

func (s *scanState) UnreadRune() error {
	if s.failUnread > 0 && s.unrds+1 == s.failUnread {
		s.unrds++
		s.unreadHit = true
		fire("unread-error")
		return errUnread
	}
	return s.runes.UnreadRune()
}

func (s *scanState) SkipSpace() {
	for {
		ch, _, err := s.ReadRune()
		if err != nil {
			// There is no way to return it.
			s.pending = err
			return
		}
		if !unicode.IsSpace(ch) {
			s.runes.UnreadRune()
			s.unrds--
			return
		}
	}
}

func (s *scanState) Token(skip bool, f func(rune) bool) ([]byte, error) {
	if skip {
		s.SkipSpace()
	}
	if f == nil {
		f = func(r rune) bool { return !unicode.IsSpace(r) }
	}
	var b []byte
	for {
		ch, _, err := s.ReadRune()
		if err == io.EOF {
			return b, nil
		}
		if err != nil {
			return b, err
		}
		if !f(ch) {
			if err := s.UnreadRune(); err != nil {
				return b, err
			}
			return b, nil
		}
		b = utf8.AppendRune(b, ch)
	}
}

func (s *scanState) Width() (int, bool) { return 0, false }

func (s *scanState) Read([]byte) (int, error) {
	return 0, errors.New("ScanState's Read should not be called. Use ReadRune")
}

// genSource draws faults of an input device for a text of n bytes.
func genSource(r *Rng, o *Op, n int, fail, trunc, unread int) {
	if r.P(60) {
		o.D = append(o.D, Dev{Kind: "chunk", At: r.N(1 << 20), N: r.PickI(1, 1, 2, 3, 7)})
	}
	if r.P(20) {
		o.D = append(o.D, Dev{Kind: "zero", At: r.R(2, 5)})
	}
	if r.P(30) {
		o.D = append(o.D, Dev{Kind: "stall", At: r.R(1, 4), N: r.N(2)})
	}
	if r.P(25) {
		o.D = append(o.D, Dev{Kind: "nerr"})
	}
	if r.P(fail) {
		o.D = append(o.D, Dev{Kind: "fail", At: r.R(0, n), Err: devErrNames[r.N(len(devErrNames))], N: r.N(2)})
	}
	if r.P(trunc) {
		o.D = append(o.D, Dev{Kind: "trunc", At: r.R(0, n)})
	}
	if r.P(unread) {
		o.D = append(o.D, Dev{Kind: "unread", At: r.R(1, 4)})
	}
}

// bad marks a violation of the listed properties in an operation's output.
func bad(ids, f string, a ...interface{}) string {
	return "!![" + ids + "] " + fmt.Sprintf(f, a...) + " "
}
