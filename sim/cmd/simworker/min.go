package main

import (
	"encoding/json"
	"os"
	"os/exec"
	"strings"
	"time"

	"verifsim/rt"
)

// minimiser shrinks a failing case while the violation class stays the same.
type minimiser struct {
	p        *Prop
	class    string
	best     *Case
	deadline time.Time
	tries    int
	segs     [][2]int64 // schedule of the last successful try
	race     bool
}

func clone(c *Case) *Case {
	b, err := json.Marshal(c)
	if err != nil {
		fatal("%v", err)
	}
	var d Case
	if err := json.Unmarshal(b, &d); err != nil {
		fatal("%v", err)
	}
	return &d
}

func segsOf(o *rt.Outcome) [][2]int64 {
	var l [][2]int64
	for _, s := range o.Segs {
		l = append(l, [2]int64{int64(s.Task), s.N})
	}
	return l
}

// fails runs c; a panic of the harness itself counts as no failure.
func (m *minimiser) fails(c *Case) (ok bool) {
	if time.Now().After(m.deadline) {
		return false
	}
	m.tries++
	if m.race {
		return raceFails(c)
	}
	defer func() {
		if v := recover(); v != nil {
			ok = false
		}
	}()
	ro := m.p.Run(c)
	if ro.Vio == nil || ro.Vio.Class != m.class || ro.Skipped {
		return false
	}
	m.segs = nil
	if !ro.Outcome.Truncated {
		m.segs = segsOf(&ro.Outcome)
	}
	return true
}

// raceFails runs c in a process of its own, which the race detector ends.
func raceFails(c *Case) bool {
	f, err := os.CreateTemp("", "simcase")
	if err != nil {
		fatal("%v", err)
	}
	defer os.Remove(f.Name())
	writeJSON(f, c)
	f.Close()
	cmd := exec.Command(selfRace(), "replay", f.Name())
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
	err = cmd.Run()
	if e, ok := err.(*exec.ExitError); ok {
		return e.ExitCode() == 66
	}
	return false
}

func (m *minimiser) try(c *Case) bool {
	if m.fails(c) {
		m.best = c
		return true
	}
	return false
}

// tryScheds tries c under its own schedule and, since that rarely fits once an
// operation is gone, under some others.
func (m *minimiser) tryScheds(c *Case, n int) bool {
	if m.try(c) {
		return true
	}
	if len(c.Tasks) < 2 || len(nonEmpty(c)) < 2 {
		n = 0
		d := clone(c)
		d.Sched = Sched{Kind: "solo"}
		if m.try(d) {
			return true
		}
	}
	for i := 0; i < n; i++ {
		d := clone(c)
		d.Sched = genSched(NewRng(4711, uint64(i)))
		if m.try(d) {
			return true
		}
	}
	return false
}

func nonEmpty(c *Case) (l []int) {
	for i, t := range c.Tasks {
		if len(t) > 0 {
			l = append(l, i)
		}
	}
	return
}

func (m *minimiser) run() {
	for round := 0; round < 4; round++ {
		before := size(m.best)
		m.dropOps()
		m.simplify()
		if size(m.best) >= before || time.Now().After(m.deadline) {
			break
		}
	}
	m.schedule()
	m.cleanSlots()
}

func size(c *Case) int { b, _ := json.Marshal(c); return len(b) }

func (m *minimiser) dropOps() {
	// whole phases
	for _, f := range []func(c *Case) bool{
		func(c *Case) bool { x := len(c.Warm) > 0; c.Warm = nil; return x },
		func(c *Case) bool { x := len(c.After) > 0; c.After = nil; return x },
	} {
		c := clone(m.best)
		if f(c) {
			m.tryScheds(c, 6)
		}
	}
	// whole tasks
	for t := len(m.best.Tasks) - 1; t >= 0; t-- {
		if len(m.best.Tasks[t]) == 0 {
			continue
		}
		c := clone(m.best)
		c.Tasks[t] = nil
		m.tryScheds(c, 20)
	}
	// trailing empty tasks
	for {
		n := len(m.best.Tasks)
		if n <= 1 || len(m.best.Tasks[n-1]) > 0 {
			break
		}
		c := clone(m.best)
		c.Tasks = c.Tasks[:n-1]
		if !m.tryScheds(c, 10) {
			break
		}
	}
	// single operations
	list := func(get func(c *Case) *[]Op) {
		for i := len(*get(m.best)) - 1; i >= 0; i-- {
			c := clone(m.best)
			l := get(c)
			if i >= len(*l) {
				continue
			}
			*l = append((*l)[:i:i], (*l)[i+1:]...)
			m.tryScheds(c, 12)
		}
	}
	list(func(c *Case) *[]Op { return &c.Warm })
	list(func(c *Case) *[]Op { return &c.After })
	for t := range m.best.Tasks {
		t := t
		list(func(c *Case) *[]Op { return &c.Tasks[t] })
	}
}

func eachOp(c *Case, f func(o *Op)) {
	for i := range c.Warm {
		f(&c.Warm[i])
	}
	for t := range c.Tasks {
		for i := range c.Tasks[t] {
			f(&c.Tasks[t][i])
		}
	}
	for i := range c.After {
		f(&c.After[i])
	}
}

func nth(c *Case, n int) *Op {
	var r *Op
	i := 0
	eachOp(c, func(o *Op) {
		if i == n {
			r = o
		}
		i++
	})
	return r
}

func (m *minimiser) simplify() {
	// pools
	for _, mode := range []string{"miss", "stale"} {
		if m.best.Pool.Mode == mode {
			break
		}
		c := clone(m.best)
		c.Pool.Mode, c.Pool.Seed, c.Pool.Miss, c.Pool.Drop = mode, 0, 0, 0
		if m.try(c) {
			break
		}
	}
	// faults and arguments
	for i := 0; nth(m.best, i) != nil; i++ {
		for j := len(nth(m.best, i).D) - 1; j >= 0; j-- {
			c := clone(m.best)
			o := nth(c, i)
			o.D = append(o.D[:j:j], o.D[j+1:]...)
			m.tryScheds(c, 3)
		}
		for j := range nth(m.best, i).D {
			for _, f := range []func(d *Dev) bool{
				func(d *Dev) bool { x := d.N != 0; d.N = 0; return x },
				func(d *Dev) bool { x := d.At > 1; d.At = 1; return x },
				func(d *Dev) bool { x := d.At > 1; d.At /= 2; return x },
				func(d *Dev) bool { x := d.At > 1; d.At--; return x },
			} {
				c := clone(m.best)
				if f(&nth(c, i).D[j]) {
					m.try(c)
				}
			}
		}
		for _, f := range []func(o *Op) bool{
			func(o *Op) bool {
				x := o.C != nil && *o.C != Ctx{}
				if x {
					o.C = &Ctx{}
				}
				return x
			},
			func(o *Op) bool {
				x := o.C != nil && *o.C != Ctx{P: o.C.P}
				if x {
					o.C = &Ctx{P: o.C.P}
				}
				return x
			},
		} {
			c := clone(m.best)
			if f(nth(c, i)) {
				m.tryScheds(c, 2)
			}
		}
		for lines := strings.SplitAfter(nth(m.best, i).S, "\n"); len(lines) > 1 && !m.late(); lines = strings.SplitAfter(nth(m.best, i).S, "\n") {
			// whole lines
			n := len(lines)
			for cut := (n + 1) / 2; cut > 0; cut /= 2 {
				for k := 0; k+cut <= len(lines) && len(lines) > 1 && !m.late(); {
					c := clone(m.best)
					l := append(append([]string{}, lines[:k]...), lines[k+cut:]...)
					nth(c, i).S = strings.Join(l, "")
					if m.try(c) {
						lines = l
					} else {
						k += cut
					}
				}
			}
			if len(lines) == n {
				break
			}
		}
		if s := nth(m.best, i).S; len(s) > 1 && !strings.HasPrefix(s, "%") {
			for cut := len(s) / 2; cut > 0; cut /= 2 {
				for k := 0; k+cut <= len(nth(m.best, i).S) && len(nth(m.best, i).S) > 1 && !m.late(); {
					c := clone(m.best)
					o := nth(c, i)
					o.S = o.S[:k] + o.S[k+cut:]
					if !m.try(c) {
						k += cut
					}
				}
			}
		}
	}
	// values
	for i := range m.best.Vals {
		v := m.best.Vals[i]
		if v.V == "" {
			continue
		}
		cand := []Val{{V: "0e0"}, {V: "1e0"}, {V: v.V}, {V: v.V, C: Ctx{P: v.C.P}}, {V: v.V, C: v.C}, {V: "0e0", C: v.C}, {V: "1e0", C: v.C}}
		for _, d := range cand {
			if d == v {
				continue
			}
			c := clone(m.best)
			c.Vals[i] = d
			if m.tryScheds(c, 2) {
				break
			}
		}
		// fewer digits
		for n := 0; n < 40; n++ {
			s := m.best.Vals[i].V
			e := strings.IndexByte(s, 'e')
			d := e
			if strings.HasPrefix(s, "-") {
				d--
			}
			if e < 0 || d < 2 {
				break
			}
			c := clone(m.best)
			c.Vals[i].V = s[:e-d/2] + s[e:]
			if m.try(c) {
				continue
			}
			c = clone(m.best)
			c.Vals[i].V = s[:e-1] + s[e:]
			if !m.try(c) {
				break
			}
		}
	}
}

func (m *minimiser) late() bool { return time.Now().After(m.deadline) }

// schedule replaces the strategy by the segments it produced and removes
// switches that are not needed.
func (m *minimiser) schedule() {
	if m.race {
		return
	}
	if m.best.Sched.Kind == "solo" || !m.fails(m.best) || m.segs == nil {
		return
	}
	c := clone(m.best)
	c.Sched = Sched{Kind: "replay", Segs: m.segs}
	if !m.try(c) {
		return
	}
	// the tail
	norm := func(l [][2]int64) [][2]int64 {
		var o [][2]int64
		for _, s := range l {
			if s[1] == 0 {
				continue
			}
			if n := len(o); n > 0 && o[n-1][0] == s[0] {
				o[n-1][1] += s[1]
				continue
			}
			o = append(o, s)
		}
		return o
	}
	for chunk := len(m.best.Sched.Segs); chunk > 0; chunk /= 2 {
		for k := 0; k < len(m.best.Sched.Segs); {
			c := clone(m.best)
			end := k + chunk
			if end > len(c.Sched.Segs) {
				end = len(c.Sched.Segs)
			}
			c.Sched.Segs = norm(append(append([][2]int64{}, c.Sched.Segs[:k]...), c.Sched.Segs[end:]...))
			if !m.try(c) {
				// or let the task before run on instead
				if k > 0 {
					var sum int64
					for _, s := range m.best.Sched.Segs[k:end] {
						sum += s[1]
					}
					c.Sched.Segs = append([][2]int64{}, m.best.Sched.Segs[:k]...)
					c.Sched.Segs[k-1][1] += sum
					c.Sched.Segs = norm(append(c.Sched.Segs, m.best.Sched.Segs[end:]...))
					if len(c.Sched.Segs) < len(m.best.Sched.Segs) && m.try(c) {
						continue
					}
				}
				k += chunk
			}
			if time.Now().After(m.deadline) {
				return
			}
		}
	}
}

// cleanSlots blanks variables nothing refers to.
func (m *minimiser) cleanSlots() {
	c := clone(m.best)
	used := map[int]bool{}
	eachOp(c, func(o *Op) {
		used[o.Z] = true
		used[o.R] = true
		for _, a := range o.A {
			used[a] = true
		}
	})
	for i := range c.Vals {
		if !used[i] {
			c.Vals[i] = Val{V: "0e0"}
		}
	}
	m.try(c)
}

func minimiseFile(in, out string) {
	c := readCase(in)
	p := lookup(c.Prop)
	m := &minimiser{p: p, best: c, deadline: time.Now().Add(50 * time.Second), race: c.Race}
	if m.race {
		m.class = "race"
	} else {
		ro := p.Run(clone(c))
		if ro.Vio == nil {
			fatal("the case does not fail")
		}
		m.class = ro.Vio.Class
	}
	if m.fails(c) {
		m.run()
	}
	f, err := os.Create(out)
	if err != nil {
		fatal("%v", err)
	}
	m.best.Note = ""
	if !m.race {
		if ro := p.Run(clone(m.best)); ro.Vio != nil {
			m.best.Note = ro.Vio.Class + ": " + ro.Vio.Msg
		}
	}
	writeJSON(f, m.best)
	f.Close()
}
