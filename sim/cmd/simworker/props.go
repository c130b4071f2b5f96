package main

// Prop is how one property is decided.
type Prop struct {
	ID        string
	Gen       func(r *Rng) *Case
	Run       func(c *Case) RunOut
	Quick     int // runs of the quick tier
	QuickRace int // runs of the quick tier under the race detector
	Rule      string
	Real      []string
	Stub      []string
	Assume    []string
}

var props = map[string]*Prop{}

var (
	realAll   = []string{"github.com/ericlagergren/decimal and its internal packages", "decimal/math", "decimal/misc", "decimal/sql/postgres", "math/big", "fmt"}
	stubAll   = []string{"goroutine scheduler (one PRNG decides at every statement who runs)", "sync.Pool, sync.Mutex, sync.RWMutex, sync.Once (simulated, same contract)", "process restart (package variables put back to their initial state)"}
	assumeAll = []string{
		"goroutines are interleaved between statements, not inside one; below that granularity the race detector build looks for unsynchronised accesses",
		"code of math/big, fmt, strconv and other standard packages runs without preemption inside",
	}
)

func register(p *Prop) {
	if p.Real == nil {
		p.Real = realAll
	}
	if p.Stub == nil {
		p.Stub = stubAll
	}
	if p.Assume == nil {
		p.Assume = assumeAll
	}
	props[p.ID] = p
}

const ruleConc = "a run is non-trivial when the token moved between tasks more often than there are tasks and at least two operations completed"

func concurrent(id string, quick, quickRace int, rule string, m func() *mix) {
	var mm *mix
	register(&Prop{ID: id, Quick: quick, QuickRace: quickRace, Rule: rule + "; " + ruleConc, Run: runConcurrent, Gen: func(r *Rng) *Case {
		if mm == nil {
			mm = m()
		}
		return genConcurrent(r, mm)
	}})
}

func init() {
	concurrent("C01", 16000, 3000, "2-5 tasks of 1-4 operations each over 1-4 shared operands, drawn from all operations of all packages, after an optional history", func() *mix {
		return &mix{ops: tagged("arith", "trans", "constop", "copy", "read", "set", "callback", "next"), kinds: kindMix, minTasks: 2, maxTasks: 5, maxOps: 4, shared: [2]int{1, 4},
			warm: 30, pool: true, fat: true, goMode: 8}
	})
	concurrent("C06", 200000, 0, "1-3 tasks of 1-4 operations whose receivers are operands and whose operands coincide; every operation is compared with itself on distinct variables of the same contents", func() *mix {
		return &mix{ops: tagged("arith", "trans", "copy", "next", "inplace", "minmax", "cmp"), kinds: kindMix, minTasks: 1, maxTasks: 3, maxOps: 4, shared: [2]int{1, 3},
			warm: 15, pool: true, fat: true, goMode: 5, alias: 60, dirty: 90, noCost: true, opt: "alias"}
	})
	concurrent("C07", 120000, 0, "1-3 tasks of 1-4 operations on receivers with an earlier life (values, storage, conditions); every operation is compared with itself on a new receiver", func() *mix {
		return &mix{ops: tagged("arith", "trans", "constop", "copy", "next", "set", "parse", "callback"), kinds: kindMix, minTasks: 1, maxTasks: 3, maxOps: 4, shared: [2]int{1, 3},
			warm: 15, pool: true, fat: true, goMode: 5, dirty: 90, opt: "fresh", noCost: true}
	})
	concurrent("C02", 14000, 3000, "2-5 tasks of 1-4 reading operations (comparisons, queries, conversions, formatting with writers that stall, marshalling, decomposing, database values) on one or two shared values, which are compared with their memory image after every step", func() *mix {
		return &mix{ops: tagged("read", "wcalm"), kinds: append(kindMix, "far", "vfar", "huge"), minTasks: 2, maxTasks: 5, maxOps: 4, shared: [2]int{1, 2},
			warm: 20, pool: true, fat: true, opt: "oracle"}
	})
	concurrent("C09", 300000, 0, "1-3 tasks of 1-3 reads from simulated sources that fail at any byte with any error, once or for good, and refuse to take bytes back; the tasks run while each other's source stalls", func() *mix {
		return &mix{ops: tagged("pfail"), kinds: kindMix, minTasks: 1, maxTasks: 3, maxOps: 3, shared: [2]int{1, 2}, dirty: 70, fat: true, pool: true, goMode: 8, opt: "oracle"}
	})
	concurrent("C10", 300000, 0, "1-3 tasks of 1-3 parses of generated texts, whole, damaged or cut off, through every way in and every chunking, with other tasks running while a source stalls; judged by an implementation of the documented grammar and by parsing the same text as a string", func() *mix {
		return &mix{ops: tagged("pcalm"), kinds: kindMix, minTasks: 1, maxTasks: 3, maxOps: 3, shared: [2]int{1, 2}, dirty: 70, fat: true, pool: true, goMode: 8, opt: "oracle"}
	})
	concurrent("C11", 250000, 0, "1-3 tasks that parse from failing sources and damaged texts and then use the receiver in other operations; the receiver has to be well formed, and each later operation has to give what it gives for a new decimal of that value", func() *mix {
		return &mix{ops: tagged("pany"), kinds: kindMix, minTasks: 1, maxTasks: 3, maxOps: 2, shared: [2]int{1, 3}, dirty: 80, fat: true, pool: true, goMode: 8, opt: "oracle alias",
			follow: tagged("arith", "cmp", "query", "conv", "fmtop", "copy", "inplace", "minmax")}
	})
	concurrent("C12", 300000, 0, "1-3 tasks of 1-4 formattings of shared values with every verb, flag, width and precision, through fmt.State implementations and io.Writers that refuse any byte, once or for good, take part of a write, or stall while other tasks run", func() *mix {
		return &mix{ops: tagged("wfail", "wfail", "wcalm"), kinds: append(kindMix, "far", "vfar", "zero"), minTasks: 1, maxTasks: 3, maxOps: 4, shared: [2]int{1, 3}, fat: true, pool: true, goMode: 30, opt: "oracle"}
	})
	concurrent("C13", 35000, 0, "1-3 tasks of 1-3 evaluations of continued fractions by generators that stop after any number of terms, panic or end their goroutine at any call, reuse the storage of their terms, bring their own storage and context, or stall while other tasks run", func() *mix {
		return &mix{ops: tagged("gen"), kinds: kindMix, minTasks: 1, maxTasks: 3, maxOps: 3, shared: [2]int{1, 1}, dirty: 80, fat: true, pool: true, goMode: 10, after: 40, warm: 20, opt: "oracle fresh"}
	})
	concurrent("C14", 35000, 0, "1-3 tasks of 1-3 sums by binary splitting over generated ranges and term functions that panic or end their goroutine at any call, reuse the storage of their results, or stall while other tasks run", func() *mix {
		return &mix{ops: tagged("split"), kinds: kindMix, minTasks: 1, maxTasks: 3, maxOps: 3, shared: [2]int{1, 1}, dirty: 80, fat: true, pool: true, goMode: 10, after: 40, warm: 20, opt: "oracle fresh"}
	})
	var ownOps []string
	register(&Prop{ID: "C08", Quick: 150000, Rule: "1-3 tasks of 3-14 operations over 2-5 variables each, all of which are written; objects exchanged with the library are overwritten at random moments, and so is the whole storage of variables; after every operation every other variable and object is compared with what it was; non-trivial: at least two operations completed", Run: runConcurrent, Gen: func(r *Rng) *Case {
		if ownOps == nil {
			ownOps = append(tagged("copy", "own", "ownout", "inplace", "minmax", "conv", "conv", "parse", "constop", "next", "pg", "fmtop", "cmp"), append(tagged("own", "ownout", "copy"), tagged("arith", "trans", "set")...)...)
		}
		return genOwn(r, ownOps)
	}})
	concurrent("C03", 8000, 1500, "2-4 tasks of 1-4 operations that scale by powers of ten from 10^0 to 10^10000 and beyond 10^100000, around the sizes at which the shared table grows, from a cold table or after a history; the storage of every result is overwritten afterwards, and at the end all powers are checked", func() *mix {
		return &mix{ops: tagged("pow10"), kinds: kindMix, minTasks: 2, maxTasks: 4, maxOps: 4, shared: [2]int{1, 1}, warm: 30, after: 60, afterOps: append(tagged("pow10"), "pow.sweep", "pow.sweep"), dirty: 30, fat: true, opt: "oracle"}
	})
	concurrent("C04", 8000, 1500, "2-5 tasks of 1-4 operations that are the first to need constants, at the same time, with operations in between that write over decimals into which a constant was stored; constants are compared with digits the harness computed", func() *mix {
		q := append(tagged("constq"), tagged("constq")...)
		q = append(append(q, q...), tagged("constqlong", "constat", "constatlong", "constop", "own.scribble", "owngrow", "ownscribble", "inplace", "trans")...)
		return &mix{ops: q, kinds: []string{"small", "unit", "int", "small", "mid", "big"}, minTasks: 2, maxTasks: 5, maxOps: 4, shared: [2]int{1, 2}, warm: 30, after: 80,
			afterOps: tagged("constq", "constq", "constat", "constatlong"), sane: true, dirty: 40, fat: true, pool: true, ctxMode: "trans", noCost: true, opt: "oracle"}
	})
	concurrent("C05", 30000, 4000, "1-3 tasks of 1-5 operations that use temporaries, after an optional history, with a recycler that hands out, withholds or drops temporaries by chance and fills those it holds with rubbish; every operation is compared with itself on brand-new temporaries", func() *mix {
		return &mix{ops: append(tagged("pool", "pool", "pool"), tagged("arith", "trans", "callback", "constop")...), kinds: kindMix, minTasks: 1, maxTasks: 3, maxOps: 5, shared: [2]int{1, 3},
			warm: 60, warmOps: tagged("pool"), after: 60, afterOps: tagged("pool"), dirty: 50, fat: true, pool: true, goMode: 15, noCost: true, opt: "oracle"}
	})
	concurrent("C15", 30000, 4000, "1-4 tasks of 1-4 operations that panic in the middle (invalid operations in Go mode; term functions, generators, readers and writers that panic or end their goroutine at any call) next to operations that do not, and afterwards all of them again, and others", func() *mix {
		q := append(tagged("callback", "wpanic", "ppanic"), tagged("callback", "wpanic", "ppanic")...)
		q = append(append(q, q...), tagged("arith", "arith", "trans", "copy", "inplace", "minmax", "cmp", "set", "read", "constop", "pow10")...)
		return &mix{ops: q, kinds: append(kindMix, "nan", "nan", "inf", "zero", "zero"), minTasks: 1, maxTasks: 4, maxOps: 4, shared: [2]int{1, 3},
			warm: 30, again: 70, after: 60, afterOps: append(tagged("pow10", "pool"), tagged("arith", "trans", "copy", "read", "callback")...), dirty: 40, fat: true, pool: true, goMode: 50, noCost: true, opt: "oracle usable"}
	})
	concurrent("C16", 20000, 2000, "2-4 tasks of 1-4 uses of a simulated database: shared wrappers and decimals whose values are asked for again and again, numbers around the limits of the type, and rows of every kind, good and damaged, scanned from a driver's buffer that is overwritten as soon as a scan returns", func() *mix {
		q := tagged("pgdb", "pgdb", "pgdb", "pgdb", "pgdb", "pgdb", "pgvalue", "pgvalue", "pgvalue", "pgrows", "pgrows", "pg", "fmtop")
		return &mix{ops: append(append(append(q, q...), append(q, q...)...), tagged("pglong", "pgvalue", "pgvalue", "pgrows")...), kinds: append(kindMix, "pgfrac", "pgfrac", "pgfrac", "pgfrac", "pgint", "pgint", "pgint"), minTasks: 2, maxTasks: 4, maxOps: 4, shared: [2]int{1, 3},
			dirty: 50, fat: true, pool: true, goMode: 8, noCost: true, warm: 15, after: 30, opt: "oracle"}
	})
	concurrent("C17", 16000, 0, "1-3 tasks that each read 1-3 generated files of test vectors of either format from a simulated stream that is chunked, stalls while the other tasks read, and fails at any byte with any error, once or for good; what has to be delivered is taken from the text by splitting it at blanks", func() *mix {
		return &mix{ops: tagged("cases", "casesfail"), kinds: []string{"small"}, minTasks: 1, maxTasks: 3, maxOps: 3, shared: [2]int{1, 1}, pool: true, opt: "oracle"}
	})
	concurrent("C18", 60000, 0, "1-3 tasks of 1-3 operations of every kind, transcendental ones and computed constants first, in contexts of every precision, rounding mode and narrow exponent limits, and on readers, writers and generators that fail or stall; a run that does not end in time is resolved by giving each of its operations alone a hundred million steps", func() *mix {
		q := tagged("trans", "trans", "constop")
		q = append(append(q, q...), q...)
		return &mix{ops: append(q, tagged("constlong", "constqlong", "split", "arith", "copy", "next", "inplace", "minmax", "cmp", "set", "read", "pfail", "wfail", "pgdb", "casesfail", "pow10")...), kinds: kindMix, minTasks: 1, maxTasks: 3, maxOps: 3, shared: [2]int{1, 3},
			dirty: 50, fat: true, pool: true, goMode: 8, opt: "ends", harsh: 75}
	})
	concurrent("C19", 150000, 0, "1-3 tasks of 1-4 operations; every operation is compared with itself on operands with other contexts, told the same context in another way: defaults written out or left out, given explicitly or as the receiver's, and then with another context in the receiver", func() *mix {
		return &mix{ops: tagged("arith", "arith", "trans", "constop", "next", "inplace", "minmax", "cmp", "set"), kinds: kindMix, minTasks: 1, maxTasks: 3, maxOps: 4, shared: [2]int{1, 3},
			warm: 15, dirty: 60, fat: true, pool: true, goMode: 8, noCost: true, opt: "ctx", harsh: 15}
	})
	p := props["C17"]
	p.Real = append([]string{"decimal/dectest (NewScanner, Scan, Case, Err)", "decimal/suite (ParseCases)", "bufio"}, realAll...)
	p.Assume = append([]string{"dectest and suite are preempted only inside calls of the stream, not between their own statements"}, assumeAll...)
}
