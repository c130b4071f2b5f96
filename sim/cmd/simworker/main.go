package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"time"

	"verifsim/rt"
	"verifsim/simsync"
)

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "simworker: "+f+"\n", a...)
	os.Exit(3)
}

func atoi(s string) int {
	n, err := strconv.Atoi(s)
	if err != nil {
		fatal("bad number %q", s)
	}
	return n
}

func baseSeed() uint64 {
	if n, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		return n
	}
	return 1
}

func main() {
	simsync.Scribble = scribble
	if len(os.Args) < 2 {
		fatal("usage: simworker check|work|replay|min|dump|hashes ...")
	}
	switch os.Args[1] {
	case "check":
		os.Exit(check(os.Args[2], os.Args[3]))
	case "work":
		oneProc()
		work(os.Args[2:])
	case "replay":
		oneProc()
		os.Exit(replayFile(os.Args[2]))
	case "min":
		oneProc()
		minimiseFile(os.Args[2], os.Args[3])
	case "dump":
		// dump ID seed
		oneProc()
		p := lookup(os.Args[2])
		c := p.makeCase(baseSeed(), uint64(atoi(os.Args[3])), rt.RaceBuild)
		writeJSON(os.Stdout, c)
	case "survey":
		oneProc()
		survey(os.Args[2], atoi(os.Args[3]))
	case "hashes":
		// hashes ID from to: one line per seed, for the determinism proof
		oneProc()
		p := lookup(os.Args[2])
		for i := atoi(os.Args[3]); i < atoi(os.Args[4]); i++ {
			c := p.makeCase(baseSeed(), uint64(i), rt.RaceBuild)
			ro := p.Run(c)
			v := ""
			if ro.Vio != nil {
				v = ro.Vio.Class + ": " + ro.Vio.Msg
			}
			fmt.Printf("%d %x %x %d %d %s\n", i, ro.LogHash, ro.Outcome.Hash, ro.Outcome.Steps, ro.Outcome.Switches, v)
		}
	default:
		fatal("unknown command %q", os.Args[1])
	}
}

func oneProc() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	debug.SetMaxStack(512 << 20)
}

func lookup(id string) *Prop {
	p := props[id]
	if p == nil {
		fatal("no such property %q", id)
	}
	return p
}

func (p *Prop) makeCase(base, i uint64, race bool) *Case {
	m := uint64(0)
	if race {
		m = 1
	}
	c := p.Gen(NewRng(hashStr(p.ID), base, i, m))
	c.Prop = p.ID
	c.Seed = i
	c.Base = base
	c.Race = race
	return c
}

func writeJSON(f *os.File, v interface{}) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		fatal("%v", err)
	}
	f.Write(append(b, '\n'))
}

// Stats of a batch of runs.
type Stats struct {
	Runs, Skipped, Nontriv, Known   int64
	Ops, Panics                     int64
	Steps, Switches, Points, SoloSt int64
	Deadlocks                       int64
	PoolGet, PoolMiss, PoolStale    int64
	PoolPut, PoolDrop, Restarts     int64
	Locks, Blocked                  int64
	Faults                          map[string]int64
	OpCount                         map[string]int64
	Strategies                      map[string]int64
	Sites                           int64
	KnownMsg                        map[string]string
	Samples                         []*Case
	FirstSeed, LastSeed             uint64
	WallS                           float64
	Wall                            map[string]float64 `json:",omitempty"`
}

func (s *Stats) add(o *Stats) {
	s.Runs += o.Runs
	s.Skipped += o.Skipped
	s.Nontriv += o.Nontriv
	s.Known += o.Known
	s.Ops += o.Ops
	s.Panics += o.Panics
	s.Steps += o.Steps
	s.Switches += o.Switches
	s.Points += o.Points
	s.SoloSt += o.SoloSt
	s.PoolGet += o.PoolGet
	s.PoolMiss += o.PoolMiss
	s.PoolStale += o.PoolStale
	s.PoolPut += o.PoolPut
	s.PoolDrop += o.PoolDrop
	s.Restarts += o.Restarts
	s.Locks += o.Locks
	s.Blocked += o.Blocked
	s.WallS += o.WallS
	if o.Sites > s.Sites {
		s.Sites = o.Sites
	}
	for _, m := range []struct{ d, s *map[string]int64 }{{&s.Faults, &o.Faults}, {&s.OpCount, &o.OpCount}, {&s.Strategies, &o.Strategies}} {
		if *m.d == nil {
			*m.d = map[string]int64{}
		}
		for k, v := range *m.s {
			(*m.d)[k] += v
		}
	}
	if s.KnownMsg == nil {
		s.KnownMsg = map[string]string{}
	}
	for k, v := range o.KnownMsg {
		s.KnownMsg[k] = v
	}
	if len(s.Samples) < 3 {
		s.Samples = append(s.Samples, o.Samples...)
	}
	if o.LastSeed > s.LastSeed {
		s.LastSeed = o.LastSeed
	}
}

// Found is a violation a worker came across.
type Found struct {
	Case *Case
	Vio  *Violation
}

// WorkOut is what a worker writes at its end.
type WorkOut struct {
	Stats Stats
	Found *Found
}

// work runs the seeds k, k+n, k+2n, ... below count.
//
//	work ID k n count deadline-ms dir knownfile
func work(a []string) {
	p := lookup(a[0])
	k, n, count := atoi(a[1]), atoi(a[2]), atoi(a[3])
	deadline := time.Now().Add(time.Duration(atoi(a[4])) * time.Millisecond)
	dir := a[5]
	known := readKnown(a[6])
	base := baseSeed()
	pf, err := os.Create(fmt.Sprintf("%s/progress.%d", dir, k))
	if err != nil {
		fatal("%v", err)
	}
	var out WorkOut
	s := &out.Stats
	s.Faults, s.OpCount, s.Strategies, s.KnownMsg = map[string]int64{}, map[string]int64{}, map[string]int64{}, map[string]string{}
	s.FirstSeed = uint64(k)
	hashes := map[uint64]struct{}{}
	t0 := time.Now()
	var rec [16]byte
	stop := uint64(1<<63 - 1)
	for i := k; i < count; i += n {
		if time.Now().After(deadline) {
			break
		}
		if (i/n)%16 == 0 {
			if b, err := os.ReadFile(dir + "/stop"); err == nil && len(b) > 0 {
				if v, err := strconv.ParseUint(string(b), 10, 64); err == nil {
					stop = v
				}
			}
		}
		if uint64(i) > stop {
			break
		}
		binary.LittleEndian.PutUint64(rec[:], uint64(i)+1)
		binary.LittleEndian.PutUint64(rec[8:], uint64(time.Now().UnixNano()))
		pf.WriteAt(rec[:], 0)
		c := p.makeCase(base, uint64(i), rt.RaceBuild)
		st0 := simsync.Stats
		ro := p.Run(c)
		s.Runs++
		s.LastSeed = uint64(i)
		s.Ops += int64(ro.Ops)
		s.Panics += int64(ro.Panics)
		s.Steps += ro.Outcome.Steps
		s.SoloSt += ro.SoloStep
		s.Switches += ro.Outcome.Switches
		s.Points += ro.Outcome.Points
		s.PoolGet += simsync.Stats.PoolGet - st0.PoolGet
		s.PoolMiss += simsync.Stats.PoolMiss - st0.PoolMiss
		s.PoolStale += simsync.Stats.PoolStale - st0.PoolStale
		s.PoolPut += simsync.Stats.PoolPut - st0.PoolPut
		s.PoolDrop += simsync.Stats.PoolDrop - st0.PoolDrop
		s.Locks += simsync.Stats.Locks - st0.Locks
		s.Blocked += simsync.Stats.Blocked - st0.Blocked
		s.Strategies[c.Sched.Kind]++
		for _, t := range c.Tasks {
			for j := range t {
				s.OpCount[t[j].K]++
			}
		}
		if ro.Skipped {
			s.Skipped++
		}
		if ro.Nontriv && !ro.Skipped {
			hashes[ro.LogHash] = struct{}{}
		}
		if len(s.Samples) < 1 && ro.Nontriv && !ro.Skipped && k < 3 {
			cc := *c
			for _, g := range ro.Outcome.Segs {
				if len(cc.Sched.Segs) >= 40 {
					break
				}
				cc.Sched.Segs = append(append([][2]int64{}, cc.Sched.Segs...), [2]int64{int64(g.Task), g.N})
			}
			s.Samples = append(s.Samples, &cc)
		}
		if ro.Vio != nil {
			if m := known.match(c.Prop, ro.Vio); m != "" {
				s.Known++
				s.KnownMsg[m] = ro.Vio.Msg
				continue
			}
			out.Found = &Found{c, ro.Vio}
			break
		}
	}
	s.Nontriv = int64(len(hashes))
	s.Restarts = rt.Restarts
	s.WallS = time.Since(t0).Seconds()
	for i := 0; i < nFaults; i++ {
		s.Faults[faultCount[i].kind] += faultCount[i].n
	}
	for _, h := range rt.SiteHit {
		if h > 0 {
			s.Sites++
		}
	}
	hb := make([]byte, 0, 8*len(hashes))
	for h := range hashes {
		hb = binary.LittleEndian.AppendUint64(hb, h)
	}
	os.WriteFile(fmt.Sprintf("%s/hashes.%d", dir, k), hb, 0o666)
	b, err := json.Marshal(&out)
	if err != nil {
		fatal("%v", err)
	}
	if err := os.WriteFile(fmt.Sprintf("%s/out.%d", dir, k), b, 0o666); err != nil {
		fatal("%v", err)
	}
}

func readCase(file string) *Case {
	b, err := os.ReadFile(file)
	if err != nil {
		fatal("%v", err)
	}
	var c Case
	if err := json.Unmarshal(b, &c); err != nil {
		fatal("%s: %v", file, err)
	}
	return &c
}

func replayFile(file string) int {
	c := readCase(file)
	if c.Race != rt.RaceBuild {
		fatal("%s needs the other build (race=%v)", file, c.Race)
	}
	p := lookup(c.Prop)
	ro := p.Run(c)
	fmt.Printf("replayed %d steps, %d switches, log hash %x\n", ro.Outcome.Steps, ro.Outcome.Switches, ro.LogHash)
	if ro.Vio == nil {
		fmt.Println("no violation")
		return 0
	}
	fmt.Printf("class: %s\n%s\n", ro.Vio.Class, ro.Vio.Msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop, file)
	return 1
}

func sortedKeys[T any](m map[string]T) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
