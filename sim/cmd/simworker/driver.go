package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"

	"verifsim/rt"
)

const workers = 8

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func selfPlain() string { return verifDir() + "/build/simworker" }
func selfRace() string  { return verifDir() + "/build/simworker-race" }

// batch is a search with one of the two builds.
type batch struct {
	p        *Prop
	race     bool
	count    int
	deadline time.Duration
	dir      string
	stats    Stats
	found    *Found
	crash    string // output of a worker that crashed
	crashed  *Case
	err      string
}

const (
	hangAfter = 90 * time.Second
	memLimit  = 3 << 30
)

func rss(pid int) int64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * 4096
}

type workerEnd struct {
	k      int
	code   int
	killed string
	stderr string
}

func (b *batch) exe() string {
	if b.race {
		return selfRace()
	}
	return selfPlain()
}

func (b *batch) runWorker(k int) workerEnd {
	w := workerEnd{k: k}
	cmd := exec.Command(b.exe(), "work", b.p.ID, fmt.Sprint(k), fmt.Sprint(workers), fmt.Sprint(b.count),
		fmt.Sprint(b.deadline.Milliseconds()), b.dir, verifDir()+"/known-findings.txt")
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "GORACE=halt_on_error=1 exitcode=66")
	var errb bytes.Buffer
	cmd.Stderr = &limited{b: &errb}
	cmd.Stdout = &limited{b: &errb}
	if err := cmd.Start(); err != nil {
		w.code, w.stderr = 3, err.Error()
		return w
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	tick := time.NewTicker(200 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case err := <-done:
			w.stderr = errb.String()
			if e, ok := err.(*exec.ExitError); ok {
				w.code = e.ExitCode()
			} else if err != nil {
				w.code = 3
			}
			return w
		case <-tick.C:
			if w.killed != "" {
				continue
			}
			if rss(cmd.Process.Pid) > memLimit {
				w.killed = "memory"
				cmd.Process.Kill()
				continue
			}
			if _, t := b.progress(k); !t.IsZero() && time.Since(t) > hangAfter {
				w.killed = "time"
				cmd.Process.Kill()
			}
		}
	}
}

type limited struct {
	b *bytes.Buffer
}

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < 1<<16 {
		l.b.Write(p)
	}
	return len(p), nil
}

func (b *batch) progress(k int) (seed int64, t time.Time) {
	x, err := os.ReadFile(fmt.Sprintf("%s/progress.%d", b.dir, k))
	if err != nil || len(x) < 16 {
		return -1, time.Time{}
	}
	return int64(binary.LittleEndian.Uint64(x)) - 1, time.Unix(0, int64(binary.LittleEndian.Uint64(x[8:])))
}

func (b *batch) run() {
	var mu sync.Mutex
	var wg sync.WaitGroup
	minSeed := int64(-1)
	hashes := map[uint64]struct{}{}
	for k := 0; k < workers; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			w := b.runWorker(k)
			mu.Lock()
			defer mu.Unlock()
			seed, _ := b.progress(k)
			hit := func(s int64) bool {
				if minSeed >= 0 && s >= minSeed {
					return false
				}
				minSeed = s
				os.WriteFile(b.dir+"/stop.tmp", []byte(fmt.Sprint(s)), 0o666)
				os.Rename(b.dir+"/stop.tmp", b.dir+"/stop")
				return true
			}
			if w.code == 0 && w.killed == "" {
				var o WorkOut
				x, err := os.ReadFile(fmt.Sprintf("%s/out.%d", b.dir, k))
				if err == nil {
					err = json.Unmarshal(x, &o)
				}
				if err != nil {
					b.err = "worker output: " + err.Error()
					return
				}
				b.stats.add(&o.Stats)
				hb, _ := os.ReadFile(fmt.Sprintf("%s/hashes.%d", b.dir, k))
				for ; len(hb) >= 8; hb = hb[8:] {
					hashes[binary.LittleEndian.Uint64(hb)] = struct{}{}
				}
				if o.Found != nil && hit(int64(o.Found.Case.Seed)) {
					b.found, b.crashed = o.Found, nil
				}
				return
			}
			if w.code == 3 || seed < 0 {
				b.err = fmt.Sprintf("worker %d: exit code %d: %s", k, w.code, tail(w.stderr))
				return
			}
			// The process died in the middle of a case.
			if hit(seed) {
				b.found = nil
				b.crashed = b.p.makeCase(baseSeed(), uint64(seed), b.race)
				b.crash = w.stderr
				if w.killed != "" {
					b.crash = "killed: " + w.killed
				}
			}
		}(k)
	}
	wg.Wait()
	b.stats.Nontriv = int64(len(hashes))
}

func tail(s string) string {
	if len(s) > 3000 {
		return s[:1500] + "\n...\n" + s[len(s)-1500:]
	}
	return s
}

// rerun runs one case in a process of its own; it returns how that ended.
func rerun(exe, file string) (code int, out string, killed string) {
	cmd := exec.Command(exe, "replay", file)
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "GORACE=halt_on_error=1 exitcode=66")
	var ob bytes.Buffer
	cmd.Stdout = &limited{b: &ob}
	cmd.Stderr = cmd.Stdout
	if err := cmd.Start(); err != nil {
		return 3, err.Error(), ""
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	t0 := time.Now()
	for {
		select {
		case err := <-done:
			if e, ok := err.(*exec.ExitError); ok {
				code = e.ExitCode()
			} else if err != nil {
				code = 3
			}
			return code, ob.String(), killed
		case <-time.After(100 * time.Millisecond):
			if killed == "" && rss(cmd.Process.Pid) > memLimit {
				killed = "memory"
				cmd.Process.Kill()
			}
			if killed == "" && time.Since(t0) > hangAfter {
				killed = "time"
				cmd.Process.Kill()
			}
		}
	}
}

func saveCase(file string, c *Case) {
	f, err := os.Create(file)
	if err != nil {
		fatal("%v", err)
	}
	writeJSON(f, c)
	f.Close()
}

// report turns what the batch found into a replay file; ok means it is a
// violation that a fresh process reproduces.
func (b *batch) report() (ok bool, msg string) {
	os.MkdirAll(verifDir()+"/replays", 0o777)
	base := fmt.Sprintf("%s/replays/%s-seed%d", verifDir(), b.p.ID, baseSeed())
	if b.race {
		base += "-race"
	}
	if b.found != nil {
		raw := fmt.Sprintf("%s-%d.full.json", base, b.found.Case.Seed)
		b.found.Case.Note = b.found.Vio.Class + ": " + b.found.Vio.Msg
		saveCase(raw, b.found.Case)
		file := fmt.Sprintf("%s-%d.json", base, b.found.Case.Seed)
		ctl := exec.Command(b.exe(), "min", raw, file)
		ctl.Env = os.Environ()
		ctl.Run()
		for _, f := range []string{file, raw} {
			if _, err := os.Stat(f); err != nil {
				continue
			}
			c1, o1, _ := rerun(b.exe(), f)
			c2, o2, _ := rerun(b.exe(), f)
			if c1 == 1 && c2 == 1 && o1 == o2 {
				fmt.Print(o1)
				return true, b.found.Vio.Class
			}
			msg = fmt.Sprintf("%s: not reproduced (exit codes %d, %d)\n%s\n%s", f, c1, c2, tail(o1), tail(o2))
		}
		return false, msg
	}
	c := b.crashed
	kind := "crash"
	switch {
	case strings.Contains(b.crash, "WARNING: DATA RACE"):
		kind = "race"
	case strings.HasPrefix(b.crash, "killed:"):
		kind = "no-progress"
	}
	c.Note = kind + ": " + tail(b.crash)
	file := fmt.Sprintf("%s-%d.json", base, c.Seed)
	saveCase(file, c)
	c1, o1, k1 := rerun(b.exe(), file)
	switch {
	case kind == "race":
		if c1 != 66 {
			return false, fmt.Sprintf("%s: race not reproduced (exit code %d)\n%s", file, c1, tail(b.crash))
		}
		raw := strings.TrimSuffix(file, ".json") + ".full.json"
		saveCase(raw, c)
		ctl := exec.Command(selfPlain(), "min", raw, file)
		ctl.Env = os.Environ()
		ctl.Run()
		if c1, o1, _ = rerun(b.exe(), file); c1 != 66 {
			saveCase(file, c)
			c1, o1, _ = rerun(b.exe(), file)
		}
		if c1 != 66 {
			return false, fmt.Sprintf("%s: race not reproduced (exit code %d)\n%s", file, c1, tail(b.crash))
		}
	case kind == "no-progress":
		if k1 == "" {
			return false, fmt.Sprintf("%s: did not end within limits (%s), but does when run again", file, b.crash)
		}
	default:
		if c1 == 0 || c1 == 1 || c1 == 3 || k1 != "" {
			return false, fmt.Sprintf("%s: crash not reproduced (exit code %d)\n%s", file, c1, tail(b.crash))
		}
	}
	fmt.Println(tail(o1))
	fmt.Printf("class: %s\n", kind)
	fmt.Printf("VIOLATION property=%s replay=%s\n", b.p.ID, file)
	return true, kind
}

func check(id, tier string) int {
	p := lookup(id)
	t0 := time.Now()
	dir, err := os.MkdirTemp("", "simcheck")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(dir)
	count, limit := p.Quick, 240*time.Second
	rcount, rlimit := p.QuickRace, 120*time.Second
	if tier == "thorough" {
		mins := 10.0
		if v, err := strconv.ParseFloat(os.Getenv("VERIF_MINUTES"), 64); err == nil {
			mins = v
		}
		total := time.Duration(mins * float64(time.Minute))
		count, limit = 1<<40, total
		rcount = 0
		if p.QuickRace > 0 {
			limit = total * 7 / 10
			rcount, rlimit = 1<<40, total-limit
		}
	} else if tier != "quick" {
		fatal("unknown tier %q", tier)
	}
	var bs []*batch
	if count > 0 {
		bs = append(bs, &batch{p: p, count: count, deadline: limit, dir: dir + "/plain"})
	}
	if rcount > 0 {
		bs = append(bs, &batch{p: p, race: true, count: rcount, deadline: rlimit, dir: dir + "/race"})
	}
	code := 0
	vio := 0
	var notes []string
	for _, b := range bs {
		os.MkdirAll(b.dir, 0o777)
		b.run()
		if b.found != nil || b.crashed != nil {
			ok, msg := b.report()
			if ok {
				vio++
				code = 1
			} else {
				notes = append(notes, "not reproduced: "+msg)
				fmt.Fprintln(os.Stderr, "simworker: "+msg)
			}
		}
		if b.err != "" {
			fmt.Fprintln(os.Stderr, "simworker: "+b.err)
			notes = append(notes, b.err)
		}
		if vio > 0 {
			break
		}
	}
	known := map[string]string{}
	for _, b := range bs {
		for k, v := range b.stats.KnownMsg {
			known[k] = v
		}
	}
	for k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
	}
	writeEvidence(p, tier, bs, time.Since(t0), vio, notes)
	if code == 0 && len(notes) > 0 {
		// No violation that can be replayed, but the search was not complete.
		code = 3
	}
	if code == 0 {
		var runs int64
		for _, b := range bs {
			runs += b.stats.Runs
		}
		fmt.Printf("ok property=%s tier=%s runs=%d wall=%.1fs\n", id, tier, runs, time.Since(t0).Seconds())
	}
	return code
}

func writeEvidence(p *Prop, tier string, bs []*batch, wall time.Duration, vio int, notes []string) {
	var tot Stats
	var distinct int64
	modes := map[string]interface{}{}
	for _, b := range bs {
		tot.add(&b.stats)
		distinct += b.stats.Nontriv
		name := "plain"
		if b.race {
			name = "race-detector"
		}
		modes[name] = map[string]interface{}{
			"runs": b.stats.Runs, "operations": b.stats.Ops, "steps": b.stats.Steps, "switches": b.stats.Switches,
			"distinct_nontrivial": b.stats.Nontriv, "last_seed": b.stats.LastSeed,
		}
	}
	var rate float64
	if s := wall.Seconds(); s > 0 {
		rate = float64(tot.Runs) / s * 3600
	}
	samples := []interface{}{}
	for _, c := range tot.Samples {
		samples = append(samples, c)
	}
	cov := map[string]interface{}{
		"evaluations":                 tot.Runs,
		"distinct_nontrivial":         distinct,
		"rule":                        p.Rule,
		"samples":                     samples,
		"builds":                      modes,
		"runs_per_hour":               int64(rate),
		"simulated_time":              fmt.Sprintf("%d scheduler steps (one step = one statement of the code under test or one action of a simulated device; the library reads no clock)", tot.Steps),
		"steps":                       tot.Steps,
		"steps_of_references":         tot.SoloSt,
		"task_switches":               tot.Switches,
		"sync_points":                 tot.Points,
		"operations":                  tot.Ops,
		"operations_that_panicked":    tot.Panics,
		"operation_counts":            tot.OpCount,
		"schedules":                   tot.Strategies,
		"preempted_at_distinct_sites": tot.Sites,
		"distinct_measure":            "distinct hashes over (preemption sites, order of tasks, results of all operations) of non-trivial runs",
		"faults_injected":             tot.Faults,
		"pool":                        map[string]int64{"get": tot.PoolGet, "missed": tot.PoolMiss, "stale_item": tot.PoolStale, "put": tot.PoolPut, "dropped": tot.PoolDrop},
		"process_restarts":            tot.Restarts,
		"locks":                       map[string]int64{"taken": tot.Locks, "blocked": tot.Blocked},
		"skipped_over_budget":         tot.Skipped,
		"known_findings_hit":          tot.Known,
		"real_components":             p.Real,
		"stubbed_components":          p.Stub,
		"notes":                       notes,
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": int64(baseSeed()), "level": "exploration",
		"coverage": cov, "wall_s": wall.Seconds(), "violations": vio,
		"assumptions": p.Assume,
	}
	os.MkdirAll(verifDir()+"/evidence", 0o777)
	f, err := os.Create(filepath.Join(verifDir(), "evidence", p.ID+".json"))
	if err != nil {
		fatal("%v", err)
	}
	writeJSON(f, ev)
	f.Close()
}

var _ = rt.RaceBuild
