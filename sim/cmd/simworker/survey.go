package main

import (
	"fmt"
	"os"
	"runtime"
	"runtime/pprof"
	"sync/atomic"
	"time"

	"verifsim/rt"
)

// survey runs seeds past violations and shows one minimised example of each
// class: a tool for developing, no check uses it.
func survey(id string, n int) {
	p := lookup(id)
	if f := os.Getenv("SURVEY_PROFILE"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	count := map[string]int64{}
	t0 := time.Now()
	var ops, skipped int
	var cur, at atomic.Int64
	at.Store(t0.UnixNano())
	go func() {
		for {
			time.Sleep(200 * time.Millisecond)
			if big := rss(os.Getpid()) > 1500<<20; big || time.Since(time.Unix(0, at.Load())) > 40*time.Second {
				fmt.Println("HANG or MEMORY", big, "at seed", cur.Load())
				writeJSON(os.Stdout, p.makeCase(baseSeed(), uint64(cur.Load()), rt.RaceBuild))
				buf := make([]byte, 1<<20)
				os.Stdout.Write(buf[:runtime.Stack(buf, true)])
				os.Exit(1)
			}
		}
	}()
	for i := 0; i < n; i++ {
		cur.Store(int64(i))
		at.Store(time.Now().UnixNano())
		c := p.makeCase(baseSeed(), uint64(i), rt.RaceBuild)
		ro := p.Run(c)
		ops += ro.Ops
		if ro.Skipped {
			skipped++
		}
		if ro.Vio == nil {
			continue
		}
		if os.Getenv("SURVEY_FIRST") != "" {
			fmt.Printf("KILLED %s: %s\n", ro.Vio.Class, ro.Vio.Msg)
			os.Exit(1)
		}
		count[ro.Vio.Class]++
		if count[ro.Vio.Class] > 1 {
			continue
		}
		fmt.Printf("== seed %d: %s\n", i, ro.Vio.Class)
		m := &minimiser{p: p, best: c, class: ro.Vio.Class, deadline: time.Now().Add(6 * time.Second)}
		if !m.fails(c) {
			fmt.Println("NOT REPRODUCED", ro.Vio.Msg)
			continue
		}
		m.run()
		ro = p.Run(clone(m.best))
		if ro.Vio != nil {
			fmt.Println("  ", ro.Vio.Msg, m.best.Pool.Mode, m.best.Sched.Kind)
		}
	}
	fmt.Println(n, "runs", ops, "ops", skipped, "skipped", time.Since(t0))
	for _, k := range sortedKeys(count) {
		fmt.Println(count[k], k)
	}
}
