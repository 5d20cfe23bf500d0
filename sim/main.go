package main

// The worker process: runs simulated executions one after another and reports
// each on its standard output, one line per event. The driver (../driver)
// starts workers, collects violations and minimises them.
//
//	B <seed>                 a run begins
//	E <seed> <hash> <flags>  it ended; flags: n = nontrivial
//	V <plan>                 it broke its property
//	F <class> <message>      it met behaviour of a class that may be a known finding
//	S <stats>                totals, at the end

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"time"
)

type scenario struct {
	gen  func(r *Rng, p *Plan)
	exec func(w *World)
	soft map[string]bool // violation classes that may be listed as known findings
}

var scenarios = map[string]*scenario{}

var idle = NewKernel(0)

func say(format string, a ...any) {
	b := []byte(fmt.Sprintf(format, a...) + "\n")
	for len(b) > 0 {
		n, err := syscall.Write(1, b)
		if err == syscall.EINTR {
			continue
		}
		if err != nil {
			os.Exit(3)
		}
		b = b[n:]
	}
}

var (
	dumpPath string
	tracing  bool
)

// execute performs one run of a complete plan.
func execute(p *Plan) *World {
	if dumpPath != "" {
		b, _ := json.MarshalIndent(p, "", " ")
		os.WriteFile(dumpPath, b, 0o644)
	}
	w := NewWorld(p)
	w.k.tracing = tracing
	s := scenarios[p.Prop]
	func() {
		defer func() {
			if e := recover(); e != nil {
				// the code under test panicked while the harness used it
				// outside a scheduled section
				if site := panicSite(); strings.Contains(site, "vibe-lsm/") {
					w.fail("panic", "panic: %v at %s", e, site)
					return
				}
				fmt.Fprintf(os.Stderr, "VERIF-HARNESS-PANIC %v\n%s\n", e, debug.Stack())
				os.Exit(4)
			}
		}()
		s.exec(w)
	}()
	syscall.VerifK = idle // finalizers of abandoned files find nothing
	time.VerifClock = nil
	return w
}

// build makes the plan of one seed.
func build(prop string, seed uint64) *Plan {
	p := &Plan{Prop: prop, Seed: seed, Cores: 4}
	r := NewRng(seed ^ mixString(prop))
	scenarios[prop].gen(r, p)
	return p
}

func mixString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// probe runs the plan without faults and returns the syscalls of each phase.
func probe(p *Plan) ([]map[string]int, *World) {
	q := p.clone()
	q.Faults, q.Crash, q.Corr, q.Cap = nil, nil, nil, 0
	w := execute(q)
	return w.k.probe, w
}

type totals struct {
	Runs     int64            `json:"runs"`
	Nontriv  int64            `json:"nontrivial"`
	SimNS    int64            `json:"sim_ns"`
	Faults   map[string]int64 `json:"faults"`
	Syscalls map[string]int64 `json:"syscalls"`
	Stats    map[string]int64 `json:"stats"`
	MaxTrace int64            `json:"longest_run_syscalls"`
	MaxSteps int64            `json:"longest_run_steps"`
	MaxHeap  int64            `json:"largest_heap"`
}

func (w *World) outcome() (class, msg string) {
	if len(w.viol) == 0 {
		return "", ""
	}
	vs := append([]Violation(nil), w.viol...)
	soft := scenarios[w.p.Prop].soft
	sort.SliceStable(vs, func(i, j int) bool { return !soft[vs[i].Class] && soft[vs[j].Class] })
	return vs[0].Class, vs[0].Msg
}

func main() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	runtime.MemProfileRate = 0
	prop := flag.String("prop", "", "property")
	from := flag.Uint64("from", 0, "first seed")
	to := flag.Uint64("to", 0, "end of seeds")
	stride := flag.Uint64("stride", 1, "distance")
	maxS := flag.Float64("seconds", 0, "stop starting runs after this long")
	race := flag.Bool("race", false, "this is the race-detector build")
	mode := flag.String("mode", "batch", "batch exec cand gen")
	flag.StringVar(&dumpPath, "dump", "", "write each plan here before running it")
	flag.BoolVar(&tracing, "trace", false, "print the trace")
	flag.Parse()
	switch *mode {
	case "exec":
		var p Plan
		b, err := io.ReadAll(bufio.NewReader(os.Stdin))
		if err == nil {
			err = json.Unmarshal(b, &p)
		}
		if err != nil || scenarios[p.Prop] == nil {
			fmt.Fprintln(os.Stderr, "bad plan:", err)
			os.Exit(3)
		}
		say("B %d", p.Seed)
		w := execute(&p)
		report(&p, w, *race)
		if tracing {
			for _, l := range w.k.trace {
				say("T %s", l)
			}
		}
		return
	case "cand":
		var p Plan
		if err := json.NewDecoder(os.Stdin).Decode(&p); err != nil {
			os.Exit(3)
		}
		for _, c := range candidates(&p) {
			b, _ := json.Marshal(c)
			say("C %s", b)
		}
		return
	case "plan":
		b, _ := json.Marshal(build(*prop, *from))
		say("C %s", b)
		return
	case "gen":
		b, _ := json.MarshalIndent(build(*prop, *from), "", " ")
		say("%s", b)
		return
	}
	if scenarios[*prop] == nil {
		fmt.Fprintln(os.Stderr, "no such property", *prop)
		os.Exit(3)
	}
	start := time.Now()
	t := totals{Faults: map[string]int64{}, Syscalls: map[string]int64{}, Stats: map[string]int64{}}
	next := *from
	for n := 0; next < *to; next += *stride {
		if *maxS > 0 && time.Since(start).Seconds() > *maxS {
			break
		}
		seed := next
		say("B %d", seed)
		p := build(*prop, seed)
		p.Race = *race
		w := execute(p)
		t.Runs++
		t.SimNS += w.simNS
		var sys int64
		for f, c := range w.k.fired {
			t.Faults[f] += int64(c)
		}
		for f, c := range w.k.total {
			t.Syscalls[f] += int64(c)
			sys += int64(c)
		}
		for f, c := range w.stats {
			t.Stats[f] += c
		}
		t.MaxTrace = max(t.MaxTrace, sys)
		t.MaxSteps = max(t.MaxSteps, w.stats["steps"])
		if report(p, w, *race) {
			t.Nontriv++
		}
		n++
		if n%16 == 0 || t.heapBig() {
			runtime.GC()
		}
	}
	b, _ := json.Marshal(t)
	say("S %d %s", next, b)
}

func (t *totals) heapBig() bool {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	t.MaxHeap = max(t.MaxHeap, int64(m.HeapAlloc))
	return m.HeapAlloc > 96<<20
}

func report(p *Plan, w *World, race bool) bool {
	class, msg := w.outcome()
	soft := scenarios[p.Prop].soft
	if class != "" && soft[class] {
		say("F %s %s", class, msg)
	}
	if class != "" {
		q := p.clone()
		q.Class, q.Msg, q.Race = class, msg, race
		if q.Sched.Mode != runtime.VerifModeReplay && len(w.rec) < 20000 {
			q.Sched = Sched{Mode: runtime.VerifModeReplay, Seed: q.Sched.Seed, Switches: w.rec}
		}
		b, _ := json.Marshal(q)
		if soft[class] {
			say("Q %s", b)
		} else {
			say("V %s", b)
		}
	}
	non := ""
	if len(w.k.fired) > 0 || w.stats["switches"] > 6 || len(p.Corr) > 0 {
		non = "n"
	}
	if os.Getenv("VERIF_STEPS") != "" {
		say("X %d %d", p.Seed, w.stats["steps"])
	}
	say("E %d %016x %s", p.Seed, w.k.hash^w.shape, non)
	return non != ""
}
