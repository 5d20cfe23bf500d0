package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type driver struct {
	prop string
	tier string
	b    built

	broken int // runs lost to a failure of the simulator itself
}

// effort is how many runs a tier makes, and the wall-clock bound on them.
type effort struct {
	quick    uint64 // runs of the plain build
	race     uint64 // runs of the race-detector build
	thorough uint64 // factor
}

var efforts = map[string]effort{
	"P01": {quick: 9000},
	"P02": {quick: 14000},
	"P03": {quick: 14000},
	"P04": {quick: 8000},
	"P05": {quick: 10000},
	"P06": {quick: 16000},
	"P07": {quick: 16000, race: 1200},
	"P08": {quick: 7000, race: 800},
	"P09": {quick: 14000, race: 800},
	"P10": {quick: 16000},
	"P11": {quick: 40000},
	"P12": {quick: 20000, race: 6000},
	"P13": {quick: 26000},
	"P14": {quick: 20000},
	"P15": {quick: 5000},
	"P16": {quick: 12000},
	"P17": {quick: 24000},
	"P18": {quick: 7000},
	"P19": {quick: 10000},
	"P20": {quick: 16000, race: 3000},
	"P21": {quick: 40000},
	"P22": {quick: 8000},
	"P23": {quick: 12000},
	"P24": {quick: 10000},
	"P25": {quick: 12000, race: 2000},
	"P26": {quick: 30000, race: 4000},
	"P27": {quick: 40000},
}

func effortOf(prop string) effort {
	e, ok := efforts[prop]
	if !ok {
		e = effort{quick: 4000}
	}
	return e
}

const (
	quickWall    = 150.0
	thoroughWall = 600.0
)

type stats struct {
	Runs     int64            `json:"runs"`
	Nontriv  int64            `json:"nontrivial"`
	SimNS    int64            `json:"sim_ns"`
	Faults   map[string]int64 `json:"faults"`
	Syscalls map[string]int64 `json:"syscalls"`
	Stats    map[string]int64 `json:"stats"`
	MaxTrace int64            `json:"longest_run_syscalls"`
	MaxSteps int64            `json:"longest_run_steps"`
	MaxHeap  int64            `json:"largest_heap"`
}

func (a *stats) add(b *stats) {
	a.Runs += b.Runs
	a.Nontriv += b.Nontriv
	a.SimNS += b.SimNS
	a.MaxTrace = max(a.MaxTrace, b.MaxTrace)
	a.MaxSteps = max(a.MaxSteps, b.MaxSteps)
	a.MaxHeap = max(a.MaxHeap, b.MaxHeap)
	for _, p := range []struct{ d, s map[string]int64 }{{a.Faults, b.Faults}, {a.Syscalls, b.Syscalls}, {a.Stats, b.Stats}} {
		for k, v := range p.s {
			p.d[k] += v
		}
	}
}

type knownFinding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // known fixed
	Class    string `json:"class"`
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

func loadKnown() []knownFinding {
	var k struct {
		Findings []knownFinding `json:"findings"`
	}
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.json"))
	if err != nil {
		if os.IsNotExist(err) {
			return nil
		}
		die("%v", err)
	}
	if err := json.Unmarshal(b, &k); err != nil {
		die("known-findings.json: %v", err)
	}
	return k.Findings
}

func check(prop, tier string) int {
	start := time.Now()
	if tier != "quick" && tier != "thorough" {
		die("tier %s", tier)
	}
	seed, err := strconv.ParseUint(env("VERIF_SEED", "1"), 10, 64)
	if err != nil {
		die("VERIF_SEED: %v", err)
	}
	e := effortOf(prop)
	wall := quickWall
	nPlain, nRace := e.quick, e.race
	if tier == "thorough" {
		wall = thoroughWall
		f := e.thorough
		if f == 0 {
			f = 40
		}
		nPlain *= f
		nRace *= f
	}
	d := &driver{prop: prop, tier: tier, b: buildAll(true, nRace > 0)}
	base := seed * 1_000_000_000
	runStart := time.Now()

	var mu sync.Mutex
	total := stats{Faults: map[string]int64{}, Syscalls: map[string]int64{}, Stats: map[string]int64{}}
	distinct := map[uint64]bool{}
	hashes := map[uint64]string{} // first seeds, for the determinism sample
	var viols, soft []found
	deaths := 0
	runsRace := int64(0)

	work := func(from, to, stride uint64, race bool) {
		bin := d.binOf(race)
		for from < to {
			left := wall - time.Since(runStart).Seconds()
			mu.Lock()
			enough := deaths >= 24 || len(viols) >= 400
			mu.Unlock()
			if left <= 0 || enough {
				return
			}
			args := []string{"-prop", prop, "-from", fmt.Sprint(from), "-to", fmt.Sprint(to), "-stride", fmt.Sprint(stride), "-seconds", fmt.Sprintf("%.1f", left)}
			if race {
				args = append(args, "-race")
			}
			r := runWorker(bin, nil, stallLimit, args...)
			mu.Lock()
			for _, l := range r.ends {
				f := strings.Fields(l)
				h, _ := strconv.ParseUint(f[1], 16, 64)
				if len(f) > 2 {
					distinct[h] = true
				}
				if n, _ := strconv.ParseUint(f[0], 10, 64); n < base+24 || race && n < base+500_000_024 {
					hashes[n] = f[1]
				}
			}
			if race {
				runsRace += int64(len(r.ends))
			}
			for _, v := range r.viols {
				if len(viols) < 400 {
					f := parsePlan(v)
					f.batch = &batch{from, f.seed, stride}
					viols = append(viols, f)
				}
			}
			for _, v := range r.soft {
				f := parsePlan(v)
				f.soft = true
				soft = append(soft, f)
			}
			if r.stats != "" {
				p := strings.SplitN(r.stats, " ", 2)
				var s stats
				if err := json.Unmarshal([]byte(p[1]), &s); err != nil {
					die("bad totals: %v", err)
				}
				total.add(&s)
				from = to
			}
			mu.Unlock()
			if r.stats != "" {
				return
			}
			if !r.open {
				die("a simulator process ended early (exit %d): %s", r.code, r.stderr)
			}
			c, msg := deathClass(r)
			if c == "" {
				// a failure of the simulator's own code costs that one run
				// (said on standard error); many of them are no answer
				mu.Lock()
				d.broken++
				n := d.broken
				mu.Unlock()
				if r.code != 4 || n > 12 {
					die("the simulator failed on seed %s: %s", r.last, msg)
				}
				fmt.Fprintf(os.Stderr, "warning: the simulator failed on seed %s: %s\n", r.last, msg)
				last, _ := strconv.ParseUint(r.last, 10, 64)
				from = last + stride
				continue
			}
			mu.Lock()
			deaths++
			dn := deaths
			total.Runs += int64(len(r.ends)) + 1
			mu.Unlock()
			last, _ := strconv.ParseUint(r.last, 10, 64)
			if dn <= 6 {
				f := d.culprit(batch{from, last, stride}, race, c, msg)
				mu.Lock()
				viols = append(viols, f)
				mu.Unlock()
			}
			from = last + stride
		}
	}

	var wg sync.WaitGroup
	nc := uint64(cores())
	for w := uint64(0); w < nc; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if nRace > 0 {
				rb := base + 500_000_000
				work(rb+w, rb+nRace, nc, true)
			}
			work(base+w, base+nPlain, nc, false)
		}()
	}
	wg.Wait()
	runSecs := time.Since(runStart).Seconds()
	if total.Runs == 0 {
		die("no simulation ran")
	}

	// the same seeds again, in one fresh process
	sample, differ := 0, 0
	if len(viols) == 0 {
		again := func(from, n uint64) {
			r := runWorker(d.b.plain, nil, stallLimit, "-prop", prop, "-from", fmt.Sprint(from), "-to", fmt.Sprint(from+n), "-seconds", "10")
			for _, l := range r.ends {
				f := strings.Fields(l)
				k, _ := strconv.ParseUint(f[0], 10, 64)
				if h, ok := hashes[k]; ok {
					sample++
					if h != f[1] {
						differ++
					}
				}
			}
		}
		again(base, min(24, nPlain))
		again(base+500_000_000, min(24, nRace)) // met in the other build before
		if differ > 0 {
			fmt.Fprintf(os.Stderr, "warning: %d of %d repeated seeds took a different course\n", differ, sample)
		}
	}

	// known findings first, then violations
	known := loadKnown()
	listed := map[string]bool{}
	for _, k := range known {
		if k.Property != prop || k.Status != "known" {
			continue
		}
		listed[k.Class] = true
		met := 0
		for _, f := range soft {
			if f.class == k.Class {
				met++
			}
		}
		note := ""
		if met == 0 {
			note = " (not met in this run)"
		}
		fmt.Printf("KNOWN-FINDING: property=%s %s%s\n", prop, k.What, note)
	}
	for _, f := range soft {
		if !listed[f.class] {
			viols = append(viols, f)
		}
	}
	byClass := map[string][]found{}
	for _, f := range viols {
		byClass[f.class] = append(byClass[f.class], f)
	}
	var reports []map[string]any
	classes := sortedKeys(byClass)
	sort.SliceStable(classes, func(i, j int) bool { return len(byClass[classes[i]]) > len(byClass[classes[j]]) })
	for i, c := range classes {
		if i >= 4 {
			break
		}
		fs := byClass[c]
		sort.Slice(fs, func(i, j int) bool {
			if len(fs[i].plan) != len(fs[j].plan) {
				return len(fs[i].plan) < len(fs[j].plan)
			}
			return fs[i].seed < fs[j].seed
		})
		f, n := fs[0], 0
		if len(f.plan) > 0 {
			f, n = d.shrink(f, 25*time.Second, 400)
		}
		path, same := d.writeReplay(f)
		fmt.Printf("%s: %s\n  seed %d, %d runs of this kind, minimised in %d steps, replay identical: %v\n", c, oneLine(f.msg), f.seed, len(fs), n, same)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		reports = append(reports, map[string]any{"class": c, "message": f.msg, "seed": f.seed, "runs": len(fs), "replay": path, "replay_identical": same, "shrink_executions": n})
	}

	d.evidence(seed, total, len(distinct), runsRace, sample, differ, reports, known, soft, runSecs, time.Since(start).Seconds())
	fmt.Printf("%s %s: %d runs in %.1fs (build %.1fs), %d distinct non-trivial, %d kinds of faults, %d violations\n", prop, tier, total.Runs, runSecs, d.b.secs, len(distinct), len(total.Faults), len(viols))
	if len(viols) > 0 {
		return 1
	}
	return 0
}

func (d *driver) evidence(seed uint64, t stats, distinct int, runsRace int64, sample, differ int, reports []map[string]any, known []knownFinding, soft []found, runSecs, wall float64) {
	var samples []any
	for i := uint64(0); i < 3; i++ {
		r := runWorker(d.b.plain, nil, stallLimit, "-prop", d.prop, "-mode", "plan", "-from", fmt.Sprint(seed*1_000_000_000+7*i), "-to", "0")
		for _, c := range r.cands {
			if len(c) < 20000 {
				samples = append(samples, json.RawMessage(c))
			} else {
				samples = append(samples, c[:2000]+"...")
			}
		}
	}
	if reports == nil {
		reports = []map[string]any{}
	}
	met := map[string]int{}
	for _, f := range soft {
		met[f.class]++
	}
	ev := map[string]any{
		"property": d.prop, "tier": d.tier, "seed": seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations":          t.Runs,
			"distinct_nontrivial":  distinct,
			"rule":                 "One evaluation is one simulated execution of a plan generated from its seed (files, operations, schedule, faults, crash, clock). Non-trivial: a fault, crash or damage took effect, or more than six context switches were taken. Distinct: different hash over every system call (kind, offset, length, task, result), every context switch and the step count.",
			"samples":              samples,
			"runs_race_detector":   runsRace,
			"seeds_per_hour":       int64(float64(t.Runs) / runSecs * 3600),
			"simulated_seconds":    float64(t.SimNS) / 1e9,
			"simulated_steps":      t.Stats["steps"],
			"context_switches":     t.Stats["switches"],
			"scheduling_decisions": t.Stats["decisions"],
			"system_calls":         t.Syscalls,
			"faults_injected":      t.Faults,
			"other_counts":         t.Stats,
			"longest_run_syscalls": t.MaxTrace,
			"longest_run_steps":    t.MaxSteps,
			"largest_heap_bytes":   t.MaxHeap,
			"runs_lost":            d.broken,
			"scheduling_points":    d.b.yields,
			"instrumented_files":   d.b.files,
			"determinism_sample":   map[string]int{"seeds_run_twice": sample, "differing": differ},
			"real_components":      []string{"pkg/col", "pkg/multicol", "github.com/weaviate/sroar", "os, io, sync, encoding/binary of the Go distribution", "the programs under cmd and examples where the property covers them"},
			"simulated_components": []string{"the kernel's file system calls, page cache and disk", "the goroutine scheduler's choices", "the clocks", "the runtime's random source", "the number of processors"},
			"known_findings_met":   met,
			"reports":              reports,
		},
		"assumptions": []string{
			"a synced new file's directory entry survives a power failure",
			"sectors of 512 bytes are written atomically; everything not synced may be lost, torn by sector or reordered",
			"preemption happens at statement boundaries of pkg/ and at system calls; the race detector covers what lies between",
		},
		"wall_s":     wall,
		"violations": len(reports),
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		die("%v", err)
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", d.prop+".json"), append(b, '\n'), 0o644); err != nil {
		die("%v", err)
	}
}
