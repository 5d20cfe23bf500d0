package main

import (
	"errors"
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"vibe-lsm/pkg/col"
)

// Violation is a broken property, with a stable class used while minimising.
type Violation struct {
	Class, Msg string
}

// World is one simulated machine executing one plan.
type World struct {
	p       *Plan
	k       *Kernel
	viol    []Violation
	known   map[string]int // findings seen (classes listed as known by the driver)
	mu      sync.Mutex
	stats   map[string]int64
	shape   uint64 // what distinguishes this run from others
	sect    int
	rec     []runtime.VerifDecision
	clkN    int
	clk     int64
	passed  int64   // simulated time before the current section
	clkSeen []int64 // seconds the clock was read at
	dry     bool
	simNS   int64
	models  []*Model
}

func NewWorld(p *Plan) *World {
	w := &World{p: p, k: NewKernel(p.Seed), stats: map[string]int64{}, known: map[string]int{}}
	w.k.capacity = p.Cap
	w.k.stall = p.Stall
	w.k.lag = p.Clock.Lag
	w.k.SetFaults(append([]Fault(nil), p.Faults...))
	if p.Crash != nil {
		c := *p.Crash
		w.k.crash = &c
	}
	w.clk = p.Clock.Start
	return w
}

func (w *World) fail(class, format string, a ...any) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.viol = append(w.viol, Violation{class, fmt.Sprintf(format, a...)})
}

func (w *World) bump(name string, n int64) {
	if runtime.VerifIsOn() {
		defer runtime.VerifLeave(runtime.VerifEnter())
	}
	w.stats[name] += n
}

func (w *World) mark(vs ...uint64) {
	for _, v := range vs {
		w.shape = (w.shape ^ v) * 1099511628211
	}
}

// clock is the simulated wall clock behind time.Now.
func (w *World) clock(sec int64, nsec int32, mono int64) (int64, int32, int64) {
	defer runtime.VerifLeave(runtime.VerifEnter())
	w.clk += w.p.Clock.Step
	if w.clkN < len(w.p.Clock.Jumps) {
		if w.p.Clock.Jumps[w.clkN] != 0 {
			w.k.fired["clock-jump"]++
		}
		w.clk += w.p.Clock.Jumps[w.clkN]
	}
	w.clkN++
	now := w.clk + w.passed + runtime.VerifNow()
	s := now / 1e9
	n := now % 1e9
	if n < 0 {
		s--
		n += 1e9
	}
	if len(w.clkSeen) == 0 || w.clkSeen[len(w.clkSeen)-1] != s {
		w.clkSeen = append(w.clkSeen, s)
	}
	return s, int32(n), 1e15 + w.passed + runtime.VerifNow() + int64(w.clkN)
}

const defaultSteps = 3_000_000_000

var stepLimit int64 = defaultSteps

// Run executes the tasks under the simulated scheduler until all have ended
// (or were killed by a crash). With sched, the plan's schedule decides.
func (w *World) Run(sched bool, tasks ...func()) {
	syscall.VerifK = w.k
	syscall.VerifPid = 300 + int(w.p.Seed%30000)
	time.VerifClock = w.clock
	cfg := runtime.VerifConfig{Cores: w.p.Cores, MaxStep: stepLimit, Seed: w.p.Seed}
	if cfg.Cores <= 0 {
		cfg.Cores = 4
	}
	sec := int64(0)
	if sched {
		w.sect++
		sec = int64(w.sect)
		s := w.p.Sched
		cfg.Mode, cfg.Seed, cfg.Every, cfg.Points = s.Mode, s.Seed+uint64(sec)*77, s.Every, s.Points
		if s.Mode == runtime.VerifModeReplay {
			for _, d := range s.Switches {
				if d.N>>40 == sec {
					cfg.Replay = append(cfg.Replay, runtime.VerifDecision{N: d.N & (1<<40 - 1), To: d.To})
				}
			}
		}
	}
	var wg sync.WaitGroup
	before := runtime.NumGoroutine()
	runtime.VerifSync()
	runtime.VerifStart(cfg)
	for _, t := range tasks {
		wg.Add(1)
		go func(t func()) {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					w.fail("panic", "panic: %v at %s", e, panicSite())
				}
			}()
			t()
		}(t)
	}
	wg.Wait()
	// goroutines left behind by the code under test get their chance to end
	for i := 0; i < 2000 && runtime.NumGoroutine() > before; i++ {
		runtime.Gosched()
	}
	left := runtime.NumGoroutine() - before
	passed := runtime.VerifNow()
	// they must not run on beside the next section
	for i := 0; i < 22 && runtime.NumGoroutine() > before; i++ {
		time.Sleep(time.Millisecond << i) // simulated time, up to an hour
		for j := 0; j < 200 && runtime.NumGoroutine() > before; j++ {
			runtime.Gosched()
		}
	}
	rec, dec, steps, sw, hash, _ := runtime.VerifStop()
	runtime.VerifSync()
	time.VerifClock = nil
	if left > 0 && !w.k.dead {
		w.stats["goroutines-left"] += int64(left)
	}
	w.simNS += runtime.VerifNow()
	w.passed += passed
	for _, d := range rec {
		w.rec = append(w.rec, runtime.VerifDecision{N: d.N | sec<<40, To: d.To})
	}
	w.bump("decisions", dec)
	w.bump("steps", steps)
	w.bump("switches", sw)
	w.k.mix(int64(hash), steps)
	if sched {
		w.mark(hash)
	}
}

func panicSite() string {
	st := strings.Split(string(debug.Stack()), "\n")
	// the first frame below the panic that is not the runtime or the harness
	seen := false
	for i := 0; i+1 < len(st); i++ {
		l := st[i]
		if strings.HasPrefix(l, "panic(") {
			seen = true
			i++
			continue
		}
		if !seen || strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "runtime.") || strings.HasPrefix(l, "main.") {
			continue
		}
		if j := strings.LastIndex(l, "("); j > 0 {
			l = l[:j]
		}
		return l
	}
	return "unknown"
}

// Free runs harness code against the simulated files without scheduling,
// faults or accounting.
func (w *World) Free(fn func()) {
	syscall.VerifK = w.k
	old := w.k.noCount
	w.k.noCount = true
	fn()
	w.k.noCount = old
}

// Written is what a writing client knows about its file.
type Written struct {
	Spec     *FileSpec
	Created  bool
	Acked    []Block  // blocks acknowledged, in order (writer API)
	Calls    [][]Pair // batches accepted, sorted by id as promised (simple API)
	All      []call   // every call of the simple API, in order
	Opt      []int    // which of them failed
	Errs     int      // write calls that failed
	CallErr  bool     // some call failed
	FinalTry bool
	FinalOK  bool
	Closed   bool
	Crashed  bool
	FinalPh  int // phase of the finalisation
	Total    uint64
	w        *col.Writer
	sw       *col.SimpleWriter
	Phases   int
	Sizes    []int64 // expected sizes of the acknowledged blocks, when checked
}

// end is where the next block goes.
func (x *Written) end() int64 {
	pos := int64(64)
	for _, n := range x.Sizes {
		pos += n
	}
	return pos
}

type call struct {
	pairs  []Pair
	failed bool
}

func (x *Written) content() *Content {
	return &Content{Enc: x.Spec.Enc, Simple: x.Spec.API == "simple", Blocks: x.Acked, Calls: x.Calls}
}

// Content is what a finished file must hold.
type Content struct {
	Enc    uint32
	Simple bool
	Blocks []Block
	Calls  [][]Pair
}

func (c *Content) pairs() []Pair {
	var out []Pair
	if c.Simple {
		for _, b := range c.Calls {
			out = append(out, b...)
		}
		return out
	}
	for _, b := range c.Blocks {
		out = append(out, b...)
	}
	return out
}

func (c *Content) ids() map[uint64]bool {
	s := map[uint64]bool{}
	for _, p := range c.pairs() {
		s[p.ID] = true
	}
	return s
}

func pairsOf(ids []uint64, vals []int64) Block {
	b := make(Block, len(ids))
	for i := range ids {
		b[i] = Pair{ids[i], vals[i]}
	}
	return b
}

func options(f *FileSpec) []col.WriterOption {
	o := []col.WriterOption{col.WithEncoding(f.Enc)}
	if f.Block > 0 {
		o = append(o, col.WithBlockSize(uint32(f.Block)))
	}
	return o
}

func sortPairs(b []Pair) []Pair {
	out := append([]Pair(nil), b...)
	sort.SliceStable(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out
}

// WriteOpts says how a client behaves when calls fail.
type WriteOpts struct {
	Base     int  // first phase number
	OnErr    int  // 0 stop and close; 1 retry the call once, then go on; 2 go on with the next; 3 stop and finalise
	Finals   int  // how often finalisation is tried (0: 1)
	Release  bool // a client that gives up still calls Close, and only once
	Check    bool // check per-call promises (block-full accounting)
	Observer func(blk Block, when string)
	Before   func(i int) // called before batch i, and before finishing (i = number of batches)
	X        *Written
}

// write drives one file through the public API. It runs inside a task.
func (w *World) write(f *FileSpec, o WriteOpts) *Written {
	x := o.X
	if x == nil {
		x = &Written{}
	}
	x.Spec = f
	ph := o.Base
	x.Crashed = true // until we get past the end
	step := func(fn func() error) error {
		w.k.Phase(ph)
		err := fn()
		if w.k.dead {
			runtime.Goexit()
		}
		return err
	}
	end := func() {
		w.k.PhaseEnd(ph)
		ph++
	}
	var err error
	err = step(func() (e error) {
		if f.API == "simple" {
			x.sw, e = col.NewSimpleWriter(f.Path, options(f)...)
		} else {
			x.w, e = col.NewWriter(f.Path, options(f)...)
		}
		return
	})
	w.honest(f, "create", err)
	end()
	if err != nil {
		x.CallErr = true
		x.Crashed = false
		return x
	}
	x.Created = true
	stop := false
	for i := range f.Batches {
		b := &f.Batches[i]
		if stop {
			ph++
			continue
		}
		if o.Before != nil {
			o.Before(i)
		}
		ids, vals := b.expand()
		if f.API == "simple" {
			stop = w.writeSimple(x, b, ids, vals, o, step)
		} else {
			stop = w.writeBlocks(x, b, ids, vals, o, step)
		}
		end()
	}
	x.FinalPh = ph
	if o.Before != nil {
		o.Before(len(f.Batches))
	}
	if f.NoFinal || stop && o.OnErr == 0 {
		if f.API != "simple" {
			step(func() error { return x.w.Close() })
			x.Closed = true
		} else if o.Release {
			step(func() error { return x.sw.Close() })
		}
		end()
		x.Crashed = false
		return x
	}
	tries := max(o.Finals, 1)
	for t := 0; t < tries && !x.FinalOK; t++ {
		x.FinalTry = true
		err = step(func() error {
			if f.API == "simple" {
				return x.sw.Close()
			}
			if f.Split {
				return x.w.Finalize()
			}
			return x.w.FinalizeAndClose()
		})
		w.honest(f, "finalise", err)
		if err == nil {
			x.FinalOK = true
		}
		end()
	}
	if f.API == "simple" {
		x.Total = x.sw.TotalItems()
	} else if f.Split {
		err = step(func() error { return x.w.Close() })
		w.honest(f, "close", err)
	} else if !x.FinalOK && !o.Release {
		x.w.Close()
	}
	x.Closed = true
	x.Phases = ph
	x.Crashed = false
	return x
}

// honest: a storage failure during a call must surface as that call's error.
func (w *World) honest(f *FileSpec, what string, err error) {
	if err == nil && w.k.failed > 0 {
		w.fail("swallowed-error", "%s reported success although a storage call failed during it (%s)", what, firedList(w.k))
	}
	w.k.failed = 0
}

func firedList(k *Kernel) string {
	var s []string
	for n, c := range k.fired {
		s = append(s, fmt.Sprintf("%s x%d", n, c))
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

func (w *World) writeBlocks(x *Written, b *Batch, ids []uint64, vals []int64, o WriteOpts, step func(func() error) error) (stop bool) {
	if b.Bad == "mismatch" {
		if err := x.w.WriteBlock(ids, vals[:len(vals)-1]); err == nil {
			w.fail("bad-input-accepted", "a block with %d ids and %d values was accepted", len(ids), len(vals)-1)
		}
	} else if b.Bad == "empty" {
		if err := x.w.WriteBlock(nil, nil); err == nil {
			w.fail("bad-input-accepted", "an empty block was accepted")
		}
	}
	retried := false
	for len(ids) > 0 {
		if w.k.dead {
			return true
		}
		var est uint64
		var estErr error
		if o.Check {
			est, estErr = x.w.EstimateBlockSize(ids, vals)
		}
		pre := x.end()
		keepIDs, keepVals := append([]uint64(nil), ids...), append([]int64(nil), vals...)
		err := step(func() error { return x.w.WriteBlock(ids, vals) })
		for i := range ids {
			if ids[i] != keepIDs[i] || vals[i] != keepVals[i] {
				w.fail("caller-data-changed", "writing changed the caller's data at index %d", i)
				break
			}
		}
		var full *col.BlockFullError
		n := len(ids)
		if errors.As(err, &full) {
			n = full.ItemsWritten
			if n < 1 || n >= len(ids) {
				w.fail("bad-split-count", "block-full reports %d of %d pairs written", n, len(ids))
				return true
			}
			w.honest(x.Spec, "write", nil)
		} else if err != nil {
			w.k.failed = 0
			x.CallErr = true
			switch o.OnErr {
			case 1:
				if !retried {
					retried = true
					continue
				}
				return false
			case 2:
				return false
			}
			return true
		} else {
			w.honest(x.Spec, "write", nil)
		}
		blk := pairsOf(ids[:n], vals[:n])
		x.Acked = append(x.Acked, blk)
		if o.Check {
			w.checkSplit(x, ids, vals, n, full != nil, est, estErr, pre)
		}
		if o.Observer != nil {
			o.Observer(blk, "acked")
		}
		if full != nil && b.Drop {
			break
		}
		ids, vals = ids[n:], vals[n:]
	}
	return false
}

func (w *World) writeSimple(x *Written, b *Batch, ids []uint64, vals []int64, o WriteOpts, step func(func() error) error) (stop bool) {
	if b.Target > 0 {
		if err := x.sw.SetTargetBlockSize(int(b.Target)); err != nil {
			w.fail("bad-input-rejected", "setting the target block size failed: %v", err)
		}
	}
	if b.Bad == "mismatch" {
		if err := x.sw.Write(ids, vals[:len(vals)-1]); err == nil {
			w.fail("bad-input-accepted", "a batch with %d ids and %d values was accepted", len(ids), len(vals)-1)
		}
	} else if b.Bad == "empty" {
		if err := x.sw.Write(nil, nil); err != nil && w.k.failed == 0 && !x.CallErr {
			w.fail("bad-input-rejected", "an empty batch was rejected: %v", err)
		}
	}
	for try := 0; ; try++ {
		keepIDs, keepVals := append([]uint64(nil), ids...), append([]int64(nil), vals...)
		err := step(func() error { return x.sw.Write(ids, vals) })
		for i := range ids {
			if ids[i] != keepIDs[i] || vals[i] != keepVals[i] {
				w.fail("caller-data-changed", "writing changed the caller's data at index %d", i)
				break
			}
		}
		w.honest(x.Spec, "write", err)
		if err == nil {
			c := sortPairs(pairsOf(ids, vals))
			x.Calls = append(x.Calls, c)
			x.All = append(x.All, call{c, false})
			// the caller may reuse its slices at once
			for i := range ids {
				ids[i], vals[i] = ^ids[i], ^vals[i]
			}
			return false
		}
		x.CallErr = true
		if x.Errs++; x.Errs > 5 {
			stop = true
		}
		x.Opt = append(x.Opt, len(x.All))
		x.All = append(x.All, call{sortPairs(pairsOf(ids, vals)), true})
		switch o.OnErr {
		case 1:
			if try == 0 {
				continue
			}
			return stop
		case 2:
			return stop
		}
		return true
	}
}

// checkPairs reads every block through r and compares with the content.
// A read error is returned as such.
func checkPairs(r *col.Reader, c *Content) (string, error) {
	n := r.BlockCount()
	if !c.Simple && n != uint64(len(c.Blocks)) {
		return fmt.Sprintf("the file has %d blocks, %d were written", n, len(c.Blocks)), nil
	}
	if n > 1<<20 {
		return fmt.Sprintf("the file claims %d blocks", n), nil
	}
	var flat []Pair
	for i := uint64(0); i < n; i++ {
		ids, vals, err := r.GetPairs(i)
		if err != nil {
			return "", fmt.Errorf("block %d: %w", i, err)
		}
		if len(ids) == 0 {
			return fmt.Sprintf("block %d is empty", i), nil
		}
		if !c.Simple {
			if s := samePairs(ids, vals, c.Blocks[i]); s != "" {
				return fmt.Sprintf("block %d of %d: %s", i, n, s), nil
			}
			continue
		}
		if len(ids) != len(vals) {
			return fmt.Sprintf("block %d: %d ids but %d values", i, len(ids), len(vals)), nil
		}
		flat = append(flat, pairsOf(ids, vals)...)
	}
	if !c.Simple {
		return "", nil
	}
	// batches in call order, each sorted by id; equal ids of one batch in any order
	pos := 0
	for bi, call := range c.Calls {
		if pos+len(call) > len(flat) {
			return fmt.Sprintf("only %d pairs are stored, batch %d of %d ends at %d", len(flat), bi, len(c.Calls), pos+len(call)), nil
		}
		got := flat[pos : pos+len(call)]
		for j := range call {
			if got[j].ID != call[j].ID {
				return fmt.Sprintf("batch %d position %d holds id %d, want %d", bi, j, got[j].ID, call[j].ID), nil
			}
		}
		if s := sameBag(got, call); s != "" {
			return fmt.Sprintf("batch %d: %s", bi, s), nil
		}
		pos += len(call)
	}
	if pos != len(flat) {
		return fmt.Sprintf("%d pairs are stored, %d were accepted", len(flat), pos), nil
	}
	return "", nil
}

// checkAll checks everything a reader can ask of a finished file.
func checkAll(r *col.Reader, c *Content) (string, error) {
	s, err := checkPairs(r, c)
	if s != "" || err != nil {
		return s, err
	}
	if r.Version() != col.Version {
		return fmt.Sprintf("version is %d", r.Version()), nil
	}
	if r.EncodingType() != c.Enc {
		return fmt.Sprintf("encoding is %d, want %d", r.EncodingType(), c.Enc), nil
	}
	bm, err := r.GetGlobalIDBitmap()
	if err != nil {
		return "", fmt.Errorf("id bitmap: %w", err)
	}
	if s := sameIDs(bm, c.ids()); s != "" {
		return "id bitmap: " + s, nil
	}
	want := aggregate(c.pairs(), nil, nil, false)
	if s := sameAgg(r.Aggregate(), want); s != "" {
		return "aggregate: " + s, nil
	}
	if s := sameAgg(r.AggregateWithOptions(col.AggregateOptions{SkipPreCalculated: true}), want); s != "" {
		return "scanned aggregate: " + s, nil
	}
	return "", nil
}

// modelOf is the block structure of a finished file, read by the independent
// parser (the block boundaries of buffered writers are the library's choice).
func (w *World) modelOf(path string, c *Content) (*Model, error) {
	if !c.Simple {
		return &Model{Enc: c.Enc, Blocks: c.Blocks}, nil
	}
	pf, err := parseFile(w.k.Bytes(path))
	if err != nil {
		return nil, err
	}
	m := &Model{Enc: c.Enc}
	for i := range pf.Blocks {
		if pf.Blocks[i].Err != nil {
			return nil, pf.Blocks[i].Err
		}
		m.Blocks = append(m.Blocks, pf.Blocks[i].Pairs)
	}
	return m, nil
}

// prepare writes the plan's files without faults and returns their contents;
// ok is false (and nothing is reported) if that did not work: another
// property's check owns that failure.
func (w *World) prepare() (ok bool) {
	return w.prepareFiles(w.p.Files, true)
}

func (w *World) prepareFiles(fs []FileSpec, verify bool) (ok bool) {
	faults, crash := w.k.faults, w.k.crash
	w.k.faults, w.k.crash = nil, nil
	cap0 := w.k.capacity
	w.k.capacity = 0
	ok = true
	for i := range fs {
		if fs[i].Lay != nil {
			b, m, _ := foreign(&fs[i], fs[i].Lay)
			w.k.Put(fs[i].Path, b)
			w.models = append(w.models, m)
			continue
		}
		x := &Written{}
		nv := len(w.viol)
		w.Run(false, func() { w.write(&fs[i], WriteOpts{X: x}) })
		if !x.FinalOK || len(w.viol) > nv {
			w.viol = w.viol[:nv]
			w.bump("prepare-failed", 1)
			return false
		}
		m, err := w.modelOf(fs[i].Path, x.content())
		if err != nil {
			w.bump("prepare-failed", 1)
			return false
		}
		w.models = append(w.models, m)
	}
	w.k.faults, w.k.crash = faults, crash
	w.k.used = make([]int, len(faults))
	w.k.capacity = cap0
	w.k.probe = nil
	w.k.failed = 0
	w.k.fired = map[string]int{}
	return ok
}
