package main

// The example programs: write_example, read_example and the filtering example.

import (
	"encoding/binary"
	"fmt"
	"math"
	"os"
	"strconv"
	"strings"
)

func init() {
	scenarios["P27"] = &scenario{gen: genP27, exec: execP27}
	os.Setenv("TMPDIR", "/simfs/tmp")
}

const examplePath = "/simfs/example.col"

func examplePairs() Block {
	ids := []uint64{1, 5, 10, 15, 20, 25, 30, 35, 40, 45}
	var b Block
	for i, id := range ids {
		b = append(b, Pair{id, int64(i+1) * 100})
	}
	return b
}

func genP27(r *Rng, p *Plan) {
	p.Clock = genClock(r)
	p.set("mode", int64(pick(r, 0, 0, 0, 1, 1, 2)))
	p.set("dump", int64(r.N(3)))
	switch p.par("mode") {
	case 0:
		p.set("old", int64(r.N(3)))
		if p.par("old") == 1 {
			f := smallAny(r, examplePath)
			f.NoFinal = false
			p.Files = append(p.Files, f)
		}
	case 1:
		p.set("seed", int64(r.U()>>12))
		p.set("entries", int64(pick(r, 1, 1, 2, 1+r.N(20), 1+r.N(300))))
		p.set("wide", int64(r.N(3)))
	case 2:
		p.Sched = genSched(r)
		p.Cores = pick(r, 1, 2, 4, 8)
	}
	pr, w := probe(p)
	if len(w.viol) > 0 || len(pr) == 0 {
		return
	}
	if p.par("mode") != 1 {
		switch r.N(4) {
		case 0:
			benign(r, p, pr[:1], 0)
		case 1:
			genHardWrite(r, p, pr[:1])
		case 2:
			if p.par("mode") == 0 {
				genCrash(r, p, pr[:1])
				if p.Crash != nil {
					p.Crash.Power = false // the file is not claimed to survive that
				}
			}
		}
	}
	if len(pr) > 1 && r.P(1, 2) {
		p.Faults = append(p.Faults, readFault(r, pr[1], 1))
	}
}

func execP27(w *World) {
	switch w.p.par("mode") {
	case 0:
		w.execWriteExample()
	case 1:
		w.execReadExample()
	case 2:
		w.execFilterExample()
	}
}

func (w *World) execWriteExample() {
	switch w.p.par("old") {
	case 1:
		if len(w.p.Files) == 0 || !w.prepareFiles(w.p.Files[:1], false) {
			return
		}
	case 2: // an earlier run's
		f, c, cp := w.k.faults, w.k.crash, w.k.capacity
		w.k.faults, w.k.crash, w.k.capacity = nil, nil, 0
		pr := w.exec(5, false, "write_example")
		if len(w.viol) > 0 {
			return
		}
		if pr.code != 0 {
			w.fail("write-refused", "%v exits %d without any storage failure: %s", pr, pr.code, pr.out)
			return
		}
		w.k.faults, w.k.crash, w.k.capacity = f, c, cp
		w.k.probe, w.k.failed = nil, 0
		w.k.fired = map[string]int{}
	}
	before := string(w.k.Bytes(examplePath))
	w.k.failed = 0
	pr := w.exec(0, false, "write_example")
	if len(w.viol) > 0 {
		return
	}
	failed := w.k.failed > 0
	w.k.failed = 0
	ok := !pr.crashed && pr.code == 0
	if ok {
		if failed {
			w.fail("swallowed-error", "%v exits 0 although a storage call failed (%s)", pr, firedList(w.k))
			return
		}
		w.k.crash = &Crash{Power: true, Mode: "none"}
		w.k.Reboot()
	} else if !pr.crashed && !failed {
		w.fail("write-refused", "%v exits %d without any storage failure: %s", pr, pr.code, pr.out)
		return
	}
	w.k.capacity = 0
	if !ok && w.p.par("old") == 1 && string(w.k.Bytes(examplePath)) == before {
		return // still another program's file
	}
	b := examplePairs()
	w.runReadExample(b, []indexEntry{entryOf(b)}, ok, fmt.Sprintf("write_example (exit %d, killed %v)", pr.code, pr.crashed))
	w.mark(uint64(pr.code), uint64(len(w.k.Bytes(examplePath))))
}

type indexEntry struct {
	count         int
	min, max, sum int64
}

func entryOf(b Block) indexEntry {
	a := aggregate(b, nil, nil, false)
	return indexEntry{a.Count, a.Min, a.Max, a.Sum}
}

// runReadExample reads a file with the tool: what it prints has to be the ten
// pairs, their statistics and those of the index. must: it has to succeed.
func (w *World) runReadExample(b Block, idx []indexEntry, must bool, what string) {
	args := []string{"-file", "example.col"}
	mode := w.p.par("dump")
	dump, agg := mode != 1, mode != 0
	if dump {
		args = append(args, "-dump")
	}
	if agg {
		args = append(args, "--agg")
	}
	img := string(w.k.Bytes(examplePath))
	w.k.failed = 0
	rp := w.exec(1, false, "read_example", args...)
	if len(w.viol) > 0 {
		return
	}
	failed := w.k.failed > 0
	if img != string(w.k.Bytes(examplePath)) {
		w.fail("read-changed-file", "%v changed the file", rp)
		return
	}
	if rp.code != 0 && must && !failed {
		w.fail("error-without-fault", "%s, then %v exits %d although the storage worked: %s", what, rp, rp.code, rp.out)
		return
	}
	if rp.code == 0 && failed && w.badExit(rp) {
		w.fail("swallowed-error", "%v exits 0 although reading failed (%s)", rp, firedList(w.k))
		return
	}
	first, second, _ := strings.Cut(rp.out, "Aggregate Statistics")
	dp := *rp
	dp.out = first
	w.checkOutput(&dp, b, dump, false, rp.code == 0)
	if len(w.viol) > 0 || rp.code != 0 {
		return
	}
	check := func(out string, want ...string) {
		got := map[string]string{}
		for _, l := range strings.Split(out, "\n") {
			for _, f := range strings.Split(l, ",") {
				if a, c, ok := strings.Cut(f, ":"); ok {
					got[strings.TrimSpace(a)] = strings.TrimSpace(c)
				}
			}
		}
		for i := 0; i+1 < len(want); i += 2 {
			if g := got[want[i]]; g != want[i+1] && len(w.viol) == 0 {
				w.fail("wrong-output", "%s, then %v prints %s %q, want %s", what, rp, want[i], g, want[i+1])
			}
		}
	}
	if dump {
		e := entryOf(b)
		lo, hi := b[0].ID, b[0].ID
		for _, p := range b {
			lo, hi = min(lo, p.ID), max(hi, p.ID)
		}
		check(first, "Count", strconv.Itoa(e.count), "Sum", fmt.Sprint(e.sum), "Average", fmt.Sprintf("%.2f", float64(e.sum)/float64(e.count)),
			"Min Value", fmt.Sprint(e.min), "Max Value", fmt.Sprint(e.max), "Min ID", fmt.Sprint(lo), "Max ID", fmt.Sprint(hi))
	}
	if agg {
		t := indexEntry{min: math.MaxInt64, max: math.MinInt64}
		for _, e := range idx {
			t.count += e.count
			t.sum += e.sum
			t.min, t.max = min(t.min, e.min), max(t.max, e.max)
		}
		check(second, "Count", strconv.Itoa(t.count), "Sum", fmt.Sprint(t.sum), "Average", fmt.Sprintf("%.2f", float64(t.sum)/float64(t.count)),
			"Min", fmt.Sprint(t.min), "Max", fmt.Sprint(t.max))
	}
}

// execReadExample lets the tool read a file of its layout with other contents.
func (w *World) execReadExample() {
	r := NewRng(uint64(w.p.par("seed")))
	num := func() uint64 {
		switch w.p.par("wide") {
		case 0:
			return uint64(r.N(1000))
		case 1:
			return r.U() >> uint(r.N(64))
		}
		return pick(r, 0, 1, math.MaxUint64, 1<<63, 1<<63-1, r.U())
	}
	var b Block
	for i := 0; i < 10; i++ {
		b = append(b, Pair{num(), int64(num())})
	}
	idx := []indexEntry{entryOf(b)}
	for i := int64(1); i < w.p.par("entries"); i++ {
		x, y := int64(num()), int64(num())
		idx = append(idx, indexEntry{r.N(100000), min(x, y), max(x, y), int64(num())})
	}
	le := binary.LittleEndian
	const magic = 0x5649424553434F4C
	d := le.AppendUint64(nil, magic)
	d = le.AppendUint32(d, 1)
	d = le.AppendUint32(d, 0)
	d = le.AppendUint64(d, uint64(len(idx)))
	d = append(d, make([]byte, 0x40-len(d))...)
	e := idx[0]
	lo, hi := b[0].ID, b[0].ID
	for _, p := range b {
		lo, hi = min(lo, p.ID), max(hi, p.ID)
	}
	stats := func(e indexEntry) {
		d = le.AppendUint64(d, lo)
		d = le.AppendUint64(d, hi)
		d = le.AppendUint64(d, uint64(e.min))
		d = le.AppendUint64(d, uint64(e.max))
		d = le.AppendUint64(d, uint64(e.sum))
		d = le.AppendUint32(d, uint32(e.count))
	}
	stats(e)
	d = append(d, make([]byte, 0xa0-len(d))...)
	for _, p := range b {
		d = le.AppendUint64(d, p.ID)
	}
	for _, p := range b {
		d = le.AppendUint64(d, uint64(p.Val))
	}
	d = le.AppendUint32(d, uint32(len(idx)))
	for _, e := range idx {
		d = le.AppendUint64(d, 0x40)
		d = le.AppendUint32(d, 0x140-0x40)
		stats(e)
	}
	d = le.AppendUint64(d, uint64(len(d)-0x140))
	d = le.AppendUint64(d, 0)
	d = le.AppendUint64(d, magic)
	w.k.Put(examplePath, d)
	w.runReadExample(b, idx, true, "a file with other contents")
	w.mark(uint64(len(d)), uint64(w.p.par("seed")))
}

// execFilterExample: the five results, or a failure.
func (w *World) execFilterExample() {
	want := [][5]string{
		{"300", "10", "1000", "175850", "586.17"},
		{"9", "100", "650", "3720", "413.33"},
		{"200", "402", "1000", "125350", "626.75"},
		{"100", "10", "995", "62500", "625.00"},
		{"60", "502", "870", "39250", "654.17"},
	}
	w.k.failed = 0
	pr := w.exec(0, true, "examples")
	if len(w.viol) > 0 || pr.crashed {
		return
	}
	failed := w.k.failed > 0
	if pr.code != 0 {
		if !failed {
			w.fail("error-without-fault", "%v exits %d although the storage worked: %s", pr, pr.code, pr.out)
		}
		return
	}
	var got [][5]string
	names := []string{"Count", "Min", "Max", "Sum", "Avg"}
	for _, l := range strings.Split(pr.out, "\n") {
		a, c, ok := strings.Cut(strings.TrimSpace(l), ":")
		if !ok {
			continue
		}
		for i, n := range names {
			if a == n {
				if i == 0 {
					got = append(got, [5]string{})
				}
				if len(got) > 0 {
					got[len(got)-1][i] = strings.TrimSpace(c)
				}
			}
		}
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		w.fail("wrong-output", "%v exits 0 and prints %v, want %v (%s)", pr, got, want, firedList(w.k))
		return
	}
	for _, n := range sortedNames(w.k.names, nil) {
		if i := w.k.names[n]; !i.dir && n != stdoutPath && !failed {
			w.fail("left-behind", "%v leaves %s", pr, n)
			return
		}
	}
	w.mark(uint64(len(w.k.fired)), w.p.Seed)
}
