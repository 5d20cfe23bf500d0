package main

import (
	"errors"
	"fmt"
	"runtime"

	"vibe-lsm/pkg/col"
	"vibe-lsm/pkg/multicol"
)

// hard faults of the write side
var writeErrs = []string{"EIO", "ENOSPC", "EDQUOT", "EIO", "ENOSPC"}

// benign adds interruptions and partial transfers that no client may notice.
func benign(r *Rng, p *Plan, pr []map[string]int, base int) {
	if len(pr) == 0 {
		return
	}
	live := livePhases(pr)
	if len(live) == 0 {
		return
	}
	n := 1 + r.N(6)
	for i := 0; i < n; i++ {
		ph := pick(r, live...)
		sys := pick(r, "write", "read", "write", "read", "fsync", "open")
		if pr[ph][sys] == 0 {
			continue
		}
		f := Fault{Phase: base + ph, Sys: sys, Nth: 1 + r.N(pr[ph][sys]), Arg: int64(r.U() >> 40)}
		switch sys {
		case "fsync", "open":
			f.Kind = "EINTR"
		default:
			f.Kind = pick(r, "short", "EINTR", "short")
		}
		if r.P(1, 4) {
			f.Times = 1 + r.N(5)
		}
		p.Faults = append(p.Faults, f)
	}
}

// livePhases lists the phases that made any system call.
func livePhases(pr []map[string]int) []int {
	var out []int
	for i := range pr {
		if len(pr[i]) > 0 {
			out = append(out, i)
		}
	}
	return out
}

// place picks a syscall of the run: any phase, biased to the finalisation and
// to the ends of operations.
func place(r *Rng, pr []map[string]int, sys string) (ph, nth int) {
	live := livePhases(pr)
	if len(live) == 0 {
		return -1, 0
	}
	for try := 0; try < 50; try++ {
		ph = pick(r, live...)
		if r.P(1, 3) {
			ph = live[len(live)-1-r.N(min(2, len(live)))]
		}
		n := pr[ph][sys]
		if n == 0 {
			continue
		}
		switch r.N(5) {
		case 0:
			return ph, n
		case 1:
			return ph, 1
		case 2:
			return ph, max(1, n-r.N(min(n, 12)))
		}
		return ph, 1 + r.N(n)
	}
	return -1, 0
}

func genCrash(r *Rng, p *Plan, pr []map[string]int) {
	ph, nth := place(r, pr, "any")
	if ph < 0 {
		return
	}
	if r.P(1, 10) {
		nth = 0
	}
	p.Crash = &Crash{Phase: ph, Nth: nth, Power: r.P(5, 6), Seed: r.U() >> 20,
		Mode: pick(r, "all", "none", "prefix", "sectors", "sectors", "pages", "dropone", "dropone", "only", "tail", "tail", "head")}
	if r.P(1, 3) {
		p.Crash.Torn = 1 + int64(r.N(600))
	}
}

// verify opens a file and compares everything with the allowed contents.
// must: it has to open. Faults that can be hit are benign ones only.
func (w *World) verify(path, what string, must bool, allowed ...*Content) {
	var bad, opened string
	w.Run(false, func() {
		w.k.Phase(900)
		r, err := col.NewReader(path)
		if err != nil {
			if must {
				w.fail("lost", "%s: the file no longer opens: %v", what, err)
			}
			return
		}
		defer r.Close()
		opened = "x"
		if len(allowed) == 0 {
			w.fail("unfinished-opened", "%s: an unfinished file opens as a complete one (%d blocks)", what, r.BlockCount())
			return
		}
		for _, c := range allowed {
			s, err := checkAll(r, c)
			if err != nil {
				s = "reading failed: " + err.Error()
			}
			if s == "" {
				return
			}
			if bad == "" {
				bad = s
			}
		}
		w.fail("wrong-data", "%s: %s", what, bad)
	})
	_ = opened
}

// big sizes, rarely
func enlarge(r *Rng, f *FileSpec) {
	switch r.N(3) {
	case 0: // many small blocks
		f.API, f.Block, f.Batches = "writer", 4096, nil
		n := pick(r, 64, 100, 129, 255, 256, 257, 300, 300, 1030)
		st := uint64(0)
		for i := 0; i < n; i++ {
			b := genBatch(r, 1+r.N(3))
			b.ID, b.Start, b.Step = "seq", st, 1
			st += uint64(b.N)
			f.Batches = append(f.Batches, b)
		}
	case 1: // one large block
		f.API, f.Block, f.Batches = "writer", 2<<20, nil
		n := pick(r, 4096, 8191, 32768, 65535, 65536, 65537)
		b := genBatch(r, n)
		b.ID = pick(r, "seq", "gaps", "shuf")
		f.Batches = []Batch{b}
	default: // a large buffered write, many blocks
		f.API, f.Batches = "simple", nil
		f.Block = pick(r, int64(4096), 8192, 0)
		b := genBatch(r, pick(r, 2000, 3000, 5000))
		b.ID = pick(r, "seq", "gaps", "shuf", "desc", "rand")
		f.Batches = []Batch{b, genBatch(r, 1+r.N(50))}
	}
}

// large gives f one or a few blocks of many pages.
func large(r *Rng, f *FileSpec) {
	f.API, f.Block, f.Split, f.Batches, f.NoFinal = "writer", 4<<20, false, nil, false
	for i := 0; i < pick(r, 1, 1, 2, 3); i++ {
		n := pick(r, 600, 2000, 4096, 4100, 5000, 9000, 12000)
		if i == 0 && r.P(1, 16) {
			n = pick(r, 20000, 32768, 40000)
		}
		b := genBatch(r, n)
		b.ID = pick(r, "seq", "gaps", "shuf", "rand")
		f.Batches = append(f.Batches, b)
	}
}

// mid gives f, once in den times, a few blocks of up to more than 64 KiB.
func mid(r *Rng, f *FileSpec, den int) {
	if !r.P(1, den) {
		return
	}
	f.API, f.Block, f.Split, f.Batches, f.NoFinal = "writer", 4<<20, false, nil, false
	for i := 0; i < pick(r, 1, 2, 2, 3); i++ {
		b := genBatch(r, pick(r, 600, 1500, 4090, 4200, 6000, 9000))
		b.ID = pick(r, "seq", "gaps", "shuf", "rand")
		if r.P(1, 2) {
			b.ID, b.Start, b.Step = "seq", uint64(i)*10000, 1
		}
		f.Batches = append(f.Batches, b)
	}
}

// many gives f, once in den times, many small blocks.
func many(r *Rng, f *FileSpec, den int) {
	if !r.P(1, den) {
		return
	}
	f.API, f.Block, f.Split, f.Batches, f.NoFinal, f.Lay = "writer", 4096, false, nil, false, nil
	n := pick(r, 14+r.N(40), 14+r.N(40), 60+r.N(10), 100+r.N(60), 250+r.N(30))
	id, val := pick(r, "seq", "seq", "gaps", "mag"), pick(r, valKinds...)
	next := uint64(r.N(100))
	for i := 0; i < n; i++ {
		b := genBatch(r, 1+r.N(3))
		if r.P(1, 40) {
			b.N = 100 + r.N(150)
		}
		b.ID, b.Val, b.Start, b.Step = id, val, next, 1
		next += uint64(b.N + r.N(3))
		if r.P(1, 30) {
			next = r.U() >> uint(r.N(40))
		}
		f.Batches = append(f.Batches, b)
	}
}

// lots is n, or once in den times up to big.
func lots(r *Rng, n, den, big int) int {
	if r.P(1, den) {
		return n + r.N(big)
	}
	return n
}

// anyBlock is a block number, taken modulo the number of blocks there are.
func anyBlock(r *Rng) int64 {
	return int64(r.N(1 << 20))
}

func bases(fs []FileSpec) []int {
	var out []int
	n := 0
	for i := range fs {
		out = append(out, n)
		n += len(fs[i].Batches) + 4
	}
	return append(out, n)
}

func init() {
	scenarios["P01"] = &scenario{gen: genP01, exec: execP01}
	scenarios["P02"] = &scenario{gen: genP02, exec: execP02}
	scenarios["P03"] = &scenario{gen: genP03, exec: execP03}
	scenarios["P04"] = &scenario{gen: genP04, exec: execP04}
	scenarios["P14"] = &scenario{gen: genP14, exec: execP14}
	scenarios["P15"] = &scenario{gen: genP15, exec: execP15}
	scenarios["P16"] = &scenario{gen: genP16, exec: execP16}
	scenarios["P17"] = &scenario{gen: genP17, exec: execP17}
	scenarios["P18"] = &scenario{gen: genP18, exec: execP18}
}

// ---- P01: durable exact round trip

func genP01(r *Rng, p *Plan) {
	n := pick(r, 1, 1, 1, 2)
	for i := 0; i < n; i++ {
		f := genAny(r, fmt.Sprintf("/simfs/f%d.col", i))
		if r.P(1, 60) && i == 0 {
			enlarge(r, &f)
		}
		many(r, &f, 40)
		if r.P(1, 500) { // more pairs in a block than 16 bits count
			f = FileSpec{Path: f.Path, API: "writer", Enc: uint32(r.N(8)), Block: 4 << 20, Batches: []Batch{{N: 65530 + r.N(300), ID: "seq", Val: pick(r, "small", "const", "seq"), Seed: r.U() >> 20, Start: uint64(r.N(100))}}}
		}
		p.Files = append(p.Files, f)
	}
	p.Clock = genClock(r)
	pr, w := probe(p)
	if len(w.viol) > 0 {
		return
	}
	if r.P(2, 3) {
		benign(r, p, pr, 0)
	}
	if r.P(3, 4) {
		i := r.N(n)
		b := bases(p.Files)
		// right after the acknowledgement, with nothing but synced data left
		p.Crash = &Crash{Phase: b[i] + 1 + len(p.Files[i].Batches), Nth: 0, Power: r.P(9, 10), Mode: pick(r, "none", "none", "sectors", "prefix", "dropone", "pages"), Seed: r.U() >> 20}
	}
}

func execP01(w *World) {
	b := bases(w.p.Files)
	xs := make([]*Written, len(w.p.Files))
	w.Run(false, func() {
		for i := range w.p.Files {
			xs[i] = &Written{}
			w.write(&w.p.Files[i], WriteOpts{Base: b[i], X: xs[i]})
		}
	})
	dead := w.k.dead
	w.k.Reboot()
	for i, x := range xs {
		if x == nil {
			continue
		}
		if !x.FinalOK {
			if !dead && len(w.viol) == 0 {
				w.fail("write-refused", "valid data was refused without any storage failure (file %d)", i)
			}
			continue
		}
		if len(w.viol) > 0 {
			return
		}
		w.verify(x.Spec.Path, fmt.Sprintf("file %d, acknowledged before the crash", i), true, x.content())
	}
	w.mark(contentHash(xs))
}

func contentHash(xs []*Written) uint64 {
	h := uint64(1)
	for _, x := range xs {
		if x == nil {
			continue
		}
		for _, p := range x.content().pairs() {
			h = (h ^ p.ID ^ uint64(p.Val)<<1) * 1099511628211
		}
	}
	return h
}

// ---- P02: crash atomicity

func genP02(r *Rng, p *Plan) {
	p.set("old", int64(r.N(2)))
	p.set("again", int64(r.N(3)/2))
	path := "/simfs/t.col"
	if p.par("old") == 1 {
		p.Files = append(p.Files, smallAny(r, path))
	}
	p.Files = append(p.Files, smallAny(r, path))
	many(r, &p.Files[len(p.Files)-1], 60)
	if p.par("again") == 1 {
		p.Files = append(p.Files, smallAny(r, path))
	}
	if p.par("old") == 0 && r.P(1, 2) {
		p.set("observer", 1)
		p.Sched = genSched(r)
	}
	p.Clock = genClock(r)
	pr, w := probe(p)
	if len(w.viol) > 0 {
		return
	}
	// only the phases of the file under test
	for len(pr) > 0 && len(pr[len(pr)-1]) == 0 {
		pr = pr[:len(pr)-1]
	}
	if k := int(w.stats["phases"]); k > 0 && k < len(pr) {
		pr = pr[:k]
	}
	genCrash(r, p, pr)
	if r.P(1, 3) {
		benign(r, p, pr, 0)
	}
}

func smallAny(r *Rng, path string) FileSpec {
	f := genAny(r, path)
	for i := range f.Batches {
		if f.API == "writer" {
			f.Batches[i].N = 1 + f.Batches[i].N%120
		} else if f.Batches[i].N > 500 {
			f.Batches[i].N = 500
		}
	}
	// blocks whose index entries straddle sectors need several blocks
	if f.API == "writer" && r.P(1, 4) {
		for len(f.Batches) < 9+r.N(4) {
			f.Batches = append(f.Batches, genBatch(r, 1+r.N(3)))
		}
	}
	f.NoFinal = r.P(1, 30)
	return f
}

func execP02(w *World) {
	fs := w.p.Files
	var old *Content
	if w.p.par("old") == 1 {
		x := &Written{}
		f, c := w.k.faults, w.k.crash
		w.k.faults, w.k.crash = nil, nil
		w.Run(false, func() { w.write(&fs[0], WriteOpts{X: x}) })
		w.k.faults, w.k.crash = f, c
		w.k.probe, w.k.failed = nil, 0
		w.k.fired = map[string]int{}
		if !x.FinalOK || len(w.viol) > 0 {
			if x.Spec == nil || !x.Spec.NoFinal {
				w.viol = nil
				w.bump("prepare-failed", 1)
				return
			}
		} else {
			old = x.content()
		}
		fs = fs[1:]
	}
	x := &Written{Spec: &fs[0]}
	tasks := []func(){func() { w.write(&fs[0], WriteOpts{X: x}) }}
	if w.p.par("observer") == 1 {
		tasks = append(tasks, func() { w.observe(x, 60) })
	}
	w.Run(w.p.par("observer") == 1, tasks...)
	w.stats["phases"] = int64(len(w.k.probe))
	dead := w.k.dead
	w.k.Reboot()
	if len(w.viol) > 0 {
		return
	}
	if !dead && !x.FinalOK && !fs[0].NoFinal {
		w.fail("write-refused", "valid data was refused without any storage failure")
		return
	}
	var allowed []*Content
	what := "after a crash before finalisation"
	if x.FinalTry {
		allowed = append(allowed, x.content())
		what = "after a crash during finalisation"
	}
	if old != nil && !x.FinalOK && dead {
		allowed = append(allowed, old)
	}
	if x.FinalOK {
		what = "after a crash following the acknowledgement"
	} else if !dead {
		what = "a file that was closed without being finalised"
		allowed = nil
	}
	w.verify(fs[0].Path, what, x.FinalOK, allowed...)
	if len(w.viol) > 0 {
		return
	}
	if w.p.par("again") == 1 {
		y := &Written{}
		w.k.faults = nil
		w.Run(false, func() { w.write(&fs[1], WriteOpts{X: y, Base: 1000}) })
		if !y.FinalOK {
			if !fs[1].NoFinal {
				w.fail("write-refused", "the file cannot be written again after the crash")
			}
			return
		}
		w.k.crash = &Crash{Power: true, Mode: "none"}
		w.k.Reboot()
		w.verify(fs[1].Path, "written again after a crash", true, y.content())
	}
}

// observe keeps trying to open a file that is being written.
func (w *World) observe(x *Written, tries int) {
	for i := 0; i < tries && !x.Closed; i++ {
		r, err := col.NewReader(x.Spec.Path)
		if err != nil {
			for j := 0; j < 8; j++ {
				runtime.VerifYield()
			}
			continue
		}
		if !x.FinalTry {
			w.fail("unfinished-opened", "a file that is still being written opens as a complete one (%d blocks)", r.BlockCount())
		} else if s, err := checkAll(r, x.content()); s != "" || err != nil {
			w.fail("wrong-data", "a file opened while it was being finished: %s %v", s, err)
		}
		r.Close()
		return
	}
}

// ---- P03: honest acknowledgements under write errors

func genHardWrite(r *Rng, p *Plan, pr []map[string]int) {
	n := pick(r, 1, 1, 1, 2, 3)
	for i := 0; i < n; i++ {
		sys := pick(r, "write", "write", "write", "fsync", "fsync", "open", "close", "write")
		ph, nth := place(r, pr, sys)
		if ph < 0 {
			continue
		}
		f := Fault{Phase: ph, Sys: sys, Nth: nth, Kind: pick(r, writeErrs...), Arg: int64(r.U() >> 40)}
		switch sys {
		case "write":
			if r.P(1, 3) {
				f.Kind = "torn"
			}
		case "open":
			f.Kind = pick(r, "EIO", "EACCES", "EMFILE", "ENOSPC")
		}
		if f.Kind != "torn" && r.P(1, 4) {
			f.Times = pick(r, 2, 3, -1)
		}
		p.Faults = append(p.Faults, f)
	}
	if r.P(1, 5) {
		p.Cap = int64(1 + r.N(40000))
	}
}

func genP03(r *Rng, p *Plan) {
	f := smallAny(r, "/simfs/t.col")
	f.NoFinal = false
	if r.P(1, 12) {
		f.Batches = append(f.Batches, genBatch(r, 1+r.N(1500)))
	}
	many(r, &f, 60)
	p.Files = []FileSpec{f}
	p.set("onerr", int64(r.N(4)))
	p.set("finals", int64(pick(r, 1, 1, 1, 2)))
	if f.API == "simple" && r.P(1, 2) {
		p.set("finals", int64(2+r.N(2)))
	}
	p.Clock = genClock(r)
	pr, w := probe(p)
	if len(w.viol) > 0 {
		return
	}
	genHardWrite(r, p, trimPhases(pr, w))
	if r.P(1, 4) {
		benign(r, p, trimPhases(pr, w), 0)
	}
}

func trimPhases(pr []map[string]int, w *World) []map[string]int {
	if k := int(w.stats["phases"]); k > 0 && k < len(pr) {
		return pr[:k]
	}
	return pr
}

func execP03(w *World) {
	x := &Written{}
	w.Run(false, func() {
		w.write(&w.p.Files[0], WriteOpts{X: x, OnErr: int(w.p.par("onerr")), Finals: int(w.p.par("finals"))})
	})
	w.stats["phases"] = int64(len(w.k.probe))
	if len(w.viol) > 0 || !x.Created {
		return
	}
	if len(w.k.fired) == 0 && len(w.p.Faults) == 0 && w.p.Cap == 0 && !x.FinalOK {
		w.fail("write-refused", "valid data was refused without any storage failure")
		return
	}
	w.k.faults, w.k.capacity = nil, 0
	path := w.p.Files[0].Path
	cs := w.accepted(x)
	if !x.FinalTry && !x.FinalOK {
		w.verify(path, "after a failed write, never finalised", false)
		return
	}
	if x.FinalOK {
		w.verify(path, "finalisation was acknowledged", true, cs...)
		if len(w.viol) > 0 {
			return
		}
		w.k.fds = map[int]*fdesc{}
		w.k.fdBase = newFDBase()
		w.k.crash = &Crash{Power: true, Mode: "none"}
		w.k.Reboot()
		w.verify(path, "finalisation was acknowledged, then the power failed", true, cs...)
		return
	}
	w.verify(path, "finalisation failed", false, cs...)
}

// accepted lists what a finished file may hold. Block by block, exactly what
// was acknowledged. For the buffered writer a batch whose call failed may be
// present (it was buffered) or not.
func (w *World) accepted(x *Written) []*Content {
	if x.Spec.API != "simple" || len(x.Opt) == 0 {
		return []*Content{x.content()}
	}
	var out []*Content
	n := len(x.Opt)
	if n > 4 {
		n = 4
	}
	for m := 0; m < 1<<n; m++ {
		c := &Content{Enc: x.Spec.Enc, Simple: true}
		k := 0
		for _, call := range x.All {
			if call.failed {
				if k >= n || m>>k&1 == 0 {
					k++
					continue
				}
				k++
			}
			c.Calls = append(c.Calls, call.pairs)
		}
		out = append(out, c)
	}
	return out
}

// ---- P04: buffered writer exactly-once

func genP04(r *Rng, p *Plan) {
	f := genSimple(r, "/simfs/s.col")
	if r.P(1, 15) && f.Enc < 4 {
		f.Batches = append(f.Batches, genBatch(r, pick(r, 1500, 2100, 2500)))
	}
	if r.P(1, 120) { // one very large call
		b := genBatch(r, pick(r, 4095, 4096, 4097, 8192, 8193, 10000, 10001, 16385)+pick(r, 0, 0, r.N(3000)))
		f.Batches = append(f.Batches, b)
		f.Enc %= 4
	}
	if r.P(1, 8) { // long histories of small calls
		f.Batches = nil
		for i := lots(r, 40+r.N(60), 12, 300); i > 0; i-- {
			b := genBatch(r, 1+r.N(pick(r, 60, 25, 25)))
			f.Batches = append(f.Batches, b)
		}
	}
	p.Files = []FileSpec{f}
	p.set("onerr", int64(r.N(4)))
	p.set("finals", int64(1+r.N(3)))
	p.Clock = genClock(r)
	mode := r.N(3)
	if mode == 0 {
		return
	}
	pr, w := probe(p)
	if len(w.viol) > 0 {
		return
	}
	pr = trimPhases(pr, w)
	if mode == 1 {
		benign(r, p, pr, 0)
		return
	}
	genHardWrite(r, p, pr)
}

func execP04(w *World) {
	x := &Written{}
	path := w.p.Files[0].Path
	w.Run(false, func() {
		w.write(&w.p.Files[0], WriteOpts{X: x, OnErr: int(w.p.par("onerr")), Finals: int(w.p.par("finals"))})
		if !x.Created {
			return
		}
		w.stats["phases"] = int64(len(w.k.probe))
		w.k.Phase(800)
		before := append([]byte(nil), w.k.Bytes(path)...)
		if x.FinalOK {
			if !x.sw.IsClosed() {
				w.fail("state", "the writer does not report being closed after a successful close")
			}
			if err := x.sw.Close(); err != nil {
				w.fail("close-not-idempotent", "closing a closed writer failed: %v", err)
			}
			if err := x.sw.Write([]uint64{1}, []int64{1}); err == nil {
				w.fail("write-after-close", "a batch was accepted after the writer was closed")
			}
			if err := x.sw.SetTargetBlockSize(8192); err == nil {
				w.fail("write-after-close", "an option was accepted after the writer was closed")
			}
			if string(before) != string(w.k.Bytes(path)) {
				w.fail("write-after-close", "the file changed after it was closed")
			}
		} else if x.sw.IsClosed() && x.FinalTry {
			w.fail("state", "the writer reports being closed although closing failed")
		}
	})
	if len(w.viol) > 0 || !x.Created {
		return
	}
	if w.k.total["crash"] == 0 && len(w.p.Faults) == 0 && w.p.Cap == 0 && !x.FinalOK {
		w.fail("write-refused", "valid data was refused without any storage failure")
		return
	}
	if !x.FinalOK {
		return
	}
	w.k.faults, w.k.capacity = nil, 0
	if !x.CallErr {
		if n := uint64(len(x.content().pairs())); x.Total != n {
			w.fail("total", "the writer counts %d items, %d were accepted", x.Total, n)
			return
		}
	}
	w.verify(path, "closed successfully", true, w.accepted(x)...)
}

// ---- P14: format conformance

func genP14(r *Rng, p *Plan) {
	f := genAny(r, "/simfs/f.col")
	if r.P(1, 80) {
		enlarge(r, &f)
	}
	many(r, &f, 40)
	p.Files = []FileSpec{f}
	p.Clock = genClock(r)
	if r.P(1, 2) {
		pr, w := probe(p)
		if len(w.viol) == 0 {
			benign(r, p, pr, 0)
		}
	}
}

func execP14(w *World) {
	x := &Written{}
	f := &w.p.Files[0]
	t0 := w.clk
	_ = t0
	w.Run(false, func() { w.write(f, WriteOpts{X: x}) })
	if len(w.viol) > 0 || !x.FinalOK {
		w.viol = nil
		w.bump("prepare-failed", 1)
		return
	}
	if s := w.conform(f, x); s != "" {
		w.fail("format", "%s", s)
	}
}

func (w *World) conform(f *FileSpec, x *Written) string {
	b := w.k.Bytes(f.Path)
	pf, err := parseFile(b)
	if err != nil {
		return "an independent reader rejects the file: " + err.Error()
	}
	target := uint32(16384)
	if f.Block > 0 {
		target = uint32(f.Block)
	}
	for _, bt := range f.Batches {
		if f.API == "simple" && bt.Target > 0 {
			target = uint32(bt.Target)
		}
	}
	if pf.Column != 0 || pf.Comp != 0 || pf.Enc != f.Enc || pf.Target != target {
		return fmt.Sprintf("header says type %d compression %d encoding %d target %d, want 0 0 %d %d", pf.Column, pf.Comp, pf.Enc, pf.Target, f.Enc, target)
	}
	ok := false
	for _, t := range w.clkSeen {
		if uint64(t) == pf.Created {
			ok = true
		}
	}
	if !ok {
		return fmt.Sprintf("creation time %d is not a time at which the file was written", int64(pf.Created))
	}
	if pf.Footer%4096 != 0 {
		return fmt.Sprintf("the index starts at %d, not page aligned", pf.Footer)
	}
	if pf.BitmapErr != nil {
		return pf.BitmapErr.Error()
	}
	if pf.BitmapOff == 0 {
		return "the file has no id bitmap"
	}
	c := x.content()
	var flat []Pair
	prevEnd := int64(64)
	for i := range pf.Blocks {
		pb := &pf.Blocks[i]
		if pb.Err != nil {
			return fmt.Sprintf("block %d: %v", i, pb.Err)
		}
		if pb.Off != prevEnd {
			return fmt.Sprintf("block %d starts at %d, the part before it ends at %d", i, pb.Off, prevEnd)
		}
		prevEnd = pb.Off + pb.Size
		if prevEnd%4096 != 0 {
			return fmt.Sprintf("block %d ends at %d, not page aligned", i, prevEnd)
		}
		if pb.Size-(pb.End-pb.Off) >= 4096 {
			return fmt.Sprintf("block %d has %d bytes of padding", i, pb.Size-(pb.End-pb.Off))
		}
		for _, z := range b[pb.End : pb.Off+pb.Size] {
			if z != 0 {
				return fmt.Sprintf("block %d has non-zero padding", i)
			}
		}
		if pb.IDOff != 0 || pb.ValOff != pb.IDLen {
			return fmt.Sprintf("block %d sections at %d and %d, id section is %d long", i, pb.IDOff, pb.ValOff, pb.IDLen)
		}
		if pb.HEnc != f.Enc || pb.HComp != 0 {
			return fmt.Sprintf("block %d says encoding %d compression %d", i, pb.HEnc, pb.HComp)
		}
		var a Agg
		var lo, hi uint64
		for j, q := range pb.Pairs {
			a.add(q.Val)
			if j == 0 || q.ID < lo {
				lo = q.ID
			}
			if j == 0 || q.ID > hi {
				hi = q.ID
			}
		}
		if int(pb.Count) != a.Count || pb.MinV != a.Min || pb.MaxV != a.Max || pb.Sum != a.Sum || pb.MinID != lo || pb.MaxID != hi {
			return fmt.Sprintf("index of block %d says ids %d-%d values %d-%d sum %d count %d; it holds ids %d-%d values %d-%d sum %d count %d",
				i, pb.MinID, pb.MaxID, pb.MinV, pb.MaxV, pb.Sum, pb.Count, lo, hi, a.Min, a.Max, a.Sum, a.Count)
		}
		if int(pb.HCount) != a.Count || pb.HMinV != a.Min || pb.HMaxV != a.Max || pb.HSum != a.Sum || pb.HMinID != lo || pb.HMaxID != hi {
			return fmt.Sprintf("header of block %d says ids %d-%d values %d-%d sum %d count %d; it holds ids %d-%d values %d-%d sum %d count %d",
				i, pb.HMinID, pb.HMaxID, pb.HMinV, pb.HMaxV, pb.HSum, pb.HCount, lo, hi, a.Min, a.Max, a.Sum, a.Count)
		}
		if !c.Simple {
			if i >= len(c.Blocks) {
				return fmt.Sprintf("%d blocks, %d were written", len(pf.Blocks), len(c.Blocks))
			}
			if s := samePairsB(pb.Pairs, c.Blocks[i]); s != "" {
				return fmt.Sprintf("block %d: %s", i, s)
			}
		}
		flat = append(flat, pb.Pairs...)
	}
	if !c.Simple && len(pf.Blocks) != len(c.Blocks) {
		return fmt.Sprintf("%d blocks, %d were written", len(pf.Blocks), len(c.Blocks))
	}
	if s := sameBag(flat, c.pairs()); s != "" {
		return s
	}
	if int64(pf.BitmapOff) != prevEnd {
		return fmt.Sprintf("the id bitmap starts at %d, the blocks end at %d", pf.BitmapOff, prevEnd)
	}
	if d := pf.Footer - int64(pf.BitmapOff+pf.BitmapLen); d < 0 || d >= 4096 {
		return fmt.Sprintf("%d bytes between the id bitmap and the index", d)
	}
	return ""
}

func samePairsB(got, want Block) string {
	ids, vals := make([]uint64, len(got)), make([]int64, len(got))
	for i := range got {
		ids[i], vals[i] = got[i].ID, got[i].Val
	}
	return samePairs(ids, vals, want)
}

// ---- P15: block size accounting

func genP15(r *Rng, p *Plan) {
	f := FileSpec{Path: "/simfs/b.col", API: "writer", Enc: uint32(r.N(8))}
	f.Block = pick(r, int64(4096), 4096, 8192, 12288, 0, 5000, 100, 1, 4097, 16384)
	n := pick(r, 1, 2, 3, 5)
	for i := 0; i < n; i++ {
		size := pick(r, 1, 2, 5, 200, 246, 247, 248, 249, 250, 251, 252, 253, 256, 300, 400, 500, 505, 700)
		if r.P(1, 3) {
			size = 1 + r.N(600)
		}
		if f.Block < 4096 && f.Block > 0 {
			size = min(size, 1+r.N(12))
		}
		b := genBatch(r, size)
		if r.P(1, 8) && f.Block >= 0 {
			b.Bad = pick(r, "mismatch", "empty")
		}
		f.Batches = append(f.Batches, b)
	}
	if r.P(1, 4) {
		f.API = "simple"
		f.Block = pick(r, int64(4096), 8192, 0)
		for i := range f.Batches {
			f.Batches[i].N += r.N(800)
			if r.P(1, 3) {
				f.Batches[i].Target = pick(r, int64(4096), 8192, 12288)
			}
		}
	}
	p.Files = []FileSpec{f}
	p.Clock = genClock(r)
	if r.P(1, 2) {
		pr, w := probe(p)
		if len(w.viol) == 0 {
			benign(r, p, pr, 0)
		}
	}
}

func execP15(w *World) {
	x := &Written{}
	f := &w.p.Files[0]
	w.Run(false, func() { w.write(f, WriteOpts{X: x, Check: true}) })
	if len(w.viol) > 0 {
		return
	}
	if !x.FinalOK {
		w.fail("write-refused", "valid data was refused without any storage failure")
		return
	}
	pf, err := parseFile(w.k.Bytes(f.Path))
	if err != nil {
		w.bump("prepare-failed", 1)
		return
	}
	if f.API != "simple" {
		pos := int64(64)
		for i, b := range pf.Blocks {
			if i >= len(x.Sizes) || b.Size != x.Sizes[i] || b.Off != pos {
				want := int64(-1)
				if i < len(x.Sizes) {
					want = x.Sizes[i]
				}
				w.fail("block-size", "block %d lies at %d and takes %d bytes, want %d at %d", i, b.Off, b.Size, want, pos)
				return
			}
			pos += b.Size
		}
		return
	}
	limit := f.Block
	if limit == 0 {
		limit = 16384
	}
	for _, b := range f.Batches {
		limit = max(limit, b.Target)
	}
	for i, b := range pf.Blocks {
		if b.Size > limit && b.Count > 1 {
			w.fail("block-too-large", "block %d holds %d pairs in %d bytes, the target is %d", i, b.Count, b.Size, limit)
		}
	}
	// every call's data arrives, block boundaries or not
	if s, err := w.readBack(f.Path, x.content()); s != "" || err != nil {
		w.fail("wrong-data", "%s %v", s, err)
	}
}

func (w *World) readBack(path string, c *Content) (s string, err error) {
	w.Run(false, func() {
		w.k.Phase(901)
		var r *col.Reader
		r, err = col.NewReader(path)
		if err != nil {
			return
		}
		defer r.Close()
		s, err = checkAll(r, c)
	})
	return
}

// specSize is the size of a block by the published format.
func specSize(enc uint32, ids []uint64, vals []int64, pos int64) int64 {
	idVar, idDelta, valVar, valDelta, _ := encFlags(enc)
	n := int64(80)
	for i := range ids {
		u := ids[i]
		if idDelta && i > 0 {
			u -= ids[i-1]
		}
		n += width(u, idVar)
		v := vals[i]
		if valDelta && i > 0 {
			v -= vals[i-1]
		}
		if valVar {
			n += width(uint64(v<<1)^uint64(v>>63), true)
		} else {
			n += 8
		}
	}
	if r := (pos + n) % 4096; r != 0 {
		n += 4096 - r
	}
	return n
}

func width(u uint64, varint bool) int64 {
	if !varint {
		return 8
	}
	n := int64(1)
	for u >= 0x80 {
		u >>= 7
		n++
	}
	return n
}

func (w *World) checkSplit(x *Written, ids []uint64, vals []int64, n int, full bool, est uint64, estErr error, pre int64) {
	if estErr != nil {
		w.fail("estimate", "estimating the size of %d pairs failed: %v", len(ids), estErr)
		return
	}
	f := x.Spec
	target := f.Block
	if target == 0 {
		target = 16384
	}
	size := func(k int) int64 { return specSize(f.Enc, ids[:k], vals[:k], pre) }
	if int64(est) != size(len(ids)) {
		w.fail("estimate", "%d pairs are estimated at %d bytes, they take %d", len(ids), est, size(len(ids)))
	}
	grown := size(n) // compared with the finished file later
	x.Sizes = append(x.Sizes, grown)
	if !full {
		if n > 1 && grown > target {
			w.fail("block-too-large", "%d pairs were stored in one block of %d bytes, the target is %d", n, grown, target)
		}
		return
	}
	if size(len(ids)) <= target {
		w.fail("split-without-need", "block-full after %d of %d pairs although all fit the target %d", n, len(ids), target)
	}
	if n > 1 && grown > target {
		w.fail("block-too-large", "a split block of %d pairs takes %d bytes, the target is %d", n, grown, target)
	}
	if n+1 < len(ids) && size(n+1) <= target {
		w.fail("split-too-early", "block-full after %d of %d pairs although %d fit the target %d", n, len(ids), n+1, target)
	}
}

// ---- P16: handles

func genP16(r *Rng, p *Plan) {
	f := smallAny(r, "/simfs/h.col")
	f.NoFinal = f.API == "writer" && r.P(1, 6)
	g := smallAny(r, "/simfs/g.col")
	g.NoFinal = false
	if r.P(1, 4) {
		ladder(r, &g)
	}
	p.Cores = pick(r, 1, 2, 4, 8)
	p.Files = []FileSpec{g, f} // g is complete; f is written under faults
	p.set("onerr", int64(r.N(4)))
	p.set("finals", int64(pick(r, 1, 1, 2)))
	p.Clock = genClock(r)
	if r.P(1, 3) { // what readers meet: also damaged files
		for i := 0; i < 1+r.N(2); i++ {
			p.Corr = append(p.Corr, genCorr(r, 0))
		}
	}
	n := 1 + r.N(6)
	for i := 0; i < n; i++ {
		op := pick(r, Op{Kind: "pairs", Block: int64(r.N(5))}, Op{Kind: "ids"}, Op{Kind: "agg", Skip: true, Par: pick(r, 0, 2, 3)}, Op{Kind: "info"}, Op{Kind: "pairs", Block: -1}, genAgg(r, 1), Op{Kind: pick(r, "cacheon", "cacheoff")})
		if op.Kind == "agg" && r.P(1, 2) {
			genFilter(r, &op, 1)
		}
		p.Ops = append(p.Ops, op)
	}
	if r.P(1, 2) {
		p.set("multi", int64(2+r.N(3)))
		p.set("closes", int64(pick(r, 1, 1, 2)))
	}
	corr := p.Corr
	p.Corr = nil
	pr, w := probe(p)
	p.Corr = corr
	if len(w.viol) > 0 {
		return
	}
	if len(pr) > 900 {
		for i := 0; i < r.N(4); i++ {
			ph := 900 + r.N(len(pr)-900)
			sys := pick(r, "read", "read", "open", "stat", "close")
			if n := pr[ph][sys]; n > 0 {
				p.Faults = append(p.Faults, Fault{Phase: ph, Sys: sys, Nth: 1 + r.N(n), Kind: "EIO", Times: pick(r, 0, 0, -1)})
			}
		}
	}
	genHardWrite(r, p, trimPhases(pr, w))
}

func execP16(w *World) {
	f := &w.p.Files[1]
	fl, cp := w.k.faults, w.k.capacity
	if !w.prepareFiles(w.p.Files[:1], false) {
		return
	}
	w.k.faults, w.k.capacity = fl, cp
	x := &Written{}
	w.Run(false, func() {
		w.write(f, WriteOpts{X: x, OnErr: int(w.p.par("onerr")), Finals: int(w.p.par("finals")), Release: true})
	})
	w.stats["phases"] = int64(len(w.k.probe))
	// write-side misbehaviour other than leaks belongs to other properties
	w.viol = keepClass(w.viol, "panic")
	if h := w.k.OpenHandles(); len(h) > 0 {
		w.fail("handle-leak", "a writer that was created, used and closed still holds %s (%s)", joinShort(h, 4), firedList(w.k))
		return
	}
	w.k.capacity = 0
	if len(w.p.Corr) > 0 {
		b := append([]byte(nil), w.k.Bytes(w.p.Files[0].Path)...)
		for i := range w.p.Corr {
			b = w.p.Corr[i].apply(b, nil)
		}
		w.k.Put(w.p.Files[0].Path, b)
	}
	e := newEnv(w)
	e.resolve(w.p.Ops)
	w.Run(false, func() {
		w.k.Phase(900)
		r := e.call(&Op{Kind: "open", File: 0})
		if r.Err != nil {
			return
		}
		for i := range w.p.Ops {
			w.k.Phase(901 + i)
			op := w.p.Ops[i]
			op.File = 0
			e.call(&op)
		}
		w.k.Phase(901 + len(w.p.Ops))
		e.call(&Op{Kind: "close", File: 0})
		// a closed reader answers with errors, not with data
		w.k.Phase(902 + len(w.p.Ops))
		if n := e.readers[0].BlockCount(); n > 0 {
			if ids, _, err := e.readers[0].GetPairs(0); err == nil {
				w.fail("read-after-close", "a closed reader returned %d pairs", len(ids))
			}
		}
	})
	// several readers, closed together
	if n := int(w.p.par("multi")); n > 0 {
		w.Run(false, func() {
			ph := 904 + len(w.p.Ops)
			var rs []*col.Reader
			for i := 0; i < n; i++ {
				w.k.Phase(ph)
				ph++
				if r, err := col.NewReader(w.p.Files[0].Path); err == nil {
					rs = append(rs, r)
				}
			}
			m := multicol.NewMultiReader(rs)
			w.k.Phase(ph)
			m.Aggregate(multicol.AggregateOptions{SkipPreCalculated: true})
			for i := 0; i < int(w.p.par("closes")); i++ {
				w.k.Phase(ph + 1 + i)
				m.Close()
			}
		})
	}
	w.viol = keepClass(w.viol, "panic", "read-after-close")
	if len(w.p.Corr) > 0 {
		w.viol = keepClass(w.viol, "read-after-close")
	}
	if h := w.k.OpenHandles(); len(h) > 0 {
		w.fail("handle-leak", "a reader that failed to open, or was closed, still holds %s (%s)", joinShort(h, 4), firedList(w.k))
	}
}

func keepClass(vs []Violation, classes ...string) []Violation {
	var out []Violation
	for _, v := range vs {
		for _, c := range classes {
			if v.Class == c {
				out = append(out, v)
			}
		}
	}
	return out
}

// ---- P17: acknowledged blocks are durable where they are

func genP17(r *Rng, p *Plan) {
	f := smallAny(r, "/simfs/d.col")
	for f.API != "writer" || len(f.Batches) == 0 {
		f = smallAny(r, "/simfs/d.col")
	}
	if r.P(1, 6) {
		f.Batches = append(f.Batches, genBatch(r, 200+r.N(800)))
	}
	many(r, &f, 60)
	p.Files = []FileSpec{f}
	p.Clock = genClock(r)
	pr, w := probe(p)
	if len(w.viol) > 0 {
		return
	}
	genCrash(r, p, pr)
	if p.Crash != nil {
		p.Crash.Power = true
	}
	if r.P(1, 3) {
		benign(r, p, pr, 0)
	}
}

func execP17(w *World) {
	f := &w.p.Files[0]
	x := &Written{}
	type snap struct {
		lo, hi int64
		bytes  []byte
		blk    Block
	}
	var snaps []snap
	lo := int64(64)
	w.Run(false, func() {
		w.write(f, WriteOpts{X: x, Observer: func(blk Block, when string) {
			b := w.k.Bytes(f.Path)
			hi := int64(len(b))
			if hi < lo {
				hi = lo
			}
			snaps = append(snaps, snap{lo, hi, append([]byte(nil), b[min(lo, int64(len(b))):hi]...), blk})
			lo = hi
		}})
	})
	if len(w.viol) > 0 {
		w.viol = keepClass(w.viol, "panic")
		return
	}
	w.k.Reboot()
	b := w.k.Bytes(f.Path)
	for i, s := range snaps {
		if int64(len(b)) < s.hi {
			w.fail("block-lost", "block %d was acknowledged, after the crash the file is %d bytes long and the block ended at %d", i, len(b), s.hi)
			return
		}
		for o := range s.bytes {
			if b[s.lo+int64(o)] != s.bytes[o] {
				w.fail("block-lost", "block %d was acknowledged, after the crash its byte %d (offset %d) differs", i, o, s.lo+int64(o))
				return
			}
		}
	}
	if len(snaps) > 0 {
		w.bump("blocks-checked", int64(len(snaps)))
	}
	// and they hold the data
	for i, s := range snaps {
		pb := parsedBlock{Off: s.lo, Size: s.hi - s.lo, Count: uint32(len(s.blk))}
		if err := pb.parse(b, f.Enc); err != nil {
			w.fail("block-lost", "block %d was acknowledged, what the disk holds does not decode: %v", i, err)
			return
		}
		if m := samePairsB(pb.Pairs, s.blk); m != "" {
			w.fail("block-lost", "block %d was acknowledged, the disk holds other data: %s", i, m)
			return
		}
	}
}

// ---- P18: contents depend on nothing but the data

func genP18(r *Rng, p *Plan) {
	p.Files = []FileSpec{genAny(r, "/simfs/c.col")}
	many(r, &p.Files[0], 50)
	p.set("where", int64(r.N(4)))
	if r.P(1, 3) {
		f := smallAny(r, "/simfs/c.col")
		f.NoFinal = r.P(1, 4)
		p.Files = append(p.Files, f)
	}
	p.Clock = genClock(r)
	if len(p.Clock.Jumps) == 0 && r.P(1, 2) {
		for i := 0; i < 5; i++ {
			p.Clock.Jumps = append(p.Clock.Jumps, pick(r, int64(0), 3600e9, -7200e9, 86400e9*4000, -86400e9*9000))
		}
	}
	p.Sched = genSched(r)
	p.Cores = pick(r, 1, 2, 4, 16)
	pr, w := probe(p)
	if len(w.viol) > 0 {
		return
	}
	benign(r, p, pr, 0)
	if r.P(1, 2) {
		p.Stall = pick(r, 3, 10, 50)
	}
}

func execP18(w *World) {
	f := w.p.Files[0]
	// the reference run: quiet disk, steady clock
	q := w.p.clone()
	q.Faults, q.Stall = nil, 0
	q.Clock = Clock{Start: 1700000000e9, Step: 1} // and no time passes
	q.Seed ^= 0x55
	q.Cores = pick(NewRng(w.p.Seed), 1, 2, 3, 8, 64)
	v := NewWorld(q)
	g := f
	g.Path = []string{f.Path, "/simfs/d/c.col", "/simfs/another-name.column.tmp", "/simfs/C.COL"}[w.p.par("where")&3]
	if len(w.p.Files) > 1 { // there is an older file in one of the two places
		quiet := w.k.faults
		w.k.faults = nil
		w.Run(false, func() { w.k.Phase(800); w.write(&w.p.Files[1], WriteOpts{X: &Written{}}) })
		w.k.faults, w.clkSeen = quiet, nil
		w.k.probe, w.k.failed = nil, 0
		if len(w.viol) > 0 {
			return
		}
	}
	a, c := &Written{}, &Written{}
	v.Run(false, func() { v.write(&g, WriteOpts{X: a}) })
	w.Run(true, func() { w.write(&f, WriteOpts{X: c}) })
	if len(w.viol) > 0 || len(v.viol) > 0 || !a.FinalOK || !c.FinalOK {
		if a.FinalOK != c.FinalOK && len(v.viol) == 0 {
			w.fail("outcome-differs", "the same data was accepted in one environment and refused in another")
			return
		}
		w.viol = keepClass(w.viol, "panic")
		w.bump("prepare-failed", 1)
		return
	}
	x, y := v.k.Bytes(g.Path), w.k.Bytes(f.Path)
	if len(x) != len(y) {
		w.fail("contents-differ", "the same data gives %d bytes in one environment and %d in another", len(x), len(y))
		return
	}
	for i := range x {
		if x[i] != y[i] && (i < 36 || i >= 44) {
			w.fail("contents-differ", "the same data gives different bytes at offset %d (%#x, %#x)", i, x[i], y[i])
			return
		}
	}
	created := int64(le.Uint64(y[36:]))
	lo, hi := int64(1<<62), int64(-1<<62)
	for _, s := range w.clkSeen {
		lo, hi = min(lo, s), max(hi, s)
	}
	if len(w.clkSeen) > 0 && (created < lo || created > hi) {
		w.fail("creation-time", "creation time %d lies outside the time of writing [%d,%d]", created, lo, hi)
	}
	if len(w.clkSeen) == 0 {
		w.fail("creation-time", "the clock was never read, creation time is %d", created)
	}
}

var errStop = errors.New("stop")
