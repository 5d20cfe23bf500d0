package main

import (
	"fmt"
	"runtime"
	"strings"

	"vibe-lsm/pkg/col"
	"vibe-lsm/pkg/multicol"
)

func init() {
	scenarios["P05"] = &scenario{gen: genP05, exec: execP05}
	scenarios["P06"] = &scenario{gen: genP06, exec: execP06, soft: map[string]bool{"partial-aggregate": true}}
	scenarios["P07"] = &scenario{gen: genP07, exec: execP07}
	scenarios["P08"] = &scenario{gen: genP08, exec: execP08}
	scenarios["P09"] = &scenario{gen: genP09, exec: execP07}
	scenarios["P10"] = &scenario{gen: genP10, exec: execP10}
	scenarios["P11"] = &scenario{gen: genP11, exec: execP11}
	scenarios["P12"] = &scenario{gen: genP12, exec: execP12}
	scenarios["P13"] = &scenario{gen: genP13, exec: execP13}
	scenarios["P20"] = &scenario{gen: genP20, exec: execP20}
}

// readable makes a small finished file with several blocks.
func readable(r *Rng, path string) FileSpec {
	f := genAny(r, path)
	f.NoFinal = false
	if f.API == "writer" {
		for i := range f.Batches {
			f.Batches[i].N = 1 + f.Batches[i].N%150
			f.Batches[i].Bad = ""
		}
		switch r.N(5) {
		case 0, 1:
			for len(f.Batches) < 3+r.N(14) {
				f.Batches = append(f.Batches, genBatch(r, 1+r.N(25)))
			}
		case 2:
			if r.P(1, 2) {
				ladder(r, &f)
			}
		}
	}
	return f
}

// ladder gives f many small blocks whose id ranges mostly ascend: some are
// swapped, some overlap, some are wide.
func ladder(r *Rng, f *FileSpec) {
	f.API, f.Block, f.Split, f.Batches = "writer", pick(r, int64(4096), 4096, 8192), false, nil
	next := pick(r, uint64(0), 1, 50, 65500, 1<<32-20, 1<<63-40)
	n := 5 + r.N(30)
	width := pick(r, 1, 3, 8)
	for i := 0; i < n; i++ {
		b := genBatch(r, 1+r.N(width))
		b.ID, b.Start, b.Step = pick(r, "seq", "seq", "gaps", "shuf", "desc"), next, pick(r, uint64(1), 1, 2, 5)
		next += uint64(b.N)*b.Step + uint64(r.N(4))
		f.Batches = append(f.Batches, b)
	}
	bs := f.Batches
	for i := 0; i < pick(r, 0, 1, 2, 4); i++ {
		switch j, k := r.N(n), r.N(n); r.N(4) {
		case 0, 1:
			bs[j], bs[k] = bs[k], bs[j]
		case 2:
			bs[j].Start = bs[k].Start
		case 3:
			bs[j].Step = pick(r, uint64(40), 1000)
			bs[j].N = max(bs[j].N, 2)
		}
	}
}

// overlapping files: generations of one column
func generations(r *Rng, n int) []FileSpec {
	var fs []FileSpec
	u := uint64(20 + r.N(300))
	st := pick(r, uint64(0), 0, 1, 65500, 1<<32-50)
	for i := 0; i < n; i++ {
		f := FileSpec{Path: fmt.Sprintf("/simfs/gen%d.col", i), API: pick(r, "writer", "writer", "simple"), Enc: uint32(r.N(8)), Block: pick(r, int64(4096), 0, 8192)}
		nb := 1 + r.N(4)
		if r.P(1, 15) {
			nb = 0
		}
		for j := 0; j < nb; j++ {
			b := genBatch(r, 1+r.N(80))
			switch r.N(4) {
			case 0:
				b.ID, b.Start, b.Step = "seq", st+uint64(r.N(int(u))), 1+uint64(r.N(3))
			case 1:
				b.ID, b.Start, b.Step = "rand", st, u/4
			case 2:
				b.ID, b.Start, b.Step = "shuf", st+uint64(r.N(int(u))), 1
			case 3:
				b.ID, b.Start, b.Step = "gaps", st+uint64(r.N(int(u))), 5
			}
			f.Batches = append(f.Batches, b)
		}
		fs = append(fs, f)
	}
	return fs
}

// ---- P05: reads under faults

var readKinds = []string{"pairs", "pairs", "pairs", "pairs", "ids", "ids", "cacheon", "cacheoff", "close", "open", "info"}

func genP05(r *Rng, p *Plan) {
	n := pick(r, 1, 1, 2)
	for i := 0; i < n; i++ {
		p.Files = append(p.Files, readable(r, fmt.Sprintf("/simfs/r%d.col", i)))
		p.Ops = append(p.Ops, Op{Kind: "open", File: i})
	}
	if r.P(1, 30) {
		large(r, &p.Files[0])
	}
	for i := range p.Files {
		many(r, &p.Files[i], 40)
		relay(r, &p.Files[i], 10)
	}
	for i := lots(r, 6+r.N(20), 40, 250); i > 0; i-- {
		op := Op{Kind: pick(r, readKinds...), File: r.N(n), Block: anyBlock(r)}
		if r.P(1, 25) {
			op.Block = pick(r, int64(-1), -2, -1<<63)
		}
		p.Ops = append(p.Ops, op)
		if r.P(1, 2) {
			p.Ops = append(p.Ops, op) // asked again
		}
		if op.Kind == "close" {
			p.Ops = append(p.Ops, Op{Kind: "open", File: op.File})
		}
	}
	p.Clock = genClock(r)
	pr, w := probe(p)
	if len(w.viol) > 0 || len(pr) == 0 {
		return
	}
	for i := 0; i < 1+r.N(5); i++ {
		ph := r.N(len(pr))
		sys := pick(r, "read", "read", "read", "read", "open", "stat")
		c := pr[ph][sys]
		if c == 0 {
			continue
		}
		f := Fault{Phase: ph, Sys: sys, Nth: 1 + r.N(c), Arg: int64(r.U() >> 40)}
		f.Kind = pick(r, "EIO", "EIO", "EIO", "short", "EINTR", "ENOMEM")
		if sys != "read" {
			f.Kind = pick(r, "EIO", "EMFILE", "EACCES")
		}
		if r.P(1, 4) {
			f.Times = pick(r, 2, 3, -1)
		}
		p.Faults = append(p.Faults, f)
	}
	if r.P(1, 4) { // a bad range
		sz := len(w.k.Bytes(p.Files[0].Path))
		p.Faults = append(p.Faults, Fault{Phase: -1, Sys: "read", Kind: "EIO", Off: int64(r.N(sz + 1)), Len: int64(1 + r.N(4096)), Times: pick(r, -1, -1, 1, 3)})
	}
	if r.P(1, 5) { // the file shrinks under the reader
		sz := int64(len(w.k.Bytes(p.Files[0].Path)))
		p.Corr = append(p.Corr, Corruption{Kind: "trunc", Where: "any", Off: pick(r, sz/4096*4096-4096, sz-24, sz-1, int64(r.N(int(sz)+1)), 64, 0), At: 1 + r.N(len(p.Ops))})
	}
}

func execP05(w *World) {
	if !w.prepare() {
		return
	}
	e := newEnv(w)
	shrunk := map[int]bool{}
	w.Run(false, func() {
		for i := range w.p.Ops {
			for _, c := range w.p.Corr {
				if c.At == i && c.Kind == "trunc" {
					w.Free(func() {
						n := max(0, min(c.Off, int64(len(w.k.Bytes(e.paths[c.File])))))
						if n < int64(len(w.k.Bytes(e.paths[c.File]))) {
							w.k.names[e.paths[c.File]].truncate(n)
							shrunk[c.File] = true
							w.k.fired["file-shrinks"]++
						}
					})
				}
			}
			op := w.p.Ops[i]
			w.k.Phase(i)
			w.k.failed = 0
			r := e.call(&op)
			hit := w.failedNow()
			if r.Str == "skipped" {
				continue
			}
			if r.Err != nil {
				wantErr := e.closed[op.File] && op.Kind != "open" || op.Kind == "pairs" && (r.Idx[0] >= uint64(len(e.models[op.File].Blocks)))
				if !hit && !shrunk[op.File] && !wantErr {
					w.fail("error-without-fault", "operation %d (%s) failed although the storage worked: %v", i, op.Kind, r.Err)
				}
				continue
			}
			if s := e.judge(&op, &r); s != "" {
				w.fail("wrong-read", "operation %d (%s) returned wrong data without an error: %s (%s)", i, op.Kind, s, firedList(w.k))
			}
		}
	})
}

// ---- P06: aggregates when blocks cannot be read

func genP06(r *Rng, p *Plan) {
	n := pick(r, 1, 1, 1, 2, 3)
	if n == 1 {
		p.Files = []FileSpec{readable(r, "/simfs/a.col")}
		mid(r, &p.Files[0], 40)
	} else {
		p.Files = generations(r, n)
	}
	for i := range p.Files {
		if n == 1 {
			many(r, &p.Files[i], 40)
		}
		relay(r, &p.Files[i], 12)
	}
	p.Sched = genSched(r)
	p.Cores = pick(r, 1, 2, 4, 8)
	for i := 0; i < 1+r.N(4); i++ {
		op := genAgg(r, n)
		if n > 1 && r.P(2, 3) {
			op = Op{Kind: "magg", Skip: r.P(1, 2)}
		}
		if r.P(1, 2) {
			genFilter(r, &op, n)
		}
		p.Ops = append(p.Ops, op)
	}
	p.Clock = genClock(r)
	pr, w := probe(p)
	if len(w.viol) > 0 || len(pr) == 0 {
		return
	}
	for i := 0; i < 1+r.N(3); i++ {
		if r.P(1, 2) {
			sz := len(w.k.Bytes(p.Files[0].Path))
			off := int64(r.N(sz + 1))
			if r.P(1, 2) {
				off = off / 4096 * 4096
			}
			p.Faults = append(p.Faults, Fault{Phase: -2, Sys: "read", Kind: "EIO", Off: off, Len: int64(1 + r.N(8192)), Times: -1})
			continue
		}
		ph := r.N(len(pr))
		if c := pr[ph]["read"]; c > 0 {
			p.Faults = append(p.Faults, Fault{Phase: ph, Sys: "read", Nth: 1 + r.N(c), Kind: pick(r, "EIO", "EIO", "short", "EINTR"), Arg: int64(r.U() >> 40), Times: pick(r, 0, 0, 2)})
		}
	}
}

// segments: where each block of each file lies, for telling which blocks a
// failed read belongs to.
type seg struct {
	file, block int
	a, b        int64
}

func (w *World) segments(n int) []seg {
	var out []seg
	for i := range w.p.Files[:n] {
		pf, err := parseFile(w.k.Bytes(w.p.Files[i].Path))
		if err != nil {
			return nil
		}
		for j := range pf.Blocks {
			out = append(out, seg{i, j, pf.Blocks[j].Off, pf.Blocks[j].Off + pf.Blocks[j].Size})
		}
	}
	return out
}

func execP06(w *World) {
	if !w.prepare() {
		return
	}
	e := newEnv(w)
	e.resolve(w.p.Ops)
	segs := w.segments(len(w.p.Files))
	ok := true
	w.Free(func() {
		for i, p := range e.paths {
			var err error
			if e.readers[i], err = col.NewReader(p); err != nil {
				ok = false
			}
		}
	})
	if !ok || segs == nil {
		w.bump("prepare-failed", 1)
		return
	}
	e.multi = multicol.NewMultiReader(e.readers)
	for i := range w.p.Ops {
		op := w.p.Ops[i]
		var r Res
		w.k.badReads = nil
		w.Run(true, func() {
			w.k.Phase(i)
			w.k.failed = 0
			r = e.call(&op)
		})
		if len(w.viol) > 0 {
			return
		}
		bad := w.k.badReads
		if r.Err != nil {
			if len(bad) == 0 {
				w.fail("error-without-fault", "operation %d (%s) failed although the storage worked: %v", i, op.String(), r.Err)
			}
			continue
		}
		s := e.judge(&op, &r)
		if s == "" {
			continue
		}
		if len(bad) == 0 {
			w.fail("wrong-aggregate", "operation %d (%s): %s, with no storage failure", i, op.String(), s)
			continue
		}
		partial, lost := e.explain(&op, &r, segs, bad)
		if partial {
			w.fail("partial-aggregate", "operation %d (%s): the result silently leaves out %d block(s) whose reads failed: %s", i, op.Kind, lost, s)
		} else {
			w.fail("wrong-aggregate", "operation %d (%s): %s; no choice of the %d blocks whose reads failed explains it", i, op.String(), s, lost)
		}
	}
	w.Free(func() {
		for _, r := range e.readers {
			r.Close()
		}
	})
}

// explain says whether leaving out some of the blocks whose reads failed
// accounts for a result, and how many such blocks there are.
func (e *Env) explain(op *Op, r *Res, segs []seg, bad []ival) (partial bool, n int) {
	var lost []seg
	for _, g := range segs {
		if g.file >= len(e.models) {
			continue
		}
		for _, b := range bad {
			if (b.file == e.paths[g.file]) && b.a < g.b && g.a < b.b {
				lost = append(lost, g)
				break
			}
		}
	}
	n = len(lost)
	// beyond ten blocks not every choice is tried: then only the choice of
	// all of them could disprove anything, and it is not enough to
	partial = n > 10
	if partial {
		return
	}
	for m := 1; m < 1<<n && !partial; m++ {
		ms := make([]*Model, len(e.models))
		for j, md := range e.models {
			c := &Model{Enc: md.Enc}
			for k, blk := range md.Blocks {
				drop := false
				for b, g := range lost {
					if m>>b&1 == 1 && g.file == j && g.block == k {
						drop = true
					}
				}
				if !drop {
					c.Blocks = append(c.Blocks, blk)
				}
			}
			ms[j] = c
		}
		if op.Kind == "magg" {
			partial = sameAgg(r.Agg, e.wantMultiPartial(op, ms)) == ""
		} else {
			partial = sameAgg(r.Agg, e.want(op, ms[op.File])) == ""
		}
	}
	return
}

// wantMultiPartial: values of unreadable blocks are missing, but their IDs
// still hide older values (the ID sets come from the bitmaps).
func (e *Env) wantMultiPartial(op *Op, part []*Model) Agg {
	_, allow := e.set(op.Allow)
	has := op.Allow != nil && op.Allow.Kind != "none"
	var a Agg
	seen := map[uint64]bool{}
	over := e.over(op)
	for k := len(over) - 1; k >= 0; k-- {
		i := over[k]
		for _, p := range part[i].Pairs() {
			if seen[p.ID] || has && !allow[p.ID] {
				continue
			}
			a.add(p.Val)
		}
		for id := range e.models[i].IDs() {
			seen[id] = true
		}
	}
	return a
}

// ---- P07 / P09: aggregates agree; filters

func genP07(r *Rng, p *Plan) {
	p.Files = []FileSpec{readable(r, "/simfs/a.col")}
	if r.P(1, 3) { // many blocks
		f := &p.Files[0]
		f.API, f.Block = "writer", 4096
		for len(f.Batches) < 8+r.N(40) {
			f.Batches = append(f.Batches, genBatch(r, 1+r.N(8)))
		}
	}
	if r.P(1, 40) {
		p.Files[0].Batches = append(p.Files[0].Batches, genBatch(r, 600+r.N(900)))
	}
	if r.P(1, 8) {
		ladder(r, &p.Files[0])
	}
	mid(r, &p.Files[0], 60)
	many(r, &p.Files[0], 50)
	relay(r, &p.Files[0], 12)
	if r.P(1, 6) { // all negative, or extremes only
		v := pick(r, "neg", "extreme", "edge")
		for i := range p.Files[0].Batches {
			p.Files[0].Batches[i].Val = v
		}
	}
	p.Sched = genSched(r)
	p.Cores = pick(r, 1, 2, 3, 4, 8, 32)
	for i := lots(r, 2+r.N(7), 60, 60); i > 0; i-- {
		p.Ops = append(p.Ops, genAgg(r, 1))
	}
	if r.P(1, 4) {
		p.Stall = pick(r, 2, 5, 20)
	}
	p.Clock = genClock(r)
	benignReads(r, p)
}

func genP09(r *Rng, p *Plan) {
	genP07(r, p)
	p.Faults = nil
	for i := range p.Ops {
		genFilter(r, &p.Ops[i], 1)
		if r.P(1, 8) {
			p.Ops[i].Kind = "iter"
		}
	}
	benignReads(r, p)
}

func benignReads(r *Rng, p *Plan) {
	for i := 0; i < r.N(4); i++ {
		p.Faults = append(p.Faults, Fault{Phase: r.N(max(len(p.Ops), 1)), Sys: "read", Nth: 1 + r.N(6), Kind: pick(r, "short", "EINTR"), Arg: int64(r.U() >> 40), Times: pick(r, 0, 0, 3)})
	}
}

func execP07(w *World) {
	e := w.openAll()
	if e == nil {
		return
	}
	for i := range w.p.Ops {
		op := w.p.Ops[i]
		var r Res
		w.Run(true, func() {
			w.k.Phase(i)
			r = e.call(&op)
		})
		if len(w.viol) > 0 {
			return
		}
		if s := e.judge(&op, &r); s != "" || r.Err != nil {
			w.fail("wrong-aggregate", "%s: %s %v (%d blocks, %d cores)", op.String(), s, r.Err, len(e.models[0].Blocks), w.p.Cores)
			return
		}
	}
	e.closeAll()
}

// openAll prepares the files and opens every reader without faults.
func (w *World) openAll() *Env {
	if !w.prepare() {
		return nil
	}
	e := newEnv(w)
	e.resolve(w.p.Ops)
	e.resolve(w.p.Tasks...)
	ok := true
	w.Free(func() {
		for i, p := range e.paths {
			var err error
			if e.readers[i], err = col.NewReader(p); err != nil {
				ok = false
			}
		}
	})
	if !ok {
		w.bump("prepare-failed", 1)
		return nil
	}
	e.multi = multicol.NewMultiReader(e.readers)
	return e
}

func (e *Env) closeAll() {
	e.w.Free(func() {
		for _, r := range e.readers {
			if r != nil {
				r.Close()
			}
		}
	})
}

// ---- P08: parallel aggregation terminates and leaves nothing behind

func genP08(r *Rng, p *Plan) {
	genP07(r, p)
	p.Faults = nil
	if p.Files[0].Block == 4<<20 && r.P(4, 5) {
		p.Files[0] = readable(r, "/simfs/a.col")
	}
	if r.P(1, 3) { // very many small blocks
		f := &p.Files[0]
		f.API, f.Block = "writer", 4096
		for n := 16 + r.N(pick(r, 20, 60, 150)); len(f.Batches) < n; {
			f.Batches = append(f.Batches, genBatch(r, 1+r.N(3)))
		}
	}
	if r.P(1, 2) {
		p.set("conc", int64(2+r.N(pick(r, 3, 8))))
		for len(p.Ops) < 2*int(p.par("conc")) {
			p.Ops = append(p.Ops, genAgg(r, 1))
		}
	}
	same := r.P(1, 3)
	for i := range p.Ops {
		if same && i > 0 {
			p.Ops[i] = p.Ops[0]
			continue
		}
		if p.Ops[i].Par == 0 || r.P(1, 2) {
			p.Ops[i].Par = pick(r, 2, 3, 4, 7, 16, 24, 33, 100, 1000, -1)
		}
		p.Ops[i].Skip = r.P(3, 4)
		if r.P(1, 2) {
			genFilter(r, &p.Ops[i], 1)
		}
	}
	p.Stall = pick(r, 0, 2, 4, 10)
	pr, w := probe(p)
	if len(w.viol) > 0 {
		return
	}
	for i := 0; i < r.N(4); i++ {
		if len(pr) == 0 {
			break
		}
		ph := r.N(len(pr))
		if c := pr[ph]["read"]; c > 0 {
			p.Faults = append(p.Faults, Fault{Phase: ph, Sys: "read", Nth: 1 + r.N(c), Kind: pick(r, "EIO", "EIO", "EINTR", "ENOMEM"), Times: pick(r, 0, 2, 5, -1)})
		}
	}
	if r.P(1, 3) { // the storage fails for good
		p.Faults = append(p.Faults, Fault{Phase: r.N(len(p.Ops)), Sys: "read", Nth: 1 + r.N(3), Kind: "EIO", Times: -1})
	}
	if r.P(1, 6) {
		p.set("closed", 1)
	}
}

func execP08(w *World) {
	e := w.openAll()
	if e == nil {
		return
	}
	if w.p.par("closed") == 1 {
		e.closeAll()
	}
	conc := max(1, int(w.p.par("conc")))
	for i := 0; i < len(w.p.Ops); i += conc {
		ops := w.p.Ops[i:min(i+conc, len(w.p.Ops))]
		// the sequential answers say how much work there is
		f := w.k.faults
		w.k.faults = nil
		before := w.stats["steps"]
		w.Run(false, func() {
			w.k.Phase(1000 + i)
			for _, op := range ops {
				op.Par = 0
				e.call(&op)
			}
		})
		work := w.stats["steps"] - before
		w.k.faults = f
		stepLimit = 40*work + 200_000
		done := 0
		w.k.Phase(i)
		var tasks []func()
		for k := range ops {
			op := ops[k]
			tasks = append(tasks, func() {
				e.call(&op)
				rc := runtime.VerifEnter()
				done++
				runtime.VerifLeave(rc)
			})
		}
		w.Run(true, tasks...)
		stepLimit = defaultSteps
		if len(w.viol) > 0 {
			return
		}
		if done < len(ops) {
			w.fail("no-answer", "%s did not return", ops[0].String())
			return
		}
		if n := w.stats["goroutines-left"]; n > 0 {
			w.fail("goroutine-leak", "%s left %d goroutines behind", ops[0].String(), n)
			return
		}
	}
	e.closeAll()
	if h := w.k.OpenHandles(); len(h) > 0 {
		w.fail("handle-leak", "handles left: %s", joinShort(h, 3))
	}
}

// ---- P10: the ID set of a file

func genP10(r *Rng, p *Plan) {
	f := genAny(r, "/simfs/i.col")
	f.NoFinal = false
	if r.P(1, 60) {
		enlarge(r, &f)
	}
	many(r, &f, 50)
	if r.P(1, 3) {
		for i := range f.Batches {
			f.Batches[i].ID = pick(r, "edge", "cont", "mag", "top", "dup", "gaps")
		}
	}
	for i := range f.Batches {
		if f.API == "writer" && r.P(1, 10) {
			f.Batches[i].Bad = pick(r, "mismatch", "empty")
		}
	}
	if r.P(1, 6) {
		ladder(r, &f)
	}
	p.Files = []FileSpec{f}
	n := 2 + r.N(12)
	for i := 0; i < n; i++ {
		op := Op{Kind: pick(r, "ids", "ids", "ids", "cacheon", "cacheoff", "agg", "iter", "iter"), Skip: r.P(1, 2)}
		if op.Kind == "iter" {
			genFilter(r, &op, 1)
		}
		p.Ops = append(p.Ops, op)
	}
	if r.P(1, 2) {
		p.set("crash", 1)
	}
	p.Sched = genSched(r)
	p.Clock = genClock(r)
	if r.P(1, 12) {
		p.set("wphase", int64(1+r.N(len(f.Batches)+1)))
		p.set("wfail", int64(pick(r, 1, 1, 2, 3, 1+r.N(60))))
	} else if r.P(1, 2) {
		pr, w := probe(p)
		if len(w.viol) > 0 {
			return
		}
		if len(pr) > 0 {
			for i := 0; i < 1+r.N(3); i++ {
				ph := r.N(len(pr))
				if c := pr[ph]["read"]; c > 0 {
					p.Faults = append(p.Faults, Fault{Phase: ph, Sys: "read", Nth: 1 + r.N(c), Kind: pick(r, "EIO", "EIO", "short", "EINTR"), Arg: int64(r.U() >> 40), Times: pick(r, 0, 0, 2)})
				}
			}
		}
	}
}

// prepareRough writes the plan's file with one failing call on the way, after
// which the caller goes on, and takes what the finished file stores for its
// contents. A writer that refuses to go on leaves nothing to look at.
func (w *World) prepareRough() bool {
	faults, crash := w.k.faults, w.k.crash
	w.k.faults, w.k.crash = []Fault{{Phase: int(w.p.par("wphase")), Sys: pick(NewRng(w.p.Seed), "write", "write", "write", "fsync"), Nth: int(w.p.par("wfail")), Kind: "ENOSPC"}}, nil
	w.k.used = make([]int, 1)
	x := &Written{}
	nv := len(w.viol)
	w.Run(false, func() { w.write(&w.p.Files[0], WriteOpts{X: x, OnErr: 1 + int(w.p.par("wphase"))%2}) })
	w.viol = w.viol[:nv]
	hit := w.k.used[0] > 0
	w.k.faults, w.k.crash = faults, crash
	w.k.used = make([]int, len(faults))
	w.k.probe, w.k.failed, w.k.fired = nil, 0, map[string]int{}
	if hit {
		w.k.fired["write-failure-survived"] = 1
	}
	if !x.FinalOK {
		w.k.fired = map[string]int{}
		w.bump("not-finished", 1)
		return false
	}
	pf, err := parseFile(w.k.Bytes(w.p.Files[0].Path))
	if err != nil {
		return false
	}
	m := &Model{Enc: pf.Enc}
	for i := range pf.Blocks {
		if pf.Blocks[i].Err != nil {
			return false
		}
		m.Blocks = append(m.Blocks, pf.Blocks[i].Pairs)
	}
	w.models = append(w.models, m)
	return true
}

func execP10(w *World) {
	if w.p.par("wfail") > 0 {
		if !w.prepareRough() {
			return
		}
	} else if !w.prepare() {
		return
	}
	if w.p.par("crash") == 1 {
		w.k.crash = &Crash{Power: true, Mode: "none"}
		w.k.Reboot()
	}
	e := newEnv(w)
	w.Free(func() { e.readers[0], _ = col.NewReader(e.paths[0]) })
	if e.readers[0] == nil {
		w.bump("prepare-failed", 1)
		return
	}
	e.resolve(w.p.Ops)
	w.Run(true, func() {
		for i := range w.p.Ops {
			op := w.p.Ops[i]
			w.k.Phase(i)
			w.k.failed = 0
			r := e.call(&op)
			hit := w.failedNow()
			if op.Kind == "iter" {
				if s := e.judge(&op, &r); s != "" {
					w.fail("wrong-blocks", "operation %d, %s: %s", i, op.String(), s)
				}
			}
			if op.Kind != "ids" {
				continue
			}
			if r.Err != nil {
				if !hit {
					w.fail("error-without-fault", "operation %d: the id set cannot be read although the storage works: %v", i, r.Err)
				}
				continue
			}
			if s := e.judge(&op, &r); s != "" {
				w.fail("wrong-ids", "operation %d: %s", i, s)
			}
		}
	})
	e.closeAll()
}

// ---- P11: several files, newest wins

func genP11(r *Rng, p *Plan) {
	n := pick(r, 1, 2, 2, 3, 3, 4, 6)
	if r.P(1, 40) {
		n = pick(r, 0, 0, 9, 17, 33, 60+r.N(10))
	}
	p.Files = generations(r, n)
	for i := range p.Files {
		for j := range p.Files[i].Batches {
			if n > 20 {
				p.Files[i].Batches[j].N = 1 + p.Files[i].Batches[j].N%8
			}
		}
	}
	if n > 0 {
		mid(r, &p.Files[r.N(n)], 40)
		many(r, &p.Files[r.N(n)], 60)
		relay(r, &p.Files[r.N(n)], 8)
	}
	p.Sched = genSched(r)
	p.Cores = pick(r, 1, 2, 4)
	for i := 0; i < 2+r.N(5); i++ {
		op := Op{Kind: "magg", Skip: r.P(1, 2)}
		if r.P(1, 2) {
			op.Allow = genSet(r, n, true)
		}
		if r.P(1, 3) && n > 1 {
			op.Sub = 1 + r.U()%(1<<uint(n)-1)
		}
		p.Ops = append(p.Ops, op)
		if r.P(1, 4) && n > 0 {
			p.Ops = append(p.Ops, Op{Kind: pick(r, "cacheon", "cacheoff", "ids", "agg"), File: r.N(n), Retry: 1, Skip: r.P(1, 2)})
		}
	}
	p.Clock = genClock(r)
	if n == 0 {
		return
	}
	pr, w := probe(p)
	if len(w.viol) > 0 {
		return
	}
	if r.P(1, 2) { // the newest generation is cut short by a crash
		l := &p.Files[n-1]
		l.Lay = nil
		if b := len(l.Batches) - 1; b >= 0 && l.Batches[b].N > 20000 { // not one for our writer
			l.Batches[b].N = 3000
		}
		k := len(p.Files[n-1].Batches) + 2
		p.Crash = &Crash{Phase: 2000 + r.N(k), Nth: 1 + r.N(60), Power: r.P(2, 3), Seed: r.U() >> 20, Mode: pick(r, "all", "none", "sectors", "dropone", "tail", "prefix")}
	}
	// failed reads of the id sets (reads outside the blocks)
	if r.P(1, 2) && len(pr) > 0 {
		for i := 0; i < 1+r.N(2); i++ {
			f := r.N(n)
			b := w.k.Bytes(p.Files[f].Path)
			pf, err := parseFile(b)
			if err != nil || pf.BitmapLen == 0 {
				continue
			}
			p.Faults = append(p.Faults, Fault{Phase: r.N(len(p.Ops)), Sys: "read", Kind: "EIO", Path: p.Files[f].Path, Off: int64(pf.BitmapOff), Len: int64(pf.BitmapLen), Times: pick(r, 1, 1, 2, -1)})
			if l := &p.Faults[len(p.Faults)-1]; r.P(1, 3) { // the blocks as well
				l.Off, l.Len = pick(r, 0, 64, int64(r.N(len(b)))), int64(len(b))
			}
		}
	}
}

func execP11(w *World) {
	n := len(w.p.Files)
	crash := w.k.crash
	if crash == nil || crash.Phase < 2000 {
		if !w.prepare() {
			return
		}
	} else {
		if !w.prepareFiles(w.p.Files[:n-1], false) {
			return
		}
		w.k.crash = crash
		x := &Written{}
		fl := w.k.faults
		w.k.faults = nil
		w.Run(false, func() { w.write(&w.p.Files[n-1], WriteOpts{X: x, Base: 2000}) })
		w.k.faults = fl
		w.k.Reboot()
		if len(w.viol) > 0 {
			w.viol = keepClass(w.viol, "panic")
			return
		}
		// whether the generation counts is decided by whether it opens
		w.Free(func() {
			r, err := col.NewReader(w.p.Files[n-1].Path)
			if err != nil {
				if x.FinalOK {
					w.fail("lost", "an acknowledged generation does not open after the crash: %v", err)
				}
				n--
				return
			}
			r.Close()
		})
		if n == len(w.p.Files) {
			m, err := w.modelOf(w.p.Files[n-1].Path, x.content())
			if err != nil {
				w.bump("prepare-failed", 1)
				return
			}
			if !x.FinalTry {
				w.fail("resurrected", "a generation whose writing was cut short takes part in queries")
				return
			}
			w.models = append(w.models, m)
		}
	}
	e := newEnv(w)
	e.paths = e.paths[:n]
	e.readers = e.readers[:n]
	e.resolve(w.p.Ops)
	w.Free(func() {
		for i, p := range e.paths {
			e.readers[i], _ = col.NewReader(p)
		}
	})
	for _, r := range e.readers {
		if r == nil {
			w.bump("prepare-failed", 1)
			return
		}
	}
	e.models = e.models[:n]
	e.multi = multicol.NewMultiReader(e.readers)
	segs := w.segments(n)
	for i := range w.p.Ops {
		op := w.p.Ops[i]
		if op.Kind != "magg" && op.File >= n || op.Sub != 0 && op.Sub&(1<<uint(n)-1) == 0 {
			continue
		}
		var r Res
		hit := false
		w.k.badReads = nil
		w.Run(true, func() {
			w.k.Phase(i)
			w.k.failed = 0
			r = e.call(&op)
			hit = w.failedNow()
		})
		if len(w.viol) > 0 {
			return
		}
		if r.Err != nil {
			if !hit {
				w.fail("error-without-fault", "operation %d failed although the storage worked: %v", i, r.Err)
			}
			continue
		}
		if op.Kind != "magg" {
			continue
		}
		if s := e.judge(&op, &r); s != "" {
			if len(w.k.badReads) > 0 {
				// blocks that could not be read: P06 is about them
				if partial, _ := e.explain(&op, &r, segs, w.k.badReads); partial {
					continue
				}
			}
			w.fail("wrong-result", "operation %d over %d generations: %s", i, n, s)
			return
		}
	}
	w.Run(false, func() {
		w.k.Phase(3000)
		if err := e.multi.Close(); err != nil && w.k.failed == 0 {
			w.fail("close", "closing failed: %v", err)
		}
	})
	if h := w.k.OpenHandles(); len(h) > 0 {
		w.fail("handle-leak", "after closing all generations %s is still open", joinShort(h, 3))
	}
}

// ---- P12: sharing one reader

func genP12(r *Rng, p *Plan) {
	n := pick(r, 1, 1, 2)
	for i := 0; i < n; i++ {
		p.Files = append(p.Files, smallReadable(r, fmt.Sprintf("/simfs/s%d.col", i)))
		mid(r, &p.Files[i], 15)
		many(r, &p.Files[i], 40)
		relay(r, &p.Files[i], 12)
	}
	p.Sched = genSched(r)
	p.Cores = pick(r, 1, 2, 4, 8)
	nt := lots(r, 2+r.N(4), 40, 40)
	long := 6
	if nt < 6 && r.P(1, 40) {
		long = 120
	}
	var shared []Op
	for i := 0; i < 3; i++ {
		op := genAgg(r, n)
		genFilter(r, &op, n)
		shared = append(shared, op)
	}
	toggles := r.P(1, 2)
	for t := 0; t < nt; t++ {
		var ops []Op
		for i := 2 + r.N(long); i > 0; i-- {
			switch r.N(9) {
			case 0, 1, 2:
				ops = append(ops, Op{Kind: "pairs", File: r.N(n), Block: anyBlock(r)})
			case 3:
				ops = append(ops, genAgg(r, n))
			case 4:
				ops = append(ops, pick(r, shared...))
			case 5:
				op := pick(r, shared...)
				op.Kind = "iter"
				ops = append(ops, op)
			case 6:
				ops = append(ops, Op{Kind: "info", File: r.N(n)})
			case 7:
				ops = append(ops, Op{Kind: "ids", File: r.N(n)})
			default:
				if toggles {
					ops = append(ops, Op{Kind: pick(r, "cacheon", "cacheoff", "cacheon"), File: r.N(n)}, Op{Kind: "ids", File: r.N(n)})
				} else {
					ops = append(ops, Op{Kind: "magg", Skip: r.P(1, 2)})
				}
			}
		}
		p.Tasks = append(p.Tasks, ops)
	}
	p.set("cache", int64(r.N(2)))
	if r.P(1, 3) {
		p.Stall = pick(r, 2, 5, 20)
	}
	p.Clock = genClock(r)
	for i := 0; i < r.N(4); i++ {
		p.Faults = append(p.Faults, Fault{Phase: 0, Sys: "read", Nth: 1 + r.N(30), Kind: pick(r, "short", "EINTR"), Arg: int64(r.U() >> 40), Times: pick(r, 0, 3)})
	}
}

func smallReadable(r *Rng, path string) FileSpec {
	f := readable(r, path)
	for i := range f.Batches {
		if f.API == "writer" {
			f.Batches[i].N = 1 + f.Batches[i].N%40
		} else {
			f.Batches[i].N = 1 + f.Batches[i].N%300
		}
	}
	if len(f.Batches) == 0 {
		f.Batches = append(f.Batches, genBatch(r, 5))
	}
	return f
}

func execP12(w *World) {
	e := w.openAll()
	if e == nil {
		return
	}
	if w.p.par("cache") == 1 {
		for _, r := range e.readers {
			r.EnableGlobalIDBitmapCaching()
		}
	}
	res := make([][]Res, len(w.p.Tasks))
	var tasks []func()
	for t := range w.p.Tasks {
		res[t] = make([]Res, len(w.p.Tasks[t]))
		tasks = append(tasks, func() {
			for i := range w.p.Tasks[t] {
				res[t][i] = e.call(&w.p.Tasks[t][i])
			}
		})
	}
	w.k.Phase(0)
	w.Run(true, tasks...)
	if len(w.viol) > 0 {
		return
	}
	for t := range res {
		for i := range res[t] {
			op := &w.p.Tasks[t][i]
			r := &res[t][i]
			s := e.judge(op, r)
			if r.Err != nil {
				s = r.Err.Error()
			}
			if s != "" {
				w.fail("interference", "task %d operation %d (%s), sharing the reader with %d tasks: %s", t, i, op.String(), len(res)-1, s)
				return
			}
		}
	}
	if n := w.stats["goroutines-left"]; n > 0 {
		w.fail("goroutine-leak", "%d goroutines left behind", n)
	}
	e.closeAll()
}

// ---- P20: independent files side by side

func genP20(r *Rng, p *Plan) {
	n := lots(r, 2+r.N(3), 40, 20)
	dirs, alike := r.P(1, 3), r.P(1, 2)
	var names []string
	if !dirs && r.P(1, 3) { // names that only differ in what is often left out or added
		names = []string{"p.col", "p", "p.dat", "p.tmp", "p.col.tmp", "P.col", "p.1", "p.2", "p.col.1", ".p.col", "p.col~", "p.col.bak", "pp.col", "p.new", " p.col", "p.COL"}
		for i := range names {
			j := i + r.N(len(names)-i)
			names[i], names[j] = names[j], names[i]
		}
	}
	for i := 0; i < n; i++ {
		f := smallReadable(r, fmt.Sprintf("/simfs/p%d.col", i))
		if dirs { // the same name everywhere
			f.Path = fmt.Sprintf("/simfs/dir%d/p.col", i)
			if i > 0 && alike {
				f = (&Plan{Files: p.Files[:1]}).clone().Files[0]
				f.Path = fmt.Sprintf("/simfs/dir%d/p.col", i)
				for j := range f.Batches {
					f.Batches[j].Seed += uint64(i)
				}
			}
		}
		if i < len(names) {
			f.Path = "/simfs/" + names[i]
		}
		mid(r, &f, 40)
		many(r, &f, 60)
		p.Files = append(p.Files, f)
	}
	p.set("ready", int64(r.N(n))) // the first files exist, the others are being written
	p.Sched = genSched(r)
	p.Cores = pick(r, 1, 2, 4)
	for i := 0; i < int(p.par("ready")); i++ {
		var ops []Op
		for j := 0; j < 3+r.N(6); j++ {
			op := pick(r, Op{Kind: "pairs", Block: anyBlock(r)}, genAgg(r, 1), Op{Kind: "ids"}, Op{Kind: "info"})
			op.File = i
			ops = append(ops, op)
		}
		p.Tasks = append(p.Tasks, ops)
	}
	if r.P(1, 3) {
		p.Stall = pick(r, 5, 20, 100)
	}
	p.Clock = genClock(r)
	for i := 0; i < r.N(4); i++ {
		p.Faults = append(p.Faults, Fault{Phase: -1, Sys: pick(r, "read", "write"), Nth: 1 + r.N(60), Kind: pick(r, "short", "EINTR"), Arg: int64(r.U() >> 40), Times: pick(r, 0, 3)})
	}
}

func execP20(w *World) {
	ready := int(w.p.par("ready"))
	fl := w.k.faults
	if !w.prepareFiles(w.p.Files[:ready], false) {
		return
	}
	// what each of the others looks like when written alone
	var alone [][]byte
	for i := ready; i < len(w.p.Files); i++ {
		f := w.p.Files[i]
		f.Path += ".alone"
		x := &Written{}
		w.k.faults = nil
		w.Run(false, func() { w.write(&f, WriteOpts{X: x}) })
		if !x.FinalOK || len(w.viol) > 0 {
			w.viol = nil
			w.bump("prepare-failed", 1)
			return
		}
		alone = append(alone, append([]byte(nil), w.k.Bytes(f.Path)...))
	}
	w.k.faults = fl
	w.k.used = make([]int, len(fl))
	e := newEnv(w)
	e.resolve(w.p.Tasks...)
	okOpen := true
	w.Free(func() {
		for i := 0; i < ready; i++ {
			var err error
			if e.readers[i], err = col.NewReader(e.paths[i]); err != nil {
				okOpen = false
			}
		}
	})
	if !okOpen {
		w.bump("prepare-failed", 1)
		return
	}
	xs := make([]*Written, len(w.p.Files))
	res := make([][]Res, len(w.p.Tasks))
	var tasks []func()
	for i := ready; i < len(w.p.Files); i++ {
		xs[i] = &Written{}
		tasks = append(tasks, func() { w.writeQuiet(&w.p.Files[i], xs[i]) })
	}
	for t := range w.p.Tasks {
		res[t] = make([]Res, len(w.p.Tasks[t]))
		tasks = append(tasks, func() {
			for i := range w.p.Tasks[t] {
				res[t][i] = e.call(&w.p.Tasks[t][i])
			}
		})
	}
	w.k.Phase(0)
	w.Run(true, tasks...)
	if len(w.viol) > 0 {
		return
	}
	for t := range res {
		for i := range res[t] {
			op, r := &w.p.Tasks[t][i], &res[t][i]
			s := e.judge(op, r)
			if r.Err != nil {
				s = r.Err.Error()
			}
			if s != "" {
				w.fail("interference", "reader %d operation %d (%s) while other files are written: %s", t, i, op.String(), s)
				return
			}
		}
	}
	for i := ready; i < len(w.p.Files); i++ {
		if !xs[i].FinalOK {
			w.fail("interference", "writing file %d failed while other files were in use", i)
			return
		}
		a, b := alone[i-ready], w.k.Bytes(w.p.Files[i].Path)
		if len(a) != len(b) {
			w.fail("interference", "file %d is %d bytes long when written next to others, %d when written alone", i, len(b), len(a))
			return
		}
		for j := range a {
			if a[j] != b[j] && (j < 36 || j >= 44) {
				w.fail("interference", "file %d differs at offset %d from the one written alone", i, j)
				return
			}
		}
	}
	e.closeAll()
}

// writeQuiet writes one file without phases (several run at a time).
func (w *World) writeQuiet(f *FileSpec, x *Written) {
	x.Spec = f
	var err error
	if f.API == "simple" {
		x.sw, err = col.NewSimpleWriter(f.Path, options(f)...)
	} else {
		x.w, err = col.NewWriter(f.Path, options(f)...)
	}
	if err != nil {
		return
	}
	for i := range f.Batches {
		b := &f.Batches[i]
		ids, vals := b.expand()
		if f.API == "simple" {
			if b.Target > 0 {
				x.sw.SetTargetBlockSize(int(b.Target))
			}
			if x.sw.Write(ids, vals) != nil {
				return
			}
			continue
		}
		for len(ids) > 0 {
			err := x.w.WriteBlock(ids, vals)
			n := len(ids)
			if full, ok := err.(*col.BlockFullError); ok {
				n = full.ItemsWritten
				if n < 1 || n > len(ids) {
					return
				}
			} else if err != nil {
				return
			}
			if n < len(ids) && b.Drop {
				break
			}
			ids, vals = ids[n:], vals[n:]
		}
	}
	if f.API == "simple" {
		err = x.sw.Close()
	} else {
		err = x.w.FinalizeAndClose()
	}
	x.FinalOK = err == nil
}

// ---- P13: damaged files

func genCorr(r *Rng, file int) Corruption {
	c := Corruption{File: file, Idx: r.N(12)}
	c.Where = pick(r, "header", "header", "index", "entry", "entry", "trailer", "trailer", "blockhdr", "layout", "layout", "layout", "ids", "vals", "any", "end")
	c.Kind = pick(r, "flip", "flip", "set", "set", "set", "zero", "fill")
	c.Off = int64(r.N(64))
	switch c.Where {
	case "header":
		c.Off = pick(r, int64(0), 8, 12, 16, 24, 28, 32, 36, 44, 52, int64(r.N(64)))
	case "entry":
		c.Off = pick(r, int64(0), 8, 12, 20, 28, 36, 44, 52, int64(r.N(56)))
	case "trailer":
		c.Off = pick(r, int64(0), 8, 16, 4, int64(r.N(24)))
	case "layout":
		c.Off = pick(r, int64(0), 4, 8, 12)
	case "ids", "vals", "any":
		c.Off = int64(r.U() % 100000)
	case "index":
		c.Off = 0
	}
	c.Len = pick(r, int64(1), 4, 8, 16)
	if r.P(1, 5) { // a whole field slightly, or by a power of two, off
		c.Kind, c.Len = "add", pick(r, int64(4), 8)
		c.Val = pick(r, uint64(r.N(100)), -uint64(r.N(100)), 1<<32, 1<<31, 1<<63, 1<<63+uint64(r.N(5000)), -uint64(r.N(20000)), uint64(r.N(20000)), 4096, ^uint64(4095))
	} else if r.P(1, 6) { // near the ends of the integers
		c.Kind, c.Len = "set", pick(r, int64(4), 8, 8)
		c.Val = pick(r, uint64(0), 1<<32, 1<<63, 1<<31) - uint64(r.N(100))
		return fixEnd(r, c)
	}
	if c.Kind == "add" {
		return fixEnd(r, c)
	}
	c.Val = pick(r, 0, 1, 2, 4, 15, 16, 63, 64, 79, 80, 4096, 0xff, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffff0, 1<<32, 1<<63-1, 1<<63, ^uint64(0), ^uint64(0)-3, r.U()>>uint(r.N(64)), uint64(r.N(20000)))
	return fixEnd(r, c)
}

func fixEnd(r *Rng, c Corruption) Corruption {
	if c.Where == "end" {
		c.Kind = pick(r, "trunc", "trunc", "cut", "append", "append")
		c.Off = pick(r, int64(0), 1, 8, 23, 24, 25, 28, 63, 64, 65, 88, 92, 4096, int64(r.N(20000)))
	}
	if r.P(1, 20) {
		c.Kind, c.To = "copy", int64(r.U()%100000)
		c.Len = pick(r, int64(8), 16, 56, 512, 4096)
	}
	return c
}

// apply damages b; orig is the parsed undamaged file (nil: parse b).
func (c *Corruption) apply(b []byte, orig *parsedFile) []byte {
	if orig == nil {
		orig, _ = parseFile(b)
	}
	if orig == nil || len(b) == 0 {
		return b
	}
	base := int64(0)
	blk := func() *parsedBlock {
		if len(orig.Blocks) == 0 {
			return nil
		}
		return &orig.Blocks[c.Idx%len(orig.Blocks)]
	}
	off := c.Off
	switch c.Where {
	case "index":
		base = orig.Footer
	case "entry":
		if len(orig.Blocks) == 0 {
			return b
		}
		base = orig.Footer + 4 + 56*int64(c.Idx%len(orig.Blocks))
	case "trailer":
		base = int64(len(b)) - 24
	case "blockhdr", "layout", "ids", "vals":
		k := blk()
		if k == nil {
			return b
		}
		switch c.Where {
		case "blockhdr":
			base = k.Off
		case "layout":
			base = k.Off + 64
		case "ids":
			base = k.Off + 80
			off %= max(1, int64(k.IDLen))
		case "vals":
			base = k.Off + 80 + int64(k.ValOff)
			off %= max(1, int64(k.ValLen))
		}
	case "bitmap":
		base = int64(orig.BitmapOff)
	case "any":
		off %= int64(len(b))
		// the serialised id set has its own format; see P13's statement
		if bo := int64(orig.BitmapOff) + 4; off+8 > bo && off < bo+int64(orig.BitmapLen) {
			return b
		}
	}
	at := base + off
	b = append([]byte(nil), b...)
	switch c.Kind {
	case "trunc": // drop the last Off bytes
		return b[:max(0, int64(len(b))-c.Off)]
	case "cut": // keep only the first Off bytes
		return b[:min(int64(len(b)), c.Off)]
	case "append":
		n := c.Off
		tail := make([]byte, n)
		for i := range tail {
			tail[i] = byte(c.Val >> (8 * (uint(i) % 8)))
		}
		return append(b, tail...)
	case "copy":
		if c.Where == "ids" || c.Where == "vals" || c.Where == "any" {
			from := c.To % int64(len(b))
			for i := int64(0); i < c.Len; i++ {
				if at+i >= 0 && at+i < orig.Footer && at+i < int64(len(b)) && from+i < int64(len(b)) && !orig.inBitmap(at+i) {
					b[at+i] = b[from+i]
				}
			}
		}
		return b
	}
	if c.Kind == "add" {
		carry := uint64(0)
		for i := int64(0); i < c.Len; i++ {
			if at+i < 0 || at+i >= int64(len(b)) || orig.inBitmap(at+i) {
				break
			}
			carry += uint64(b[at+i]) + c.Val>>(8*uint(i%8))&0xff
			b[at+i], carry = byte(carry), carry>>8
		}
		return b
	}
	for i := int64(0); i < c.Len; i++ {
		if at+i < 0 || at+i >= int64(len(b)) || orig.inBitmap(at+i) {
			continue
		}
		v := byte(c.Val >> (8 * uint(i%8)))
		switch c.Kind {
		case "flip":
			if i == 0 {
				b[at] ^= 1 << (c.Val % 8)
			}
		case "set":
			b[at+i] = v
		case "zero":
			b[at+i] = 0
		case "fill":
			b[at+i] = 0xff
		}
	}
	return b
}

func (f *parsedFile) inBitmap(off int64) bool {
	return f.BitmapOff != 0 && off >= int64(f.BitmapOff)+4 && off < int64(f.BitmapOff+f.BitmapLen)
}

func genP13(r *Rng, p *Plan) {
	f := readable(r, "/simfs/x.col")
	if f.API == "writer" {
		for i := range f.Batches {
			f.Batches[i].N = 1 + f.Batches[i].N%60
		}
	}
	p.Files = []FileSpec{f}
	for i := 0; i < pick(r, 1, 1, 1, 2, 3); i++ {
		p.Corr = append(p.Corr, genCorr(r, 0))
	}
	if r.P(1, 25) { // a block whose place overlaps other parts of the file, by a wrapped offset too
		if r.P(2, 3) {
			p.Files[0].Block = int64(1 + r.N(3000))
			for i := range p.Files[0].Batches {
				p.Files[0].Batches[i].Target = 0
				p.Files[0].Batches[i].N = 1 + p.Files[0].Batches[i].N%20
			}
		}
		p.Corr = []Corruption{{Where: "entry", Kind: "set", Len: 8, Idx: r.N(4), Val: pick(r, -uint64(4*r.N(17)), -uint64(4*r.N(17)), -uint64(r.N(65)), uint64(r.N(64)), uint64(4*r.N(2000)), 1<<63+uint64(4*r.N(1100)), 1<<32+uint64(r.N(3)*4096))}}
	}
	for i := 0; i < 1+r.N(3); i++ {
		op := genAgg(r, 1)
		if r.P(1, 2) {
			genFilter(r, &op, 1)
		}
		p.Ops = append(p.Ops, op)
	}
	p.Sched = genSched(r)
	p.Cores = pick(r, 1, 4)
	p.Clock = genClock(r)
}

func execP13(w *World) {
	if !w.prepare() {
		return
	}
	path := w.p.Files[0].Path
	good := append([]byte(nil), w.k.Bytes(path)...)
	orig, err := parseFile(good)
	if err != nil {
		return
	}
	b := good
	for i := range w.p.Corr {
		b = w.p.Corr[i].apply(b, orig)
		w.k.fired["damage-"+w.p.Corr[i].Where]++
	}
	w.k.Put(path, b)
	e := newEnv(w)
	e.resolve(w.p.Ops)
	ref, refErr := parseFile(b)
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	w.Run(true, func() {
		w.k.Phase(0)
		r, err := col.NewReader(path)
		if err != nil {
			if string(b) == string(good) {
				w.fail("intact-refused", "an intact file does not open: %v", err)
			}
			return
		}
		e.readers[0] = r
		if refErr != nil {
			w.fail("damage-accepted", "a damaged file opens although its structure is broken (%v)", refErr)
			return
		}
		n := r.BlockCount()
		if n != uint64(len(ref.Blocks)) {
			w.fail("fabricated", "the reader sees %d blocks, the file stores %d", n, len(ref.Blocks))
			return
		}
		for i := uint64(0); i < n; i++ {
			ids, vals, err := r.GetPairs(i)
			pb := &ref.Blocks[i]
			if err != nil {
				if pb.Err == nil && string(b) == string(good) {
					w.fail("intact-refused", "block %d of an intact file does not read: %v", i, err)
				}
				continue
			}
			if pb.Err != nil && pb.Err != errTrailing {
				w.fail("fabricated", "block %d yields %d pairs although what is stored does not decode: %v", i, len(ids), pb.Err)
				return
			}
			if s := samePairs(ids, vals, pb.Pairs); s != "" {
				w.fail("fabricated", "block %d yields data that is not stored: %s", i, s)
				return
			}
		}
		for i := range w.p.Ops {
			w.k.Phase(1 + i)
			e.call(&w.p.Ops[i])
		}
		if ref.BitmapErr == nil && ref.BitmapOff != 0 && ref.BitmapLen != 0 && (ref.BitmapOff != orig.BitmapOff || ref.BitmapLen != orig.BitmapLen) {
			// other bytes now pass for the id set: its own format is damaged
			w.bump("id-set-moved", 1)
		} else if ref.BitmapErr == nil {
			w.k.Phase(100)
			bm, err := r.GetGlobalIDBitmap()
			if err == nil && bm == nil {
				w.fail("fabricated", "no id set and no error")
			} else if err == nil && (ref.BitmapOff == 0 || ref.BitmapLen == 0) && bm.GetCardinality() != 0 {
				w.fail("fabricated", "%d ids in the id set of a file that has none", bm.GetCardinality())
			}
		} else {
			w.k.Phase(100)
			if bm, err := r.GetGlobalIDBitmap(); err == nil {
				w.fail("damage-accepted", "an id set is returned (%v) although its place in the file is broken: %v", bm != nil, ref.BitmapErr)
			}
		}
		r.DebugInfo()
		r.Close()
	})
	runtime.ReadMemStats(&m1)
	if d := m1.TotalAlloc - m0.TotalAlloc; d > 64<<20+uint64(len(b))*200 {
		w.fail("memory", "reading a damaged file of %d bytes allocated %d bytes", len(b), d)
	}
	if string(b) != string(good) {
		w.bump("damaged-files", 1)
	}
	for i := range w.viol {
		if w.viol[i].Class == "panic" {
			w.viol[i].Class = "panic " + strings.TrimPrefix(w.viol[i].Msg[strings.LastIndex(w.viol[i].Msg, " at ")+1:], "at ")
		}
	}
}
