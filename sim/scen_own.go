package main

import (
	"errors"
	"fmt"
	"runtime"

	"vibe-lsm/pkg/col"
	"vibe-lsm/pkg/multicol"

	"github.com/weaviate/sroar"
)

func init() {
	scenarios["P25"] = &scenario{gen: genP25, exec: execP25}
	scenarios["P26"] = &scenario{gen: genP26, exec: execP26}
}

// ---- P25: results and arguments belong to the caller

func genP25(r *Rng, p *Plan) {
	if r.P(1, 3) { // a writer whose caller reuses its slices
		p.set("mode", 1)
		f := smallAny(r, "/simfs/own.col")
		for i := range f.Batches {
			f.Batches[i].Bad = ""
		}
		if f.API == "writer" && r.P(1, 3) { // blocks that are cut again and again
			f.Block = pick(r, int64(200), 4096, 4096, 4100, 5000, 8192)
			for len(f.Batches) < 3 {
				f.Batches = append(f.Batches, genBatch(r, 1+r.N(60)))
			}
			for i := range f.Batches {
				b := &f.Batches[i]
				b.N = 2 + r.N(pick(r, 40, 300, 700))
				if i > 0 && r.P(1, 2) {
					b.N = f.Batches[i-1].N
				}
			}
		}
		p.Files = []FileSpec{f}
		p.set("over", int64(r.N(3)))
		p.Clock = genClock(r)
		pr, w := probe(p)
		if len(w.viol) > 0 {
			return
		}
		benign(r, p, pr, 0)
		return
	}
	n := pick(r, 1, 1, 2, 3)
	if n > 1 {
		p.Files = generations(r, n)
	}
	for i := 0; i < n; i++ {
		f := smallReadable(r, fmt.Sprintf("/simfs/o%d.col", i))
		mid(r, &f, 25)
		many(r, &f, 40)
		relay(r, &f, 12)
		if n > 1 && r.P(2, 3) {
			continue
		}
		if n > 1 {
			p.Files[i] = f
		} else {
			p.Files = append(p.Files, f)
		}
	}
	p.Sched = genSched(r)
	p.Cores = pick(r, 1, 2, 4)
	cache := r.P(1, 3)
	if cache {
		p.set("cache", 1)
	}
	nt := pick(r, 1, 1, 2, 3)
	for t := 0; t < nt; t++ {
		var ops []Op
		for i := lots(r, 2+r.N(8), 60, 150); i > 0; i-- {
			var op Op
			if nt == 1 && r.P(1, 6) {
				ops = append(ops, Op{Kind: pick(r, "cacheon", "cacheon", "cacheoff"), File: r.N(n)})
			}
			switch r.N(8) {
			case 0, 1, 2:
				op = Op{Kind: "pairs", File: r.N(n), Block: int64(r.N(pick(r, 2, 20, 1<<20)))}
			case 3:
				op = Op{Kind: "ids", File: r.N(n)}
			case 4:
				op = genAgg(r, n)
				op.Kind = "iter"
				genFilter(r, &op, n)
			case 5, 6:
				op = genAgg(r, n)
				genFilter(r, &op, n)
			default:
				op = Op{Kind: "magg", Skip: r.P(1, 2)}
				if r.P(2, 3) {
					op.Allow = genSet(r, n, true)
				}
			}
			op.Handle = r.N(6) // what the caller does with the result
			ops = append(ops, op)
			if r.P(1, 3) { // the same call again
				op.Handle = r.N(6)
				ops = append(ops, op)
			}
		}
		p.Tasks = append(p.Tasks, ops)
	}
	p.set("reuse", int64(r.N(2))) // the caller keeps one filter set and changes it
	p.Clock = genClock(r)
	if r.P(1, 4) {
		p.Stall = pick(r, 2, 5, 20)
	}
	for i := 0; i < r.N(4); i++ {
		p.Faults = append(p.Faults, Fault{Phase: 0, Sys: "read", Nth: 1 + r.N(40), Kind: pick(r, "short", "EINTR"), Arg: int64(r.U() >> 40), Times: pick(r, 0, 3)})
	}
	if r.P(1, 3) { // reads that fail and are tried again
		p.set("eio", 1)
		for i := 0; i < 1+r.N(3); i++ {
			p.Faults = append(p.Faults, Fault{Phase: 0, Sys: "read", Nth: 1 + r.N(40), Kind: pick(r, "EIO", "ENOMEM"), Times: pick(r, 1, 1, 2)})
		}
	}
}

// held is a result the caller still has, and what it looked like.
type held struct {
	op    *Op
	res   Res // as returned
	idx   []uint64
	ids   []uint64
	vals  []int64
	agg   Agg // wanted
	bm    map[uint64]bool
	allow map[uint64]bool
	deny  map[uint64]bool
	hasA  bool
	keep  bool // unchanged by the caller
	bad   string
}

func copyOf[T any](s []T) []T { return append([]T(nil), s...) }

func same[T comparable](a, b []T) int {
	if len(a) != len(b) {
		return min(len(a), len(b))
	}
	for i := range a {
		if a[i] != b[i] {
			return i
		}
	}
	return -1
}

// filterOf gives the task's own set for a description: a new one, or the one
// it used before, changed to what is wanted now.
type ownSet struct {
	bm *sroar.Bitmap
	m  map[uint64]bool
}

func (o *ownSet) become(want map[uint64]bool, reuse bool) bool {
	if o.bm == nil || !reuse {
		o.bm, o.m = bitmapOf(sortedIDs(want)), want
		return true
	}
	for _, id := range sortedIDs(o.m) {
		if !want[id] {
			o.bm.Remove(id)
		}
	}
	for _, id := range sortedIDs(want) {
		if !o.m[id] {
			o.bm.Set(id)
		}
	}
	o.m = want
	return sameIDs(o.bm, want) == ""
}

func (e *Env) ownCall(op *Op, allow, deny *ownSet) *held {
	h := &held{op: op, keep: true}
	w := e.w
	reuse := w.p.par("reuse") == 1
	var fa, fd *sroar.Bitmap
	for i, s := range []*SetSpec{op.Allow, op.Deny} {
		m, has := s.resolve(e.models)
		if !has {
			continue
		}
		o := allow
		if i == 1 {
			o = deny
		}
		if !o.become(m, reuse) { // the bitmap library lost its way
			o.bm, o.m = bitmapOf(sortedIDs(m)), m
		}
		if i == 0 {
			fa, h.allow, h.hasA = o.bm, m, true
		} else {
			fd, h.deny = o.bm, m
		}
	}
	rd := e.readers[op.File]
	r := &h.res
	switch op.Kind {
	case "pairs":
		n := rd.BlockCount()
		if n == 0 {
			h.keep = false
			return h
		}
		r.Idx = []uint64{uint64(op.Block) % n}
		r.IDs, r.Vals, r.Err = rd.GetPairs(r.Idx[0])
		h.ids, h.vals = copyOf(r.IDs), copyOf(r.Vals)
	case "ids":
		r.BM, r.Err = rd.GetGlobalIDBitmap()
		if r.Err == nil {
			if h.bad = sameIDs(r.BM, e.models[op.File].IDs()); h.bad != "" {
				return h
			}
		}
	case "cacheon":
		rd.EnableGlobalIDBitmapCaching()
		e.caching[op.File] = true
		return h
	case "cacheoff":
		rd.DisableGlobalIDBitmapCaching()
		e.caching[op.File] = false
		return h
	case "iter":
		r.Idx = rd.FilteredBlockIterator(fa, fd)
		h.idx = copyOf(r.Idx)
	case "agg":
		r.Agg = rd.AggregateWithOptions(col.AggregateOptions{SkipPreCalculated: op.Skip, Parallel: op.Par, Filter: fa, DenyFilter: fd})
	case "magg":
		r.Agg, r.Err = e.multi.Aggregate(multicol.AggregateOptions{SkipPreCalculated: op.Skip, Filter: fa})
	}
	if r.Err != nil {
		h.keep = false
		return h
	}
	// the caller makes use of what is his
	switch op.Handle {
	case 1, 2: // overwrites
		if op.Kind == "ids" && e.caching[op.File] {
			return h // shared with the reader
		}
		h.keep = false
		for i := range r.IDs {
			r.IDs[i] = ^r.IDs[i]
		}
		if i := same(r.Vals, h.vals); i >= 0 {
			h.bad = fmt.Sprintf("overwriting the returned ids changes the value at position %d", i)
			return h
		}
		for i := range r.Vals {
			r.Vals[i] = 77 - r.Vals[i]
		}
		if op.Kind == "iter" {
			for i := range r.Idx {
				r.Idx[i] += 1000
			}
		}
		if r.BM != nil {
			for _, id := range sortedIDs(e.models[op.File].IDs()) {
				if op.Handle == 1 || id%2 == 0 {
					r.BM.Remove(id)
				} else {
					r.BM.Set(id + 1)
				}
			}
		}
	case 3: // extends
		a, b := r.IDs[:len(r.IDs):cap(r.IDs)], r.Vals[:len(r.Vals):cap(r.Vals)]
		for i := 0; i < 64 && len(a) < cap(a); i++ {
			a = append(a, 0xdeadbeef)
		}
		for i := 0; i < 64 && len(b) < cap(b); i++ {
			b = append(b, -0x5eadbeef)
		}
		if op.Kind == "iter" {
			c := r.Idx[:len(r.Idx):cap(r.Idx)]
			for i := 0; i < 64 && len(c) < cap(c); i++ {
				c = append(c, 1<<40)
			}
		}
	}
	return h
}

// still says what changed about a result the caller kept.
func (h *held) still(e *Env) string {
	if !h.keep {
		return ""
	}
	if i := same(h.res.IDs, h.ids); i >= 0 {
		return fmt.Sprintf("the id at position %d of %d returned earlier has changed", i, len(h.ids))
	}
	if i := same(h.res.Vals, h.vals); i >= 0 {
		return fmt.Sprintf("the value at position %d of %d returned earlier has changed", i, len(h.vals))
	}
	if h.op.Kind == "iter" {
		if i := same(h.res.Idx, h.idx); i >= 0 {
			return fmt.Sprintf("the block number at position %d listed earlier has changed", i)
		}
	}
	if h.res.BM != nil {
		if s := sameIDs(h.res.BM, e.models[h.op.File].IDs()); s != "" {
			return "the id set returned earlier has changed: " + s
		}
	}
	return ""
}

// right compares the copy made when the result came with the model.
func (h *held) right(e *Env, lenient bool) string {
	if h.bad != "" {
		return h.bad
	}
	if h.res.Err != nil {
		if lenient {
			return ""
		}
		return h.res.Err.Error()
	}
	m := e.models[h.op.File]
	switch h.op.Kind {
	case "pairs":
		if len(h.res.Idx) == 0 || h.res.Idx[0] >= uint64(len(m.Blocks)) {
			return ""
		}
		return samePairs(h.ids, h.vals, m.Blocks[h.res.Idx[0]])
	case "agg":
		if !lenient {
			return sameAgg(h.res.Agg, aggregate(m.Pairs(), h.allow, h.deny, h.hasA))
		}
	case "magg":
		if !lenient {
			return sameAgg(h.res.Agg, wantMulti(e.models, h.allow, h.hasA))
		}
	case "iter":
		return e.judgeListed(m, h.idx, h.allow, h.deny, h.hasA)
	}
	return ""
}

func execP25(w *World) {
	if w.p.par("mode") == 1 {
		w.execReuse()
		return
	}
	e := w.openAll()
	if e == nil {
		return
	}
	e.caching = make([]bool, len(e.readers))
	if w.p.par("cache") == 1 {
		for i, r := range e.readers {
			r.EnableGlobalIDBitmapCaching()
			e.caching[i] = true
		}
	}
	all := make([][]*held, len(w.p.Tasks))
	var tasks []func()
	for t := range w.p.Tasks {
		all[t] = make([]*held, len(w.p.Tasks[t]))
		tasks = append(tasks, func() {
			var a, d ownSet
			for i := range w.p.Tasks[t] {
				all[t][i] = e.ownCall(&w.p.Tasks[t][i], &a, &d)
			}
		})
	}
	w.k.Phase(0)
	w.Run(true, tasks...)
	if len(w.viol) > 0 {
		return
	}
	check := func(when string) bool {
		for t := range all {
			for i, h := range all[t] {
				if h == nil {
					continue
				}
				if s := h.still(e); s != "" {
					w.fail("result-changed", "task %d operation %d (%s), %s: %s", t, i, h.op.String(), when, s)
					return false
				}
			}
		}
		return true
	}
	for t := range all {
		for i, h := range all[t] {
			if h == nil {
				continue
			}
			if s := h.right(e, w.p.par("eio") == 1); s != "" {
				w.fail("wrong-result", "task %d operation %d (%s), after the caller changed earlier results or its own sets: %s", t, i, h.op.String(), s)
				return
			}
		}
	}
	if !check("after the other calls") {
		return
	}
	// the readers go, others come
	w.k.faults = nil
	w.Run(true, func() {
		w.k.Phase(1)
		for _, r := range e.readers {
			r.Close()
		}
		for _, p := range e.paths {
			r, err := col.NewReader(p)
			if err != nil {
				continue
			}
			for b := uint64(0); b < r.BlockCount(); b++ {
				r.GetPairs(b)
			}
			r.GetGlobalIDBitmap()
			r.AggregateWithOptions(col.AggregateOptions{SkipPreCalculated: true})
			r.Close()
		}
	})
	if len(w.viol) == 0 {
		check("after its reader was closed and others were used")
	}
}

// judgeListed is judgeIter for sets that are at hand.
func (e *Env) judgeListed(m *Model, idx []uint64, allow, deny map[uint64]bool, hasAllow bool) string {
	seen := map[uint64]bool{}
	for _, b := range idx {
		if b >= uint64(len(m.Blocks)) || seen[b] {
			return fmt.Sprintf("block %d is listed twice or does not exist (%d blocks)", b, len(m.Blocks))
		}
		seen[b] = true
	}
	for i, b := range m.Blocks {
		if !seen[uint64(i)] {
			if a := aggregate(b, allow, deny, hasAllow); a.Count > 0 {
				return fmt.Sprintf("block %d holds %d selected pairs but is not listed", i, a.Count)
			}
		}
	}
	return ""
}

// lender hands the pairs of a call to a writer in slices that are used for
// every call, and overwrites them as soon as the call has returned.
type lender struct {
	ids  []uint64
	vals []int64
	n    int
	bad  string
	over int64
}

func (l *lender) give(ids []uint64, vals []int64) ([]uint64, []int64) {
	if cap(l.ids) < len(ids)+3 {
		l.ids, l.vals = make([]uint64, 2*len(ids)+3), make([]int64, 2*len(ids)+3)
	}
	l.ids, l.vals = l.ids[:cap(l.ids)], l.vals[:cap(l.vals)]
	copy(l.ids, ids)
	copy(l.vals, vals)
	l.n = len(ids)
	for i := l.n; i < len(l.ids); i++ {
		l.ids[i], l.vals[i] = 0xabcdef, -0xabcdef
	}
	return l.ids[:len(ids)], l.vals[:len(vals)]
}

func (l *lender) takeBack(ids []uint64, vals []int64) {
	if i := same(l.ids[:l.n], ids[:l.n]); i >= 0 && l.bad == "" {
		l.bad = fmt.Sprintf("a call changed the caller's id at position %d", i)
	}
	if i := same(l.vals[:l.n], vals[:l.n]); i >= 0 && l.bad == "" {
		l.bad = fmt.Sprintf("a call changed the caller's value at position %d", i)
	}
	for i := l.n; i < len(l.ids) && l.bad == ""; i++ {
		if l.ids[i] != 0xabcdef || l.vals[i] != -0xabcdef {
			l.bad = fmt.Sprintf("a call wrote into the caller's memory %d places behind the slices it was given", i-l.n)
		}
	}
	for i := range l.ids {
		switch l.over {
		case 0:
			l.ids[i], l.vals[i] = ^uint64(0), -1<<63
		case 1:
			l.ids[i], l.vals[i] = 0, 0
		default:
			l.ids[i], l.vals[i] = mix64(uint64(i)), int64(mix64(uint64(i)+99))
		}
	}
}

// lend writes a file; with l, through slices that the caller reuses.
func (w *World) lend(f *FileSpec, l *lender) (log []string, done bool) {
	opts := []col.WriterOption{col.WithEncoding(f.Enc)}
	if f.Block > 0 {
		opts = append(opts, col.WithBlockSize(uint32(f.Block)))
	}
	see := func(format string, a ...any) { log = append(log, fmt.Sprintf(format, a...)) }
	type kept struct {
		e *col.BlockFullError
		n int
	}
	var errs []kept
	var wr *col.Writer
	var sw *col.SimpleWriter
	var err error
	w.k.Phase(0)
	if f.API == "simple" {
		sw, err = col.NewSimpleWriter(f.Path, opts...)
	} else {
		wr, err = col.NewWriter(f.Path, opts...)
	}
	see("create %v", err == nil)
	if err != nil {
		return
	}
	// the options are the caller's as well
	for i := range opts {
		opts[i] = nil
	}
	with := func(ids []uint64, vals []int64, fn func([]uint64, []int64)) {
		if l == nil {
			fn(copyOf(ids), copyOf(vals))
			return
		}
		a, b := l.give(ids, vals)
		fn(a, b)
		l.takeBack(ids, vals)
	}
	for i := range f.Batches {
		b := &f.Batches[i]
		w.k.Phase(1 + i)
		ids, vals := b.expand()
		if sw != nil {
			if b.Target > 0 {
				sw.SetTargetBlockSize(int(b.Target))
			}
			with(ids, vals, func(ids []uint64, vals []int64) { err = sw.Write(ids, vals) })
			see("write %v, total %d", err == nil, sw.TotalItems())
			continue
		}
		for len(ids) > 0 {
			var est uint64
			with(ids, vals, func(ids []uint64, vals []int64) { est, _ = wr.EstimateBlockSize(ids, vals) })
			with(ids, vals, func(ids []uint64, vals []int64) { err = wr.WriteBlock(ids, vals) })
			var full *col.BlockFullError
			if errors.As(err, &full) && full.ItemsWritten > 0 && full.ItemsWritten < len(ids) {
				see("full %d, estimate %d", full.ItemsWritten, est)
				errs = append(errs, kept{full, full.ItemsWritten})
				ids, vals = ids[full.ItemsWritten:], vals[full.ItemsWritten:]
				if b.Drop {
					break
				}
				continue
			}
			see("write %v, estimate %d", err == nil, est)
			break
		}
	}
	w.k.Phase(1 + len(f.Batches))
	if sw != nil {
		err = sw.Close()
		see("close %v, total %d", err == nil, sw.TotalItems())
	} else {
		err = wr.FinalizeAndClose()
		see("finish %v", err == nil)
	}
	for i, k := range errs {
		if k.e.ItemsWritten != k.n {
			w.fail("result-changed", "the error that said %d pairs were written says %d later (%d of %d)", k.n, k.e.ItemsWritten, i, len(errs))
			return
		}
	}
	return log, err == nil
}

func (w *World) execReuse() {
	f := w.p.Files[0]
	q := w.p.clone()
	q.Faults, q.Stall = nil, 0
	q.Clock = Clock{Start: 1700000000e9, Step: 1}
	v := NewWorld(q)
	var la, lb []string
	var da bool
	v.Run(false, func() { la, da = v.lend(&f, nil) })
	if len(v.viol) > 0 || !da {
		w.viol = append(w.viol, v.viol...)
		w.bump("prepare-failed", 1)
		return
	}
	l := &lender{over: w.p.par("over")}
	w.Run(false, func() { lb, _ = w.lend(&f, l) })
	if len(w.viol) > 0 {
		return
	}
	if l.bad != "" {
		w.fail("caller-data-changed", "%s", l.bad)
		return
	}
	for i := range la {
		s := "nothing"
		if i < len(lb) {
			s = lb[i]
		}
		if s != la[i] {
			w.fail("argument-retained", "step %d gives %q when the caller reuses its slices, %q otherwise", i, s, la[i])
			return
		}
	}
	x, y := v.k.Bytes(f.Path), w.k.Bytes(f.Path)
	if len(x) != len(y) {
		w.fail("argument-retained", "the file has %d bytes when the caller reuses its slices, %d otherwise", len(y), len(x))
		return
	}
	for i := range x {
		if x[i] != y[i] && (i < 36 || i >= 44) {
			w.fail("argument-retained", "reusing the slices after a call changes the byte at offset %d from %#x to %#x", i, x[i], y[i])
			return
		}
	}
}

// ---- P26: closing a reader while it is in use

func genP26(r *Rng, p *Plan) {
	n := pick(r, 1, 1, 2, 2, 3)
	for i := 0; i < n; i++ {
		f := smallReadable(r, fmt.Sprintf("/simfs/c%d.col", i))
		if len(f.Batches) > 6 {
			f.Batches = f.Batches[:6]
		}
		mid(r, &f, 15)
		many(r, &f, 50)
		relay(r, &f, 12)
		p.Files = append(p.Files, f)
	}
	// the last file is opened by somebody else meanwhile
	f := smallReadable(r, "/simfs/other.col")
	if r.P(2, 3) { // blocks in the same places, other contents
		f = (&Plan{Files: p.Files[:1]}).clone().Files[0]
		f.Path = "/simfs/other.col"
		for i := range f.Batches {
			f.Batches[i].Seed += 77
			if r.P(1, 2) {
				f.Batches[i].Val = "full"
			}
		}
	}
	p.Files = append(p.Files, f)
	p.Sched = genSched(r)
	p.Cores = pick(r, 1, 2, 4, 8)
	for t := lots(r, 1+r.N(4), 50, 30); t > 0; t-- {
		var ops []Op
		for i := 0; i < 1+r.N(5); i++ {
			var op Op
			switch r.N(8) {
			case 0, 1, 2:
				op = Op{Kind: "pairs", File: r.N(n), Block: anyBlock(r)}
			case 3:
				op = Op{Kind: "ids", File: r.N(n)}
			case 4:
				op = Op{Kind: "magg", Skip: r.P(2, 3)}
			case 5:
				op = Op{Kind: pick(r, "info", "cacheon", "cacheoff"), File: r.N(n)}
			default:
				op = genAgg(r, n)
				op.Skip = r.P(3, 4)
				if r.P(1, 3) {
					genFilter(r, &op, n)
				}
			}
			ops = append(ops, op)
		}
		p.Tasks = append(p.Tasks, ops)
	}
	// who closes: each reader by itself, all of them as one, twice
	var cl []Op
	for i := 0; i < n; i++ {
		if r.P(3, 4) {
			cl = append(cl, Op{Kind: "close", File: i, Handle: r.N(60)})
		}
	}
	if r.P(1, 3) {
		cl = append(cl, Op{Kind: "mclose", Handle: r.N(40)})
	}
	p.Ops = cl
	p.set("twice", int64(r.N(2)))
	p.set("others", int64(r.N(6)))
	p.Clock = genClock(r)
	p.Stall = pick(r, 0, 0, 2, 5, 20)
	for i := 0; i < r.N(3); i++ {
		p.Faults = append(p.Faults, Fault{Phase: 0, Sys: "read", Nth: 1 + r.N(40), Kind: pick(r, "short", "EINTR"), Arg: int64(r.U() >> 40), Times: pick(r, 0, 3)})
	}
}

func execP26(w *World) {
	e := w.openAll()
	if e == nil {
		return
	}
	segs := w.segments(len(w.p.Files))
	if segs == nil {
		w.bump("prepare-failed", 1)
		return
	}
	last := len(w.p.Files) - 1
	w.Free(func() { e.readers[last].Close() })
	e.multi = multicol.NewMultiReader(e.readers[:last])
	e.models = w.models
	begun := make([]bool, last) // somebody has begun to close it
	gone := make([]bool, last)  // a close of it has returned
	type outcome struct {
		res   Res
		done  bool
		begun []bool // at the end of the call
		gone  []bool // at its beginning
	}
	res := make([][]outcome, len(w.p.Tasks))
	var tasks []func()
	for t := range w.p.Tasks {
		res[t] = make([]outcome, len(w.p.Tasks[t]))
		tasks = append(tasks, func() {
			for i := range w.p.Tasks[t] {
				o := &res[t][i]
				o.gone = peek(gone)
				o.res = e.call(w.multiOver(&w.p.Tasks[t][i], last))
				o.begun = peek(begun)
				o.done = true
			}
		})
	}
	closers := 1 + int(w.p.par("twice"))
	for c := 0; c < closers; c++ {
		tasks = append(tasks, func() {
			for i := range w.p.Ops {
				op := &w.p.Ops[i]
				for j := 0; j < op.Handle*(1+c); j++ {
					runtime.Gosched()
				}
				if op.Kind == "mclose" {
					for k := range begun {
						poke(begun, k)
					}
					e.multi.Close()
					for k := range gone {
						poke(gone, k)
					}
				} else if op.File < last {
					poke(begun, op.File)
					e.readers[op.File].Close()
					poke(gone, op.File)
				}
			}
		})
	}
	// files that come into the freed handles
	m := e.models[last]
	for t := 0; t < int(w.p.par("others")); t++ {
		tasks = append(tasks, func() {
			for i := 0; i < 6; i++ {
				rd, err := col.NewReader(e.paths[last])
				if err != nil {
					w.fail("disturbed", "another file does not open while readers are closed: %v", err)
					return
				}
				for b := range m.Blocks {
					ids, vals, err := rd.GetPairs(uint64(b))
					s := ""
					if err != nil {
						s = err.Error()
					} else {
						s = samePairs(ids, vals, m.Blocks[b])
					}
					if s != "" {
						w.fail("disturbed", "another file reads wrong while readers are closed: block %d: %s", b, s)
						return
					}
				}
				if err := rd.Close(); err != nil {
					w.fail("disturbed", "another file cannot be closed: %v", err)
					return
				}
			}
		})
	}
	w.k.Phase(0)
	w.Run(true, tasks...)
	if len(w.viol) > 0 {
		return
	}
	for t := range res {
		for i := range res[t] {
			op, o := w.multiOver(&w.p.Tasks[t][i], last), &res[t][i]
			if !o.done {
				continue
			}
			touched, before := false, false
			over := []int{op.File}
			if op.Kind == "magg" {
				over = e.over(op)
			}
			var bad []ival
			for _, k := range over {
				touched = touched || o.begun[k]
				before = before || o.gone[k]
				if o.begun[k] {
					bad = append(bad, ival{file: e.paths[k], a: 0, b: 1 << 62})
				}
			}
			who := fmt.Sprintf("task %d operation %d (%s)", t, i, op.String())
			if o.res.Err != nil {
				if !touched {
					w.fail("error-without-cause", "%s failed although nobody had begun to close its reader: %v", who, o.res.Err)
					return
				}
				continue
			}
			s := e.judge(op, &o.res)
			if s == "" {
				if before && op.Kind == "pairs" {
					w.fail("accepted", "%s: a block was read from a reader that had been closed before", who)
					return
				}
				continue
			}
			if touched && (op.Kind == "agg" || op.Kind == "magg") {
				if part, _ := e.explain(op, &o.res, segs, bad); part {
					w.bump("partial", 1)
					continue
				}
				s += " (and no choice of blocks left out explains it)"
			}
			w.fail("wrong-result", "%s, while its reader was being closed: %s", who, s)
			return
		}
	}
	if n := w.stats["goroutines-left"]; n > 0 {
		w.fail("goroutine-leak", "%d goroutines left behind", n)
		return
	}
	w.Run(false, func() {
		for i := 0; i < last; i++ {
			e.readers[i].Close()
		}
	})
	if len(w.viol) > 0 {
		return
	}
	if h := w.k.OpenHandles(); len(h) > 0 {
		w.fail("handle-leak", "still open after all readers were closed: %s", joinShort(h, 4))
	}
}

// peek and poke keep the harness's own notes without giving the race detector
// anything to see: no access to report, and no order between the tasks.
//
//go:norace
func peek(f []bool) []bool {
	out := make([]bool, len(f))
	for i := range f {
		out[i] = f[i]
	}
	return out
}

//go:norace
func poke(f []bool, i int) { f[i] = true }

// multiOver limits queries over all readers to the first n.
func (w *World) multiOver(op *Op, n int) *Op {
	if op.Kind != "magg" || op.Sub != 0 {
		return op
	}
	q := *op
	q.Sub = 1<<uint(n) - 1
	return &q
}
