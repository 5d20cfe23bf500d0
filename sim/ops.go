package main

import (
	"encoding/json"
	"fmt"
	"runtime"

	"vibe-lsm/pkg/col"
	"vibe-lsm/pkg/multicol"

	"github.com/weaviate/sroar"
)

// Env is what reading tasks share: open readers and filter bitmaps.
type Env struct {
	w       *World
	paths   []string
	models  []*Model
	readers []*col.Reader
	multi   *multicol.MultiReader
	sets    map[string]*sroar.Bitmap
	maps    map[string]map[uint64]bool
	closed  map[int]bool
	caching []bool // P25: id sets are kept by the reader
	lenient bool   // results may be partial exactly as known finding P06 says
}

// Res is the outcome of one operation.
type Res struct {
	Err   error
	IDs   []uint64
	Vals  []int64
	Agg   col.AggregateResult
	Idx   []uint64
	BM    *sroar.Bitmap
	Str   string
	Bad   string // why the result is wrong ("" if right or an error)
	Fault bool   // a storage call failed during the operation
}

func newEnv(w *World) *Env {
	e := &Env{w: w, models: w.models, sets: map[string]*sroar.Bitmap{}, maps: map[string]map[uint64]bool{}, closed: map[int]bool{}}
	for i := range w.p.Files {
		e.paths = append(e.paths, w.p.Files[i].Path)
	}
	e.readers = make([]*col.Reader, len(e.paths))
	return e
}

func setKey(s *SetSpec) string {
	b, _ := json.Marshal(s)
	return string(b)
}

// resolve prepares every filter of the operations before the scheduled part.
func (e *Env) resolve(tasks ...[]Op) {
	for _, ops := range tasks {
		for i := range ops {
			for _, s := range []*SetSpec{ops[i].Allow, ops[i].Deny} {
				key := setKey(s)
				if _, ok := e.maps[key]; ok {
					continue
				}
				m, has := s.resolve(e.models)
				if !has {
					continue
				}
				e.maps[key] = m
				e.sets[key] = bitmapOf(sortedIDs(m))
			}
		}
	}
}

func (e *Env) set(s *SetSpec) (*sroar.Bitmap, map[uint64]bool) {
	if s == nil || s.Kind == "none" {
		return nil, nil
	}
	k := setKey(s)
	return e.sets[k], e.maps[k]
}

func (e *Env) opts(op *Op) col.AggregateOptions {
	o := col.AggregateOptions{SkipPreCalculated: op.Skip, Parallel: op.Par}
	if o.Parallel > 500 {
		for _, m := range e.models { // the run queue holds 16384 goroutines
			if m != nil && len(m.Blocks) > 500 {
				o.Parallel = 500
			}
		}
	}
	o.Filter, _ = e.set(op.Allow)
	o.DenyFilter, _ = e.set(op.Deny)
	return o
}

func (e *Env) want(op *Op, m *Model) Agg {
	_, allow := e.set(op.Allow)
	_, deny := e.set(op.Deny)
	return aggregate(m.Pairs(), allow, deny, op.Allow != nil && op.Allow.Kind != "none")
}

// over lists the readers a query is about.
func (e *Env) over(op *Op) []int {
	var out []int
	for i := range e.models {
		if op.Sub == 0 || op.Sub>>uint(i)&1 == 1 {
			out = append(out, i)
		}
	}
	return out
}

// wantMulti is the newest-wins result over several files, oldest first.
func wantMulti(models []*Model, allow map[uint64]bool, hasAllow bool) Agg {
	var a Agg
	seen := map[uint64]bool{}
	for i := len(models) - 1; i >= 0; i-- {
		for _, p := range models[i].Pairs() {
			if seen[p.ID] || hasAllow && !allow[p.ID] {
				continue
			}
			a.add(p.Val)
		}
		for id := range models[i].IDs() {
			seen[id] = true
		}
	}
	return a
}

// call performs one operation against the library (no checking).
func (e *Env) call(op *Op) (r Res) {
	h := op.File
	var rd *col.Reader
	if h < len(e.readers) {
		rd = e.readers[h]
	}
	switch op.Kind {
	case "open":
		rd, err := col.NewReader(e.paths[h])
		r.Err = err
		if err == nil {
			e.readers[h] = rd
			e.closed[h] = false
		}
		return r
	case "magg":
		f, _ := e.set(op.Allow)
		m := e.multi
		if op.Sub != 0 {
			var rs []*col.Reader
			for _, i := range e.over(op) {
				rs = append(rs, e.readers[i])
			}
			m = multicol.NewMultiReader(rs)
		}
		r.Agg, r.Err = m.Aggregate(multicol.AggregateOptions{SkipPreCalculated: op.Skip, Filter: f})
		return r
	}
	if rd == nil {
		r.Err = fmt.Errorf("not open")
		r.Str = "skipped"
		return r
	}
	switch op.Kind {
	case "close":
		r.Err = rd.Close()
		e.closed[h] = true
	case "pairs":
		b := uint64(op.Block)
		if op.Block >= 0 {
			if n := rd.BlockCount(); n > 0 {
				b %= n
			}
		}
		r.Idx = []uint64{b}
		r.IDs, r.Vals, r.Err = rd.GetPairs(b)
	case "agg":
		if op.Par == 0 && !op.Skip && op.Allow == nil && op.Deny == nil && op.Retry == 0 {
			r.Agg = rd.Aggregate()
		} else {
			r.Agg = rd.AggregateWithOptions(e.opts(op))
		}
	case "ids":
		r.BM, r.Err = rd.GetGlobalIDBitmap()
	case "cacheon":
		rd.EnableGlobalIDBitmapCaching()
	case "cacheoff":
		rd.DisableGlobalIDBitmapCaching()
	case "iter":
		a, _ := e.set(op.Allow)
		d, _ := e.set(op.Deny)
		r.Idx = rd.FilteredBlockIterator(a, d)
	case "info":
		if rd.BlockCount() <= 200 { // the text is built in quadratic time and space
			r.Str = rd.DebugInfo()
		}
		r.Idx = []uint64{rd.BlockCount(), uint64(rd.EncodingType()), uint64(rd.Version())}
	}
	return r
}

// judge compares an outcome with the model; "" means right. Errors are left
// to the caller.
func (e *Env) judge(op *Op, r *Res) string {
	if r.Err != nil || r.Str == "skipped" {
		return ""
	}
	if op.Kind == "magg" {
		_, allow := e.set(op.Allow)
		var ms []*Model
		for _, i := range e.over(op) {
			ms = append(ms, e.models[i])
		}
		return sameAgg(r.Agg, wantMulti(ms, allow, op.Allow != nil && op.Allow.Kind != "none"))
	}
	m := e.models[op.File]
	switch op.Kind {
	case "pairs":
		b := r.Idx[0]
		if b >= uint64(len(m.Blocks)) {
			return fmt.Sprintf("block %d does not exist (%d blocks) but %d pairs were returned", int64(b), len(m.Blocks), len(r.IDs))
		}
		if s := samePairs(r.IDs, r.Vals, m.Blocks[b]); s != "" {
			return fmt.Sprintf("block %d: %s", b, s)
		}
	case "agg":
		return sameAgg(r.Agg, e.want(op, m))
	case "ids":
		return sameIDs(r.BM, m.IDs())
	case "iter":
		return e.judgeIter(op, m, r.Idx)
	case "info":
		if r.Idx[0] != uint64(len(m.Blocks)) {
			return fmt.Sprintf("%d blocks, want %d", r.Idx[0], len(m.Blocks))
		}
		if r.Idx[1] != uint64(m.Enc) {
			return fmt.Sprintf("encoding %d, want %d", r.Idx[1], m.Enc)
		}
		if r.Idx[2] != 1 {
			return fmt.Sprintf("version %d", r.Idx[2])
		}
	}
	return ""
}

// judgeIter: every block holding a selected pair must be listed, once, and
// only existing blocks may be.
func (e *Env) judgeIter(op *Op, m *Model, idx []uint64) string {
	_, allow := e.set(op.Allow)
	_, deny := e.set(op.Deny)
	seen := map[uint64]bool{}
	for _, b := range idx {
		if b >= uint64(len(m.Blocks)) {
			return fmt.Sprintf("block %d is listed, the file has %d", b, len(m.Blocks))
		}
		if seen[b] {
			return fmt.Sprintf("block %d is listed twice", b)
		}
		seen[b] = true
	}
	for i, b := range m.Blocks {
		if !seen[uint64(i)] {
			if a := aggregate(b, allow, deny, op.Allow != nil && op.Allow.Kind != "none"); a.Count > 0 {
				return fmt.Sprintf("block %d holds %d selected pairs but is not listed", i, a.Count)
			}
		}
	}
	return ""
}

// failedNow says whether a storage call failed since the last call.
func (w *World) failedNow() bool {
	old := runtime.VerifEnter()
	f := w.k.failed > 0
	w.k.failed = 0
	runtime.VerifLeave(old)
	return f
}

func (op *Op) String() string {
	b, _ := json.Marshal(op)
	return string(b)
}

func genAgg(r *Rng, nfiles int) Op {
	op := Op{Kind: "agg", File: r.N(max(nfiles, 1)), Retry: 1}
	op.Par = pick(r, 0, 0, 1, 2, 2, 3, 3, 4, 5, 8, 8, 16, 64, 1000, 1<<40, -1, -1, -1<<63)
	op.Skip = r.P(1, 2)
	return op
}

func genFilter(r *Rng, op *Op, nfiles int) {
	op.Allow = genSet(r, nfiles, true)
	op.Deny = genSet(r, nfiles, false)
	if r.P(2, 3) {
		if r.P(1, 2) {
			op.Allow = nil
		} else {
			op.Deny = nil
		}
	}
}
