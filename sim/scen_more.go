package main

import (
	"errors"
	"fmt"
	"runtime"

	"vibe-lsm/pkg/col"
)

func init() {
	scenarios["P22"] = &scenario{gen: genP22, exec: execP22}
	scenarios["P23"] = &scenario{gen: genP23, exec: execP23}
	scenarios["P24"] = &scenario{gen: genP24, exec: execP24}
}

// ---- P22: a refused call changes nothing

func genP22(r *Rng, p *Plan) {
	f := smallAny(r, "/simfs/q.col")
	f.NoFinal = f.API == "writer" && r.P(1, 8)
	for i := range f.Batches {
		f.Batches[i].Bad = ""
	}
	p.Files = []FileSpec{f}
	n := len(f.Batches)
	kinds := []string{"mismatch", "mismatch", "longer", "empty", "nil", "nilids", "est-mismatch", "est-empty", "pairs", "open", "badtarget"}
	late := []string{"write", "write", "finalize", "finclose", "close", "settarget", "mismatch", "estimate", "empty"}
	for i := 0; i < 1+r.N(6); i++ {
		op := Op{Kind: pick(r, kinds...), Block: int64(r.N(n + 1)), Handle: r.N(200), Par: r.N(2)}
		if r.P(1, 3) {
			op = Op{Kind: pick(r, late...), Block: int64(n + 1), Handle: r.N(200)}
		}
		p.Ops = append(p.Ops, op)
	}
	if r.P(1, 12) { // an encoding that does not exist
		p.set("badenc", int64(pick(r, uint32(8), 9, 15, 255, 1<<31, 1<<32-1)))
	}
	p.Clock = genClock(r)
	pr, w := probe(p)
	if len(w.viol) > 0 {
		return
	}
	benign(r, p, pr, 0)
}

// history drives f through the API and reports what a caller saw. With
// refused, the plan's invalid calls are made on the way.
func (w *World) history(f *FileSpec, refused bool) (log []string, content []Pair, done bool) {
	opts := []col.WriterOption{col.WithEncoding(f.Enc)}
	if f.Block > 0 {
		opts = append(opts, col.WithBlockSize(uint32(f.Block)))
	}
	see := func(format string, a ...any) { log = append(log, fmt.Sprintf(format, a...)) }
	var wr *col.Writer
	var sw *col.SimpleWriter
	var err error
	w.k.Phase(0)
	if f.API == "simple" {
		sw, err = col.NewSimpleWriter(f.Path, opts...)
	} else {
		wr, err = col.NewWriter(f.Path, opts...)
	}
	see("create %v", err == nil)
	if err != nil {
		return
	}
	stopped := false
	bad := func(at int, mid int) {
		for i := range w.p.Ops {
			op := &w.p.Ops[i]
			if !refused || int(op.Block) != at || at <= len(f.Batches) && op.Par != mid {
				continue
			}
			w.refuse(f, op, wr, sw, at > len(f.Batches))
		}
	}
	for i := range f.Batches {
		b := &f.Batches[i]
		w.k.Phase(1 + i)
		bad(i, 0)
		ids, vals := b.expand()
		if sw != nil {
			if b.Target > 0 {
				sw.SetTargetBlockSize(int(b.Target))
			}
			err := sw.Write(ids, vals)
			bad(i, 1)
			see("write %v, total %d", err == nil, sw.TotalItems())
			if err == nil {
				content = append(content, pairsOf(ids, vals)...)
			}
			continue
		}
		for len(ids) > 0 {
			est, _ := wr.EstimateBlockSize(ids, vals)
			err := wr.WriteBlock(ids, vals)
			bad(i, 1)
			var full *col.BlockFullError
			if errors.As(err, &full) && full.ItemsWritten > 0 && full.ItemsWritten < len(ids) {
				see("full %d, estimate %d", full.ItemsWritten, est)
				content = append(content, pairsOf(ids[:full.ItemsWritten], vals[:full.ItemsWritten])...)
				ids, vals = ids[full.ItemsWritten:], vals[full.ItemsWritten:]
				continue
			}
			see("write %v, estimate %d", err == nil, est)
			if err == nil {
				content = append(content, pairsOf(ids, vals)...)
			}
			break
		}
	}
	n := len(f.Batches)
	w.k.Phase(1 + n)
	bad(n, 0)
	bad(n, 1)
	w.k.Phase(2 + n)
	switch {
	case sw != nil:
		err = sw.Close()
		see("close %v, total %d, closed %v", err == nil, sw.TotalItems(), sw.IsClosed())
	case f.NoFinal:
		err = wr.Close()
		stopped = true
		see("abandon %v", err == nil)
	case f.Split:
		err = wr.Finalize()
		see("finalize %v", err == nil)
		if e := wr.Close(); e != nil {
			see("close %v", e)
		}
	default:
		err = wr.FinalizeAndClose()
		see("finish %v", err == nil)
	}
	done = err == nil && !stopped
	w.k.Phase(3 + n)
	before := append([]byte(nil), w.k.Bytes(f.Path)...)
	bad(n+1, 0)
	if sw != nil {
		see("total %d, closed %v", sw.TotalItems(), sw.IsClosed())
	}
	if string(before) != string(w.k.Bytes(f.Path)) {
		w.fail("changed-after-close", "calls on a closed writer changed the file (%d bytes, then %d)", len(before), len(w.k.Bytes(f.Path)))
	}
	return
}

// refuse makes one call that must be refused.
func (w *World) refuse(f *FileSpec, op *Op, wr *col.Writer, sw *col.SimpleWriter, closed bool) {
	k := 2 + op.Handle%7
	r := NewRng(uint64(op.Handle))
	ids, vals := make([]uint64, k), make([]int64, k)
	for i := range ids {
		ids[i], vals[i] = r.U()>>uint(r.N(60)), int64(r.U())
	}
	write := func(ids []uint64, vals []int64) error {
		if sw != nil {
			return sw.Write(ids, vals)
		}
		return wr.WriteBlock(ids, vals)
	}
	must := true
	var err error
	keepI, keepV := append([]uint64(nil), ids...), append([]int64(nil), vals...)
	switch op.Kind {
	case "mismatch":
		err = write(ids, vals[:op.Handle%k])
	case "longer":
		err = write(ids[:op.Handle%k], vals)
	case "nilids":
		err = write(nil, vals)
	case "empty":
		err = write([]uint64{}, []int64{})
		must = sw == nil // the buffered writer has nothing to do
	case "nil":
		err = write(nil, nil)
		must = sw == nil
	case "est-mismatch", "est-empty":
		if wr == nil {
			return
		}
		if op.Kind == "est-empty" {
			_, err = wr.EstimateBlockSize(nil, nil)
		} else {
			_, err = wr.EstimateBlockSize(ids, vals[:k-1])
		}
	case "estimate":
		if wr == nil {
			return
		}
		_, err = wr.EstimateBlockSize(ids, vals)
		must = false
	case "write":
		err = write(ids, vals)
		must = closed
	case "badtarget": // a size the file format cannot hold
		if sw == nil {
			return
		}
		err = sw.SetTargetBlockSize(pick(r, -1, -4096, 1<<32, 1<<32+4096, 1<<40, -1<<63, 1<<63-1, -1<<32))
	case "settarget":
		if sw == nil || !closed {
			return
		}
		err = sw.SetTargetBlockSize(100 + op.Handle)
	case "finalize", "finclose", "close":
		must = false
		switch {
		case sw != nil:
			err = sw.Close()
		case op.Kind == "finalize":
			err = wr.Finalize()
			must = f.NoFinal // an abandoned file is not finished
		case op.Kind == "finclose":
			err = wr.FinalizeAndClose()
			must = f.NoFinal
		default:
			err = wr.Close()
		}
	case "open": // somebody tries to read something that is not there
		if rd, e := col.NewReader(pick(r, "/simfs/none.col", "/simfs/dir")); e == nil {
			rd.Close()
		} else {
			err = e
		}
	case "pairs":
		return
	}
	for i := range ids {
		if ids[i] != keepI[i] || vals[i] != keepV[i] {
			w.fail("caller-data-changed", "a refused call (%s) changed the caller's data", op.Kind)
			return
		}
	}
	if must && err == nil {
		w.fail("accepted", "an invalid call (%s, closed: %v) reported success", op.Kind, closed)
	}
}

func execP22(w *World) {
	f := w.p.Files[0]
	w.k.Put("/simfs/dir", nil)
	w.k.names["/simfs/dir"].dir = true
	if w.p.par("badenc") != 0 {
		w.execBadEncoding()
		return
	}
	// the same history without the refused calls
	q := w.p.clone()
	q.Faults, q.Stall = nil, 0
	q.Clock = Clock{Start: 1700000000e9, Step: 1}
	v := NewWorld(q)
	v.k.Put("/simfs/dir", nil)
	var la, lb []string
	var want, got []Pair
	var da, db bool
	v.Run(false, func() { la, want, da = v.history(&f, false) })
	if len(v.viol) > 0 {
		w.bump("prepare-failed", 1)
		return
	}
	w.Run(false, func() { lb, got, db = w.history(&f, true) })
	if len(w.viol) > 0 {
		return
	}
	for i := range la {
		if i >= len(lb) || la[i] != lb[i] {
			s := "nothing"
			if i < len(lb) {
				s = lb[i]
			}
			w.fail("outcome-differs", "step %d gives %q after refused calls, %q without them", i, s, la[i])
			return
		}
	}
	if len(lb) != len(la) || da != db || len(want) != len(got) {
		w.fail("outcome-differs", "%d steps with refused calls, %d without", len(lb), len(la))
		return
	}
	x, y := v.k.Bytes(f.Path), w.k.Bytes(f.Path)
	if len(x) != len(y) {
		w.fail("contents-differ", "the file has %d bytes after refused calls, %d without them", len(y), len(x))
		return
	}
	for i := range x {
		if x[i] != y[i] && (i < 36 || i >= 44) {
			w.fail("contents-differ", "refused calls change the byte at offset %d from %#x to %#x", i, x[i], y[i])
			return
		}
	}
	if h := w.k.OpenHandles(); len(h) > 0 {
		w.fail("handle-leak", "still open after the end: %s", joinShort(h, 4))
		return
	}
	if !db {
		return
	}
	w.k.crash = &Crash{Power: true, Mode: "none"}
	w.k.Reboot()
	// reading: invalid calls between valid ones
	var rd *col.Reader
	w.Run(false, func() {
		w.k.Phase(900)
		rd, _ = col.NewReader(f.Path)
	})
	if rd == nil {
		w.fail("unreadable", "the finished file does not open")
		return
	}
	w.Run(false, func() {
		w.k.Phase(901)
		n := rd.BlockCount()
		for i := range w.p.Ops {
			op := &w.p.Ops[i]
			if op.Kind == "pairs" {
				for _, b := range []uint64{n, n + 1, n + uint64(op.Handle), 1 << 31, 1 << 32, 1<<63 - 1, 1 << 63, 1<<63 + uint64(op.Handle), ^uint64(0)} {
					if ids, _, err := rd.GetPairs(b); err == nil {
						w.fail("accepted", "block %d of %d does not exist but %d pairs were returned", b, n, len(ids))
						return
					}
				}
			}
		}
		var all []Pair
		for b := uint64(0); b < n; b++ {
			ids, vals, err := rd.GetPairs(b)
			if err != nil {
				w.fail("outcome-differs", "after refused calls block %d cannot be read: %v", b, err)
				return
			}
			all = append(all, pairsOf(ids, vals)...)
		}
		if s := sameBag(all, got); s != "" {
			w.fail("contents-differ", "after refused calls the file reads wrong: %s", s)
			return
		}
		rd.Close()
		if n > 0 {
			if ids, _, err := rd.GetPairs(0); err == nil {
				w.fail("accepted", "a closed reader returned %d pairs", len(ids))
			}
		}
		rd.Close()
	})
}

// execBadEncoding: data under an encoding that does not exist is refused, at
// the latest when the file is finished, and never stored.
func (w *World) execBadEncoding() {
	f := w.p.Files[0]
	f.Enc = uint32(w.p.par("badenc"))
	var content []Pair
	var done bool
	w.Run(false, func() { _, content, done = w.history(&f, false) })
	if len(w.viol) > 0 {
		return
	}
	if done && len(content) > 0 {
		w.fail("accepted", "%d pairs were accepted under encoding %d and the file was finished", len(content), f.Enc)
		return
	}
	if f.API != "simple" && len(content) > 0 {
		w.fail("accepted", "%d pairs were accepted under encoding %d", len(content), f.Enc)
	}
	if h := w.k.OpenHandles(); len(h) > 0 {
		w.fail("handle-leak", "still open after the end: %s", joinShort(h, 4))
	}
}

// ---- P23: queries touch only the blocks they need

func genP23(r *Rng, p *Plan) {
	f := readable(r, "/simfs/n.col")
	if r.P(2, 3) {
		ladder(r, &f)
	}
	mid(r, &f, 25)
	many(r, &f, 25)
	relay(r, &f, 5)
	p.Files = []FileSpec{f}
	p.Sched = genSched(r)
	p.Cores = pick(r, 1, 2, 4, 8)
	p.Clock = genClock(r)
	p.set("fail", int64(pick(r, 0, 1, 1, 2)))
	if r.P(1, 4) {
		p.Stall = pick(r, 3, 10)
	}
	for i := 0; i < 2+r.N(7); i++ {
		op := genAgg(r, 1)
		switch r.N(8) {
		case 0:
			op = Op{Kind: "pairs", Block: anyBlock(r)}
		case 1:
			op = Op{Kind: pick(r, "iter", "info", "ids", "cacheon", "cacheoff", "open")}
			if op.Kind == "iter" {
				genFilter(r, &op, 1)
			}
		case 2:
		default:
			op.Allow = genSet(r, 1, true)
			if r.P(1, 4) {
				op.Deny = genSet(r, 1, false)
			}
		}
		p.Ops = append(p.Ops, op)
	}
	benignReads(r, p)
}

// needed says which blocks an operation may have to look at.
func (e *Env) needed(op *Op, m *Model, pf *parsedFile) map[int]bool {
	need := map[int]bool{}
	all := func() {
		for i := range m.Blocks {
			need[i] = true
		}
	}
	switch op.Kind {
	case "pairs":
		if n := len(m.Blocks); n > 0 {
			need[int(op.Block)%n] = true
		}
	case "agg":
		_, allow := e.set(op.Allow)
		switch {
		case op.Allow != nil && op.Allow.Kind != "none":
			if len(allow) == 0 {
				all() // an empty set has no range
				break
			}
			ids := sortedIDs(allow)
			lo, hi := ids[0], ids[len(ids)-1]
			for i, b := range pf.Blocks {
				if b.MaxID >= lo && b.MinID <= hi {
					need[i] = true
				}
			}
		case op.Deny != nil && op.Deny.Kind != "none" || op.Skip:
			all()
		}
	}
	return need
}

func execP23(w *World) {
	e := w.openAll()
	if e == nil {
		return
	}
	defer e.closeAll()
	m := e.models[0]
	pf, err := parseFile(w.k.Bytes(e.paths[0]))
	if err != nil || len(pf.Blocks) != len(m.Blocks) {
		w.bump("prepare-failed", 1)
		return
	}
	faults := w.k.faults
	for i := range w.p.Ops {
		op := w.p.Ops[i]
		need := e.needed(&op, m, pf)
		fs := append([]Fault(nil), faults...)
		if w.p.par("fail") > 0 {
			for j, b := range pf.Blocks {
				if !need[j] {
					fs = append(fs, Fault{Phase: i, Sys: "read", Kind: "EIO", Off: b.Off, Len: b.Size, Times: -1})
				}
			}
		}
		w.k.SetFaults(fs)
		w.k.badReads = nil
		var r Res
		touched := -1
		w.k.watch = func(sys string, off int64, n int) {
			if sys != "read" {
				return
			}
			for j, b := range pf.Blocks {
				if off < b.Off+b.Size && b.Off < off+int64(n) && !need[j] {
					touched = j
				}
			}
		}
		w.Run(true, func() {
			w.k.Phase(i)
			if op.Kind == "open" {
				e.readers[0].Close()
			}
			r = e.call(&op)
		})
		w.k.watch = nil
		if len(w.viol) > 0 {
			return
		}
		for _, b := range w.k.badReads {
			for j := range pf.Blocks {
				if b.a < pf.Blocks[j].Off+pf.Blocks[j].Size && pf.Blocks[j].Off < b.b && !need[j] {
					touched = j
				}
			}
		}
		if touched >= 0 {
			w.fail("needless-read", "%s reads block %d (ids %d to %d), which it does not need; it needs %d of %d blocks", op.String(), touched, pf.Blocks[touched].MinID, pf.Blocks[touched].MaxID, len(need), len(m.Blocks))
			return
		}
		if op.Kind == "pairs" && len(m.Blocks) == 0 {
			continue
		}
		if r.Err != nil {
			w.fail("needless-failure", "%s fails although everything it needs can be read: %v", op.String(), r.Err)
			return
		}
		if s := e.judge(&op, &r); s != "" {
			w.fail("wrong-result", "%s: %s (only blocks it does not need cannot be read)", op.String(), s)
			return
		}
	}
}

// ---- P24: open files stay the same files when their paths change

func genP24(r *Rng, p *Plan) {
	f := smallAny(r, "/simfs/p.col")
	f.NoFinal = false
	g := smallReadable(r, "/simfs/other.col")
	mid(r, &f, 40)
	many(r, &f, 60)
	p.Files = []FileSpec{g, f}
	p.Clock = genClock(r)
	n := len(f.Batches)
	moves := []string{"rename", "rename", "replace", "replace", "unlink", "recreate"}
	for i := 0; i < 1+r.N(3); i++ {
		p.Ops = append(p.Ops, Op{Kind: pick(r, moves...), Block: int64(r.N(n + 2))})
	}
	rd := 2 + r.N(6)
	for i := 0; i < rd; i++ {
		op := genAgg(r, 1)
		switch r.N(6) {
		case 0, 1:
			op = Op{Kind: "pairs", Block: anyBlock(r)}
		case 2:
			op = Op{Kind: "ids"}
		case 3:
			op = Op{Kind: pick(r, moves...), Block: -1}
		case 4:
			op = Op{Kind: pick(r, "cacheon", "cacheoff", "info")}
		}
		if op.Block >= 0 && (op.Kind == "agg" || op.Kind == "pairs" || op.Kind == "ids" || op.Kind == "info" || op.Kind[0] == 'c') {
			op.Handle = 1 // reading
		}
		p.Ops = append(p.Ops, op)
	}
	p.set("power", int64(r.N(2)))
	pr, w := probe(p)
	if len(w.viol) > 0 {
		return
	}
	benign(r, p, pr, 0)
	for i := 0; i < r.N(4); i++ { // moves in the middle of a call
		ph := pick(r, 1+r.N(n+2), 1+r.N(n+2), 899, 899, 800+r.N(len(p.Ops)))
		nth := 1 + r.N(8)
		if ph <= n+2 {
			nth = 1 + r.N(1+pr[ph]["any"])
		}
		p.Faults = append(p.Faults, Fault{Phase: ph, Sys: "any", Nth: nth, Kind: "move:" + pick(r, moves...)})
	}
	for i := 0; i < r.N(3); i++ { // reads that fail and are tried again
		p.Faults = append(p.Faults, Fault{Phase: 800 + r.N(len(p.Ops)), Sys: "read", Nth: 1 + r.N(3), Kind: pick(r, "EIO", "EIO", "short", "EINTR"), Arg: int64(r.U() >> 40)})
	}
}

func execP24(w *World) {
	if !w.prepareFiles(w.p.Files[:1], false) {
		return
	}
	f := w.p.Files[1]
	other := append([]byte(nil), w.k.Bytes(w.p.Files[0].Path)...)
	at := f.Path     // where the file of interest is now ("" if nowhere)
	var taken string // a path that now belongs to somebody else
	moved := 0
	var mine *inode
	move := func(kind string) {
		old := runtime.VerifEnter()
		defer runtime.VerifLeave(old)
		moved++
		switch kind {
		case "rename":
			if at == "" {
				return
			}
			to := fmt.Sprintf("/simfs/moved%d.col", moved)
			w.k.names[to] = w.k.names[at]
			delete(w.k.names, at)
			at = to
		case "unlink":
			if at != "" {
				delete(w.k.names, at)
			}
			at = ""
		case "replace", "recreate":
			p := f.Path
			if p == at {
				at = ""
				if kind == "replace" { // moved away first
					at = fmt.Sprintf("/simfs/moved%d.col", moved)
					w.k.names[at] = w.k.names[p]
				}
			}
			if w.k.names[p] == nil || w.k.names[p] == mine {
				w.k.nextIno++
				w.k.names[p] = &inode{id: w.k.nextIno, data: append([]byte(nil), other...), dur: append([]byte(nil), other...)}
				taken = p
			}
		}
		w.k.commit()
	}
	x := &Written{}
	n := len(f.Batches)
	// writing, with moves before each batch, before and after finishing
	hook := func(i int) {
		if mine == nil {
			mine = w.k.names[f.Path]
		}
		for j := range w.p.Ops {
			op := &w.p.Ops[j]
			if op.Handle == 0 && op.Block == int64(i) {
				move(op.Kind)
			}
		}
	}
	w.k.onMove = func(kind string) bool {
		if mine == nil || !w.k.isOpen(mine) { // nothing to disturb
			return false
		}
		move(kind)
		return true
	}
	w.Run(false, func() { w.write(&f, WriteOpts{X: x, Before: hook}) })
	onMove := w.k.onMove
	w.k.onMove = nil
	if len(w.viol) > 0 {
		w.viol = keepClass(w.viol, "panic", "swallowed-error")
		return
	}
	if !x.FinalOK {
		w.fail("write-refused", "writing failed because the path of the open file changed")
		return
	}
	hook(n + 1)
	intact := func(when string) bool {
		if taken == "" {
			return true
		}
		if i := w.k.names[taken]; i == nil || string(i.data) != string(other) {
			w.fail("wrong-file", "%s changed another file, which had taken the path in the meantime", when)
			return false
		}
		return true
	}
	if !intact("writing") {
		return
	}
	if at == "" {
		// only reachable through a handle: nothing left to look at
		w.k.names["/simfs/found.col"], at = mine, "/simfs/found.col"
		w.k.commit()
	}
	if w.p.par("power") == 1 {
		w.k.crash = &Crash{Power: true, Mode: "none"}
		w.k.Reboot()
		if !intact("writing") {
			return
		}
	}
	mine = w.k.names[at]
	w.verify(at, "the file, whose path changed while it was written,", true, x.content())
	if len(w.viol) > 0 {
		return
	}
	m, err := w.modelOf(at, x.content())
	if err != nil {
		w.bump("prepare-failed", 1)
		return
	}
	// reading: the path changes under an open reader
	w.models = []*Model{m}
	e := newEnv(w)
	e.paths = []string{at}
	e.readers = make([]*col.Reader, 1)
	e.resolve(w.p.Ops)
	path := at
	f.Path = at
	w.k.onMove = onMove
	w.Run(false, func() {
		w.k.Phase(899)
		e.readers[0], err = col.NewReader(path)
	})
	if len(w.viol) > 0 {
		return
	}
	if err != nil {
		w.fail("reader-lost-file", "opening fails because the path of the file changed meanwhile: %v", err)
		return
	}
	for i := range w.p.Ops {
		op := w.p.Ops[i]
		if op.Handle == 0 {
			if op.Block == -1 {
				move(op.Kind)
			}
			continue
		}
		if op.Kind == "pairs" && len(m.Blocks) == 0 {
			continue
		}
		if op.Kind == "agg" {
			op.Retry = 1
		}
		for try := 0; try < 3; try++ {
			var r Res
			w.k.badReads = nil
			w.Run(true, func() {
				w.k.Phase(800 + i)
				w.k.failed = 0
				r = e.call(&op)
			})
			if len(w.viol) > 0 {
				return
			}
			if w.k.failed > 0 { // storage failed: try again
				continue
			}
			if r.Err != nil {
				w.fail("reader-lost-file", "%s fails after the path of the open file changed: %v", op.String(), r.Err)
				return
			}
			if s := e.judge(&op, &r); s != "" {
				w.fail("wrong-file", "%s after the path of the open file changed: %s", op.String(), s)
				return
			}
			break
		}
		if !intact("reading") {
			return
		}
	}
	e.closeAll()
}
