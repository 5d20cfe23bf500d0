package main

// P21: files another implementation of the published format could have
// written. The encoder below shares nothing with the code under test but the
// serialisation of the id set, which belongs to the bitmap library.

import (
	"fmt"
	"regexp"
	"strconv"

	"vibe-lsm/pkg/col"
	"vibe-lsm/pkg/multicol"
)

func init() {
	scenarios["P21"] = &scenario{gen: genP21, exec: execP21}
}

// Layout says where a foreign writer puts things.
type Layout struct {
	Seed   uint64 `json:"seed"`
	Bitmap string `json:"bitmap"`          // after before none
	Order  string `json:"order,omitempty"` // of the blocks in the file: rev shuf
	Align  int64  `json:"align,omitempty"` // of the blocks; 0: 4096
	Gaps   bool   `json:"gaps,omitempty"`  // unused bytes between the parts
	Swap   bool   `json:"swap,omitempty"`  // values before ids
	Inner  bool   `json:"inner,omitempty"` // unused bytes around the sections
	Noise  bool   `json:"noise,omitempty"` // unused bytes are not zero
	Sizes  bool   `json:"sizes,omitempty"` // uncompressed and compressed size are filled in
	Target uint32 `json:"target,omitempty"`
	Time   uint64 `json:"time,omitempty"`
	Hole   int64  `json:"hole,omitempty"` // size of a hole in the file
}

func putStat(v int64) uint64 {
	if v >= 0 {
		return uint64(v)
	}
	if v == -1<<63 {
		return 1 << 63
	}
	return uint64(-v) | 1<<63
}

func putNumbers(us []uint64, varint bool) []byte {
	var b []byte
	for _, u := range us {
		if varint {
			for u >= 0x80 {
				b = append(b, byte(u)|0x80)
				u >>= 7
			}
			b = append(b, byte(u))
			continue
		}
		b = le.AppendUint64(b, u)
	}
	return b
}

// foreign lays f out as l says: one block per batch. The hole, if there is one,
// starts where the result says and is not part of it.
func foreign(f *FileSpec, l *Layout) ([]byte, *Model, int64) {
	m := &Model{Enc: f.Enc}
	r := NewRng(l.Seed)
	unused := func(n int) []byte {
		b := make([]byte, n)
		if l.Noise {
			for i := range b {
				b[i] = byte(r.U() >> 13)
			}
		}
		return b
	}
	idVar, idDelta, valVar, valDelta, _ := encFlags(f.Enc)
	type blk struct {
		body                      []byte
		minID, maxID              uint64
		minV, maxV, sum           int64
		idOff, idLen, vOff, vLen  uint32
		off                       int64
		count, unsized, sizeField uint32
	}
	var bs []blk
	for i := range f.Batches {
		ids, vals := f.Batches[i].expand()
		if len(ids) == 0 {
			continue
		}
		m.Blocks = append(m.Blocks, pairsOf(ids, vals))
		b := blk{minID: ids[0], maxID: ids[0], minV: vals[0], maxV: vals[0], count: uint32(len(ids))}
		is, vs := make([]uint64, len(ids)), make([]uint64, len(ids))
		for j := range ids {
			b.minID, b.maxID = min(b.minID, ids[j]), max(b.maxID, ids[j])
			b.minV, b.maxV = min(b.minV, vals[j]), max(b.maxV, vals[j])
			b.sum += vals[j]
			is[j] = ids[j]
			if idDelta && j > 0 {
				is[j] = ids[j] - ids[j-1]
			}
			v := vals[j]
			if valDelta && j > 0 {
				v = vals[j] - vals[j-1]
			}
			vs[j] = uint64(v)
			if valVar {
				vs[j] = uint64(v<<1) ^ uint64(v>>63)
			}
		}
		si, sv := putNumbers(is, idVar), putNumbers(vs, valVar)
		var data []byte
		gap := func() {
			if l.Inner {
				data = append(data, unused(r.N(40))...)
			}
		}
		put := func(s []byte) (uint32, uint32) {
			gap()
			o := len(data)
			data = append(data, s...)
			return uint32(o), uint32(len(s))
		}
		if l.Swap && r.P(2, 3) {
			b.vOff, b.vLen = put(sv)
			b.idOff, b.idLen = put(si)
		} else {
			b.idOff, b.idLen = put(si)
			b.vOff, b.vLen = put(sv)
		}
		gap()
		var h []byte
		for _, u := range []uint64{b.minID, b.maxID, putStat(b.minV), putStat(b.maxV), putStat(b.sum)} {
			h = le.AppendUint64(h, u)
		}
		size := uint32(0)
		if l.Sizes {
			size = uint32(len(si) + len(sv))
		}
		for _, u := range []uint32{b.count, f.Enc, 0, size, size, 0, 0, 0} {
			h = le.AppendUint32(h, u)
		}
		h = h[:64]
		for len(h) < 64 {
			h = append(h, 0)
		}
		for _, u := range []uint32{b.idOff, b.idLen, b.vOff, b.vLen} {
			h = le.AppendUint32(h, u)
		}
		b.body = append(h, data...)
		bs = append(bs, b)
	}
	out := make([]byte, 64)
	holeAt := int64(-1)
	hole := int(NewRng(l.Seed+1).U()>>8) % (len(bs) + 1) // how many blocks precede it
	here := func() int64 {
		if holeAt >= 0 {
			return int64(len(out)) + l.Hole
		}
		return int64(len(out))
	}
	gap := func() {
		if l.Gaps {
			out = append(out, unused(r.N(600))...)
		}
	}
	var bmOff, bmLen uint64
	bitmap := func(where string) {
		if l.Bitmap != where {
			return
		}
		buf := bitmapOf(sortedIDs(m.IDs())).ToBuffer()
		bmOff, bmLen = uint64(here()), uint64(len(buf)+4)
		out = le.AppendUint32(out, uint32(len(buf)))
		out = append(out, buf...)
	}
	gap()
	bitmap("before")
	order := make([]int, len(bs))
	for i := range order {
		order[i] = i
		if l.Order == "rev" {
			order[i] = len(bs) - 1 - i
		}
	}
	if l.Order == "shuf" {
		for i := len(order) - 1; i > 0; i-- {
			j := r.N(i + 1)
			order[i], order[j] = order[j], order[i]
		}
	}
	align := l.Align
	if align <= 0 {
		align = 4096
	}
	for at, i := range order {
		gap()
		if at == hole {
			holeAt = int64(len(out))
		}
		if l.Align > 0 {
			out = append(out, unused(int(-int64(len(out))&(align-1)))...)
		}
		b := &bs[i]
		b.off = here()
		out = append(out, b.body...)
		out = append(out, unused(int(-int64(len(out))&(align-1)))...)
		b.sizeField = uint32(here() - b.off)
	}
	gap()
	if holeAt < 0 {
		holeAt = int64(len(out))
	}
	bitmap("after")
	gap()
	start := len(out)
	out = le.AppendUint32(out, uint32(len(bs)))
	for i := range bs {
		b := &bs[i]
		out = le.AppendUint64(out, uint64(b.off))
		out = le.AppendUint32(out, b.sizeField)
		for _, u := range []uint64{b.minID, b.maxID, putStat(b.minV), putStat(b.maxV), putStat(b.sum)} {
			out = le.AppendUint64(out, u)
		}
		out = le.AppendUint32(out, b.count)
	}
	out = le.AppendUint64(out, uint64(len(out)-start))
	out = le.AppendUint64(out, 0)
	out = le.AppendUint64(out, fileMagic)
	h := le.AppendUint64(nil, fileMagic)
	h = le.AppendUint32(h, 1)
	h = le.AppendUint32(h, 0)
	h = le.AppendUint64(h, uint64(len(bs)))
	h = le.AppendUint32(h, l.Target)
	h = le.AppendUint32(h, 0)
	h = le.AppendUint32(h, f.Enc)
	h = le.AppendUint64(h, l.Time)
	h = le.AppendUint64(h, bmOff)
	h = le.AppendUint64(h, bmLen)
	copy(out, h)
	return out, m, holeAt
}

func genLayout(r *Rng) *Layout {
	return &Layout{
		Seed: r.U() >> 12, Bitmap: pick(r, "after", "after", "before", "before", "none"),
		Order: pick(r, "", "", "rev", "shuf"), Align: pick(r, int64(0), 0, 1, 8, 512, 1024),
		Gaps: r.P(1, 3), Swap: r.P(1, 3), Inner: r.P(1, 3), Noise: r.P(1, 2), Sizes: r.P(1, 4),
		Target: pick(r, uint32(4096), 0, 1, 65536, 1<<32-1), Time: pick(r, uint64(0), 1700000000, 1<<63, ^uint64(0)),
	}
}

// relay lets another implementation write f, once in den times.
func relay(r *Rng, f *FileSpec, den int) {
	if !r.P(1, den) {
		return
	}
	for j := range f.Batches {
		f.Batches[j].Bad, f.Batches[j].Drop, f.Batches[j].Target = "", false, 0
	}
	f.API, f.Split, f.NoFinal = "writer", false, false
	f.Lay = genLayout(r)
	if f.Lay.Bitmap == "none" {
		f.Lay.Bitmap = "before"
	}
	switch {
	case r.P(1, 25): // more blocks than 8 bits count
		for j := pick(r, 240, 700) + r.N(60); len(f.Batches) < j; {
			f.Batches = append(f.Batches, Batch{N: 1 + r.N(2), ID: "seq", Val: "full", Start: r.U() >> uint(r.N(64)), Step: 1, Seed: r.U() >> 12})
		}
	case r.P(1, 50): // more pairs than 16 bits count
		f.Batches = append(f.Batches, Batch{N: 65530 + r.N(300), ID: "seq", Val: pick(r, "small", "full", "seq"), Start: r.U() >> uint(8+r.N(56)), Step: 1, Seed: r.U() >> 12})
	}
}

func genP21(r *Rng, p *Plan) {
	n := pick(r, 1, 1, 1, 2, 3)
	var gens []FileSpec
	if n > 1 {
		gens = generations(r, n)
	}
	for i := 0; i < n; i++ {
		f := readable(r, "/simfs/o0.col")
		if n > 1 {
			f = gens[i]
		}
		f.Path = fmt.Sprintf("/simfs/o%d.col", i)
		for j := range f.Batches {
			f.Batches[j].Bad, f.Batches[j].Drop, f.Batches[j].Target = "", false, 0
		}
		f.API, f.Split, f.NoFinal = "writer", false, false
		if i == 0 || r.P(2, 3) {
			f.Lay = genLayout(r)
			if r.P(1, 5) {
				f.Lay.Hole = pick(r, int64(1)<<31, 1<<32, 1<<32, 1<<32-1<<20, 1<<33, 1<<40, 1<<47)
			}
			if n == 1 && r.P(1, 60) { // very many blocks
				for j := 300 + r.N(2000); j > 0; j-- {
					f.Batches = append(f.Batches, Batch{N: 1 + r.N(2), ID: "seq", Val: "full", Start: r.U() >> uint(r.N(64)), Step: 1, Seed: r.U() >> 12})
				}
			}
			if n == 1 && r.P(1, 100) { // more pairs in a block than 16 bits count
				f.Batches = append(f.Batches, Batch{N: 65530 + r.N(300), ID: "seq", Val: "full", Start: r.U() >> uint(8+r.N(56)), Step: 1, Seed: r.U() >> 12})
			}
			if n == 1 && r.P(1, 3000) { // more blocks than 16 bits count
				f.Lay.Align, f.Lay.Gaps, f.Batches = 1, false, nil
				for j := 65530 + r.N(20); j > 0; j-- {
					f.Batches = append(f.Batches, Batch{IDs: []uint64{uint64(j) * 3}, Vals: []int64{int64(j)}})
				}
			}
			if n > 1 && f.Lay.Bitmap == "none" {
				f.Lay.Bitmap = "before" // several files need their id sets
			}
		}
		p.Files = append(p.Files, f)
	}
	p.Sched = genSched(r)
	p.Cores = pick(r, 1, 2, 4, 8)
	p.Clock = genClock(r)
	for i := 0; i < 3+r.N(8); i++ {
		var op Op
		switch r.N(9) {
		case 0, 1, 2:
			op = Op{Kind: "pairs", File: r.N(n), Block: anyBlock(r)}
		case 3, 4:
			op = genAgg(r, n)
			if r.P(1, 2) {
				genFilter(r, &op, n)
			}
		case 5:
			op = Op{Kind: "ids", File: r.N(n)}
		case 6:
			op = Op{Kind: "info", File: r.N(n)}
			if len(p.Files[op.File].Batches) > 200 { // the text would be built in quadratic time
				op.Kind = "ids"
			}
		case 7:
			op = Op{Kind: "iter", File: r.N(n)}
			genFilter(r, &op, n)
		default:
			op = Op{Kind: pick(r, "cacheon", "cacheoff", "ids", "close"), File: r.N(n)}
			if n > 1 && r.P(2, 3) {
				op = Op{Kind: "magg", Skip: r.P(1, 2)}
				if r.P(1, 2) {
					op.Allow = genSet(r, n, true)
				}
			}
		}
		p.Ops = append(p.Ops, op)
	}
	benignReads(r, p)
	if r.P(1, 2) {
		p.Faults = append(p.Faults, Fault{Phase: 900, Sys: "read", Nth: 1 + r.N(5), Kind: pick(r, "short", "EINTR"), Arg: int64(r.U() >> 40), Times: pick(r, 0, 0, 3)})
	}
}

func execP21(w *World) {
	var native []FileSpec
	for _, f := range w.p.Files {
		if f.Lay == nil {
			native = append(native, f)
		}
	}
	if !w.prepareFiles(native, true) {
		return
	}
	parsed := map[int]*parsedFile{}
	nat := w.models
	w.models = nil
	for i := range w.p.Files {
		f := &w.p.Files[i]
		if f.Lay == nil {
			w.models = append(w.models, nat[0])
			nat = nat[1:]
			continue
		}
		flat := *f.Lay
		flat.Hole = 0
		b, m, holeAt := foreign(f, &flat)
		pf, err := parseFile(b)
		if err != nil {
			panic("foreign file: " + err.Error())
		}
		for j := range pf.Blocks {
			if s := pf.Blocks[j].Err; s != nil && s != errTrailing {
				panic(fmt.Sprintf("foreign file, block %d: %v", j, s))
			}
			if s := samePairsB(pf.Blocks[j].Pairs, m.Blocks[j]); s != "" {
				panic("foreign file: " + s)
			}
		}
		if n := f.Lay.Hole; n > 0 {
			b, m, holeAt = foreign(f, f.Lay)
			w.k.PutSparse(f.Path, b, holeAt, n)
			for j := range pf.Blocks {
				if pf.Blocks[j].Off >= holeAt {
					pf.Blocks[j].Off += n
				}
			}
		} else {
			w.k.Put(f.Path, b)
		}
		w.models = append(w.models, m)
		parsed[i] = pf
	}
	e := newEnv(w)
	e.resolve(w.p.Ops)
	open := func(i int) {
		rd, err := col.NewReader(e.paths[i])
		if err != nil {
			w.fail("well-formed-refused", "a well-formed file is refused: %v", err)
			return
		}
		e.readers[i] = rd
	}
	w.Run(true, func() {
		w.k.Phase(900)
		for i := range e.paths {
			open(i)
		}
	})
	if len(w.viol) > 0 {
		return
	}
	e.multi = multicol.NewMultiReader(e.readers)
	for i := range w.p.Ops {
		op := w.p.Ops[i]
		if op.Kind == "close" { // and open again
			w.Run(true, func() { w.k.Phase(i); e.readers[op.File].Close(); open(op.File) })
			if len(w.viol) > 0 {
				return
			}
			continue
		}
		if len(e.models[op.File].Blocks) == 0 && op.Kind == "pairs" {
			continue
		}
		var r Res
		w.Run(true, func() {
			w.k.Phase(i)
			r = e.call(&op)
		})
		if len(w.viol) > 0 {
			return
		}
		l := w.p.Files[op.File].Lay
		if op.Kind == "ids" && r.Err == nil && l != nil && l.Bitmap == "none" {
			if n := r.BM.GetCardinality(); n != 0 {
				w.fail("misread", "a file without an id set has one of %d ids", n)
			}
			continue
		}
		s := e.judge(&op, &r)
		if op.Kind == "info" && s == "" && len(e.models[op.File].Blocks) <= 200 {
			s = e.judgeInfo(&op, &r, parsed[op.File])
		}
		if r.Err != nil {
			s = r.Err.Error()
		}
		if s != "" {
			w.fail("misread", "%s: %s", op.String(), s)
			return
		}
	}
	e.closeAll()
}

var number = regexp.MustCompile(`-?[0-9]+`)

// judgeInfo: every number the index stores about a block appears in the text,
// and the predicates about the encoding are right.
func (e *Env) judgeInfo(op *Op, r *Res, pf *parsedFile) string {
	rd := e.readers[op.File]
	if pf == nil { // not a foreign file
		var err error
		if pf, err = parseFile(e.w.k.Bytes(e.paths[op.File])); err != nil {
			return ""
		}
	}
	if d, want := rd.IsDeltaEncoded(), pf.Enc >= 1 && pf.Enc <= 3; d != want && pf.Enc <= 4 {
		return fmt.Sprintf("encoding %d, delta encoded: %v", pf.Enc, d)
	}
	if d, want := rd.IsVarIntEncoded(), pf.Enc >= 4; d != want {
		return fmt.Sprintf("encoding %d, variable length: %v", pf.Enc, d)
	}
	has := map[string]int{}
	for _, s := range number.FindAllString(r.Str, -1) {
		has[s]++
		if s[0] == '-' { // a range like 3-7 gives 3 and -7
			has[s[1:]]++
		}
	}
	need := map[string]int{} // as often as the file stores it
	give := func(s, what string, i int) string {
		if need[s]++; has[s] < need[s] {
			at := ""
			if i >= 0 {
				at = fmt.Sprintf(" of block %d", i)
			}
			return fmt.Sprintf("the description of the file does not give the %s%s, %s", what, at, s)
		}
		return ""
	}
	for _, h := range []struct {
		what string
		v    uint64
	}{{"version", uint64(pf.Version)}, {"number of blocks", uint64(len(pf.Blocks))}, {"encoding", uint64(pf.Enc)}} {
		if m := give(strconv.FormatUint(h.v, 10), h.what, -1); m != "" {
			return m
		}
	}
	for i := range pf.Blocks {
		b := &pf.Blocks[i]
		for _, f := range [][2]string{
			{"offset", strconv.FormatInt(b.Off, 10)}, {"size", strconv.FormatInt(b.Size, 10)}, {"count", strconv.FormatUint(uint64(b.Count), 10)},
			{"smallest id", strconv.FormatUint(b.MinID, 10)}, {"largest id", strconv.FormatUint(b.MaxID, 10)},
			{"minimum", strconv.FormatInt(b.MinV, 10)}, {"maximum", strconv.FormatInt(b.MaxV, 10)}, {"sum", strconv.FormatInt(b.Sum, 10)},
		} {
			if m := give(f[1], f[0], i); m != "" {
				return m
			}
		}
	}
	// what the text says under its own labels, where it uses them
	if m := infoHead.FindStringSubmatch(r.Str); m != nil {
		if w := fmt.Sprintf("Version=%d, BlockCount=%d", pf.Version, len(pf.Blocks)); m[0] != w {
			return fmt.Sprintf("the description says %s, the file %s", m[0], w)
		}
	}
	if m := infoEnc.FindStringSubmatch(r.Str); m != nil && m[1] != strconv.FormatUint(uint64(pf.Enc), 10) {
		return fmt.Sprintf("the description says encoding %s, the file %d", m[1], pf.Enc)
	}
	bl, ids, vs := infoBlock.FindAllString(r.Str, -1), infoIDs.FindAllString(r.Str, -1), infoVals.FindAllString(r.Str, -1)
	for i := range pf.Blocks {
		b := &pf.Blocks[i]
		for _, c := range []struct {
			all  []string
			want string
		}{
			{bl, fmt.Sprintf("Block %d: Offset=%d, Size=%d, Count=%d", i, b.Off, b.Size, b.Count)},
			{ids, fmt.Sprintf("ID range: %d-%d", b.MinID, b.MaxID)},
			{vs, fmt.Sprintf("Value range: %d-%d, Sum=%d", b.MinV, b.MaxV, b.Sum)},
		} {
			if len(c.all) == len(pf.Blocks) && c.all[i] != c.want {
				return fmt.Sprintf("the description of block %d says %s, the file %s", i, c.all[i], c.want)
			}
		}
	}
	return ""
}

var (
	infoHead  = regexp.MustCompile(`Version=\d+, BlockCount=\d+`)
	infoEnc   = regexp.MustCompile(`Encoding: Type=(\d+)`)
	infoBlock = regexp.MustCompile(`Block \d+: Offset=\d+, Size=\d+, Count=\d+`)
	infoIDs   = regexp.MustCompile(`ID range: \d+-\d+`)
	infoVals  = regexp.MustCompile(`Value range: -?\d+--?\d+, Sum=-?\d+`)
)
