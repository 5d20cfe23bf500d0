package main

// Generators of contents. They are biased towards the places where formats
// and block arithmetic have their edges: container boundaries of the bitmap
// (65536), varint length boundaries, signs and extremes, page-exact blocks,
// the 1000-pair flush of the buffered writer.

var varEdges = []uint64{0, 1, 63, 64, 127, 128, 8191, 8192, 16383, 16384, 1 << 20, 1<<21 - 1, 1 << 21, 1<<28 - 1, 1 << 28, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<35 - 1, 1 << 35, 1 << 42, 1 << 48, 1<<49 - 1, 1<<53 + 1, 1<<56 - 1, 1 << 56, 1<<62 - 1, 1<<63 - 1}

func (b *Batch) expand() ([]uint64, []int64) {
	if b.IDs != nil {
		return append([]uint64(nil), b.IDs...), append([]int64(nil), b.Vals...)
	}
	ids := make([]uint64, b.N)
	vals := make([]int64, b.N)
	r := NewRng(b.Seed)
	step := b.Step
	if step == 0 {
		step = 1
	}
	cur := b.Start
	for i := range ids {
		switch b.ID {
		case "desc":
			ids[i] = b.Start + uint64(b.N-1-i)*step
		case "dup":
			ids[i] = b.Start + uint64(i)/(1+step%7)
		case "rand":
			ids[i] = b.Start + r.U()%(step*4+uint64(b.N))
		case "mag":
			ids[i] = r.U() >> uint(r.N(64))
		case "edge":
			ids[i] = pick(r, varEdges...) + uint64(r.N(3)) - 1
		case "cont": // around the container boundaries of the bitmap
			ids[i] = b.Start + uint64(r.N(4))*65536 + uint64(r.N(9)) - 4
		case "gaps":
			ids[i] = cur
			cur += 1 + r.U()%step
			if r.N(20) == 0 {
				cur += 60000 + r.U()%200000
			}
		case "top":
			ids[i] = ^uint64(0) - uint64(b.N-1-i)*step
		case "shuf":
			ids[i] = b.Start + uint64(i)*step
		default: // seq
			ids[i] = b.Start + uint64(i)*step
		}
	}
	if b.ID == "shuf" {
		for i := len(ids) - 1; i > 0; i-- {
			j := r.N(i + 1)
			ids[i], ids[j] = ids[j], ids[i]
		}
	}
	r = NewRng(b.Seed ^ 0xabcdef)
	acc := int64(r.N(2000)) - 1000
	for i := range vals {
		switch b.Val {
		case "const":
			vals[i] = int64(b.Seed % 1000)
		case "zero":
			vals[i] = 0
		case "small":
			vals[i] = int64(r.N(201)) - 100
		case "neg":
			vals[i] = -1 - int64(r.N(1000000))
		case "mag":
			vals[i] = int64(r.U()) >> uint(r.N(64))
		case "full":
			vals[i] = int64(r.U())
		case "edge":
			v := int64(pick(r, varEdges...))
			if r.N(2) == 0 {
				v = -v
			}
			vals[i] = v + int64(r.N(3)) - 1
		case "extreme":
			vals[i] = pick(r, int64(-1<<63), 1<<63-1, 0, -1, 1, -1<<63+1, 1<<62, -1<<62)
		case "walk":
			acc += int64(r.N(2001)) - 1000
			vals[i] = acc
		case "rare": // constant but for a rare extreme
			vals[i] = 7
			if r.N(40) == 0 {
				vals[i] = pick(r, int64(-1<<63), 1<<63-1, -1000000, 1000000)
			}
		default: // seq
			vals[i] = int64(i) * 10
		}
	}
	return ids, vals
}

var idKinds = []string{"seq", "seq", "seq", "gaps", "gaps", "rand", "mag", "edge", "cont", "desc", "dup", "top", "shuf"}
var valKinds = []string{"seq", "small", "walk", "mag", "full", "edge", "extreme", "neg", "const", "zero", "rare"}

// genBatch makes a batch of about n pairs.
func genBatch(r *Rng, n int) Batch {
	b := Batch{N: n, ID: pick(r, idKinds...), Val: pick(r, valKinds...), Seed: r.U() >> 20}
	b.Start = pick(r, 0, 1, 1, 100, 65530, 65536, 131072-3, 1<<32-5, 1<<48-7, 1<<63-3, uint64(r.N(1000000)))
	b.Step = pick(r, uint64(1), 1, 1, 2, 3, 7, 63, 1000, 65536, 1<<33)
	if b.ID == "mag" || b.ID == "edge" {
		b.Start = 0
	}
	return b
}

func genSize(r *Rng) int {
	switch r.N(10) {
	case 0:
		return 1
	case 1:
		return 2
	case 2, 3, 4:
		return 1 + r.N(20)
	case 5, 6:
		return 20 + r.N(100)
	case 7:
		// page-exact blocks of fixed-width pairs (first and later blocks)
		return pick(r, (4096-64-80)/16, (4096-80)/16, (4096-64-80)/16+1, (4096-80)/16+1, (4096-64-80)/16-1, (8192-80)/16)
	default:
		return 100 + r.N(300)
	}
}

// genFile makes a file written block by block through the low-level writer.
func genFile(r *Rng, path string) FileSpec {
	f := FileSpec{Path: path, API: "writer", Enc: uint32(r.N(8))}
	f.Block = pick(r, int64(4096), 4096, 4096, 8192, 0, 1<<20, 12288, 100, 5000, 1, 4095, 4097, 1<<31, 1<<32-1)
	nb := pick(r, 1, 1, 2, 2, 3, 4, 5, 7, 12)
	if r.P(1, 25) {
		nb = 0
	}
	if f.Block == 1 || f.Block == 100 {
		nb = min(nb, 3)
	}
	next := uint64(r.N(100))
	uniform := r.P(1, 2)
	first := genBatch(r, 1)
	for i := 0; i < nb; i++ {
		n := genSize(r)
		if f.Block == 1 || f.Block == 100 {
			n = min(n, 12)
		}
		b := genBatch(r, n)
		if uniform {
			b.ID, b.Val, b.Start, b.Step = first.ID, first.Val, first.Start, first.Step
			if r.P(3, 4) && (b.ID == "seq" || b.ID == "gaps" || b.ID == "shuf" || b.ID == "desc") {
				b.Start = next
				if r.P(1, 5) && i > 0 {
					b.Start -= uint64(r.N(5)) // overlapping ranges
				}
			}
			next = b.Start + uint64(n)*b.Step + uint64(r.N(3))
		}
		if f.Enc >= 4 && n > 250 && f.Block > 4096 && f.Block < 1<<20 {
			b.N = 250
		}
		b.Drop = r.P(1, 8)
		f.Batches = append(f.Batches, b)
	}
	f.Split = r.P(1, 4)
	return f
}

// genSimple makes a file written through the buffered writer.
func genSimple(r *Rng, path string) FileSpec {
	f := FileSpec{Path: path, API: "simple", Enc: uint32(r.N(8))}
	f.Block = pick(r, int64(4096), 4096, 8192, 0, 0, 32768)
	n := pick(r, 1, 1, 2, 3, 4, 6, 9)
	if r.P(1, 25) {
		n = 0
	}
	next := uint64(r.N(50))
	total := 0
	for i := 0; i < n; i++ {
		size := pick(r, 1, 2, 10, 100, 333, 499, 500, 501, 999, 1000, 1001, 50+r.N(300), 1+r.N(30))
		if f.Enc >= 4 && total+size > 1700 { // splitting varint blocks is slow
			size = 1 + size%40
		}
		total += size
		b := genBatch(r, size)
		if r.P(1, 2) {
			b.ID, b.Start, b.Step = "seq", next, 1
			next += uint64(size)
		}
		if r.P(1, 12) {
			b.Target = pick(r, int64(4096), 8192, 16384, 65536)
		}
		if r.P(1, 12) {
			b.Bad = pick(r, "mismatch", "empty")
		}
		f.Batches = append(f.Batches, b)
	}
	return f
}

func genAny(r *Rng, path string) FileSpec {
	if r.P(1, 400) { // more blocks than fit one page of anything
		f := FileSpec{Path: path, API: "simple", Enc: uint32(r.N(8)), Block: pick(r, int64(1), 100, 4095)}
		b := genBatch(r, 1100+r.N(300))
		b.ID = pick(r, "seq", "gaps", "shuf", "mag")
		f.Batches = []Batch{b}
		return f
	}
	if r.P(1, 4) {
		return genSimple(r, path)
	}
	return genFile(r, path)
}

func genSched(r *Rng) Sched {
	s := Sched{Seed: r.U() >> 11}
	switch r.N(6) {
	case 0:
		s.Mode = 0
	case 1, 2, 3:
		s.Mode = 1
		s.Every = pick(r, uint64(2), 4, 16, 64, 500)
	default:
		s.Mode = 2
		n := 1 + r.N(12)
		for i := 0; i < n; i++ {
			s.Points = append(s.Points, 1+int64(r.U()%pick(r, uint64(60), 600, 6000, 60000)))
		}
	}
	return s
}

func genClock(r *Rng) Clock {
	c := Clock{Start: 1700000000e9 + int64(r.N(1000000))*1e9, Step: int64(1 + r.N(1000000))}
	c.Lag = pick(r, 0, 0, 0, 3, 10, 50)
	switch r.N(6) {
	case 0:
		c.Start = 0
	case 1:
		c.Start = -5e9
	case 2:
		for i := 0; i < 6; i++ {
			c.Jumps = append(c.Jumps, pick(r, int64(0), 3600e9, -3600e9, 86400e9*365, -86400e9*365*10))
		}
	}
	return c
}

func genSet(r *Rng, nfiles int, allow bool) *SetSpec {
	s := &SetSpec{From: r.N(max(nfiles, 1))}
	switch r.N(14) {
	case 13: // every id of a range, stored or not
		s.Kind = "span"
		s.Lo = pick(r, uint64(0), 0, uint64(r.N(300)), 65500, 1<<32-100)
		s.Hi = s.Lo + pick(r, uint64(r.N(300)), uint64(r.N(5000)), 4095, 4096, 65535, 70000)
	case 10, 11:
		s.Kind, s.Mod, s.Rem = "few", 1+uint64(r.N(3)), r.U()>>20
		return s
	case 12:
		s.Kind, s.Rem = "block", r.U()>>20
	case 0:
		return nil
	case 1:
		s.Kind = "empty"
	case 2:
		s.Kind = "all"
	case 3, 4:
		s.Kind = "some"
		s.Mod = pick(r, uint64(2), 3, 10, 50, 1000)
		s.Rem = uint64(r.N(3))
	case 5:
		s.Kind = "absent"
	case 6, 7:
		s.Kind = "edges"
	default:
		s.Kind = "range"
		s.Lo = uint64(r.N(400))
		s.Hi = s.Lo + uint64(r.N(300))
		if r.P(1, 3) {
			s.Lo = pick(r, uint64(65530), 65536, 1<<32-3, 131072-10)
			s.Hi = s.Lo + uint64(r.N(500))
		}
	}
	if r.P(1, 5) {
		s.IDs = append(s.IDs, pick(r, uint64(0), 1, 65535, 65536, 1<<32, 1<<63, ^uint64(0)))
	}
	return s
}
