package main

import (
	"fmt"
	"math"
	"sort"

	"vibe-lsm/pkg/col"

	"github.com/weaviate/sroar"
)

// Pair is one stored (id, value).
type Pair struct {
	ID  uint64
	Val int64
}

// Block is what one block must hold, in order.
type Block []Pair

// Model is the reference contents of one file.
type Model struct {
	Enc    uint32
	Blocks []Block
}

func (m *Model) Pairs() []Pair {
	var out []Pair
	for _, b := range m.Blocks {
		out = append(out, b...)
	}
	return out
}

func (m *Model) IDs() map[uint64]bool {
	s := map[uint64]bool{}
	for _, b := range m.Blocks {
		for _, p := range b {
			s[p.ID] = true
		}
	}
	return s
}

// Agg is the reference aggregate.
type Agg struct {
	Count    int
	Min, Max int64
	Sum      int64
}

func (a *Agg) add(v int64) {
	if a.Count == 0 || v < a.Min {
		a.Min = v
	}
	if a.Count == 0 || v > a.Max {
		a.Max = v
	}
	a.Count++
	a.Sum += v
}

func (a *Agg) merge(b Agg) {
	if b.Count == 0 {
		return
	}
	if a.Count == 0 || b.Min < a.Min {
		a.Min = b.Min
	}
	if a.Count == 0 || b.Max > a.Max {
		a.Max = b.Max
	}
	a.Count += b.Count
	a.Sum += b.Sum
}

func aggregate(ps []Pair, allow, deny map[uint64]bool, hasAllow bool) Agg {
	var a Agg
	for _, p := range ps {
		if hasAllow && !allow[p.ID] || deny[p.ID] {
			continue
		}
		a.add(p.Val)
	}
	return a
}

// sameAgg compares a result with the reference. Minimum and maximum of no
// values are unspecified.
func sameAgg(got col.AggregateResult, want Agg) string {
	if got.Count != want.Count {
		return fmt.Sprintf("count is %d, want %d", got.Count, want.Count)
	}
	if got.Sum != want.Sum {
		return fmt.Sprintf("sum is %d, want %d", got.Sum, want.Sum)
	}
	if want.Count == 0 {
		if got.Avg != 0 {
			return fmt.Sprintf("average is %v, want 0", got.Avg)
		}
		return ""
	}
	if got.Min != want.Min {
		return fmt.Sprintf("min is %d, want %d", got.Min, want.Min)
	}
	if got.Max != want.Max {
		return fmt.Sprintf("max is %d, want %d", got.Max, want.Max)
	}
	avg := float64(want.Sum) / float64(want.Count)
	if got.Avg != avg && math.Abs(got.Avg-avg) > 1e-9*math.Abs(avg) {
		return fmt.Sprintf("average is %v, want %v", got.Avg, avg)
	}
	return ""
}

func sameRes(a, b col.AggregateResult) bool {
	if a.Count == 0 && b.Count == 0 {
		return a.Sum == b.Sum && a.Avg == b.Avg
	}
	return a == b
}

func samePairs(ids []uint64, vals []int64, want Block) string {
	if len(ids) != len(vals) {
		return fmt.Sprintf("%d ids but %d values", len(ids), len(vals))
	}
	for i := range ids {
		if i >= len(want) {
			break
		}
		if ids[i] != want[i].ID || vals[i] != want[i].Val {
			return fmt.Sprintf("pair %d is (%d,%d), want (%d,%d)", i, ids[i], vals[i], want[i].ID, want[i].Val)
		}
	}
	if len(ids) != len(want) {
		return fmt.Sprintf("%d pairs, want %d", len(ids), len(want))
	}
	return ""
}

// sameBag compares a sequence of pairs with the reference as a multiset.
func sameBag(got, want []Pair) string {
	g := append([]Pair(nil), got...)
	w := append([]Pair(nil), want...)
	less := func(s []Pair) func(i, j int) bool {
		return func(i, j int) bool {
			if s[i].ID != s[j].ID {
				return s[i].ID < s[j].ID
			}
			return s[i].Val < s[j].Val
		}
	}
	sort.Slice(g, less(g))
	sort.Slice(w, less(w))
	for i := 0; i < len(g) && i < len(w); i++ {
		if g[i] != w[i] {
			if less([]Pair{g[i], w[i]})(0, 1) {
				return fmt.Sprintf("pair (%d,%d) was not written, or appears too often", g[i].ID, g[i].Val)
			}
			return fmt.Sprintf("pair (%d,%d) is missing", w[i].ID, w[i].Val)
		}
	}
	if len(g) != len(w) {
		return fmt.Sprintf("%d pairs, want %d", len(g), len(w))
	}
	return ""
}

func sortedIDs(s map[uint64]bool) []uint64 {
	out := make([]uint64, 0, len(s))
	for id := range s {
		out = append(out, id)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func bitmapOf(ids []uint64) *sroar.Bitmap {
	b := sroar.NewBitmap()
	for _, id := range ids {
		b.Set(id)
	}
	return b
}

// sameIDs compares a bitmap with the reference set.
func sameIDs(b *sroar.Bitmap, want map[uint64]bool) (diff string) {
	if b == nil {
		return "bitmap is nil"
	}
	defer func() {
		if e := recover(); e != nil {
			diff = fmt.Sprintf("the set cannot be listed: %v", e)
		}
	}()
	got := b.ToArray()
	if len(got) != b.GetCardinality() {
		return fmt.Sprintf("cardinality %d but %d members", b.GetCardinality(), len(got))
	}
	w := sortedIDs(want)
	for i := 0; i < len(got) && i < len(w); i++ {
		if got[i] != w[i] {
			if got[i] < w[i] {
				return fmt.Sprintf("id %d is listed but was not stored", got[i])
			}
			return fmt.Sprintf("id %d is missing", w[i])
		}
	}
	if len(got) < len(w) {
		return fmt.Sprintf("id %d is missing", w[len(got)])
	}
	if len(got) > len(w) {
		return fmt.Sprintf("id %d is listed but was not stored", got[len(w)])
	}
	return ""
}

// resolve turns a set description into the ID set; nil means no filter.
func (s *SetSpec) resolve(models []*Model) (map[uint64]bool, bool) {
	if s == nil || s.Kind == "none" {
		return nil, false
	}
	out := map[uint64]bool{}
	universe := func() map[uint64]bool {
		if s.From < len(models) && models[s.From] != nil {
			return models[s.From].IDs()
		}
		return nil
	}
	switch s.Kind {
	case "empty":
	case "all":
		for id := range universe() {
			out[id] = true
		}
	case "some":
		m := s.Mod
		if m == 0 {
			m = 2
		}
		for id := range universe() {
			if mix64(id)%m == s.Rem%m {
				out[id] = true
			}
		}
	case "range":
		for id := range universe() {
			if id >= s.Lo && id <= s.Hi {
				out[id] = true
			}
		}
	case "few": // a few of the stored ones
		if u := sortedIDs(universe()); len(u) > 0 {
			for i := uint64(0); i < s.Mod; i++ {
				out[u[mix64(s.Rem+i)%uint64(len(u))]] = true
			}
		}
	case "block": // those of one block
		if s.From < len(models) && models[s.From] != nil {
			if bs := models[s.From].Blocks; len(bs) > 0 {
				for _, p := range bs[s.Rem%uint64(len(bs))] {
					out[p.ID] = true
				}
			}
		}
	case "span":
		for id := s.Lo; id <= s.Hi && id-s.Lo < 1<<17; id++ {
			out[id] = true
		}
	case "absent": // IDs around the stored ones, none of them stored
		u := universe()
		n := 0
		for _, id := range sortedIDs(u) {
			for _, c := range []uint64{id + 1, id - 1} {
				if !u[c] {
					out[c] = true
					n++
				}
			}
			if n > 200 {
				break
			}
		}
	case "edges": // the boundary IDs of every block
		if s.From < len(models) && models[s.From] != nil {
			for _, b := range models[s.From].Blocks {
				if len(b) == 0 {
					continue
				}
				lo, hi := b[0].ID, b[0].ID
				for _, p := range b {
					lo, hi = min(lo, p.ID), max(hi, p.ID)
				}
				if mix64(lo)%2 == 0 {
					out[lo] = true
				}
				if mix64(hi)%2 == 0 {
					out[hi] = true
				}
			}
		}
	}
	for _, id := range s.IDs {
		out[id] = true
	}
	return out, true
}

func mix64(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
