package main

import (
	"runtime"
	"sort"
)

// candidates lists simpler plans, most drastic first. The driver keeps the
// first one that still shows the same class of violation and starts over.
func candidates(p *Plan) []*Plan {
	var out []*Plan
	add := func(f func(q *Plan) bool) {
		q := p.clone()
		if f(q) {
			out = append(out, q)
		}
	}
	halves := func(n int, cut func(q *Plan, lo, hi int)) {
		for size := n; size >= 1; size /= 2 {
			for lo := 0; lo < n; lo += size {
				hi := min(lo+size, n)
				add(func(q *Plan) bool { cut(q, lo, hi); return true })
			}
			if len(out) > 400 {
				return
			}
		}
	}
	if len(p.Sched.Switches) > 0 {
		halves(len(p.Sched.Switches), func(q *Plan, lo, hi int) {
			q.Sched.Switches = append(append([]runtime.VerifDecision(nil), q.Sched.Switches[:lo]...), q.Sched.Switches[hi:]...)
		})
	} else if p.Sched.Mode != 0 && p.Sched.Mode != runtime.VerifModeReplay {
		add(func(q *Plan) bool { q.Sched = Sched{}; return true })
	}
	if len(p.Faults) > 0 {
		halves(len(p.Faults), func(q *Plan, lo, hi int) { q.Faults = append(q.Faults[:lo:lo], q.Faults[hi:]...) })
	}
	if len(p.Corr) > 1 {
		halves(len(p.Corr), func(q *Plan, lo, hi int) { q.Corr = append(q.Corr[:lo:lo], q.Corr[hi:]...) })
	}
	if len(p.Ops) > 0 {
		halves(len(p.Ops), func(q *Plan, lo, hi int) {
			q.Ops = append(q.Ops[:lo:lo], q.Ops[hi:]...)
			shiftPhases(q, lo, hi)
		})
	}
	if len(p.Tasks) > 1 {
		halves(len(p.Tasks), func(q *Plan, lo, hi int) { q.Tasks = append(q.Tasks[:lo:lo], q.Tasks[hi:]...) })
	}
	for t := range p.Tasks {
		if len(p.Tasks[t]) > 1 {
			halves(len(p.Tasks[t]), func(q *Plan, lo, hi int) { q.Tasks[t] = append(q.Tasks[t][:lo:lo], q.Tasks[t][hi:]...) })
		}
	}
	if p.Stall != 0 {
		add(func(q *Plan) bool { q.Stall = 0; return true })
	}
	if p.Cap != 0 {
		add(func(q *Plan) bool { q.Cap = 0; return true })
	}
	if len(p.Clock.Jumps) > 0 {
		add(func(q *Plan) bool { q.Clock.Jumps = nil; return true })
	}
	if p.Clock.Lag != 0 {
		add(func(q *Plan) bool { q.Clock.Lag = 0; return true })
	}
	if p.Clock.Start != 1700000000e9 {
		add(func(q *Plan) bool { q.Clock.Start = 1700000000e9; return true })
	}
	if p.Crash != nil {
		add(func(q *Plan) bool { q.Crash = nil; return true })
		if p.Crash.Torn != 0 {
			add(func(q *Plan) bool { q.Crash.Torn = 0; return true })
		}
		for _, m := range []string{"none", "all", "head", "dropone"} {
			if p.Crash.Power && p.Crash.Mode != m && p.Crash.Mode != "none" {
				add(func(q *Plan) bool { q.Crash.Mode = m; return true })
			}
		}
	}
	var keys []string
	for k := range p.P {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if p.P[k] != 0 && k != "old" && k != "again" && k != "ready" && k != "closes" {
			add(func(q *Plan) bool { q.P[k] = 0; return true })
		}
	}
	for f := range p.Files {
		n := len(p.Files[f].Batches)
		if n > 1 {
			halves(n, func(q *Plan, lo, hi int) {
				q.Files[f].Batches = append(q.Files[f].Batches[:lo:lo], q.Files[f].Batches[hi:]...)
				if len(q.Files) == 1 {
					shiftPhases(q, lo+1, hi+1)
				}
			})
		}
		for b := range p.Files[f].Batches {
			bt := p.Files[f].Batches[b]
			if bt.N > 1 && bt.IDs == nil {
				for _, m := range []int{1, 2, bt.N / 2, bt.N - 1} {
					if m < bt.N && m > 0 {
						add(func(q *Plan) bool { q.Files[f].Batches[b].N = m; return true })
					}
				}
			}
			if bt.Val != "seq" && bt.IDs == nil {
				add(func(q *Plan) bool { q.Files[f].Batches[b].Val = "seq"; return true })
			}
			if bt.ID != "seq" && bt.IDs == nil {
				add(func(q *Plan) bool { q.Files[f].Batches[b].ID = "seq"; return true })
			}
			if bt.Start > 1 && bt.IDs == nil {
				add(func(q *Plan) bool { q.Files[f].Batches[b].Start = 1; return true })
			}
			if bt.Drop {
				add(func(q *Plan) bool { q.Files[f].Batches[b].Drop = false; return true })
			}
			if bt.Bad != "" {
				add(func(q *Plan) bool { q.Files[f].Batches[b].Bad = ""; return true })
			}
		}
		if p.Files[f].Enc != 0 {
			add(func(q *Plan) bool { q.Files[f].Enc = 0; return true })
		}
		if l := p.Files[f].Lay; l != nil {
			for _, simpler := range []func(l *Layout){
				func(l *Layout) { l.Bitmap = "after" }, func(l *Layout) { l.Order = "" }, func(l *Layout) { l.Align = 0 },
				func(l *Layout) { l.Gaps = false }, func(l *Layout) { l.Swap = false }, func(l *Layout) { l.Inner = false },
				func(l *Layout) { l.Noise = false }, func(l *Layout) { l.Sizes = false }, func(l *Layout) { l.Target = 0 }, func(l *Layout) { l.Time = 0 }, func(l *Layout) { l.Hole = 0 },
			} {
				q := p.clone()
				simpler(q.Files[f].Lay)
				if *q.Files[f].Lay != *l {
					out = append(out, q)
				}
			}
		}
		if p.Files[f].Split {
			add(func(q *Plan) bool { q.Files[f].Split = false; return true })
		}
	}
	for i := range p.Ops {
		if p.Ops[i].Sub != 0 {
			add(func(q *Plan) bool { q.Ops[i].Sub = 0; return true })
		}
	}
	for i := range p.Faults {
		if p.Faults[i].Times != 0 {
			add(func(q *Plan) bool { q.Faults[i].Times = 0; return true })
		}
	}
	if p.Cores > 1 {
		add(func(q *Plan) bool { q.Cores = 1; return true })
	}
	return out
}

// shiftPhases keeps faults and crash on the operations they belong to after
// operations [lo,hi) have gone.
func shiftPhases(q *Plan, lo, hi int) {
	d := hi - lo
	for i := range q.Faults {
		if q.Faults[i].Phase >= hi && q.Faults[i].Phase < 900 {
			q.Faults[i].Phase -= d
		}
	}
	if q.Crash != nil && q.Crash.Phase >= hi && q.Crash.Phase < 900 {
		q.Crash.Phase -= d
	}
	for i := range q.Corr {
		if q.Corr[i].At >= hi {
			q.Corr[i].At -= d
		}
	}
}
