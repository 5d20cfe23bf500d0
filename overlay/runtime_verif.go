// Simulation scheduler seam. Added to package runtime through a build overlay
// by the checks in /verif; it is never part of a shipped build.
//
// While verifOn is set (and GOMAXPROCS is 1) every scheduling choice between
// runnable user goroutines is made here, from a seeded generator or from an
// explicit list of decisions, so that one plan is one exactly repeatable
// interleaving.
package runtime

import "unsafe"

const (
	VerifModeDefault = 0 // run until blocked, oldest first
	VerifModeRandom  = 1 // switch with probability 1/VerifEvery at a yield point
	VerifModePCT     = 2 // priorities with change points
	VerifModeReplay  = 3 // explicit decisions
)

type VerifDecision struct {
	N  int64 // decision number
	To int64 // goroutine index chosen
}

type VerifConfig struct {
	Mode    int
	Seed    uint64
	Every   uint64  // random mode: mean number of yields between switches
	Points  []int64 // PCT mode: decision numbers where the priority drops
	Replay  []VerifDecision
	Cores   int
	MaxStep int64
	Start   int64 // simulated clock, ns
}

var (
	verifOn     bool
	verifMode   int
	verifRng    uint64
	verifRng2   uint64
	verifEvery  uint64
	verifPoints []int64
	verifReplay []VerifDecision
	verifRPos   int
	verifCores  int
	verifN      int64 // decisions taken
	verifSteps  int64 // yield points passed
	verifMax    int64
	verifIDs    int64
	verifTarget int64
	verifSw     int64 // context switches
	verifHash   uint64
	verifLast   int64
	verifLow    int64
	verifNow    int64 // simulated monotonic clock, ns
	verifRec    []VerifDecision
	verifRecN   int
	verifOver   bool
	verifRace   uintptr
	verifGave   int64 // who called Gosched itself (-1: nobody)
	verifRun    int64 // decisions in a row that left the same goroutine running
	verifBase   int64 // real clock when the simulated one began
	verifTSeed  uint64
)

// verifFair: a goroutine that keeps running for so many decisions while others
// could run is made to give way once, so that code polling for another
// goroutine's progress does not starve it.
const verifFair = 1 << 20

func verifNext(s *uint64) uint64 {
	*s += 0x9e3779b97f4a7c15
	z := *s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// VerifStart turns the simulated scheduler on. The caller becomes goroutine 0.
func VerifStart(c VerifConfig) {
	if gomaxprocs != 1 {
		throw("VerifStart: GOMAXPROCS must be 1")
	}
	for i := 0; i < 64; i++ {
		Gosched()
	}
	verifMode = c.Mode
	verifRng = c.Seed ^ 0x5bd1e995
	verifRng2 = c.Seed ^ 0x1234567
	verifEvery = c.Every
	if verifEvery == 0 {
		verifEvery = 16
	}
	verifPoints = c.Points
	verifReplay = c.Replay
	verifRPos = 0
	verifCores = c.Cores
	verifN, verifSteps, verifSw, verifHash, verifLast = 0, 0, 0, 14695981039346656037, 0
	verifMax = c.MaxStep
	verifIDs = 1
	verifTarget = -1
	verifLow = -1
	verifNow = c.Start
	verifRecN = 0
	verifOver = false
	verifGave, verifRun = -1, 0
	verifBase = nanotime() - c.Start
	verifTSeed = c.Seed
	if verifRec == nil {
		verifRec = make([]VerifDecision, 1<<18)
	}
	gp := getg()
	gp.verifID = 0
	gp.verifPrio = 1 << 40
	gp.verifWake, gp.verifStall = 0, 0
	verifOn = true
}

// VerifStop turns the simulated scheduler off and returns what it did.
func VerifStop() (rec []VerifDecision, decisions, steps, switches int64, hash uint64, over bool) {
	verifOn = false
	rec = make([]VerifDecision, verifRecN)
	for i := 0; i < verifRecN; i++ {
		rec[i] = verifRec[i]
	}
	return rec, verifN, verifSteps, verifSw, verifHash, verifOver
}

func VerifIsOn() bool       { return verifOn }
func VerifNow() int64       { return verifNow }
func VerifAdvance(ns int64) { verifNow += ns }
func VerifSteps() int64     { return verifSteps }
func VerifSelf() int64      { return getg().verifID }

// VerifWeakRand is the generator used for the runtime's own randomness.
func verifWeak() uint64 { return verifNext(&verifRng2) }

func verifNewG(newg *g) {
	newg.verifWake, newg.verifStall = 0, 0
	if !verifOn {
		newg.verifID, newg.verifPrio = -1, 0
		return
	}
	newg.verifID = verifIDs
	verifIDs++
	newg.verifPrio = int64(verifNext(&verifRng)>>33) + 1
}

func verifRunq(pp *p) (h, n uint32) {
	if nx := pp.runnext; nx != 0 {
		pp.runnext = 0
		t := pp.runqtail
		if t-pp.runqhead >= uint32(len(pp.runq)) {
			throw("verif: run queue full")
		}
		pp.runq[t%uint32(len(pp.runq))].set(nx.ptr())
		pp.runqtail = t + 1
	}
	return pp.runqhead, pp.runqtail - pp.runqhead
}

func verifTake(pp *p, i uint32) *g {
	h := pp.runqhead
	l := uint32(len(pp.runq))
	gp := pp.runq[(h+i)%l].ptr()
	for k := i; k > 0; k-- {
		pp.runq[(h+k)%l] = pp.runq[(h+k-1)%l]
	}
	pp.runqhead = h + 1
	return gp
}

func verifReady(gp *g) bool {
	return gp.verifWake <= verifNow && gp.verifStall <= verifN
}

// verifChoose picks among the eligible goroutines of the queue; cur is the
// goroutine that would continue (nil if it blocked or exited).
// It returns the queue position, or -1 to let cur continue.
func verifChoose(pp *p, h, n uint32, cur *g) int {
	l := uint32(len(pp.runq))
	verifN++
	dn := verifN
	// default: cur continues, else lowest index
	def, defID := -1, int64(-1)
	cnt := uint64(0)
	for i := uint32(0); i < n; i++ {
		q := pp.runq[(h+i)%l].ptr()
		if !verifReady(q) {
			continue
		}
		cnt++
		if def < 0 || defID == verifGave || (q.verifID < defID && q.verifID != verifGave) {
			def, defID = int(i), q.verifID
		}
	}
	if cnt == 0 {
		return -1
	}
	if cur != nil {
		verifRun++
	} else {
		verifRun = 0
	}
	forced := verifRun >= verifFair
	if forced {
		verifRun = 0
	}
	other := def
	otherID := defID
	if cur != nil {
		def, defID = -1, cur.verifID
	}
	pick, pickID := def, defID
	switch verifMode {
	case VerifModeDefault:
		if forced {
			pick, pickID = other, otherID
		}
	case VerifModeRandom:
		if cur == nil || verifNext(&verifRng)%verifEvery == 0 {
			k := verifNext(&verifRng) % cnt
			for i := uint32(0); i < n; i++ {
				q := pp.runq[(h+i)%l].ptr()
				if !verifReady(q) {
					continue
				}
				if k == 0 {
					pick, pickID = int(i), q.verifID
					break
				}
				k--
			}
		}
	case VerifModePCT:
		for _, p := range verifPoints {
			if p == dn {
				if cur != nil {
					cur.verifPrio = verifLow
					verifLow--
				}
			}
		}
		if forced {
			cur.verifPrio = verifLow
			verifLow--
		}
		var best int64
		have := false
		if cur != nil {
			best, have = cur.verifPrio, true
		}
		for i := uint32(0); i < n; i++ {
			q := pp.runq[(h+i)%l].ptr()
			if cur == nil && q.verifID == verifGave {
				q.verifPrio = verifLow
				verifLow--
			}
			if verifReady(q) && (!have || q.verifPrio > best) {
				best, have = q.verifPrio, true
				pick, pickID = int(i), q.verifID
			}
		}
	case VerifModeReplay:
		for verifRPos < len(verifReplay) && verifReplay[verifRPos].N < dn {
			verifRPos++
		}
		if verifRPos < len(verifReplay) && verifReplay[verifRPos].N == dn {
			want := verifReplay[verifRPos].To
			verifRPos++
			for i := uint32(0); i < n; i++ {
				q := pp.runq[(h+i)%l].ptr()
				if verifReady(q) && q.verifID == want {
					pick, pickID = int(i), want
				}
			}
		}
	}
	if pick >= 0 {
		verifRun = 0
	}
	if pickID != defID && verifRecN < len(verifRec) {
		verifRec[verifRecN] = VerifDecision{dn, pickID}
		verifRecN++
	}
	return pick
}

func verifNote(id int64) {
	if id != verifLast {
		verifSw++
		verifHash = (verifHash ^ uint64(id)) * 1099511628211
		verifHash = (verifHash ^ uint64(verifN)) * 1099511628211
		verifLast = id
	}
}

// verifNanotime is the clock timers go by.
func verifNanotime() int64 {
	if verifOn {
		return verifBase + verifNow
	}
	return nanotime()
}

// verifTimer returns when the first timer of the code under test goes off (0: none).
func verifTimer(pp *p) int64 {
	var when int64
	for _, tw := range pp.timers.heap {
		t := tw.timer
		if t.verif && t.when > 0 && (when == 0 || t.when < when) {
			when = t.when
		}
	}
	return when
}

// verifTimers jumps the clock to the first timer, if there is one, and runs it.
func verifTimers(pp *p) bool {
	when := verifTimer(pp)
	if when == 0 {
		return false
	}
	if when > verifBase+verifNow {
		verifNow = when - verifBase
	}
	pp.timers.check(0, nil)
	return true
}

// verifPick replaces runqget while the simulated scheduler is on.
func verifPick(pp *p) *g {
	for {
		h, n := verifRunq(pp)
		if n == 0 {
			if verifTimers(pp) {
				continue
			}
			if iscgo && sched.runq.empty() {
				// checkdead does not see this in a race-detector build
				fatal("all goroutines are asleep - deadlock!")
			}
			return nil
		}
		l := uint32(len(pp.runq))
		for i := uint32(0); i < n; i++ {
			q := pp.runq[(h+i)%l].ptr()
			if q.verifID < 0 || isSystemGoroutine(q, false) {
				return verifTake(pp, i)
			}
		}
		if verifTarget >= 0 {
			t := verifTarget
			verifTarget = -1
			verifGave = -1
			for i := uint32(0); i < n; i++ {
				if pp.runq[(h+i)%l].ptr().verifID == t {
					verifNote(t)
					return verifTake(pp, i)
				}
			}
		}
		// now and then those who wait for a timer are faster than the others
		if len(pp.timers.heap) > 0 && verifTimer(pp) != 0 {
			z := verifTSeed ^ uint64(verifSteps)*0x9e3779b97f4a7c15
			if verifNext(&z)%16 == 0 && verifTimers(pp) {
				h, n = verifRunq(pp)
			}
		}
		elig := uint32(0)
		only := 0
		for i := uint32(0); i < n; i++ {
			if verifReady(pp.runq[(h+i)%l].ptr()) {
				elig++
				only = int(i)
			}
		}
		if elig == 0 {
			// everyone is asleep or stalled: jump the clock to the first
			// wake-up, or end the shortest stall
			var bw, bs *g
			for i := uint32(0); i < n; i++ {
				q := pp.runq[(h+i)%l].ptr()
				if q.verifWake > verifNow {
					if bw == nil || q.verifWake < bw.verifWake {
						bw = q
					}
				} else if bs == nil || q.verifStall < bs.verifStall {
					bs = q
				}
			}
			if bs != nil {
				bs.verifStall = 0
			} else if t := verifTimer(pp); t == 0 || t-verifBase >= bw.verifWake || !verifTimers(pp) {
				verifNow = bw.verifWake
			}
			continue
		}
		i := only
		if elig > 1 {
			i = verifChoose(pp, h, n, nil)
		}
		verifGave = -1
		gp := verifTake(pp, uint32(i))
		verifNote(gp.verifID)
		return gp
	}
}

// VerifYield is a scheduling point.
func VerifYield() {
	if !verifOn {
		return
	}
	verifSteps++
	gp := getg()
	if gp.verifID < 0 || gp.m.locks != 0 {
		return
	}
	if verifSteps > verifMax {
		verifOver = true
		verifOn = false
		print("VERIF-STEP-LIMIT ", verifMax, "\n")
		exit(77)
	}
	pp := gp.m.p.ptr()
	h, n := verifRunq(pp)
	if n == 0 {
		return
	}
	i := verifChoose(pp, h, n, gp)
	if i < 0 {
		return
	}
	verifTarget = pp.runq[(h+uint32(i))%uint32(len(pp.runq))].ptr().verifID
	Gosched()
}

// VerifStall keeps the calling goroutine off the processor until k more
// decisions have been taken (or nobody else can run): a slow device.
func VerifStall(k int64) {
	if !verifOn {
		return
	}
	gp := getg()
	if gp.verifID < 0 {
		return
	}
	gp.verifStall = verifN + k
	Gosched()
}

func verifSleep(ns int64) {
	gp := getg()
	gp.verifWake = verifNow + ns
	Gosched()
	gp.verifWake = 0
}

// VerifEnter moves the calling goroutine to the simulator's own race-detector
// context, so that the simulator's bookkeeping neither reports races nor adds
// happens-before edges between the tasks it serves.
func VerifEnter() uintptr {
	if !raceenabled {
		return 0
	}
	gp := getg()
	if verifRace == 0 {
		verifRace = racegostart(0)
	}
	old := gp.racectx
	gp.racectx = verifRace
	return old
}

func VerifLeave(old uintptr) {
	if raceenabled {
		getg().racectx = old
	}
}

// VerifSync orders the calling goroutine and the simulator's context with
// respect to each other. It is called while no simulated task is running.
func VerifSync() {
	if !raceenabled {
		return
	}
	old := VerifEnter()
	VerifLeave(old)
	a := unsafe.Pointer(&verifRace)
	racereleasemerge(a)
	old = VerifEnter()
	raceacquire(a)
	racereleasemerge(a)
	VerifLeave(old)
	raceacquire(a)
}

// VerifCopy copies without telling the race detector.
func VerifCopy(dst, src []byte) int {
	n := len(src)
	if len(dst) < n {
		n = len(dst)
	}
	if n > 0 {
		memmove(unsafe.Pointer(&dst[0]), unsafe.Pointer(&src[0]), uintptr(n))
	}
	return n
}
