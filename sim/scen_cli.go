package main

// The command line tools, run inside the simulator: their main functions are
// called with simulated arguments, standard output, exit and file system.

import (
	"errors"
	"flag"
	"fmt"
	"log"
	"os"
	"runtime"
	"strconv"
	"strings"
	"syscall"

	"vibe-lsm/verifsim/cmdexamples"
	"vibe-lsm/verifsim/cmdloadtest"
	"vibe-lsm/verifsim/cmdread_example"
	"vibe-lsm/verifsim/cmdvibecol"
	"vibe-lsm/verifsim/cmdwrite_example"
)

func init() {
	scenarios["P19"] = &scenario{gen: genP19, exec: execP19}
}

var tools = map[string]func(){
	"vibecol": cmdvibecol.Run, "loadtest": cmdloadtest.Run,
	"write_example": cmdwrite_example.Run, "read_example": cmdread_example.Run, "examples": cmdexamples.Run,
}

// process is what one run of a tool did.
type process struct {
	code    int // exit status
	crashed bool
	out     string
	args    []string
}

func (pr *process) String() string {
	s := strings.Join(pr.args, " ")
	if len(s) > 160 {
		s = s[:160] + "..."
	}
	return s
}

// exec runs a tool to its end, or to the planned crash, as operation ph.
func (w *World) exec(ph int, sched bool, tool string, args ...string) *process {
	pr := &process{args: append([]string{tool}, args...)}
	exited := false
	oldArgs, oldOut, oldErr, oldFl := os.Args, os.Stdout, os.Stderr, flag.CommandLine
	os.Args = pr.args
	flag.CommandLine = flag.NewFlagSet(tool, flag.ExitOnError)
	fd := w.k.Stdout()
	nv := len(w.viol)
	syscall.VerifCwd = true
	w.Run(sched, func() {
		f := os.NewFile(uintptr(fd), "/dev/stdout")
		os.Stdout, os.Stderr = f, f
		log.SetOutput(f)
		os.VerifExit = func(code int) {
			old := runtime.VerifEnter()
			if !exited {
				exited, pr.code = true, code
			}
			w.k.dead = true
			w.k.unwound[runtime.VerifSelf()] = true
			runtime.VerifLeave(old)
			runtime.Goexit()
		}
		w.k.Phase(ph)
		tools[tool]()
		if !w.k.dead {
			w.k.PhaseEnd(ph)
		}
	})
	os.VerifExit = nil
	syscall.VerifCwd = false
	os.Args, os.Stdout, os.Stderr, flag.CommandLine = oldArgs, oldOut, oldErr, oldFl
	pr.out = string(w.k.stdout)
	if len(w.viol) > nv {
		pr.code = 2 // a panic
	}
	pr.crashed = w.k.dead && !exited
	// the process is gone; what it wrote stays
	crash := w.k.crash
	if !pr.crashed {
		w.k.crash = nil
	}
	w.k.Reboot()
	if !pr.crashed {
		w.k.crash = crash
	}
	w.k.note("%s: exit %d crashed %v", tool, pr.code, pr.crashed)
	return pr
}

func genP19(r *Rng, p *Plan) {
	path := "/simfs/cli.col"
	p.Clock = genClock(r)
	if r.P(1, 3) {
		genLoadtest(r, p)
		return
	}
	p.set("old", int64(r.N(2)))
	if p.par("old") == 1 {
		f := smallAny(r, path)
		f.NoFinal = false
		p.Files = append(p.Files, f)
	}
	b := genBatch(r, pick(r, 1, 2, 3, 1+r.N(20), 1+r.N(150), 1+r.N(150), 150, 900+r.N(200)))
	p.Files = append(p.Files, FileSpec{Path: path, API: "writer", Batches: []Batch{b}})
	p.set("spaces", int64(r.N(4)/3))
	p.set("dump", int64(r.N(4)))
	if r.P(1, 6) {
		p.set("bad", int64(1+r.N(6)))
		p.set("badat", int64(r.N(1000)))
	}
	pr, w := probe(p)
	if len(w.viol) > 0 || len(pr) == 0 {
		return
	}
	wr := pr[:1]
	switch r.N(4) {
	case 0:
		benign(r, p, wr, 0)
	case 1:
		genHardWrite(r, p, wr)
	case 2:
		genCrash(r, p, wr)
	}
	if len(pr) > 1 && r.P(1, 2) {
		p.Faults = append(p.Faults, readFault(r, pr[1], 1))
	}
}

// readFault hits any call of a reading process.
func readFault(r *Rng, pr map[string]int, ph int) Fault {
	sys := pick(r, "read", "read", "read", "open", "stat", "any", "close")
	if pr[sys] == 0 {
		sys = "any"
	}
	f := Fault{Phase: ph, Sys: sys, Nth: 1 + r.N(max(1, pr[sys])), Kind: pick(r, "EIO", "EIO", "short", "EINTR", "ENOMEM"), Arg: int64(r.U() >> 40)}
	if r.P(1, 3) {
		f.Times = pick(r, 2, 5, -1)
	}
	return f
}

func genLoadtest(r *Rng, p *Plan) {
	p.set("loadtest", 1)
	p.set("n", int64(pick(r, 1, 2, 10, 1+r.N(300), 1+r.N(300), 1+r.N(300), 1+r.N(800), pick(r, 999, 1000, 1001, 1+r.N(1500)))))
	p.set("block", int64(pick(r, 4096, 4096, 8192, 10000, 1000, 1<<20)))
	if r.P(1, 60) { // more than one batch
		p.set("n", int64(pick(r, 9999, 10000, 10001, 20300)))
		p.set("block", 1<<20)
	}
	p.set("seed", int64(r.N(1<<30)))
	p.set("maxval", int64(pick(r, 10, 100, 1000, 1000000, 1<<40)))
	p.set("maxid", int64(pick(r, 1, 50, 70000, 20000000, 1<<40)))
	p.set("par", int64(pick(r, 0, 1, 2, 3, 8, -1)))
	p.set("skip", int64(r.N(2)))
	p.Sched = genSched(r)
	p.Cores = pick(r, 1, 2, 4, 8)
	p.Clock = genClock(r)
	pr, w := probe(p)
	if len(w.viol) > 0 || len(pr) == 0 {
		return
	}
	wr := pr[:1]
	switch r.N(4) {
	case 0:
		benign(r, p, wr, 0)
	case 1:
		genHardWrite(r, p, wr)
	case 2:
		genCrash(r, p, wr)
	}
	if len(pr) > 1 && r.P(1, 2) {
		benign(r, p, pr[1:2], 1)
	}
}

func execP19(w *World) {
	if w.p.par("loadtest") == 1 {
		w.execLoadtest()
		return
	}
	fs := w.p.Files
	if len(fs) == 0 {
		return
	}
	var old *Content
	if w.p.par("old") == 1 && len(fs) > 1 {
		if !w.prepareFiles(fs[:1], false) {
			return
		}
		m := w.models[0]
		old = &Content{Enc: m.Enc, Blocks: m.Blocks}
		fs = fs[1:]
	}
	f := &fs[0]
	if len(f.Batches) == 0 {
		return
	}
	before := append([]byte(nil), w.k.Bytes(f.Path)...)
	ids, vals := f.Batches[0].expand()
	if len(ids) == 0 {
		return
	}
	is, vs := make([]string, len(ids)), make([]string, len(ids))
	pad := ""
	if w.p.par("spaces") == 1 {
		pad = " "
	}
	for i := range ids {
		is[i] = pad + strconv.FormatUint(ids[i], 10)
		vs[i] = strconv.FormatInt(vals[i], 10) + pad
	}
	at := int(w.p.par("badat")) % len(is)
	bad := w.p.par("bad")
	switch bad {
	case 1:
		is[at] = "18446744073709551616"
	case 2:
		vs[at] = "9223372036854775808"
	case 3:
		is[at] = "-1"
	case 4:
		vs[at] = "1.5"
	case 5:
		vs = append(vs, "7")
	case 6:
		is[at] = ""
	}
	args := []string{"write", "-o", f.Path, "-ids", strings.Join(is, ","), "-values", strings.Join(vs, ",")}
	w.k.failed = 0
	pr := w.exec(0, false, "vibecol", args...)
	if len(w.viol) > 0 {
		return
	}
	failed := w.k.failed > 0
	w.k.failed = 0
	want := &Content{Enc: 0, Blocks: []Block{pairsOf(ids, vals)}}
	if bad != 0 {
		if !pr.crashed && pr.code == 0 {
			w.fail("bad-input-accepted", "%v exits 0 although its arguments are invalid", pr)
		} else if string(before) != string(w.k.Bytes(f.Path)) {
			w.fail("bad-input-damage", "%v was refused but changed the file", pr)
		}
		return
	}
	switch {
	case pr.crashed:
		allowed := []*Content{want}
		if old != nil {
			allowed = append(allowed, old)
		}
		w.verify(f.Path, "after a crash of vibecol write", false, allowed...)
	case pr.code == 0:
		if failed {
			w.fail("swallowed-error", "%v exits 0 although a storage call failed (%s)", pr, firedList(w.k))
			return
		}
		w.k.crash = &Crash{Power: true, Mode: "none"}
		w.k.Reboot()
		w.verify(f.Path, "vibecol write exited with 0, then the power failed", true, want)
	default:
		if !failed && len(ids) <= 150 {
			w.fail("write-refused", "%v exits %d without any storage failure: %s", pr, pr.code, pr.out)
			return
		}
		var allowed []*Content
		if failed {
			allowed = append(allowed, want)
			if string(w.k.Bytes(f.Path)) == string(before) && old != nil {
				allowed = append(allowed, old)
			}
		}
		w.verify(f.Path, fmt.Sprintf("vibecol write exited with %d", pr.code), false, allowed...)
	}
	if len(w.viol) > 0 {
		return
	}
	// read it back with the tool
	rargs := []string{"read", "-f", f.Path}
	mode := w.p.par("dump")
	if mode != 1 {
		rargs = append(rargs, "-dump")
	}
	if mode != 0 {
		rargs = append(rargs, "--agg")
	}
	img := append([]byte(nil), w.k.Bytes(f.Path)...)
	rp := w.exec(1, false, "vibecol", rargs...)
	failed = w.k.failed > 0
	if len(w.viol) > 0 {
		return
	}
	if string(img) != string(w.k.Bytes(f.Path)) {
		w.fail("read-changed-file", "%v changed the file", rp)
		return
	}
	pf, err := parseFile(img)
	if err != nil {
		if rp.code == 0 {
			w.fail("unfinished-opened", "%v exits 0 for an incomplete file: %s", rp, rp.out)
		}
		return
	}
	var pairs Block
	for i := range pf.Blocks {
		if pf.Blocks[i].Err != nil {
			return // reported above
		}
		pairs = append(pairs, pf.Blocks[i].Pairs...)
	}
	if rp.code != 0 {
		if !failed {
			w.fail("error-without-fault", "%v exits %d although the storage worked: %s", rp, rp.code, rp.out)
			return
		}
	} else if failed && w.badExit(rp) {
		w.fail("swallowed-error", "%v exits 0 although reading failed (%s)", rp, firedList(w.k))
		return
	}
	w.checkOutput(rp, pairs, mode != 1, mode != 0, rp.code == 0)
	w.mark(uint64(len(pairs)), uint64(rp.code), uint64(pr.code))
}

// badExit: a failed close of a file that was only read may go unnoticed.
func (w *World) badExit(rp *process) bool {
	for n := range w.k.fired {
		if strings.HasPrefix(n, "read-E") && n != "read-EINTR" || strings.HasPrefix(n, "open-E") && n != "open-EINTR" {
			return w.lastPhaseFailed("read") || w.lastPhaseFailed("open")
		}
	}
	return false
}

func (w *World) lastPhaseFailed(sys string) bool {
	for i, f := range w.p.Faults {
		if f.Phase == 1 && f.Sys == sys && f.Kind != "short" && f.Kind != "EINTR" && i < len(w.k.used) && w.k.used[i] > 0 {
			return true
		}
	}
	return false
}

// checkOutput compares what a reading tool printed with the stored pairs.
func (w *World) checkOutput(rp *process, pairs Block, dump, agg, complete bool) {
	var got Block
	fields := map[string]string{}
	for _, l := range strings.Split(rp.out, "\n") {
		if a, b, ok := strings.Cut(l, "\t"); ok {
			id, e1 := strconv.ParseUint(strings.TrimSpace(a), 10, 64)
			v, e2 := strconv.ParseInt(strings.TrimSpace(b), 10, 64)
			if e1 == nil && e2 == nil {
				got = append(got, Pair{id, v})
			} else if errors.Is(e1, strconv.ErrRange) || errors.Is(e2, strconv.ErrRange) {
				w.fail("wrong-output", "%v prints %q", rp, l)
				return
			}
			continue
		}
		if a, b, ok := strings.Cut(l, ":"); ok {
			fields[strings.TrimSpace(a)] = strings.TrimSpace(b)
		}
	}
	if dump {
		n := min(len(got), len(pairs))
		for i := 0; i < n; i++ {
			if got[i] != pairs[i] {
				w.fail("wrong-output", "%v prints pair %d as (%d,%d), stored is (%d,%d)", rp, i, got[i].ID, got[i].Val, pairs[i].ID, pairs[i].Val)
				return
			}
		}
		if len(got) > len(pairs) || complete && len(got) != len(pairs) {
			w.fail("wrong-output", "%v prints %d pairs, %d are stored", rp, len(got), len(pairs))
			return
		}
	}
	if agg && (complete || fields["Average"] != "") {
		w.checkAggOutput(rp, fields, pairs)
	}
}

func (w *World) checkAggOutput(rp *process, fields map[string]string, pairs Block) {
	a := aggregate(pairs, nil, nil, false)
	avg := 0.0
	if a.Count > 0 {
		avg = float64(a.Sum) / float64(a.Count)
	}
	for _, c := range [][2]string{
		{"Count", strconv.Itoa(a.Count)}, {"Min", strconv.FormatInt(a.Min, 10)}, {"Max", strconv.FormatInt(a.Max, 10)},
		{"Sum", strconv.FormatInt(a.Sum, 10)}, {"Average", fmt.Sprintf("%.2f", avg)},
	} {
		if a.Count == 0 && (c[0] == "Min" || c[0] == "Max") {
			continue
		}
		if g := fields[c[0]]; g != c[1] {
			w.fail("wrong-output", "%v prints %s %q, want %s", rp, c[0], g, c[1])
			return
		}
	}
}

func (w *World) execLoadtest() {
	path := "/simfs/load/lt.col"
	n := int(w.p.par("n"))
	s := func(name string) string { return strconv.FormatInt(w.p.par(name), 10) }
	imp := func(path string) []string {
		return []string{"import", "-n", s("n"), "-block-size", s("block"), "-file", path, "-seed", s("seed"), "-max-value", s("maxval"), "-max-id", s("maxid")}
	}
	w.k.failed = 0
	pr := w.exec(0, false, "loadtest", imp(path)...)
	if len(w.viol) > 0 {
		return
	}
	failed := w.k.failed > 0
	if !pr.crashed && pr.code == 0 {
		if failed && w.p.Cap == 0 && !w.statOnly() {
			w.fail("swallowed-error", "%v exits 0 although a storage call failed (%s)", pr, firedList(w.k))
			return
		}
		w.k.crash = &Crash{Power: true, Mode: "none"}
		w.k.Reboot()
	} else if !pr.crashed && !failed {
		w.fail("write-refused", "%v exits %d without any storage failure: %s", pr, pr.code, pr.out)
		return
	}
	ok := !pr.crashed && pr.code == 0
	img := append([]byte(nil), w.k.Bytes(path)...)
	pf, err := parseFile(img)
	w.k.faults, w.k.used = append([]Fault(nil), w.k.faults...), append([]int(nil), w.k.used...)
	w.k.capacity = 0
	if err != nil {
		if ok {
			w.fail("lost", "%v exited with 0, then the power failed, and the file is not well formed: %v", pr, err)
			return
		}
	}
	var pairs Block
	if err == nil {
		for i := range pf.Blocks {
			if e := pf.Blocks[i].Err; e != nil {
				w.fail("wrong-data", "%v: block %d cannot be decoded: %v", pr, i, e)
				return
			}
			pairs = append(pairs, pf.Blocks[i].Pairs...)
		}
		if len(pairs) != n {
			w.fail("wrong-data", "%v (exit %d, crashed %v) leaves a complete file with %d pairs", pr, pr.code, pr.crashed, len(pairs))
			return
		}
	}
	if ok && !strings.Contains(pr.out, fmt.Sprintf("Total values: %d\n", n)) {
		w.fail("wrong-output", "%v does not report %d values: %s", pr, n, pr.out)
		return
	}
	// aggregate it
	args := []string{"aggregate", "-file", path, "-skip-cache=" + strconv.FormatBool(w.p.par("skip") == 1), "-parallel", s("par")}
	w.k.failed = 0
	rp := w.exec(1, true, "loadtest", args...)
	if len(w.viol) > 0 {
		return
	}
	if string(img) != string(w.k.Bytes(path)) {
		w.fail("read-changed-file", "%v changed the file", rp)
		return
	}
	if err != nil {
		if rp.code == 0 {
			w.fail("unfinished-opened", "%v exits 0 for an incomplete file: %s", rp, rp.out)
		}
		return
	}
	if w.k.failed > 0 {
		return
	}
	if rp.code != 0 {
		w.fail("error-without-fault", "%v exits %d although the storage worked: %s", rp, rp.code, rp.out)
		return
	}
	fields := map[string]string{}
	for _, l := range strings.Split(rp.out, "\n") {
		if a, b, ok := strings.Cut(l, ":"); ok {
			fields[strings.TrimSpace(a)] = strings.TrimSpace(b)
		}
	}
	w.checkAggOutput(rp, fields, pairs)
	if len(w.viol) > 0 {
		return
	}
	if scan := strings.Fields(fields["Full scan"]); len(scan) == 0 || scan[0] != strconv.Itoa(n) {
		w.fail("wrong-output", "%v scans %q values, %d are stored", rp, fields["Full scan"], n)
		return
	}
	// the same seed gives the same data again
	w.k.faults, w.k.crash, w.k.lag = nil, nil, 0
	again := "/simfs/load/again.col"
	pr = w.exec(2, false, "loadtest", imp(again)...)
	if len(w.viol) > 0 {
		return
	}
	if string(zeroTime(w.k.Bytes(again))) != string(zeroTime(img)) {
		w.fail("not-repeatable", "%v writes other bytes the second time (exit %d)", pr, pr.code)
	}
	w.mark(uint64(len(pairs)), uint64(w.p.par("seed")))
}

// statOnly: the only failing calls were those that merely look at the file.
func (w *World) statOnly() bool {
	for n := range w.k.fired {
		if strings.Contains(n, "-E") && !strings.HasSuffix(n, "EINTR") && !strings.HasPrefix(n, "stat-") {
			return false
		}
	}
	return true
}

// zeroTime is a file's contents without the creation time.
func zeroTime(b []byte) []byte {
	out := append([]byte(nil), b...)
	for i := 36; i < 44 && i < len(out); i++ {
		out[i] = 0
	}
	return out
}
