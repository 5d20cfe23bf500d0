package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

// stallLimit: a worker that finishes no run for so long is stopped.
const stallLimit = 90 * time.Second

// tail keeps the end of a worker's standard error.
type tail struct {
	mu   sync.Mutex
	head []byte
	b    []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.head) < 16<<10 {
		t.head = append(t.head, p...)
		return len(p), nil
	}
	t.b = append(t.b, p...)
	if len(t.b) > 32<<10 {
		t.b = append([]byte(nil), t.b[len(t.b)-16<<10:]...)
	}
	return len(p), nil
}

func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.head) + string(t.b)
}

// result is what one worker process did.
type result struct {
	code   int
	stderr string
	last   string // seed of the run in progress when it ended
	open   bool   // a run was in progress
	stuck  bool
	viols  []string
	soft   []string
	notes  []string
	ends   []string
	trace  []string
	cands  []string
	stats  string
}

func runWorker(bin string, stdin []byte, limit time.Duration, args ...string) *result {
	r := &result{}
	race := strings.HasSuffix(bin, "race")
	var c *exec.Cmd
	if race {
		c = exec.Command(bin, args...)
	} else {
		// 6 GB of address space: a runaway allocation ends the worker only
		c = exec.Command("/bin/sh", append([]string{"-c", `ulimit -v 6000000; exec "$0" "$@"`, bin}, args...)...)
	}
	c.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0", "GOTRACEBACK=all", "GODEBUG=")
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	t := &tail{}
	c.Stderr = t
	if stdin != nil {
		c.Stdin = bytes.NewReader(stdin)
	}
	out, err := c.StdoutPipe()
	if err == nil {
		err = c.Start()
	}
	if err != nil {
		die("starting the simulator: %v", err)
	}
	var mu sync.Mutex
	seen := time.Now()
	stop := make(chan bool)
	go func() {
		for {
			select {
			case <-stop:
				return
			case <-time.After(200 * time.Millisecond):
			}
			mu.Lock()
			idle := time.Since(seen)
			mu.Unlock()
			if idle > limit {
				mu.Lock()
				r.stuck = true
				mu.Unlock()
				syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
				return
			}
		}
	}()
	br := bufio.NewReaderSize(out, 1<<20)
	for {
		l, err := br.ReadString('\n')
		if l != "" && strings.HasSuffix(l, "\n") {
			mu.Lock()
			seen = time.Now()
			mu.Unlock()
			l = l[:len(l)-1]
			switch {
			case strings.HasPrefix(l, "B "):
				r.last, r.open = l[2:], true
			case strings.HasPrefix(l, "E "):
				r.open = false
				r.ends = append(r.ends, l[2:])
			case strings.HasPrefix(l, "V "):
				r.viols = append(r.viols, l[2:])
			case strings.HasPrefix(l, "Q "):
				if len(r.soft) < 20 {
					r.soft = append(r.soft, l[2:])
				}
			case strings.HasPrefix(l, "F "):
				r.notes = append(r.notes, l[2:])
			case strings.HasPrefix(l, "T "):
				r.trace = append(r.trace, l[2:])
			case strings.HasPrefix(l, "C "):
				r.cands = append(r.cands, l[2:])
			case strings.HasPrefix(l, "S "):
				r.stats = l[2:]
			}
		}
		if err != nil {
			if err != io.EOF {
				fmt.Fprintln(os.Stderr, "worker output:", err)
			}
			break
		}
	}
	c.Wait()
	close(stop)
	r.code = c.ProcessState.ExitCode()
	if ws, ok := c.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
		r.code = 1000 + int(ws.Signal())
	}
	r.stderr = t.String()
	return r
}

var reFrame = regexp.MustCompile(`(?m)^(vibe-lsm/[^\s(]*(?:\([^)\s]*\)[^\s(]*)*)\(`)

var reMade = regexp.MustCompile(`created by vibe-lsm/(pkg|cmd)/`)

// deathClass names why a worker process died while a run was in progress.
// An empty class means the simulator itself is at fault.
func deathClass(r *result) (class, msg string) {
	s := r.stderr
	frame := ""
	for _, m := range reFrame.FindAllStringSubmatch(s, -1) {
		if !strings.Contains(m[1], "verifsim") {
			frame = m[1]
			break
		}
	}
	firstLine := func(prefix string) string {
		for _, l := range strings.Split(s, "\n") {
			if strings.HasPrefix(l, prefix) {
				return l
			}
		}
		return ""
	}
	switch {
	case r.stuck:
		return "no-progress", "the run does not end"
	case r.code == 77:
		return "no-progress", "the run exceeds its step bound: " + firstLine("VERIF-STEP-LIMIT")
	case r.code == 66:
		return "data-race", "data race: " + raceSites(s)
	case strings.Contains(s, "fatal error: verif: run queue full") && reMade.MatchString(s):
		return "no-progress", "goroutines are started without end " + frame
	case r.code == 3 || r.code == 4 || strings.Contains(s, "fatal error: verif"):
		return "", s
	case r.code == 1 && !strings.Contains(s, "panic:") && !strings.Contains(s, "fatal error:"):
		return "exit", "the code under test ends the process in " + frame
	case strings.Contains(s, "all goroutines are asleep - deadlock"):
		return "deadlock", "every goroutine is blocked (deadlock)"
	case strings.Contains(s, "out of memory") || strings.Contains(s, "cannot allocate memory") || r.code == 1009:
		return "memory", "memory is exhausted " + frame
	case strings.Contains(s, "concurrent map"):
		return "data-race", firstLine("fatal error:")
	case firstLine("panic:") != "":
		return "panic", firstLine("panic:") + " in " + frame
	case firstLine("fatal error:") != "":
		return "fatal", firstLine("fatal error:") + " in " + frame
	case r.code >= 1000:
		return "", fmt.Sprintf("killed by signal %d\n%s", r.code-1000, s)
	}
	return "", fmt.Sprintf("exit %d\n%s", r.code, s)
}

var reSite = regexp.MustCompile(`(?m)^  (vibe-lsm/[^\n]*|[^\n]*)\n      ([^\n]*):(\d+)`)

func raceSites(s string) string {
	var sites []string
	for _, part := range regexp.MustCompile(`(?m)^(Previous )?(atomic )?([Rr]ead|[Ww]rite) (at|of)`).Split(s, -1)[1:] {
		for _, m := range reSite.FindAllStringSubmatch(part, 12) {
			if strings.Contains(m[2], "/pkg/") {
				sites = append(sites, strings.TrimPrefix(m[2], repo+"/")+":"+m[3])
				break
			}
		}
		if len(sites) == 2 {
			break
		}
	}
	return strings.Join(sites, " and ")
}

// planInfo is the part of a plan the driver looks at; the plan itself is
// carried as raw JSON.
type planInfo struct {
	Seed  uint64 `json:"seed"`
	Class string `json:"violation_class"`
	Msg   string `json:"violation"`
	Race  bool   `json:"race_build"`
}

type found struct {
	plan  []byte
	class string
	msg   string
	race  bool
	soft  bool
	seed  uint64
	batch *batch // the runs of the process it was met in
}

// batch names consecutive runs of one process: those before the last one may
// have left something behind in the memory of the code under test.
type batch struct {
	From   uint64 `json:"from"`
	To     uint64 `json:"last"`
	Stride uint64 `json:"stride"`
}

// execBatch repeats them and says how the last one ended.
func (d *driver) execBatch(b *batch, race bool, dump string) outcome {
	args := []string{"-prop", d.prop, "-from", fmt.Sprint(b.From), "-to", fmt.Sprint(b.To + 1), "-stride", fmt.Sprint(b.Stride)}
	if race {
		args = append(args, "-race")
	}
	if dump != "" {
		args = append(args, "-dump", dump)
	}
	r := runWorker(d.binOf(race), nil, stallLimit, args...)
	var o outcome
	if r.open {
		if r.last == fmt.Sprint(b.To) {
			o.class, o.msg = deathClass(r)
		}
		return o
	}
	for _, l := range r.ends {
		if f := strings.Fields(l); f[0] == fmt.Sprint(b.To) {
			o.hash = f[1]
		}
	}
	for _, v := range append(r.viols, r.soft...) {
		if f := parsePlan(v); f.seed == b.To {
			o.class, o.msg, o.plan = f.class, f.msg, f.plan
		}
	}
	return o
}

func parsePlan(s string) found {
	var p planInfo
	if err := json.Unmarshal([]byte(s), &p); err != nil {
		die("bad plan from the simulator: %v", err)
	}
	return found{plan: []byte(s), class: p.Class, msg: p.Msg, race: p.Race, seed: p.Seed}
}

// outcome of running one plan in a fresh process
type outcome struct {
	class, msg, hash string
	plan             []byte // with the schedule made explicit
	trace            []string
}

func (d *driver) execPlan(plan []byte, race, trace bool, limit time.Duration) outcome {
	args := []string{"-mode", "exec"}
	bin := d.b.plain
	if race {
		bin = d.b.race
		args = append(args, "-race")
	}
	if trace {
		args = append(args, "-trace")
	}
	r := runWorker(bin, plan, limit, args...)
	var o outcome
	if r.open || len(r.ends) == 0 {
		o.class, o.msg = deathClass(r)
		if o.class == "" {
			o.class, o.msg = "simulator-error", r.stderr
		}
		o.plan = plan
		return o
	}
	o.hash = strings.Fields(r.ends[0])[1]
	o.trace = r.trace
	for _, v := range append(r.viols, r.soft...) {
		f := parsePlan(v)
		o.class, o.msg, o.plan = f.class, f.msg, f.plan
		break
	}
	return o
}

// shrink looks for a simpler plan of the same class.
func (d *driver) shrink(f found, budget time.Duration, execs int) (found, int) {
	end := time.Now().Add(budget)
	n := 0
	limit := 20 * time.Second
	for {
		r := runWorker(d.binOf(f.race), f.plan, 30*time.Second, "-mode", "cand")
		progress := false
		// candidates are tried in groups, in order, one per core
		for i := 0; i < len(r.cands) && !progress; i += cores() {
			if time.Now().After(end) || n >= execs {
				return f, n
			}
			grp := r.cands[i:min(i+cores(), len(r.cands))]
			outs := make([]outcome, len(grp))
			var wg sync.WaitGroup
			for j := range grp {
				wg.Add(1)
				go func() {
					defer wg.Done()
					outs[j] = d.execPlan([]byte(grp[j]), f.race, false, limit)
				}()
			}
			wg.Wait()
			n += len(grp)
			for j, o := range outs {
				if o.class == f.class {
					f.plan, f.msg = o.plan, o.msg
					progress = true
					_ = j
					break
				}
			}
		}
		if !progress {
			return f, n
		}
	}
}

func (d *driver) binOf(race bool) string {
	if race && d.b.race != "" {
		return d.b.race
	}
	if d.b.plain != "" {
		return d.b.plain
	}
	return d.b.race
}

// culprit finds the plan a worker died on.
func (d *driver) culprit(b batch, race bool, class, msg string) found {
	dump := filepath.Join(scratch, fmt.Sprintf("dump-%d-%v", b.To, race))
	f := found{class: class, msg: msg, race: race, seed: b.To, batch: &b}
	for _, try := range []batch{{b.To, b.To, 1}, b} {
		if o := d.execBatch(&try, race, dump); o.class != "" {
			if p, err := os.ReadFile(dump); err == nil {
				f.plan, f.class, f.msg = p, o.class, o.msg
				return f
			}
		}
	}
	return f
}

type replayFile struct {
	Property string          `json:"property"`
	Class    string          `json:"violation_class"`
	Message  string          `json:"violation"`
	Seed     uint64          `json:"seed"`
	Race     bool            `json:"race_build"`
	Hash     string          `json:"execution_hash"`
	Plan     json.RawMessage `json:"plan"`
	Batch    *batch          `json:"batch,omitempty"` // to be repeated whole: the plan alone does not do it
	Trace    []string        `json:"trace,omitempty"`
}

func (d *driver) writeReplay(f found) (string, bool) {
	var o, again outcome
	if len(f.plan) > 0 {
		o = d.execPlan(f.plan, f.race, true, 2*stallLimit)
		again = d.execPlan(f.plan, f.race, false, 2*stallLimit)
	} else {
		f.plan = []byte("null")
	}
	same := o.class == f.class && again.class == f.class && o.hash == again.hash
	var whole *batch
	if !same && f.batch != nil {
		o2 := d.execBatch(f.batch, f.race, "")
		again = d.execBatch(f.batch, f.race, "")
		if same = o2.class == f.class && again.class == f.class && o2.hash == again.hash; same {
			whole, o.hash = f.batch, o2.hash
		}
	}
	var plan bytes.Buffer
	if json.Compact(&plan, f.plan) != nil {
		plan.Write(f.plan)
	}
	rf := replayFile{d.prop, f.class, f.msg, f.seed, f.race, o.hash, plan.Bytes(), whole, o.trace}
	b, _ := json.MarshalIndent(rf, "", " ")
	dir := filepath.Join(verif, "replays")
	os.MkdirAll(dir, 0o755)
	name := regexp.MustCompile(`[^A-Za-z0-9_.-]+`).ReplaceAllString(f.class, "_")
	if len(name) > 60 {
		name = name[:60]
	}
	p := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", d.prop, name, f.seed))
	if err := os.WriteFile(p, append(b, '\n'), 0o644); err != nil {
		die("%v", err)
	}
	return p, same
}

func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		die("%v", err)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil || len(rf.Plan) == 0 {
		die("not a replay file: %v", err)
	}
	d := &driver{prop: rf.Property, b: buildAll(!rf.Race, rf.Race)}
	var o outcome
	if rf.Batch != nil {
		o = d.execBatch(rf.Batch, rf.Race, "")
	} else {
		o = d.execPlan(rf.Plan, rf.Race, true, 2*stallLimit)
	}
	for _, t := range o.trace {
		fmt.Println(t)
	}
	fmt.Printf("recorded: class=%s hash=%s\nreplayed: class=%s hash=%s\n%s\n", rf.Class, rf.Hash, o.class, o.hash, o.msg)
	if o.class == "simulator-error" {
		return 3
	}
	if o.class != "" {
		fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, path)
		return 1
	}
	return 0
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
