package main

// The simulated kernel: an in-memory file system with a page cache, a durable
// image, fault injection and crash images. Every syscall the code under test
// makes on a path below /simfs ends here (see overlay/syscall_verif.go).

import (
	"fmt"
	"runtime"
	"sort"
	"strings"
	"syscall"
)

const sector = 512

type pend struct {
	off  int64
	data []byte // nil for a pure size change
	size int64  // file size after the operation
}

type inode struct {
	id    int
	data  []byte // what running processes see
	dur   []byte // what the disk holds for sure
	pend  []pend // un-synced changes since
	base  []byte // durable contents before a pending truncation (nil: none)
	trunc bool   // a truncation is pending: until a sync, the old contents may come back
	dir   bool
	// a hole: hole bytes of zeros that are not in data lie at holeAt. Only in
	// files that are put there for reading.
	holeAt, hole int64
}

func (ino *inode) size() int64 { return int64(len(ino.data)) + ino.hole }

// read copies what the file holds at off.
func (ino *inode) read(p []byte, off int64) (n int) {
	if ino.hole == 0 {
		if off < int64(len(ino.data)) {
			n = runtime.VerifCopy(p, ino.data[off:])
		}
		return
	}
	for n < len(p) && off < ino.size() {
		q, c := p[n:], 0
		switch {
		case off < ino.holeAt:
			c = runtime.VerifCopy(q, ino.data[off:ino.holeAt])
		case off < ino.holeAt+ino.hole:
			c = int(min(int64(len(q)), ino.holeAt+ino.hole-off))
			for done := 0; done < c; {
				done += runtime.VerifCopy(q[done:c], zeros)
			}
		default:
			c = runtime.VerifCopy(q, ino.data[off-ino.hole:])
		}
		n, off = n+c, off+int64(c)
	}
	return
}

var zeros = make([]byte, 1<<16)

type fdesc struct {
	ino    *inode
	off    int64
	flags  int
	path   string
	closed bool
}

// Fault is one injected failure. It applies to the Nth syscall of kind Sys
// (counted from 1) inside phase Phase (-1: anywhere), or, when Nth is 0, to
// reads that touch [Off,Off+Len).
type Fault struct {
	Phase int    `json:"phase"`
	Sys   string `json:"sys"` // open close read write seek fsync stat trunc
	Nth   int    `json:"nth,omitempty"`
	Kind  string `json:"kind"` // EIO ENOSPC EDQUOT EINTR EACCES EMFILE short torn
	Arg   int64  `json:"arg,omitempty"`
	Path  string `json:"path,omitempty"` // only this file
	Off   int64  `json:"off,omitempty"`
	Len   int64  `json:"len,omitempty"`
	Times int    `json:"times,omitempty"` // how often (0: once)
}

// Crash stops the simulated machine at the Nth syscall of phase Phase (Nth 0:
// when the phase has ended).
type Crash struct {
	Phase int    `json:"phase"`
	Nth   int    `json:"nth"`
	Power bool   `json:"power"` // power loss; otherwise the process is killed
	Mode  string `json:"mode"`  // all none prefix sectors pages dropone only
	Seed  uint64 `json:"seed"`
	Torn  int64  `json:"torn,omitempty"` // bytes of the interrupted write that happened
}

type Kernel struct {
	names    map[string]*inode
	durNames map[string]*inode
	fds      map[int]*fdesc
	onMove   func(kind string) bool // moves files about; false: not now
	fdBase   int                    // the lowest descriptor of this process
	nextIno  int

	faults    []Fault
	used      []int
	crash     *Crash
	phase     int
	counts    map[string]int // per phase
	total     map[string]int
	phaseN    int
	dead      bool
	unwound   map[int64]bool
	capacity  int64 // bytes; 0: unlimited
	rng       *Rng
	stall     int // 1/stall syscalls stall (0: never)
	lag       int // before 1/lag syscalls and operations time passes
	lagRng    *Rng
	fired     map[string]int
	failed    int                                // faults that made a syscall fail or lie since the last reset
	watch     func(sys string, off int64, n int) // observer of successful syscalls
	hash      uint64
	trace     []string
	tracing   bool
	probe     []map[string]int // syscall counts per phase, for placing faults
	badReads  []ival           // ranges whose reads failed
	tornNext  *fdesc           // its next write fails
	noCount   bool             // harness's own accesses: no faults, no counting
	devWrites int64
	stdout    []byte // what the simulated process printed
	lostPhase map[int]bool
}

// stdoutPath names the standard output of a simulated process. It is not part
// of the storage: no faults, no accounting.
const stdoutPath = "/simfs/stdout"

// absPath resolves what a simulated process with a working directory names.
func absPath(p string) string {
	if len(p) > 0 && p[0] != '/' {
		for len(p) > 1 && p[:2] == "./" {
			p = p[2:]
		}
		return "/simfs/" + p
	}
	return p
}

// Stdout gives a new process its standard output.
func (k *Kernel) Stdout() int {
	k.stdout = nil
	fd := k.newFD()
	k.fds[fd] = &fdesc{ino: &inode{}, flags: syscall.O_WRONLY, path: stdoutPath}
	return fd
}

type ival struct {
	a, b int64
	file string
}

// The lowest free descriptor is taken, as POSIX demands, but every simulated
// process has a range of its own, so that a stale descriptor (a finalizer of an
// earlier run) cannot reach a file of a later one.
var fdCounter = syscall.VerifFDBase

func newFDBase() int {
	fdCounter += 1 << 16
	return fdCounter
}

func (k *Kernel) newFD() int {
	fd := k.fdBase
	for k.fds[fd] != nil {
		fd++
	}
	return fd
}

func NewKernel(seed uint64) *Kernel {
	return &Kernel{
		fdBase: newFDBase(),
		names:  map[string]*inode{}, durNames: map[string]*inode{}, fds: map[int]*fdesc{},
		counts: map[string]int{}, total: map[string]int{}, unwound: map[int64]bool{}, fired: map[string]int{},
		rng: NewRng(seed ^ 0xfeed), lagRng: NewRng(seed ^ 0x1a9), hash: 14695981039346656037, phase: -1,
	}
}

func (k *Kernel) SetFaults(f []Fault) {
	k.faults = f
	k.used = make([]int, len(f))
}

// Phase starts operation n of the plan.
func (k *Kernel) Phase(n int) {
	r := runtime.VerifEnter()
	k.phase = n
	k.counts = map[string]int{}
	k.phaseN = 0
	k.pass()
	for len(k.probe) <= n {
		k.probe = append(k.probe, map[string]int{})
	}
	runtime.VerifLeave(r)
}

// pass lets time go by: calls take anything from a microsecond to an hour.
func (k *Kernel) pass() {
	if k.lag > 0 && k.lagRng.N(k.lag) == 0 {
		k.fired["time-passes"]++
		runtime.VerifAdvance(1 << uint(10+k.lagRng.N(33)))
	}
}

// PhaseEnd crashes the machine if the plan says so.
func (k *Kernel) PhaseEnd(n int) {
	defer runtime.VerifLeave(runtime.VerifEnter())
	if k.crash != nil && k.crash.Phase == n && k.crash.Nth == 0 && !k.dead {
		k.die()
	}
}

func (k *Kernel) mix(vs ...int64) {
	for _, v := range vs {
		k.hash = (k.hash ^ uint64(v)) * 1099511628211
	}
}

func (k *Kernel) note(format string, a ...any) {
	if k.tracing && len(k.trace) < 20000 {
		k.trace = append(k.trace, fmt.Sprintf("[t%d op%d] ", runtime.VerifSelf(), k.phase)+fmt.Sprintf(format, a...))
	}
}

func (k *Kernel) die() {
	k.dead = true
	what := "kill"
	if k.crash != nil && k.crash.Power {
		what = "power:" + k.crash.Mode
	}
	k.fired["crash-"+what]++
	k.note("CRASH (%s)", what)
	k.unwound[runtime.VerifSelf()] = true
	runtime.Goexit()
}

// enter is the head of every syscall: scheduling, accounting, crash points,
// faults. It returns the fault to apply, if any. n is the byte count.
func (k *Kernel) enter(sys string, off int64, n int) *Fault {
	if k.noCount {
		return nil
	}
	runtime.VerifYield()
	if k.dead {
		id := runtime.VerifSelf()
		if !k.unwound[id] {
			k.unwound[id] = true
			runtime.Goexit()
		}
		return &Fault{Kind: "dead"}
	}
	k.pass()
	if k.stall > 0 && k.rng.N(k.stall) == 0 {
		k.fired["stall"]++
		runtime.VerifStall(int64(2 + k.rng.N(200)))
		if k.dead {
			return k.enter(sys, off, n)
		}
	}
	k.counts[sys]++
	k.total[sys]++
	k.phaseN++
	if k.phase >= 0 {
		k.probe[k.phase][sys]++
		k.probe[k.phase]["any"]++
	}
	k.mix(int64(len(sys)), int64(sys[0]), off, int64(n), runtime.VerifSelf())
	return nil
}

func (k *Kernel) fault(sys, path string, off int64, n int) *Fault {
	if k.noCount {
		return nil
	}
	for i := range k.faults {
		f := &k.faults[i]
		if f.Sys != sys && f.Sys != "any" {
			continue
		}
		if f.Path != "" && f.Path != path {
			continue
		}
		if (f.Kind == "short" || f.Kind == "torn") && sys != "write" && (sys != "read" || f.Kind == "torn") {
			continue
		}
		if f.Kind == "EINTR" && sys == "seek" {
			continue // lseek is never interrupted
		}
		if f.Phase >= 0 && f.Phase != k.phase {
			continue
		}
		if strings.HasPrefix(f.Kind, "move:") { // somebody else moves files about
			if k.onMove != nil && k.used[i] == 0 && k.phaseN >= f.Nth && k.onMove(f.Kind[5:]) {
				k.used[i]++
				k.fired[sys+"-"+f.Kind]++
				k.note("FAULT %s %s", sys, f.Kind)
			}
			continue
		}
		max := f.Times
		if max == 0 {
			max = 1
		}
		if f.Times < 0 && f.Kind == "EINTR" {
			max = 6 // the os package retries an interrupted call for ever
		}
		if k.used[i] >= max && (f.Times >= 0 || f.Kind == "EINTR") {
			continue
		}
		hit := false
		if f.Nth > 0 {
			c := k.counts[sys]
			if f.Sys == "any" {
				c = k.phaseN
			}
			hit = c == f.Nth || (f.Times != 0 && c > f.Nth && k.used[i] > 0)
		} else {
			hit = off < f.Off+f.Len && f.Off < off+int64(n)
		}
		if !hit {
			continue
		}
		k.used[i]++
		k.fired[sys+"-"+f.Kind]++
		k.note("FAULT %s %s off=%d n=%d", sys, f.Kind, off, n)
		if f.Kind != "EINTR" && f.Kind != "short" && f.Kind != "torn" {
			k.lost()
		}
		return f
	}
	return nil
}

// lost notes that the code under test was told of a failed operation.
func (k *Kernel) lost() {
	k.failed++
	if k.lostPhase != nil {
		k.lostPhase[k.phase] = true
	}
}

func (k *Kernel) crashNow() bool {
	return k.crash != nil && !k.noCount && k.crash.Nth > 0 && k.crash.Phase == k.phase && k.crash.Nth == k.phaseN
}

func errnoOf(kind string) syscall.Errno {
	switch kind {
	case "ENOSPC":
		return syscall.ENOSPC
	case "EDQUOT":
		return syscall.EDQUOT
	case "EINTR":
		return syscall.EINTR
	case "EACCES":
		return syscall.EACCES
	case "EMFILE":
		return syscall.EMFILE
	case "ENOMEM":
		return syscall.ENOMEM
	}
	return syscall.EIO
}

func (k *Kernel) Open(path string, flags int, mode uint32) (int, syscall.Errno) {
	path = absPath(path)
	defer runtime.VerifLeave(runtime.VerifEnter())
	if f := k.enter("open", 0, 0); f != nil {
		return -1, syscall.EIO
	}
	if k.crashNow() {
		k.die()
	}
	if f := k.fault("open", path, 0, 0); f != nil {
		return -1, errnoOf(f.Kind)
	}
	ino := k.names[path]
	if ino == nil {
		if flags&syscall.O_CREAT == 0 {
			return -1, syscall.ENOENT
		}
		k.nextIno++
		ino = &inode{id: k.nextIno}
		k.names[path] = ino
	} else {
		if flags&(syscall.O_CREAT|syscall.O_EXCL) == syscall.O_CREAT|syscall.O_EXCL {
			return -1, syscall.EEXIST
		}
		if ino.dir && flags&3 != syscall.O_RDONLY {
			return -1, syscall.EISDIR
		}
		if flags&syscall.O_TRUNC != 0 && flags&3 != syscall.O_RDONLY {
			ino.truncate(0)
		}
	}
	fd := k.newFD()
	k.fds[fd] = &fdesc{ino: ino, flags: flags, path: path}
	k.note("open %s flags=%#x = fd%d", path, flags, fd-k.fdBase)
	return fd, 0
}

func (ino *inode) truncate(n int64) {
	if n >= int64(len(ino.data)) {
		if n > int64(len(ino.data)) {
			ino.data = append(ino.data, make([]byte, n-int64(len(ino.data)))...)
			ino.pend = append(ino.pend, pend{size: n})
		}
		return
	}
	if len(ino.dur) > 0 || ino.trunc {
		if !ino.trunc {
			ino.base = append([]byte(nil), ino.dur...)
			ino.trunc = true
		}
		if int64(len(ino.dur)) > n {
			ino.dur = append([]byte(nil), ino.dur[:n]...)
		}
	}
	ino.data = append([]byte(nil), ino.data[:n]...)
	// earlier un-synced writes beyond the cut are gone for good
	var keep []pend
	for _, p := range ino.pend {
		if p.data != nil && p.off+int64(len(p.data)) > n {
			if p.off >= n {
				p.data = nil
			} else {
				p.data = p.data[:n-p.off]
			}
		}
		if p.size > n {
			p.size = n
		}
		keep = append(keep, p)
	}
	ino.pend = append(keep, pend{size: n})
}

func (k *Kernel) Close(fd int) syscall.Errno {
	defer runtime.VerifLeave(runtime.VerifEnter())
	d := k.fds[fd]
	if d == nil {
		return syscall.EBADF // a stale descriptor of an earlier run, or a double close
	}
	if f := k.enter("close", 0, 0); f != nil {
		delete(k.fds, fd)
		return syscall.EIO
	}
	if k.crashNow() {
		k.die()
	}
	k.note("close fd%d", fd-k.fdBase)
	delete(k.fds, fd) // Linux releases the descriptor even when close fails
	if f := k.fault("close", d.path, 0, 0); f != nil {
		return errnoOf(f.Kind)
	}
	return 0
}

func (k *Kernel) Read(fd int, p []byte) (int, syscall.Errno) {
	d := k.get(fd)
	if d == nil {
		return -1, syscall.EBADF
	}
	n, e := k.pread(d, p, d.off)
	if n > 0 {
		d.off += int64(n)
	}
	return n, e
}

func (k *Kernel) get(fd int) *fdesc {
	defer runtime.VerifLeave(runtime.VerifEnter())
	return k.fds[fd]
}

func (k *Kernel) Pread(fd int, p []byte, off int64) (int, syscall.Errno) {
	d := k.get(fd)
	if d == nil {
		return -1, syscall.EBADF
	}
	if off < 0 {
		return -1, syscall.EINVAL
	}
	return k.pread(d, p, off)
}

func (k *Kernel) pread(d *fdesc, p []byte, off int64) (int, syscall.Errno) {
	defer runtime.VerifLeave(runtime.VerifEnter())
	if f := k.enter("read", off, len(p)); f != nil {
		return -1, syscall.EIO
	}
	if k.crashNow() {
		k.die()
	}
	if d.flags&3 == syscall.O_WRONLY {
		return -1, syscall.EBADF
	}
	if d.ino.dir {
		return -1, syscall.EISDIR
	}
	want := len(p)
	if f := k.fault("read", d.path, off, len(p)); f != nil {
		switch f.Kind {
		case "short":
			if want > 1 {
				want = 1 + int(uint64(f.Arg)%uint64(want-1))
			}
		default:
			if f.Kind != "EINTR" {
				k.badReads = append(k.badReads, ival{off, off + int64(len(p)), d.path})
			}
			return -1, errnoOf(f.Kind)
		}
	}
	n := d.ino.read(p[:want], off)
	k.note("pread fd off=%d n=%d = %d", off, len(p), n)
	k.mix(int64(n))
	if k.watch != nil {
		k.watch("read", off, n)
	}
	return n, 0
}

func (k *Kernel) Write(fd int, p []byte) (int, syscall.Errno) {
	d := k.get(fd)
	if d == nil {
		return -1, syscall.EBADF
	}
	if d.path == stdoutPath {
		defer runtime.VerifLeave(runtime.VerifEnter())
		if k.dead {
			return -1, syscall.EIO
		}
		k.stdout = append(k.stdout, p...)
		return len(p), 0
	}
	off := d.off
	if d.flags&syscall.O_APPEND != 0 {
		off = int64(len(d.ino.data))
	}
	n, e := k.pwrite(d, p, off)
	if n > 0 {
		d.off = off + int64(n)
	}
	return n, e
}

func (k *Kernel) Pwrite(fd int, p []byte, off int64) (int, syscall.Errno) {
	d := k.get(fd)
	if d == nil {
		return -1, syscall.EBADF
	}
	return k.pwrite(d, p, off)
}

func (k *Kernel) used_() int64 {
	var n int64
	seen := map[*inode]bool{}
	for _, i := range k.names {
		if !seen[i] {
			seen[i] = true
			n += int64(len(i.data))
		}
	}
	return n
}

func (k *Kernel) pwrite(d *fdesc, p []byte, off int64) (int, syscall.Errno) {
	defer runtime.VerifLeave(runtime.VerifEnter())
	if f := k.enter("write", off, len(p)); f != nil {
		return -1, syscall.EIO
	}
	if d.flags&3 == syscall.O_RDONLY {
		return -1, syscall.EBADF
	}
	if k.crashNow() {
		if t := k.crash.Torn; t > 0 && len(p) > 0 {
			n := int(t)
			if n > len(p) {
				n = len(p)
			}
			d.ino.write(off, p[:n])
		}
		k.die()
	}
	n := len(p)
	var e syscall.Errno
	if k.tornNext == d && !k.noCount { // the second half of a torn write
		k.tornNext = nil
		k.fired["write-torn-error"]++
		k.lost()
		return -1, syscall.ENOSPC
	}
	if f := k.fault("write", d.path, off, len(p)); f != nil {
		switch f.Kind {
		case "short":
			if n > 1 {
				n = 1 + int(uint64(f.Arg)%uint64(n-1))
			}
		case "torn": // a short write followed by an error: the caller sees the error on its retry
			if n > 1 {
				n = 1 + int(uint64(f.Arg)%uint64(n-1))
				k.tornNext = d
			} else {
				k.lost()
				return -1, syscall.ENOSPC
			}
		default:
			return -1, errnoOf(f.Kind)
		}
	}
	if k.capacity > 0 {
		grow := off + int64(n) - int64(len(d.ino.data))
		if grow > 0 {
			free := k.capacity - k.used_()
			if free <= 0 {
				k.fired["disk-full"]++
				k.lost()
				return -1, syscall.ENOSPC
			}
			if grow > free {
				n -= int(grow - free)
				k.fired["disk-full-short"]++
				if n <= 0 {
					k.lost()
					return -1, syscall.ENOSPC
				}
			}
		}
	}
	d.ino.write(off, p[:n])
	k.devWrites++
	k.note("write off=%d n=%d = %d", off, len(p), n)
	if k.watch != nil {
		k.watch("write", off, n)
	}
	return n, e
}

func (ino *inode) write(off int64, p []byte) {
	end := off + int64(len(p))
	if end > int64(len(ino.data)) {
		if end > int64(cap(ino.data)) {
			nd := make([]byte, end, end*2+4096)
			copy(nd, ino.data)
			ino.data = nd
		} else {
			old := len(ino.data)
			ino.data = ino.data[:end]
			clear(ino.data[old:])
		}
	}
	runtime.VerifCopy(ino.data[off:end], p)
	c := make([]byte, len(p))
	runtime.VerifCopy(c, p)
	ino.pend = append(ino.pend, pend{off, c, int64(len(ino.data))})
}

func (k *Kernel) Seek(fd int, off int64, whence int) (int64, syscall.Errno) {
	defer runtime.VerifLeave(runtime.VerifEnter())
	d := k.fds[fd]
	if d == nil {
		return -1, syscall.EBADF
	}
	if f := k.enter("seek", off, whence); f != nil {
		return -1, syscall.EIO
	}
	if k.crashNow() {
		k.die()
	}
	if f := k.fault("seek", d.path, off, 0); f != nil {
		return -1, errnoOf(f.Kind)
	}
	switch whence {
	case 0:
	case 1:
		off += d.off
	case 2:
		off += d.ino.size()
	default:
		return -1, syscall.EINVAL
	}
	if off < 0 {
		return -1, syscall.EINVAL
	}
	d.off = off
	return off, 0
}

func (k *Kernel) Fsync(fd int) syscall.Errno {
	defer runtime.VerifLeave(runtime.VerifEnter())
	d := k.fds[fd]
	if d == nil {
		return syscall.EBADF
	}
	if f := k.enter("fsync", 0, 0); f != nil {
		return syscall.EIO
	}
	if k.crashNow() {
		k.die()
	}
	if f := k.fault("fsync", d.path, 0, 0); f != nil {
		if f.Kind != "EINTR" {
			// The kernel reports the error once; pages whose write-back failed
			// are clean afterwards and their changes never reach the disk.
			r := NewRng(uint64(f.Arg) ^ 0x5ca1ab1e)
			mode := r.N(3)
			d.ino.flush(func(sec int64) bool { return mode == 1 || mode == 2 && r.N(2) == 0 })
		}
		return errnoOf(f.Kind)
	}
	d.ino.flush(nil)
	k.commit()
	k.note("fsync ino%d size=%d", d.ino.id, len(d.ino.data))
	if k.watch != nil {
		k.watch("fsync", 0, 0)
	}
	return 0
}

func (k *Kernel) commit() {
	k.durNames = map[string]*inode{}
	for n, i := range k.names {
		k.durNames[n] = i
	}
}

// flush makes the pending changes durable; with keep, only those of the
// sectors it accepts (the others are lost for good).
func (ino *inode) flush(keep func(sec int64) bool) {
	size := int64(len(ino.data))
	ino.trunc, ino.base = false, nil
	if int64(len(ino.dur)) > size {
		ino.dur = ino.dur[:size]
	}
	if int64(len(ino.dur)) < size {
		ino.dur = append(ino.dur, make([]byte, size-int64(len(ino.dur)))...)
	}
	verdict := map[int64]bool{}
	for _, p := range ino.pend {
		applyOp(ino.dur, p, func(sec int64) bool {
			if keep == nil {
				return true
			}
			v, ok := verdict[sec]
			if !ok {
				v = keep(sec)
				verdict[sec] = v
			}
			return v
		})
	}
	ino.pend = nil
}

func applyOp(img []byte, p pend, ok func(sec int64) bool) {
	for a := p.off; a < p.off+int64(len(p.data)); {
		sec := a / sector
		b := (sec + 1) * sector
		if b > p.off+int64(len(p.data)) {
			b = p.off + int64(len(p.data))
		}
		if ok(sec) && a < int64(len(img)) {
			e := b
			if e > int64(len(img)) {
				e = int64(len(img))
			}
			copy(img[a:e], p.data[a-p.off:e-p.off])
		}
		a = b
	}
}

func (k *Kernel) Ftruncate(fd int, n int64) syscall.Errno {
	defer runtime.VerifLeave(runtime.VerifEnter())
	d := k.fds[fd]
	if d == nil {
		return syscall.EBADF
	}
	if f := k.enter("trunc", n, 0); f != nil {
		return syscall.EIO
	}
	if k.crashNow() {
		k.die()
	}
	if f := k.fault("trunc", d.path, n, 0); f != nil {
		return errnoOf(f.Kind)
	}
	if n < 0 || n > 1<<40 {
		return syscall.EINVAL
	}
	d.ino.truncate(n)
	return 0
}

func (k *Kernel) Truncate(path string, n int64) syscall.Errno {
	path = absPath(path)
	defer runtime.VerifLeave(runtime.VerifEnter())
	ino := k.names[path]
	if ino == nil {
		return syscall.ENOENT
	}
	if f := k.enter("trunc", n, 0); f != nil {
		return syscall.EIO
	}
	ino.truncate(n)
	return 0
}

func (k *Kernel) Fallocate(fd int, mode uint32, off, n int64) syscall.Errno {
	return syscall.EOPNOTSUPP
}

func (k *Kernel) fill(ino *inode, st *syscall.Stat_t) {
	*st = syscall.Stat_t{}
	st.Ino = uint64(ino.id)
	st.Mode = syscall.S_IFREG | 0o644
	if ino.dir {
		st.Mode = syscall.S_IFDIR | 0o755
	}
	st.Size = ino.size()
	st.Blksize = 4096
	st.Blocks = (st.Size + 511) / 512
	st.Nlink = 1
}

func (k *Kernel) Fstat(fd int, st *syscall.Stat_t) syscall.Errno {
	old := runtime.VerifEnter()
	defer func() { runtime.VerifLeave(old) }()
	d := k.fds[fd]
	if d == nil {
		return syscall.EBADF
	}
	if f := k.enter("stat", 0, 0); f != nil {
		return syscall.EIO
	}
	if k.crashNow() {
		k.die()
	}
	if f := k.fault("stat", d.path, 0, 0); f != nil {
		return errnoOf(f.Kind)
	}
	ino := d.ino
	runtime.VerifLeave(old) // st belongs to the calling task
	k.fill(ino, st)
	old = runtime.VerifEnter()
	k.note("fstat = %d", ino.size())
	return 0
}

func (k *Kernel) Stat(path string, st *syscall.Stat_t) syscall.Errno {
	path = absPath(path)
	old := runtime.VerifEnter()
	defer func() { runtime.VerifLeave(old) }()
	if f := k.enter("stat", 0, 0); f != nil {
		return syscall.EIO
	}
	if k.crashNow() {
		k.die()
	}
	if f := k.fault("stat", path, 0, 0); f != nil {
		return errnoOf(f.Kind)
	}
	ino := k.names[path]
	if ino == nil {
		if path == syscall.VerifPrefix {
			ino = &inode{dir: true}
		} else {
			return syscall.ENOENT
		}
	}
	runtime.VerifLeave(old)
	k.fill(ino, st)
	old = runtime.VerifEnter()
	return 0
}

func (k *Kernel) Unlink(path string, dir bool) syscall.Errno {
	path = absPath(path)
	defer runtime.VerifLeave(runtime.VerifEnter())
	if f := k.enter("unlink", 0, 0); f != nil {
		return syscall.EIO
	}
	if k.crashNow() {
		k.die()
	}
	if f := k.fault("unlink", path, 0, 0); f != nil {
		return errnoOf(f.Kind)
	}
	ino := k.names[path]
	if ino == nil {
		return syscall.ENOENT
	}
	if dir != ino.dir {
		if dir {
			return syscall.ENOTDIR
		}
		return syscall.EISDIR
	}
	delete(k.names, path)
	return 0
}

func (k *Kernel) Rename(from, to string) syscall.Errno {
	from, to = absPath(from), absPath(to)
	defer runtime.VerifLeave(runtime.VerifEnter())
	if f := k.enter("rename", 0, 0); f != nil {
		return syscall.EIO
	}
	if k.crashNow() {
		k.die()
	}
	if f := k.fault("rename", from, 0, 0); f != nil {
		return errnoOf(f.Kind)
	}
	ino := k.names[from]
	if ino == nil {
		return syscall.ENOENT
	}
	delete(k.names, from)
	k.names[to] = ino
	return 0
}

func (k *Kernel) Mkdir(path string) syscall.Errno {
	path = absPath(path)
	defer runtime.VerifLeave(runtime.VerifEnter())
	if f := k.enter("mkdir", 0, 0); f != nil {
		return syscall.EIO
	}
	if k.names[path] != nil {
		return syscall.EEXIST
	}
	k.nextIno++
	k.names[path] = &inode{id: k.nextIno, dir: true}
	return 0
}

// image computes what the disk holds for one file after a power loss.
func (ino *inode) image(mode string, r *Rng) []byte {
	if ino.trunc && mode != "all" && (mode == "none" || r.N(3) == 0) {
		// the truncation never reached the disk, so neither did what followed
		return append([]byte(nil), ino.base...)
	}
	n := len(ino.pend)
	size := int64(len(ino.data))
	cutAll := n
	if mode == "none" {
		cutAll = 0
	}
	if mode == "prefix" && n > 0 {
		cutAll = r.N(n + 1)
	}
	cut := map[int64]int{}
	var secs []int64
	seen := map[int64]bool{}
	for _, p := range ino.pend {
		for s := p.off / sector; s*sector < p.off+int64(len(p.data)); s++ {
			if !seen[s] {
				seen[s] = true
				secs = append(secs, s)
			}
		}
	}
	sort.Slice(secs, func(i, j int) bool { return secs[i] < secs[j] })
	sizeCut := cutAll
	switch mode {
	case "sectors", "pages":
		grain := int64(1)
		if mode == "pages" {
			grain = 8
		}
		per := map[int64]int{}
		for _, s := range secs {
			g := s / grain
			c, ok := per[g]
			if !ok {
				switch r.N(4) {
				case 0:
					c = 0
				case 1:
					c = r.N(n + 1)
				default:
					c = n
				}
				per[g] = c
			}
			cut[s] = c
		}
		switch r.N(4) {
		case 0:
			sizeCut = r.N(n + 1)
		case 1:
			sizeCut = 0
		default:
			sizeCut = n
		}
	case "dropone": // everything but one sector, or one page, made it
		if len(secs) > 0 {
			s := secs[r.N(len(secs))]
			if r.N(2) == 0 {
				cut[s] = 0
			} else {
				for _, q := range secs {
					if q/8 == s/8 {
						cut[q] = 0
					}
				}
			}
		}
	case "only": // only one sector made it, and the size
		if len(secs) > 0 {
			s := secs[r.N(len(secs))]
			if r.N(2) == 0 {
				s = secs[len(secs)-1]
			}
			for _, q := range secs {
				if q != s {
					cut[q] = 0
				}
			}
		}
	case "tail": // the newest pages made it, the older ones did not
		if len(secs) > 0 {
			t := secs[r.N(len(secs))]
			for _, q := range secs {
				if q < t {
					cut[q] = 0
				}
			}
		}
	case "head":
		if len(secs) > 0 {
			t := secs[r.N(len(secs))]
			for _, q := range secs {
				if q >= t {
					cut[q] = 0
				}
			}
		}
	}
	if sizeCut < n {
		size = int64(len(ino.dur))
		if sizeCut > 0 {
			size = ino.pend[sizeCut-1].size
		}
	}
	img := make([]byte, size)
	copy(img, ino.dur)
	for i, p := range ino.pend {
		applyOp(img, p, func(sec int64) bool {
			c, ok := cut[sec]
			if !ok {
				c = cutAll
			}
			return i < c
		})
	}
	return img
}

// Reboot replaces the running system by what survived the crash.
func (k *Kernel) Reboot() {
	c := k.crash
	if c == nil {
		c = &Crash{}
	}
	k.fds = map[int]*fdesc{}
	k.fdBase = newFDBase()
	k.dead = false
	k.crash = nil
	k.unwound = map[int64]bool{}
	if !c.Power {
		return
	}
	r := NewRng(c.Seed ^ 0xdead)
	names := map[string]*inode{}
	done := map[*inode]*inode{}
	surv := func(i *inode) *inode {
		if n := done[i]; n != nil {
			return n
		}
		img := i.image(c.Mode, r)
		n := &inode{id: i.id, data: img, dur: append([]byte(nil), img...), dir: i.dir}
		done[i] = n
		return n
	}
	for _, n := range sortedNames(k.names, k.durNames) {
		cur, dur := k.names[n], k.durNames[n]
		pick := dur
		if cur != dur && (c.Mode == "all" || c.Mode != "none" && r.N(2) == 0) {
			pick = cur
		}
		if pick != nil {
			names[n] = surv(pick)
		}
	}
	k.names = names
	k.commit()
}

func sortedNames(ms ...map[string]*inode) []string {
	seen := map[string]bool{}
	var out []string
	for _, m := range ms {
		for n := range m {
			if !seen[n] {
				seen[n] = true
				out = append(out, n)
			}
		}
	}
	sort.Strings(out)
	return out
}

// The harness's own view of files.

func (k *Kernel) Bytes(path string) []byte {
	defer runtime.VerifLeave(runtime.VerifEnter())
	if i := k.names[path]; i != nil {
		return i.data
	}
	return nil
}

func (k *Kernel) Durable(path string) []byte {
	defer runtime.VerifLeave(runtime.VerifEnter())
	if i := k.names[path]; i != nil {
		return i.dur
	}
	return nil
}

func (k *Kernel) Put(path string, b []byte) {
	defer runtime.VerifLeave(runtime.VerifEnter())
	k.nextIno++
	k.names[path] = &inode{id: k.nextIno, data: append([]byte(nil), b...), dur: append([]byte(nil), b...)}
	k.commit()
}

// PutSparse is Put for a file with a hole.
func (k *Kernel) PutSparse(path string, b []byte, at, n int64) {
	k.Put(path, b)
	defer runtime.VerifLeave(runtime.VerifEnter())
	k.names[path].holeAt, k.names[path].hole = at, n
}

// isOpen says whether anybody has the file open.
func (k *Kernel) isOpen(ino *inode) bool {
	for _, d := range k.fds {
		if d.ino == ino {
			return true
		}
	}
	return false
}

func (k *Kernel) OpenHandles() []string {
	defer runtime.VerifLeave(runtime.VerifEnter())
	var out []string
	for _, d := range k.fds {
		out = append(out, d.path)
	}
	sort.Strings(out)
	return out
}

func joinShort(ss []string, n int) string {
	if len(ss) > n {
		return strings.Join(ss[:n], ", ") + ", ..."
	}
	return strings.Join(ss, ", ")
}
