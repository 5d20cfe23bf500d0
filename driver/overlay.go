package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// edit is one textual change to a standard-library file. The old text must
// occur exactly once; anything else is a build error of the check.
type edit struct{ file, old, new string }

func stdEdits() []edit {
	z := "syscall/zsyscall_linux_amd64.go"
	head := func(sig, body string) edit { return edit{z, sig + "\n", sig + "\n" + body + "\n"} }
	return []edit{
		head("func openat(dirfd int, path string, flags int, mode uint32) (fd int, err error) {",
			"\tif verifPath(path) {\n\t\tn, e := VerifK.Open(path, flags, mode)\n\t\treturn n, verifErr(e)\n\t}"),
		head("func Close(fd int) (err error) {",
			"\tif fd >= VerifFDBase {\n\t\treturn verifErr(VerifK.Close(fd))\n\t}"),
		head("func read(fd int, p []byte) (n int, err error) {",
			"\tif fd >= VerifFDBase {\n\t\tn, e := VerifK.Read(fd, p)\n\t\treturn n, verifErr(e)\n\t}"),
		head("func write(fd int, p []byte) (n int, err error) {",
			"\tif fd >= VerifFDBase {\n\t\tn, e := VerifK.Write(fd, p)\n\t\treturn n, verifErr(e)\n\t}"),
		head("func pread(fd int, p []byte, offset int64) (n int, err error) {",
			"\tif fd >= VerifFDBase {\n\t\tn, e := VerifK.Pread(fd, p, offset)\n\t\treturn n, verifErr(e)\n\t}"),
		head("func pwrite(fd int, p []byte, offset int64) (n int, err error) {",
			"\tif fd >= VerifFDBase {\n\t\tn, e := VerifK.Pwrite(fd, p, offset)\n\t\treturn n, verifErr(e)\n\t}"),
		head("func Seek(fd int, offset int64, whence int) (off int64, err error) {",
			"\tif fd >= VerifFDBase {\n\t\tn, e := VerifK.Seek(fd, offset, whence)\n\t\treturn n, verifErr(e)\n\t}"),
		head("func Fsync(fd int) (err error) {",
			"\tif fd >= VerifFDBase {\n\t\treturn verifErr(VerifK.Fsync(fd))\n\t}"),
		head("func Fdatasync(fd int) (err error) {",
			"\tif fd >= VerifFDBase {\n\t\treturn verifErr(VerifK.Fsync(fd))\n\t}"),
		head("func Ftruncate(fd int, length int64) (err error) {",
			"\tif fd >= VerifFDBase {\n\t\treturn verifErr(VerifK.Ftruncate(fd, length))\n\t}"),
		head("func Fallocate(fd int, mode uint32, off int64, len int64) (err error) {",
			"\tif fd >= VerifFDBase {\n\t\treturn verifErr(VerifK.Fallocate(fd, mode, off, len))\n\t}"),
		head("func Fstat(fd int, stat *Stat_t) (err error) {",
			"\tif fd >= VerifFDBase {\n\t\treturn verifErr(VerifK.Fstat(fd, stat))\n\t}"),
		head("func fcntl(fd int, cmd int, arg int) (val int, err error) {",
			"\tif fd >= VerifFDBase {\n\t\treturn -1, EPERM\n\t}"),
		head("func Fchmod(fd int, mode uint32) (err error) {",
			"\tif fd >= VerifFDBase {\n\t\treturn nil\n\t}"),
		head("func Flock(fd int, how int) (err error) {",
			"\tif fd >= VerifFDBase {\n\t\treturn nil\n\t}"),
		head("func fstatat(fd int, path string, stat *Stat_t, flags int) (err error) {",
			"\tif verifPath(path) {\n\t\treturn verifErr(VerifK.Stat(path, stat))\n\t}"),
		head("func unlinkat(dirfd int, path string, flags int) (err error) {",
			"\tif verifPath(path) {\n\t\treturn verifErr(VerifK.Unlink(path, flags&_AT_REMOVEDIR != 0))\n\t}"),
		head("func Renameat(olddirfd int, oldpath string, newdirfd int, newpath string) (err error) {",
			"\tif verifPath(oldpath) {\n\t\treturn verifErr(VerifK.Rename(oldpath, newpath))\n\t}"),
		head("func Mkdirat(dirfd int, path string, mode uint32) (err error) {",
			"\tif verifPath(path) {\n\t\treturn verifErr(VerifK.Mkdir(path))\n\t}"),
		head("func Truncate(path string, length int64) (err error) {",
			"\tif verifPath(path) {\n\t\treturn verifErr(VerifK.Truncate(path, length))\n\t}"),
		head("func mmap(addr uintptr, length uintptr, prot int, flags int, fd int, offset int64) (xaddr uintptr, err error) {",
			"\tif fd >= VerifFDBase {\n\t\treturn 0, ENODEV\n\t}"),

		{"runtime/runtime2.go", "\tvalgrindStackID uintptr\n}", "\tvalgrindStackID uintptr\n\n\tverifID, verifPrio, verifWake, verifStall int64\n}"},
		{"runtime/proc.go", "func runqget(pp *p) (gp *g, inheritTime bool) {\n",
			"func runqget(pp *p) (gp *g, inheritTime bool) {\n\tif verifOn {\n\t\treturn verifPick(pp), false\n\t}\n"},
		{"runtime/proc.go", "\tif preempted && sched.gcwaiting.Load() {\n\t\t// If preempted for STW",
			"\tif verifOn {\n\t\tverifGave = gp.verifID\n\t\trunqput(pp, gp, false)\n\t} else if preempted && sched.gcwaiting.Load() {\n\t\t// If preempted for STW"},
		{"runtime/runtime2.go", "\trunq     [256]guintptr\n", "\trunq     [16384]guintptr\n"},
		{"runtime/proc.go", "func runqgrab(pp *p, batch *[256]guintptr,", "func runqgrab(pp *p, batch *[16384]guintptr,"},
		{"runtime/proc.go", "\tvar batch [len(pp.runq)/2 + 1]*g\n", "\tvar batch [129]*g\n\tthrow(\"verif: run queue full\")\n"},
		{"runtime/proc.go", "func preemptone(pp *p) bool {\n", "func preemptone(pp *p) bool {\n\tif verifOn {\n\t\treturn false\n\t}\n"},
		{"runtime/proc.go", "func retake(now int64) uint32 {\n", "func retake(now int64) uint32 {\n\tif verifOn {\n\t\treturn 0\n\t}\n"},
		{"runtime/proc.go", "\tnewg.goid = pp.goidcache\n", "\tnewg.goid = pp.goidcache\n\tverifNewG(newg)\n"},
		{"runtime/debug.go", "func GOMAXPROCS(n int) int {\n", "func GOMAXPROCS(n int) int {\n\tif verifOn && n <= 0 {\n\t\treturn verifCores\n\t}\n"},
		{"runtime/debug.go", "func NumCPU() int {\n", "func NumCPU() int {\n\tif verifOn {\n\t\treturn verifCores\n\t}\n"},
		{"runtime/time.go", "func timeSleep(ns int64) {\n\tif ns <= 0 {\n\t\treturn\n\t}\n",
			"func timeSleep(ns int64) {\n\tif ns <= 0 {\n\t\treturn\n\t}\n\tif verifOn && getg().verifID >= 0 {\n\t\tverifSleep(ns)\n\t\treturn\n\t}\n"},
		{"runtime/time.go", "\t\treturn gp.bubble.now\n\t}\n\treturn nanotime()\n}\n\n//go:linkname time_runtimeIsBubbled", "\t\treturn gp.bubble.now\n\t}\n\treturn verifNanotime()\n}\n\n//go:linkname time_runtimeIsBubbled"},
		{"runtime/time.go", "\tif now == 0 {\n\t\tnow = nanotime()\n", "\tif now == 0 || verifOn {\n\t\tnow = verifNanotime()\n"},
		{"runtime/time.go", "\tt.lock()\n\tnow := nanotime()\n\tif t.isFake {\n", "\tt.lock()\n\tnow := verifNanotime()\n\tif t.isFake {\n"},
		{"runtime/time.go", "\t// If non-nil, the timers containing t.\n\tts *timers\n", "\t// If non-nil, the timers containing t.\n\tts *timers\n\n\tverif bool // made by package time during a simulation\n"},
		{"runtime/time.go", "\tt := new(timeTimer)\n\tt.timer.init(nil, nil)\n", "\tt := new(timeTimer)\n\tt.timer.init(nil, nil)\n\tt.timer.verif = verifOn\n"},
		{"runtime/sema.go", "func internal_sync_nanotime() int64 {\n\treturn nanotime()\n", "func internal_sync_nanotime() int64 {\n\tif verifOn {\n\t\treturn verifNanotime() + 20*verifSteps\n\t}\n\treturn nanotime()\n"},
		{"runtime/proc.go", "\tif randomizeScheduler && next && randn(2) == 0 {", "\tif randomizeScheduler && !verifOn && next && randn(2) == 0 {"},
		{"runtime/rand.go", "func rand() uint64 {\n", "func rand() uint64 {\n\tif verifOn && getg() == getg().m.curg {\n\t\treturn verifWeak()\n\t}\n"},
		{"runtime/rand.go", "func cheaprand() uint32 {\n\tmp := getg().m\n", "func cheaprand() uint32 {\n\tmp := getg().m\n\tif verifOn && getg() == mp.curg {\n\t\treturn uint32(verifWeak() >> 32)\n\t}\n"},

		{"syscall/zsyscall_linux_amd64.go", "func Getpid() (pid int) {\n", "func Getpid() (pid int) {\n\tif VerifPid != 0 {\n\t\treturn VerifPid\n\t}\n"},
		{"os/sys.go", "\treturn hostname()\n", "\tif syscall.VerifPid != 0 {\n\t\treturn \"host\" + string(rune('a'+syscall.VerifPid%26)), nil\n\t}\n\treturn hostname()\n"},
		{"os/sys.go", "package os\n", "package os\n\nimport \"syscall\"\n"},
		{"os/proc.go", "// Exit causes the current program", "// VerifExit, when set, ends a simulated process.\nvar VerifExit func(code int)\n\n// Exit causes the current program"},
		{"os/proc.go", "func Exit(code int) {\n", "func Exit(code int) {\n\tif VerifExit != nil {\n\t\tVerifExit(code)\n\t}\n"},

		{"time/time.go", "func Now() Time {\n\tsec, nsec, mono := runtimeNow()\n",
			"func Now() Time {\n\tsec, nsec, mono := runtimeNow()\n\tif VerifClock != nil {\n\t\tsec, nsec, mono = VerifClock(sec, nsec, mono)\n\t}\n"},
		{"time/time.go", "// Now returns the current local time.\n",
			"// VerifClock, when set, replaces the readings of the clocks.\nvar VerifClock func(sec int64, nsec int32, mono int64) (int64, int32, int64)\n\nfunc verifNano() int64 {\n\tif VerifClock != nil {\n\t\t_, _, m := VerifClock(0, 0, 0)\n\t\treturn m\n\t}\n\treturn runtimeNano()\n}\n\n// Now returns the current local time.\n"},
		{"time/time.go", "\t\treturn subMono(runtimeNano()-startNano, t.ext)\n", "\t\treturn subMono(verifNano()-startNano, t.ext)\n"},
		{"time/time.go", "\t\treturn subMono(t.ext, runtimeNano()-startNano)\n", "\t\treturn subMono(t.ext, verifNano()-startNano)\n"},
	}
}

type overlay struct {
	dir     string
	replace map[string]string
	yields  int
	files   int
}

func (o *overlay) write(target, name, content string) error {
	p := filepath.Join(o.dir, "ov", name)
	if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
		return err
	}
	if err := os.WriteFile(p, []byte(content), 0o644); err != nil {
		return err
	}
	o.replace[target] = p
	return nil
}

func goEnv(key string) (string, error) {
	b, err := exec.Command("go", "env", key).Output()
	return strings.TrimSpace(string(b)), err
}

// buildOverlay prepares every replaced file and returns the overlay file's path.
func buildOverlay(repo, verif, scratch string) (*overlay, string, error) {
	o := &overlay{dir: scratch, replace: map[string]string{}}
	root, err := goEnv("GOROOT")
	if err != nil {
		return nil, "", err
	}
	src := filepath.Join(root, "src")
	texts := map[string]string{}
	for _, e := range stdEdits() {
		t, ok := texts[e.file]
		if !ok {
			b, err := os.ReadFile(filepath.Join(src, e.file))
			if err != nil {
				return nil, "", err
			}
			t = string(b)
		}
		if n := strings.Count(t, e.old); n != 1 {
			return nil, "", fmt.Errorf("standard library edit of %s: anchor %q found %d times", e.file, e.old, n)
		}
		texts[e.file] = strings.Replace(t, e.old, e.new, 1)
	}
	for f, t := range texts {
		if err := o.write(filepath.Join(src, f), "std/"+f, t); err != nil {
			return nil, "", err
		}
	}
	o.replace[filepath.Join(src, "runtime/verif.go")] = filepath.Join(verif, "overlay/runtime_verif.go")
	o.replace[filepath.Join(src, "syscall/verif_hook.go")] = filepath.Join(verif, "overlay/syscall_verif.go")

	// the simulator, as packages of the module under test
	sims, err := filepath.Glob(filepath.Join(verif, "sim/*.go"))
	if err != nil || len(sims) == 0 {
		return nil, "", fmt.Errorf("no simulator sources (%v)", err)
	}
	for _, f := range sims {
		o.replace[filepath.Join(repo, "verifsim", filepath.Base(f))] = f
	}
	// scheduling points in the code under test
	err = filepath.Walk(filepath.Join(repo, "pkg"), func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() && (fi.Name() == "testdata" || strings.HasPrefix(fi.Name(), ".")) {
			return filepath.SkipDir
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		if ok, err := build.Default.MatchFile(filepath.Dir(p), filepath.Base(p)); err != nil || !ok {
			return err
		}
		return o.instrument(repo, p)
	})
	if err != nil {
		return nil, "", err
	}
	// the command line tools, as packages the simulator can call
	for _, tool := range []string{"vibecol", "loadtest", "write_example", "read_example", "examples"} {
		from := filepath.Join(repo, "cmd", tool)
		if tool == "examples" {
			from = filepath.Join(repo, tool)
		}
		srcs, err := filepath.Glob(filepath.Join(from, "*.go"))
		if err != nil || len(srcs) == 0 {
			return nil, "", fmt.Errorf("no sources of %s (%v)", from, err)
		}
		dir := filepath.Join(repo, "verifsim", "cmd"+tool)
		for _, p := range srcs {
			if ok, err := build.Default.MatchFile(filepath.Dir(p), filepath.Base(p)); err != nil || !ok || strings.HasSuffix(p, "_test.go") {
				continue
			}
			if err := o.instrumentAs(repo, p, filepath.Join(dir, filepath.Base(p)), "cmd"+tool); err != nil {
				return nil, "", err
			}
		}
		if err := o.write(filepath.Join(dir, "verif_run.go"), "cmd"+tool+"/verif_run.go", "package cmd"+tool+"\n\n// Run is the tool's main function.\nfunc Run() { main() }\n"); err != nil {
			return nil, "", err
		}
	}
	b, err := json.MarshalIndent(map[string]any{"Replace": o.replace}, "", " ")
	if err != nil {
		return nil, "", err
	}
	path := filepath.Join(scratch, "overlay.json")
	return o, path, os.WriteFile(path, b, 0o644)
}

// instrument inserts a scheduling point before every statement of every
// function body of one file. Lines keep their numbers.
func (o *overlay) instrument(repo, path string) error {
	return o.instrumentAs(repo, path, path, "")
}

// instrumentAs puts the result in another place, as part of package pkg.
func (o *overlay) instrumentAs(repo, path, target, pkg string) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, b, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return err
	}
	var at []int
	add := func(list []ast.Stmt) {
		for _, s := range list {
			switch s.(type) {
			case *ast.LabeledStmt, *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			at = append(at, fset.Position(s.Pos()).Offset)
		}
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if ok && (fd.Body == nil || nosplit(fd)) {
			continue
		}
		ast.Inspect(d, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				add(n.List)
			case *ast.CaseClause:
				add(n.Body)
			case *ast.CommClause:
				add(n.Body)
			}
			return true
		})
	}
	if len(at) == 0 && pkg == "" {
		return nil
	}
	sort.Ints(at)
	// the import goes right after the package clause, on the same line
	imp := fset.Position(f.Name.End()).Offset
	var sb strings.Builder
	prev := 0
	put := func(off int, text string) {
		sb.Write(b[prev:off])
		sb.WriteString(text)
		prev = off
	}
	if pkg != "" {
		sb.Write(b[:fset.Position(f.Name.Pos()).Offset])
		sb.WriteString(pkg)
		prev = imp
	}
	put(imp, `; import verifrt "runtime"`)
	last := -1
	for _, off := range at {
		if off == last {
			continue
		}
		last = off
		put(off, "verifrt.VerifYield(); ")
		o.yields++
	}
	sb.Write(b[prev:])
	o.files++
	rel, err := filepath.Rel(repo, path)
	if err != nil {
		return err
	}
	return o.write(target, "repo/"+rel, "//line "+strconv.Quote(path)[1:len(strconv.Quote(path))-1]+":1\n"+sb.String())
}

func nosplit(fd *ast.FuncDecl) bool {
	if fd.Doc == nil {
		return false
	}
	for _, c := range fd.Doc.List {
		if strings.HasPrefix(c.Text, "//go:nosplit") || strings.HasPrefix(c.Text, "//go:linkname") {
			return true
		}
	}
	return false
}
