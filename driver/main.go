// Command verifdriver builds the simulator from the repository's current
// tree, runs seeded simulations of one property on all cores, minimises what
// breaks it and writes the evidence.
package main

import (
	"fmt"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"
)

var (
	repo  = env("VERIF_REPO", "/repo")
	verif = env("VERIF_DIR", "/verif")
)

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func die(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "check error: "+format+"\n", a...)
	cleanup()
	os.Exit(3)
}

var scratch string

func cleanup() {
	if scratch != "" {
		os.RemoveAll(scratch)
	}
}

func main() {
	if len(os.Args) < 2 {
		die("usage: check PROPERTY quick|thorough | replay FILE | build DIR")
	}
	var err error
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, syscall.SIGINT, syscall.SIGTERM)
	go func() {
		<-sig
		cleanup()
		os.Exit(3)
	}()
	scratch, err = os.MkdirTemp("", "verif-sim-")
	if err != nil {
		die("%v", err)
	}
	code := 3
	switch os.Args[1] {
	case "check":
		if len(os.Args) != 4 {
			die("usage: check PROPERTY quick|thorough")
		}
		code = check(os.Args[2], os.Args[3])
	case "replay":
		code = replay(os.Args[2])
	case "build":
		b := buildAll(true, true)
		os.MkdirAll(os.Args[2], 0o755)
		for _, f := range []string{b.plain, b.race} {
			if out, err := exec.Command("cp", f, os.Args[2]).CombinedOutput(); err != nil {
				die("%s", out)
			}
		}
		exec.Command("cp", filepath.Join(scratch, "overlay.json"), os.Args[2]).Run()
		fmt.Printf("scheduling points %d in %d files, built in %.1fs\n", b.yields, b.files, b.secs)
		code = 0
	default:
		die("unknown command %s", os.Args[1])
	}
	cleanup()
	os.Exit(code)
}

type built struct {
	plain, race   string
	yields, files int
	secs          float64
}

func goCmd(args ...string) *exec.Cmd {
	c := exec.Command("go", args...)
	c.Dir = repo
	c.Env = append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=readonly", "GOWORK=off", "GO111MODULE=on")
	return c
}

func buildAll(plain, race bool) built {
	start := time.Now()
	o, path, err := buildOverlay(repo, verif, scratch)
	if err != nil {
		die("preparing the build: %v", err)
	}
	b := built{yields: o.yields, files: o.files}
	var wg sync.WaitGroup
	errs := make([]string, 2)
	run := func(i int, args ...string) {
		defer wg.Done()
		out, err := goCmd(args...).CombinedOutput()
		if err != nil {
			errs[i] = fmt.Sprintf("%v\n%s", err, out)
		}
	}
	if plain {
		b.plain = filepath.Join(scratch, "sim")
		wg.Add(1)
		go run(0, "build", "-overlay", path, "-o", b.plain, "./verifsim")
	}
	if race {
		b.race = filepath.Join(scratch, "simrace")
		wg.Add(1)
		go run(1, "build", "-race", "-gcflags=vibe-lsm/verifsim=-race=false", "-overlay", path, "-o", b.race, "./verifsim")
	}
	wg.Wait()
	for _, e := range errs {
		if e != "" {
			die("building the simulator: %s", e)
		}
	}
	b.secs = time.Since(start).Seconds()
	return b
}

func cores() int { return max(1, runtime.NumCPU()) }

func oneLine(s string) string {
	s = strings.ReplaceAll(s, "\n", " | ")
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}
