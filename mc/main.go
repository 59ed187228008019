// mc: model checking of opencoff/sigtool. See /verif/DESIGN.md.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"syscall"
	"time"

	"mc/checks"
	"mc/eng"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: mc check Cxx [--replay file]")
		os.Exit(2)
	}
	// A job in the background may have been started with these ignored, and what is
	// ignored stays so in all processes we start; what is caught does not.
	for _, s := range []os.Signal{syscall.SIGHUP, syscall.SIGINT, syscall.SIGQUIT} {
		if signal.Ignored(s) {
			signal.Notify(make(chan os.Signal, 1), s)
		}
	}
	if os.Args[1] != "check" {
		go dieWithParent()
	}
	switch os.Args[1] {
	case "check":
		os.Exit(parent(os.Args[2:]))
	case "child":
		os.Exit(child(os.Args[2:]))
	case "sub":
		os.Exit(sub(os.Args[2:]))
	default:
		if f, ok := checks.Helpers[os.Args[1]]; ok {
			eng.InstallRand()
			f(os.Args[2:])
			os.Exit(0)
		}
	}
	fmt.Fprintln(os.Stderr, "unknown mode")
	os.Exit(2)
}

// dieWithParent keeps a stopped check from leaving processes behind.
func dieWithParent() {
	ppid := os.Getppid()
	for os.Getppid() == ppid {
		time.Sleep(time.Second)
	}
	os.Exit(3)
}

// parent runs the check in a child process, so that a fatal crash of the code under
// test (out of memory, stack overflow, killed) is a finding and not a lost check.
func parent(args []string) int {
	code, ok := spawn(args, "")
	if ok {
		return code
	}
	fmt.Println("the check process died; running again, one case at a time")
	j := filepath.Join(os.Getenv("MC_WORK"), "journal")
	code, ok = spawn(args, j)
	if ok {
		return code
	}
	b, _ := os.ReadFile(j)
	id := strings.TrimSpace(string(b))
	if id == "" {
		return 2
	}
	p := checks.Get(args[0])
	c := newCtx(p)
	c.Violate(id, "the process died while executing this case")
	return c.Finish()
}

func spawn(args []string, journal string) (int, bool) {
	me, _ := os.Executable()
	cmd := exec.Command(me, append([]string{"child"}, args...)...)
	cmd.Env = append(os.Environ(), "MC_JOURNAL="+journal)
	cmd.Stdout = os.Stdout
	tail := &tailBuf{}
	cmd.Stderr = tail
	err := cmd.Run()
	if err == nil {
		return 0, true
	}
	if ee, isExit := err.(*exec.ExitError); isExit && ee.Exited() {
		switch ee.ExitCode() {
		case 1:
			os.Stderr.Write(tail.b)
			return 1, true
		case 3: // the check's own "cannot decide"
			os.Stderr.Write(tail.b)
			return 2, true
		}
	}
	os.Stderr.Write(tail.b)
	return 2, false
}

type tailBuf struct{ b []byte }

func (t *tailBuf) Write(p []byte) (int, error) {
	if len(t.b) < 16384 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}

func newCtx(p *eng.Prop) *eng.Ctx {
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	limit := 500 * time.Second
	if tier == "thorough" {
		limit = 3 * time.Hour
	}
	if s, err := strconv.Atoi(os.Getenv("MC_LIMIT")); err == nil {
		limit = time.Duration(s) * time.Second
	}
	return eng.New(p, tier, os.Getenv("MC_WORK"), os.Getenv("MC_VERIF"), seed, limit)
}

func child(args []string) int {
	p := checks.Get(args[0])
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such check", args[0])
		return 3
	}
	debug.SetMemoryLimit(20 << 30)
	runtime.GOMAXPROCS(runtime.NumCPU())
	eng.InstallRand()
	c := newCtx(p)
	if j := os.Getenv("MC_JOURNAL"); j != "" {
		if err := c.Journal(j); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
	}
	if len(args) == 3 && args[1] == "--replay" {
		b, err := os.ReadFile(args[2])
		var r struct{ Case string }
		if err == nil {
			err = json.Unmarshal(b, &r)
		}
		if err != nil || r.Case == "" {
			fmt.Fprintln(os.Stderr, "bad replay file", err)
			return 3
		}
		os.Setenv("MC_REPLAY_FILE", args[2])
		c.SetFilter(r.Case)
	}
	p.Run(c)
	if r := c.Finish(); r == 2 {
		return 3
	} else {
		return r
	}
}

// sub runs one part of a check in this build and exports the results.
func sub(args []string) int {
	p, f := checks.Get(args[0]), checks.Subs[args[1]]
	if p == nil || f == nil {
		fmt.Fprintln(os.Stderr, "no such part", args)
		return 3
	}
	debug.SetMemoryLimit(20 << 30)
	eng.InstallRand()
	c := newCtx(p)
	if j := os.Getenv("MC_JOURNAL"); j != "" {
		if err := c.Journal(j); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
	}
	if fl := os.Getenv("MC_FILTER"); fl != "" {
		c.SetFilter(fl)
	}
	out := os.Getenv("MC_EXPORT")
	c.OnExit = func() { c.Export(out) }
	f(c)
	if err := c.Export(out); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	return 0
}
