package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"sync"

	"mc/eng"
	"mc/inst"
)

func init() {
	register(&eng.Prop{ID: "C22", Level: "model_checking",
		Rule: "one execution = one schedule of 2 or 3 sessions of the real library (instrumented: a scheduling point before every statement of package sign, mutexes cooperative) that share freshly made key objects, under a controlled scheduler; switching at every point at most `bound` times; every session must give the result it gives alone, judged by the reference; a second pass repeats the schedules under the race detector with control passed outside its view; transitions = scheduling points passed; states = distinct pairs of program points between which control was switched, per pair of sessions",
		Bound: func(c *eng.Ctx) string {
			return fmt.Sprintf("%d kinds of sessions, all ordered pairs; all schedules with <= 1 preemption at any statement, <= %d at statements that touch package-level state or key objects%s; race pass: all schedules with <= %d preemptions of all pairs", len(c22Names), pick(c, 2, 3), pick2(c, "", ", <= 2 at any statement of pairs of the same kind; all triples <= 1"), 1)
		},
		Assume: []string{"statements are the unit of interleaving in the first pass; finer conflicts are found by the race pass (happens-before over all explored schedules)"},
		Run:    runC22})
}

var c22Names = []string{"enc", "encs", "dec", "decs", "sign", "verify", "file", "read"}

func runC22(c *eng.Ctx) {
	ov, pts, err := inst.Package(filepath.Join(repo, "sign"))
	if err != nil {
		c.Broken(err)
		return
	}
	c.Note("%d scheduling points in package sign", len(pts))
	mask := make([]byte, len(pts))
	for i, p := range pts {
		mask[i] = '0'
		if p.Global {
			mask[i] = '1'
		}
	}
	env := []string{"MC_POINTS=" + string(mask)}
	bin, err := build(c, variant{name: "mc-inst", dir: mcDir(c), pkg: ".", overlay: ov, flags: []string{"-tags", "verifinst"}})
	if err != nil {
		c.Broken(err)
		return
	}
	race, err := build(c, variant{name: "mc-race", dir: mcDir(c), pkg: ".", overlay: ov, flags: []string{"-tags", "verifinst", "-race"}, env: []string{"CGO_ENABLED=1"}})
	if err != nil {
		c.Broken(err)
		return
	}
	// package-level state makes executions in one process interfere: one at a time
	shards := runtime.NumCPU()
	run := func(bin, part string) {
		var wg sync.WaitGroup
		for i := 0; i < shards; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				c.RunSub(bin, part, append(env, "C22_SHARD="+strconv.Itoa(i), "C22_SHARDS="+strconv.Itoa(shards), "GOMAXPROCS=4",
					"GORACE=halt_on_error=0 suppress_equal_stacks=0 suppress_equal_addresses=0 exitcode=0 log_path="+filepath.Join(c.Work, "race"+strconv.Itoa(i)))...)
			}()
		}
		wg.Wait()
	}
	run(bin, "c22")
	if c.Violated() {
		return
	}
	run(race, "c22race")
}

func raceLogs(c *eng.Ctx) string {
	ms, _ := filepath.Glob(filepath.Join(c.Work, "race"+os.Getenv("C22_SHARD")+".*"))
	for _, m := range ms {
		if b, err := os.ReadFile(m); err == nil && len(b) > 0 {
			if len(b) > 2500 {
				b = b[len(b)-2500:]
			}
			return string(b)
		}
	}
	return ""
}
