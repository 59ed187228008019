package eng

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync/atomic"
)

// Part of an exploration can run in another build of this program (instrumented
// code, cheap key derivation, race detector). Its results are merged.

type export struct {
	Evals, Trans, Traces, Matched int64
	States                        int
	Suites                        map[string][3]int64
	Order                         []string
	Outcomes                      map[string]int64
	Samples, Flaky, Notes         []string
	Viol, Known                   []Violation
	Partial, Stop                 bool
	Broken                        string
}

// Export writes the results for the parent process.
func (c *Ctx) Export(fn string) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	e := export{Evals: c.evals.Load(), Trans: c.trans.Load(), Traces: c.traces.Load(), Matched: c.matched.Load(),
		States: c.states.len(), Suites: map[string][3]int64{}, Order: c.suiteOrd, Outcomes: c.outCount,
		Samples: c.samples, Flaky: c.flaky, Notes: c.notes, Viol: c.viol, Known: c.known,
		Partial: c.partial.Load(), Stop: c.stop.Load()}
	for n, s := range c.suites {
		e.Suites[n] = [3]int64{s.evals.Load(), s.trans.Load(), s.ms.Load()}
	}
	if c.broken != nil {
		e.Broken = c.broken.Error()
	}
	b, err := json.Marshal(e)
	if err != nil {
		return err
	}
	return os.WriteFile(fn, b, 0644)
}

func (c *Ctx) merge(e *export) {
	c.evals.Add(e.Evals)
	c.trans.Add(e.Trans)
	c.traces.Add(e.Traces)
	c.matched.Add(e.Matched)
	c.extraStates.Add(int64(e.States))
	for _, n := range e.Order {
		s := c.suite(n)
		s.evals.Add(e.Suites[n][0])
		s.trans.Add(e.Suites[n][1])
		s.ms.Add(e.Suites[n][2])
	}
	c.outMu.Lock()
	for k, v := range e.Outcomes {
		c.outCount[k] += v
	}
	c.outMu.Unlock()
	for _, s := range e.Samples {
		c.Sample(s)
	}
	c.mu.Lock()
	c.flaky = append(c.flaky, e.Flaky...)
	c.notes = append(c.notes, e.Notes...)
	c.known = append(c.known, e.Known...)
	c.mu.Unlock()
	if e.Partial {
		c.partial.Store(true)
	}
	for _, v := range e.Viol {
		c.violate(v)
	}
	if e.Broken != "" {
		c.Broken(errors.New(e.Broken))
	}
}

var subSeq atomic.Int64

// RunSub runs the named part in the given build and merges its results. Death of
// the process is a violation, attributed to the case being executed.
func (c *Ctx) RunSub(bin, name string, env ...string) {
	if c.filter == "" && c.Stopped() {
		return
	}
	run := func(journal string) (*export, string) {
		out := filepath.Join(c.Work, fmt.Sprint("export", subSeq.Add(1)))
		cmd := exec.Command(bin, "sub", c.Prop.ID, name)
		cmd.Env = append(append(os.Environ(), "MC_EXPORT="+out, "MC_JOURNAL="+journal, "MC_FILTER="+c.filter), env...)
		var sb strings.Builder
		cmd.Stderr = &sb
		cmd.Stdout = os.Stdout
		err := cmd.Run()
		var e export
		b, rerr := os.ReadFile(out)
		if rerr == nil && json.Unmarshal(b, &e) == nil {
			return &e, ""
		}
		msg := sb.String()
		if len(msg) > 3000 {
			msg = msg[:3000]
		}
		return nil, fmt.Sprintf("%v: %s", err, msg)
	}
	e, msg := run("")
	if e == nil {
		j := filepath.Join(c.Work, "subjournal")
		e, msg = run(j)
		if e == nil {
			b, _ := os.ReadFile(j)
			id := strings.TrimSpace(string(b))
			if id == "" {
				c.Broken(fmt.Errorf("part %s: %s", name, msg))
				return
			}
			c.Violate(id, "the process died while executing this case: "+msg)
			return
		}
	}
	c.merge(e)
}
