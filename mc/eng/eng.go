// Package eng is the exploration engine: exhaustive parallel enumeration,
// explicit-state search bookkeeping, deviation-bounded choice trees, counters,
// evidence and replay files.
package eng

import (
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"hash/maphash"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Prop describes one registered check.
type Prop struct {
	ID     string
	Level  string
	Rule   string // what is enumerated, what counts as state / transition
	Bound  func(c *Ctx) string
	Run    func(c *Ctx)
	Assume []string
}

// Violation is one confirmed failing case.
type Violation struct {
	Case  string `json:"case"`
	Error string `json:"error"`
	Runs  string `json:"confirmed"`
}

type suiteStat struct {
	evals, trans, ms atomic.Int64
}

const shards = 64

type set struct {
	mu [shards]sync.Mutex
	m  [shards]map[uint64]struct{}
}

var mhSeed = maphash.MakeSeed()

func (s *set) add(k string) bool {
	h := maphash.String(mhSeed, k)
	i := h % shards
	s.mu[i].Lock()
	defer s.mu[i].Unlock()
	if s.m[i] == nil {
		s.m[i] = make(map[uint64]struct{})
	}
	if _, ok := s.m[i][h]; ok {
		return false
	}
	s.m[i][h] = struct{}{}
	return true
}

func (s *set) len() int {
	n := 0
	for i := range s.m {
		s.mu[i].Lock()
		n += len(s.m[i])
		s.mu[i].Unlock()
	}
	return n
}

// Ctx is one run of one check.
type Ctx struct {
	Prop     *Prop
	Tier     string
	Thorough bool
	Seed     int64
	Work     string // scratch directory, removed by the caller
	VerifDir string

	start    time.Time
	deadline time.Time
	filter   string
	matched  atomic.Int64

	evals, trans, traces atomic.Int64
	states               set
	extraStates          atomic.Int64 // of merged parts
	outMu                sync.Mutex
	outCount             map[string]int64

	mu       sync.Mutex
	suites   map[string]*suiteStat
	suiteOrd []string
	samples  []string
	viol     []Violation
	known    []Violation
	flaky    []string
	notes    []string
	partial  atomic.Bool
	stop     atomic.Bool

	// OnExit replaces Finish when this is a part of another run.
	OnExit func()

	knownIDs    map[string]string
	active      sync.Map // goroutine slot -> *activeCase
	hang        time.Duration
	nworkers    int
	part, parts int // see SetPart
	broken      error
	journal     *os.File
}

// Journal makes the run sequential and records each case in a file before it is
// executed, so that a fatal crash of the process can be attributed to a case.
func (c *Ctx) Journal(fn string) error {
	f, err := os.Create(fn)
	c.journal = f
	return err
}

// SetWorkers limits the number of cases executed at a time.
func (c *Ctx) SetWorkers(n int) { c.nworkers = n }

func (c *Ctx) workers() int {
	if c.journal != nil {
		return 1
	}
	if c.nworkers > 0 {
		return c.nworkers
	}
	return runtime.NumCPU()
}

type activeCase struct {
	id    func() string
	start time.Time
}

// New makes a context.
func New(p *Prop, tier, work, verif string, seed int64, limit time.Duration) *Ctx {
	c := &Ctx{
		Prop: p, Tier: tier, Thorough: tier == "thorough", Seed: seed,
		Work: work, VerifDir: verif,
		start: time.Now(), suites: map[string]*suiteStat{}, outCount: map[string]int64{},
		knownIDs: map[string]string{}, hang: 150 * time.Second,
	}
	c.deadline = c.start.Add(limit)
	c.loadKnown()
	go c.watch()
	return c
}

func (c *Ctx) loadKnown() {
	b, err := os.ReadFile(filepath.Join(c.VerifDir, "known_findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=C01 case=<case id> :: description
		if !strings.HasPrefix(l, "known: property="+c.Prop.ID+" case=") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property="+c.Prop.ID+" case=")
		id, desc, _ := strings.Cut(rest, " :: ")
		c.knownIDs[id] = desc
	}
}

// SetHang changes the time after which a case counts as hanging.
func (c *Ctx) SetHang(d time.Duration) { c.hang = d }

// SetFilter restricts execution to the case with this id (replay).
func (c *Ctx) SetFilter(id string) { c.filter = id }

// Filtering tells if this is a replay run.
func (c *Ctx) Filtering() bool { return c.filter != "" }

// FilterHas tells whether a (prefix of a) case id can match the replay filter.
func (c *Ctx) FilterHas(prefix string) bool {
	return c.filter == "" || strings.HasPrefix(c.filter, prefix)
}

// FilterID returns the case id being replayed ("" if none).
func (c *Ctx) FilterID() string { return c.filter }

// Stopped is true when the exploration has to end (violation or time limit).
func (c *Ctx) Stopped() bool {
	if c.stop.Load() {
		return true
	}
	if time.Now().After(c.deadline) {
		c.partial.Store(true)
		c.stop.Store(true)
		return true
	}
	return false
}

// ErrCheck is the cause of errors of the check itself: no case fails of them.
var ErrCheck = errors.New("the check failed")

// Broken records an error of the check itself (not of the code).
func (c *Ctx) Broken(err error) {
	c.mu.Lock()
	if c.broken == nil {
		c.broken = err
	}
	c.mu.Unlock()
	c.stop.Store(true)
}

// Note records a remark for the evidence.
func (c *Ctx) Note(f string, a ...any) {
	c.mu.Lock()
	c.notes = append(c.notes, fmt.Sprintf(f, a...))
	c.mu.Unlock()
}

// Partial marks the run as not exhaustive.
func (c *Ctx) Partial(f string, a ...any) {
	c.partial.Store(true)
	c.Note("partial: "+f, a...)
}

// State records an abstract state; true if new.
func (c *Ctx) State(f string, a ...any) bool {
	if len(a) > 0 {
		f = fmt.Sprintf(f, a...)
	}
	return c.states.add(f)
}

// Trans counts n transitions (API calls, events, edits applied).
func (c *Ctx) Trans(n int) { c.trans.Add(int64(n)) }

// Outcome records an observed outcome class.
func (c *Ctx) Outcome(s string) {
	c.outMu.Lock()
	c.outCount[s]++
	c.outMu.Unlock()
}

// Sample keeps a case for the evidence.
func (c *Ctx) Sample(s string) {
	c.mu.Lock()
	if len(c.samples) < 12 {
		c.samples = append(c.samples, s)
	}
	c.mu.Unlock()
}

func (c *Ctx) suite(name string) *suiteStat {
	c.mu.Lock()
	defer c.mu.Unlock()
	s := c.suites[name]
	if s == nil {
		s = &suiteStat{}
		c.suites[name] = s
		c.suiteOrd = append(c.suiteOrd, name)
	}
	return s
}

func suiteOf(id string) string {
	if i := strings.IndexByte(id, '/'); i > 0 {
		return id[:i]
	}
	return id
}

func protect(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			err = fmt.Errorf("panic: %v\n%s", r, trimStack(st))
		}
	}()
	return f()
}

// Protect runs f and turns a panic into an error.
func Protect(f func() error) error { return protect(f) }

func trimStack(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "sigtool") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 8 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// Case executes one case of the enumeration against the implementation. id must
// identify it uniquely ("suite/..."). A failure is re-executed before it counts.
func (c *Ctx) Case(id func() string, f func() error) bool {
	if c.filter != "" {
		if id() != c.filter {
			return true
		}
		c.matched.Add(1)
	} else if c.Stopped() {
		return false
	}
	n := c.evals.Add(1)
	ac := &activeCase{id: id, start: time.Now()}
	c.active.Store(ac, ac)
	if c.journal != nil {
		s := id() + "\n"
		c.journal.Truncate(0)
		c.journal.WriteAt([]byte(s), 0)
	}
	seedCase(c.Seed, id)
	err := protect(f)
	c.active.Delete(ac)
	c.traces.Add(1)
	if n <= 3 || (n&(n-1)) == 0 {
		c.Sample(id())
	}
	if err == nil {
		return true
	}
	// confirm
	fails, runs := 1, 1
	for i := 0; i < 4; i++ {
		ac.start = time.Now()
		c.active.Store(ac, ac)
		seedCase(c.Seed, id)
		e := protect(f)
		c.active.Delete(ac)
		runs++
		if e != nil {
			fails++
			err = e
		}
	}
	if fails < 2 {
		c.mu.Lock()
		c.flaky = append(c.flaky, id()+": "+err.Error())
		c.mu.Unlock()
		return true
	}
	if errors.Is(err, ErrCheck) {
		c.Broken(fmt.Errorf("%s: %w", id(), err))
		return false
	}
	c.violate(Violation{Case: id(), Error: err.Error(), Runs: fmt.Sprintf("%d of %d executions", fails, runs)})
	return false
}

// Violate records a violation found outside Case (already confirmed).
func (c *Ctx) Violate(id, err string) {
	c.violate(Violation{Case: id, Error: err, Runs: "1 of 1"})
}

func (c *Ctx) violate(v Violation) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if _, ok := c.knownIDs[v.Case]; ok {
		for _, k := range c.known {
			if k.Case == v.Case {
				return
			}
		}
		c.known = append(c.known, v)
		return
	}
	if os.Getenv("MC_KEEPGOING") != "" { // development aid: list everything
		c.viol = append(c.viol, v)
		return
	}
	if len(c.viol) < 5 {
		c.viol = append(c.viol, v)
	}
	c.stop.Store(true)
}

// Violated tells if a violation was recorded.
func (c *Ctx) Violated() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.viol) > 0
}

// quit ends the process from the watchdog.
func (c *Ctx) quit() {
	if c.OnExit != nil {
		c.OnExit()
		os.Exit(0)
	}
	r := c.Finish()
	if r == 2 {
		r = 3
	}
	os.Exit(r)
}

func (c *Ctx) watch() {
	for {
		time.Sleep(2 * time.Second)
		now := time.Now()
		c.active.Range(func(k, v any) bool {
			ac := v.(*activeCase)
			if now.Sub(ac.start) > c.hang {
				c.violate(Violation{Case: ac.id(), Error: fmt.Sprintf("no progress for %v (hang)", c.hang), Runs: "1 of 1"})
				c.quit()
			}
			return true
		})
		if now.After(c.deadline.Add(60 * time.Second)) {
			// a case refuses to end but is not yet a hang: give up, quietly
			c.partial.Store(true)
			c.quit()
		}
	}
}

// Par runs f(0..n-1) on all cores; it stops early when the run is stopped.
func (c *Ctx) Par(n int, f func(i int)) { c.ParN(c.workers(), n, f) }

// ParN is Par with a given number of workers.
func (c *Ctx) ParN(w, n int, f func(i int)) {
	var next atomic.Int64
	var wg sync.WaitGroup
	if w > n {
		w = n
	}
	if c.journal != nil {
		w = 1
	}
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n || c.Stopped() {
					return
				}
				f(i)
			}
		}()
	}
	wg.Wait()
}

// Suite accounts the evaluations of f under a name.
func (c *Ctx) Suite(name string, f func()) {
	if c.filter != "" && !strings.HasPrefix(c.filter, name+"/") {
		return
	}
	if c.filter == "" && c.Stopped() {
		c.Note("suite %s not started", name)
		return
	}
	s := c.suite(name)
	e0, t0 := c.evals.Load(), c.trans.Load()
	at := time.Now()
	f()
	s.ms.Add(time.Since(at).Milliseconds())
	s.evals.Add(c.evals.Load() - e0)
	s.trans.Add(c.trans.Load() - t0)
}

// Finish writes the evidence and returns the exit code.
func (c *Ctx) Finish() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.filter != "" {
		for _, v := range c.viol {
			fmt.Printf("replayed %s: still failing: %s\n", v.Case, v.Error)
		}
		if len(c.viol) > 0 {
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop.ID, os.Getenv("MC_REPLAY_FILE"))
			return 1
		}
		if c.matched.Load() == 0 {
			fmt.Printf("replay: no case %q in the %s enumeration\n", c.filter, c.Tier)
			return 2
		}
		fmt.Println("replay: case passes")
		return 0
	}
	exhaustive := !c.partial.Load() && !c.stop.Load()
	sort.Strings(c.samples)
	su := map[string]any{}
	for _, n := range c.suiteOrd {
		s := c.suites[n]
		su[n] = map[string]int64{"executions": s.evals.Load(), "transitions": s.trans.Load(), "ms": s.ms.Load()}
	}
	outs := map[string]int64{}
	c.outMu.Lock()
	for k, v := range c.outCount {
		outs[k] = v
	}
	c.outMu.Unlock()
	cov := map[string]any{
		"states":                        int64(c.states.len()) + c.extraStates.Load(),
		"transitions":                   c.trans.Load(),
		"traces_validated_against_impl": c.traces.Load(),
		"rule":                          c.Prop.Rule,
		"samples":                       c.samples,
		"exhaustive":                    exhaustive,
		"suites":                        su,
		"observed_outcomes":             outs,
	}
	if c.Prop.Bound != nil {
		cov["bound"] = c.Prop.Bound(c)
	}
	if c.Prop.Level != "model_checking" {
		cov["evaluations"] = c.evals.Load()
		cov["distinct_nontrivial"] = cov["states"]
		delete(cov, "states")
		delete(cov, "traces_validated_against_impl")
	}
	if len(c.notes) > 0 {
		cov["notes"] = c.notes
	}
	if len(c.flaky) > 0 {
		cov["not_reproduced"] = c.flaky
	}
	if len(c.viol) > 0 {
		cov["violations_found"] = c.viol
	}
	ev := map[string]any{
		"property": c.Prop.ID, "tier": c.Tier, "seed": c.Seed, "level": c.Prop.Level,
		"coverage": cov, "wall_s": time.Since(c.start).Seconds(), "violations": len(c.viol),
	}
	if len(c.Prop.Assume) > 0 {
		ev["assumptions"] = c.Prop.Assume
	}
	dir := filepath.Join(c.VerifDir, "evidence")
	os.MkdirAll(dir, 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, c.Prop.ID+".json"), append(b, '\n'), 0644)

	for _, k := range c.known {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", c.Prop.ID, k.Case, c.knownIDs[k.Case])
	}
	for i, v := range c.viol {
		rd := filepath.Join(dir, "replays")
		os.MkdirAll(rd, 0755)
		rf := filepath.Join(rd, fmt.Sprintf("%s-%d.json", c.Prop.ID, i))
		rb, _ := json.MarshalIndent(map[string]any{
			"property": c.Prop.ID, "tier": c.Tier, "case": v.Case, "error": v.Error,
			"replay": fmt.Sprintf("VERIF_TIER=%s ./run.sh %s --replay %s", c.Tier, c.Prop.ID, rf),
		}, "", " ")
		os.WriteFile(rf, append(rb, '\n'), 0644)
		fmt.Printf("case %s\n  %s\n", v.Case, strings.ReplaceAll(v.Error, "\n", "\n  "))
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop.ID, rf)
	}
	fmt.Printf("%s %s: %d executions, %d states, %d transitions, exhaustive=%v, %d violation(s), %.1fs\n",
		c.Prop.ID, c.Tier, c.evals.Load(), int64(c.states.len())+c.extraStates.Load(), c.trans.Load(), exhaustive, len(c.viol), time.Since(c.start).Seconds())
	for _, n := range c.notes {
		fmt.Println("  note:", n)
	}
	for _, n := range c.flaky {
		fmt.Println("  not reproduced:", n)
	}
	if len(c.viol) > 0 {
		return 1
	}
	if c.broken != nil {
		fmt.Println("check error:", c.broken)
		return 2
	}
	return 0
}

// Hash64 is a stable hash of a string.
func Hash64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}
