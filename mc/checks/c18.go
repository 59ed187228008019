package checks

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"strings"
	"sync"
	"syscall"

	"mc/eng"
	"mc/sbx"
)

func init() {
	register(&eng.Prop{ID: "C18", Level: "fault_enumeration",
		Rule: "one evaluation = one supervised execution of the real sigtool binary (or a library serialization) in which exactly the named file-system calls fail or fall short; every call on the scratch directory and the standard streams is a fault point, every error of the catalogue for that call is tried; exit status, destination, temporary files and inputs are judged against the reference implementation's reading of the result; states = (scenario, call, object, fault, exit status)",
		Bound: func(c *eng.Ctx) string {
			return fmt.Sprintf("%d scenarios (all commands: success, refusal, failure, overwrite, streams) x every file-system call x every error kind, singly%s",
				len(scenarios(c.Thorough)), pick2(c, "; and pairs of faults on a core of scenarios", " and in pairs"))
		},
		Assume: []string{"scrypt runs with a reduced N in the binary under test"},
		Run:    func(c *eng.Ctx) { viaFast(c, "c18") }})
	Subs["c18"] = runC18
}

func pick2(c *eng.Ctx, quick, thorough string) string {
	if c.Thorough {
		return thorough
	}
	return quick
}

// viaFast runs the part in the build with cheap scrypt, with a sigtool built alike.
func viaFast(c *eng.Ctx, part string) {
	self, err := fastSelf(c)
	if err != nil {
		c.Broken(err)
		return
	}
	tool, err := cli(c)
	if err != nil {
		c.Broken(err)
		return
	}
	c.RunSub(self, part, "MC_TOOL="+tool)
}

type fault struct {
	name string
	v    sbx.Verdict
}

func errs(after bool, es ...syscall.Errno) []fault {
	names := map[syscall.Errno]string{syscall.EIO: "EIO", syscall.EACCES: "EACCES", syscall.ENOSPC: "ENOSPC", syscall.EDQUOT: "EDQUOT", syscall.EMFILE: "EMFILE", syscall.EINTR: "EINTR", syscall.EPIPE: "EPIPE", syscall.EXDEV: "EXDEV", syscall.EROFS: "EROFS", syscall.ENOMEM: "ENOMEM", syscall.EBUSY: "EBUSY", syscall.ENOTSUP: "ENOTSUP", syscall.EFBIG: "EFBIG", syscall.ENAMETOOLONG: "ENAMETOOLONG", syscall.ENODEV: "ENODEV"}
	var out []fault
	for _, e := range es {
		n := names[e]
		if after {
			n += "-after"
		}
		out = append(out, fault{n, sbx.Verdict{Errno: e, After: after}})
	}
	return out
}

// faults is the catalogue for a call.
func faults(e *sbx.Event) []fault {
	std := strings.HasPrefix(e.Path, "<")
	switch e.Sys {
	case "open":
		f := errs(false, syscall.EIO, syscall.EACCES, syscall.EMFILE, syscall.EINTR)
		if e.Flag&syscall.O_CREAT != 0 {
			f = append(f, errs(false, syscall.ENOSPC, syscall.EROFS, syscall.EDQUOT)...)
			f = append(f, fault{"disk-full", sbx.Verdict{Errno: syscall.ENOSPC}})
		}
		return f
	case "read", "pread":
		f := errs(false, syscall.EIO, syscall.EINTR)
		if e.Arg > 1 {
			f = append(f, fault{"short1", sbx.Verdict{Short: 1}})
		}
		if e.Arg > 3 {
			f = append(f, fault{"short-half", sbx.Verdict{Short: e.Arg / 2}})
		}
		return f
	case "write", "pwrite":
		f := errs(false, syscall.ENOSPC, syscall.EIO, syscall.EDQUOT, syscall.EFBIG, syscall.EINTR)
		if std {
			f = append(f, errs(false, syscall.EPIPE)...)
		} else {
			f = append(f, fault{"disk-full", sbx.Verdict{Errno: syscall.ENOSPC}})
		}
		if e.Arg > 1 {
			f = append(f, fault{"short1", sbx.Verdict{Short: 1}}, fault{"full1", sbx.Verdict{Short: 1}}, fault{"full-last", sbx.Verdict{Short: e.Arg - 1}})
		}
		return f
	case "writev":
		return errs(false, syscall.ENOSPC, syscall.EIO, syscall.EINTR)
	case "fsync":
		return append(errs(false, syscall.EIO, syscall.ENOSPC, syscall.EDQUOT, syscall.EINTR), fault{"disk-full", sbx.Verdict{Errno: syscall.ENOSPC}})
	case "close":
		return errs(true, syscall.EIO, syscall.ENOSPC, syscall.EDQUOT, syscall.EINTR)
	case "rename":
		return errs(false, syscall.EIO, syscall.EACCES, syscall.ENOSPC, syscall.EBUSY, syscall.EXDEV, syscall.EROFS)
	case "link":
		return errs(false, syscall.EIO, syscall.EACCES, syscall.ENOSPC)
	case "unlink", "rmdir":
		return errs(false, syscall.EIO, syscall.EACCES, syscall.EBUSY)
	case "mmap":
		return errs(false, syscall.ENOMEM, syscall.ENODEV, syscall.EACCES)
	case "stat", "access", "readlink":
		return errs(false, syscall.EIO, syscall.EACCES, syscall.ENOMEM, syscall.ENAMETOOLONG)
	case "getxattr", "listxattr":
		return errs(false, syscall.EIO, syscall.EACCES, syscall.ENOTSUP)
	default:
		return errs(false, syscall.EIO, syscall.EACCES, syscall.ENOMEM)
	}
}

// planned is a fault at a point of the run.
type planned struct {
	at    int
	label string
	sys   string
	f     fault
}

// sticky: a device that is full stays full: after "fullN" every further write to
// the same object fails.
func (p *planned) full() bool { return strings.HasPrefix(p.f.name, "full") }

var errDiverged = errors.New("the program took another path")

// inject runs the scenario with the planned faults.
func (s *scen) inject(c *eng.Ctx, bin string, ps []planned) (*ran, error) {
	for try := 0; ; try++ {
		var diverged bool
		full, stuck, disk := map[string]bool{}, map[string]bool{}, false
		r, err := s.run(c, bin, hooks{umask: -1, enter: func(e *sbx.Event) sbx.Verdict {
			if full[e.Path] && (e.Sys == "write" || e.Sys == "pwrite") {
				return sbx.Verdict{Errno: syscall.ENOSPC}
			}
			if disk && !strings.HasPrefix(e.Path, "<") && (e.Sys == "write" || e.Sys == "pwrite" || e.Sys == "fsync" || e.Sys == "open" && e.Flag&syscall.O_CREAT != 0) {
				return sbx.Verdict{Errno: syscall.ENOSPC}
			}
			for i := range ps {
				p := &ps[i]
				if p.at != e.N {
					continue
				}
				if s.label(e) != p.label {
					diverged = true
					return sbx.Verdict{}
				}
				stuck[e.Path] = e.Sys == "unlink"
				full[e.Path] = p.full()
				disk = disk || p.f.name == "disk-full"
				return p.f.v
			}
			return sbx.Verdict{}
		}})
		if err != nil {
			return nil, err
		}
		if !diverged {
			r.stuck = stuck
			return r, nil
		}
		if try == 3 {
			return nil, errDiverged
		}
	}
}

// judge decides about a run in which nf faults were injected.
func (s *scen) judge(r *ran, ps []planned) error {
	if err := r.crashed(); err != nil {
		return err
	}
	if err := untouched(r.before, r.after, s.outs, func(n string) bool { return r.stuck[n] }); err != nil {
		return fmt.Errorf("exit %d: %w", r.Code, err)
	}
	if r.Code == 0 {
		if s.want != 0 {
			return errors.New("exit status 0 although this command has to fail")
		}
		if err := s.complete(r.after, r.stdout); err != nil {
			return fmt.Errorf("exit status 0, but: %w", err)
		}
		return nil
	}
	if err := outsOld(r.before, r.after, s.outs); err != nil {
		if len(ps) < 2 {
			return fmt.Errorf("exit status %d, but: %w", r.Code, err)
		}
		// a second failure may hit the attempt to put things back
		if err := outsEither(r.before, r.after, s.outs); err != nil {
			absent := false
			for n := range s.outs {
				_, had := r.before[n]
				_, has := r.after[n]
				absent = absent || had && !has
			}
			if !absent || !s.multi {
				return fmt.Errorf("exit status %d, but: %w", r.Code, err)
			}
		}
	}
	if s.plain != "" && !bytes.HasPrefix([]byte(s.plain), r.stdout) {
		return errors.New("standard output is not a prefix of the plaintext")
	}
	return nil
}

// sweep drives fault scenarios: baseline, then planned deviations level by level.
type sweep struct {
	c    *eng.Ctx
	bin  string
	mu   sync.Mutex
	lost int
}

type swJob struct {
	s  *scen
	ps []planned
}

func (j *swJob) id(suite string) string {
	t := suite + "/" + j.s.name
	for i, p := range j.ps {
		t += "/+"[min(i, 1) : min(i, 1)+1]
		t += fmt.Sprintf("%d:%s=%s", p.at, p.label, p.f.name)
	}
	return t
}

// suite is Ctx.Suite, except that a replay may need it for what follows.
func (w *sweep) suite(name string, f func()) {
	if w.c.Filtering() {
		f()
		return
	}
	w.c.Suite(name, f)
}

// each runs the jobs of one level; next gets the events of each.
func (w *sweep) each(suite string, jobs []swJob, run func(j *swJob) ([]sbx.Event, error), next func(j *swJob, evs []sbx.Event)) {
	c := w.c
	w.suite(suite, func() {
		c.Par(len(jobs), func(i int) {
			j := &jobs[i]
			var evs []sbx.Event
			f := func() error {
				var err error
				evs, err = run(j)
				if errors.Is(err, errDiverged) {
					w.mu.Lock()
					if w.lost++; w.lost == 1 {
						c.Partial("%s: the program does not repeat its calls", j.id(suite))
					}
					w.mu.Unlock()
					return nil
				}
				return err
			}
			if c.Filtering() && j.id(suite) != c.FilterID() {
				if next == nil || !strings.Contains(c.FilterID(), "/"+j.s.name+"/") {
					return
				}
				if len(j.ps) > 0 {
					_, rest, _ := strings.Cut(j.id(suite), "/")
					if _, r2, _ := strings.Cut(c.FilterID(), "/"); !strings.HasPrefix(r2, rest+"+") {
						return
					}
				}
				f()
			} else {
				c.Case(func() string { return j.id(suite) }, f)
			}
			c.Trans(len(evs))
			if next != nil && !c.Stopped() {
				w.mu.Lock()
				defer w.mu.Unlock()
				next(j, evs)
			}
		})
	})
}

func runC18(c *eng.Ctx) {
	w := &sweep{c: c, bin: os.Getenv("MC_TOOL")}
	core := map[string]bool{"gen": true, "gen-over": true, "sign": true, "enc-over": true, "dec-over": true, "dec-corrupt": true, "verify": true, "lib-sk": true, "enc-multi": true}
	brief := map[string]bool{"EIO": true, "EIO-after": true, "full1": true, "EPIPE": true, "ENOSPC": true, "ENOMEM": true}
	var base, singles, pairs []swJob
	for _, s := range scenarios(c.Thorough) {
		base = append(base, swJob{s: s})
	}
	w.each("baseline", base, func(j *swJob) ([]sbx.Event, error) {
		r, err := j.s.run(c, w.bin, hooks{umask: -1})
		if err != nil {
			return nil, err
		}
		if r.Code != j.s.want {
			return nil, fmt.Errorf("exit %d %v, expected %d: %s", r.Code, r.Signal, j.s.want, r.stderr)
		}
		return r.Events, j.s.judge(r, nil)
	}, func(j *swJob, evs []sbx.Event) {
		for i := range evs {
			for _, f := range faults(&evs[i]) {
				singles = append(singles, swJob{j.s, []planned{{evs[i].N, j.s.label(&evs[i]), evs[i].Sys, f}}})
			}
		}
	})
	run := func(j *swJob) ([]sbx.Event, error) {
		r, err := j.s.inject(c, w.bin, j.ps)
		if err != nil {
			return nil, err
		}
		p := j.ps[len(j.ps)-1]
		c.State("%s/%s/%s/%d", j.s.name, p.label, p.f.name, r.Code)
		c.Outcome(fmt.Sprintf("exit %d", r.Code))
		return r.Events, j.s.judge(r, j.ps)
	}
	w.each("single", singles, run, func(j *swJob, evs []sbx.Event) {
		first := j.ps[0]
		if !c.Thorough && (!core[j.s.name] || !brief[first.f.name]) {
			return
		}
		for i := first.at + 1; i < len(evs); i++ {
			for _, f := range faults(&evs[i]) {
				if c.Thorough || brief[f.name] {
					pairs = append(pairs, swJob{j.s, []planned{first, {evs[i].N, j.s.label(&evs[i]), evs[i].Sys, f}}})
				}
			}
		}
	})
	w.each("pair", pairs, run, nil)
}
