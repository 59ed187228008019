package checks

import (
	"errors"
	"fmt"
	"io/fs"
	"os"
	"strings"
	"syscall"

	"mc/eng"
	"mc/sbx"
)

func init() {
	register(&eng.Prop{ID: "C17", Level: "fault_enumeration",
		Rule: "one evaluation = one supervised execution of the real sigtool binary (or library serialization) killed before the named file-system call, or in the middle of the named write; or all power-loss images of one execution: its recorded calls are replayed on a model file system (checked to end in the real directory) and every crash point x every prefix of the metadata operations x every choice of lost, torn, zeroed or complete unsynced writes is examined; destinations must be old (or absent) or complete by the reference's reading; states = (scenario, crash point, old or new) and distinct power-loss images",
		Bound: func(c *eng.Ctx) string {
			return fmt.Sprintf("%d scenarios x every file-system call x kill, writes torn at 1 byte, half, all but 1 byte; all power-loss images (unsynced writes: all 4^k fates for k<=4, else prefixes and single losses)%s",
				len(scenarios(c.Thorough)), pick2(c, "", "; and every single fault followed by a kill at every later call, with the power-loss images of the faulted runs"))
		},
		Assume: []string{"scrypt runs with a reduced N in the binary under test", "power loss keeps metadata operations in order and whole (journaling file system); data is durable only after fsync"},
		Run:    func(c *eng.Ctx) { viaFast(c, "c17") }})
	Subs["c17"] = runC17
}

// kills are the crash points at a call.
func kills(e *sbx.Event) []fault {
	f := []fault{{"kill", sbx.Verdict{Kill: true}}}
	if e.Sys == "write" || e.Sys == "pwrite" {
		seen := map[int64]bool{}
		for _, k := range []int64{1, e.Arg / 2, e.Arg - 1} {
			if k > 0 && k < e.Arg && !seen[k] {
				seen[k] = true
				f = append(f, fault{fmt.Sprintf("torn%d", k), sbx.Verdict{Short: k, KillAt: true}})
			}
		}
	}
	return f
}

func runC17(c *eng.Ctx) {
	w := &sweep{c: c, bin: os.Getenv("MC_TOOL")}
	var base, killed, faulted, later []swJob
	for _, s := range scenarios(c.Thorough) {
		base = append(base, swJob{s: s})
	}
	crash := func(j *swJob) ([]sbx.Event, error) {
		r, err := j.s.inject(c, w.bin, j.ps)
		if err != nil {
			return nil, err
		}
		if err := untouched(r.before, r.after, j.s.outs, func(string) bool { return true }); err != nil {
			return nil, err
		}
		if err := outsEither(r.before, r.after, j.s.outs); err != nil {
			return nil, err
		}
		p := j.ps[len(j.ps)-1]
		st := "old"
		if outsOld(r.before, r.after, j.s.outs) != nil {
			st = "new"
		}
		c.State("%s/%s/%s/%s", j.s.name, p.label, p.f.name, st)
		c.Outcome(st)
		return r.Events, nil
	}
	w.each("powerloss", base, func(j *swJob) ([]sbx.Event, error) {
		r, err := j.s.run(c, w.bin, hooks{umask: -1})
		if err != nil {
			return nil, err
		}
		if r.Code != j.s.want {
			return nil, fmt.Errorf("exit %d, expected %d: %s", r.Code, j.s.want, r.stderr)
		}
		return r.Events, powerLoss(c, j.s, r)
	}, func(j *swJob, evs []sbx.Event) {
		for i := range evs {
			p := planned{evs[i].N, j.s.label(&evs[i]), evs[i].Sys, fault{}}
			for _, f := range kills(&evs[i]) {
				p.f = f
				killed = append(killed, swJob{j.s, []planned{p}})
			}
			if !c.Thorough {
				continue
			}
			for _, f := range faults(&evs[i]) {
				p.f = f
				faulted = append(faulted, swJob{j.s, []planned{p}})
			}
		}
	})
	w.each("kill", killed, crash, nil)
	if !c.Thorough {
		return
	}
	w.each("fault", faulted, func(j *swJob) ([]sbx.Event, error) {
		r, err := j.s.inject(c, w.bin, j.ps)
		if err != nil {
			return nil, err
		}
		return r.Events, powerLoss(c, j.s, r)
	}, func(j *swJob, evs []sbx.Event) {
		for i := j.ps[0].at + 1; i < len(evs); i++ {
			for _, f := range kills(&evs[i]) {
				later = append(later, swJob{j.s, []planned{j.ps[0], {evs[i].N, j.s.label(&evs[i]), evs[i].Sys, f}}})
			}
		}
	})
	w.each("fault-kill", later, crash, nil)
}

// ---- power loss

type mop struct {
	kind     string // create, trunc, rename, unlink, link; write; sync
	a, b     string
	ino      int
	off      int64
	data     []byte
	size     int64
	metaIdx  int
	writeIdx int
}

// oplog turns the calls of a run into operations of a model file system.
func oplog(r *ran) (ops []mop, init map[string]int, content []string, err error) {
	init = map[string]int{}
	names := map[string]int{}
	byIno := map[uint64]int{}
	for _, n := range r.before.names() {
		f := r.before[n]
		if !f.mode.IsRegular() {
			continue
		}
		id, ok := byIno[f.ino]
		if !ok {
			id = len(content)
			byIno[f.ino] = id
			content = append(content, f.data)
		}
		init[n], names[n] = id, id
	}
	type fd struct {
		ino    int
		off    int64
		append bool
	}
	fds := map[int]*fd{}
	size := map[int]int64{}
	for i, c := range content {
		size[i] = int64(len(c))
	}
	next := len(content)
	for _, e := range r.Events {
		if e.Ret < 0 || strings.HasPrefix(e.Path, "<") {
			if e.Sys == "close" {
				delete(fds, e.FD)
			}
			continue
		}
		f := fds[e.FD]
		switch e.Sys {
		case "open":
			id, ok := names[e.Path]
			if !ok {
				if e.Flag&syscall.O_CREAT == 0 {
					continue // a directory or the like
				}
				id = next
				next++
				names[e.Path] = id
				ops = append(ops, mop{kind: "create", a: e.Path, ino: id})
			} else if e.Flag&syscall.O_TRUNC != 0 {
				ops = append(ops, mop{kind: "trunc", ino: id})
				size[id] = 0
			}
			fds[int(e.Ret)] = &fd{id, 0, e.Flag&syscall.O_APPEND != 0}
		case "close":
			delete(fds, e.FD)
		case "dup":
			fds[int(e.Ret)] = f
		case "read":
			if f != nil {
				f.off += e.Ret
			}
		case "lseek":
			if f != nil {
				f.off = e.Ret
			}
		case "write", "pwrite", "writev":
			if f == nil {
				return nil, nil, nil, fmt.Errorf("write to an unknown descriptor: %s", e.String())
			}
			off := f.off
			if e.Sys == "pwrite" {
				off = e.Off
			} else if f.append {
				off = size[f.ino]
			}
			ops = append(ops, mop{kind: "write", ino: f.ino, off: off, data: e.Data[:min(int(e.Ret), len(e.Data))]})
			size[f.ino] = max(size[f.ino], off+e.Ret)
			if e.Sys != "pwrite" {
				f.off = off + e.Ret
			}
		case "ftruncate":
			if f != nil {
				ops = append(ops, mop{kind: "trunc", ino: f.ino, size: e.Arg})
				size[f.ino] = e.Arg
			}
		case "truncate":
			if id, ok := names[e.Path]; ok {
				ops = append(ops, mop{kind: "trunc", ino: id, size: e.Arg})
				size[id] = e.Arg
			}
		case "fsync":
			if f != nil {
				ops = append(ops, mop{kind: "sync", ino: f.ino})
			}
		case "rename":
			ops = append(ops, mop{kind: "rename", a: e.Path, b: e.To})
			if id, ok := names[e.Path]; ok {
				if to, had := names[e.To]; had && to == id {
					continue // same file: nothing happens
				}
				delete(names, e.Path)
				names[e.To] = id
			}
		case "link":
			ops = append(ops, mop{kind: "link", a: e.Path, b: e.To})
			if id, ok := names[e.Path]; ok {
				names[e.To] = id
			}
		case "unlink":
			ops = append(ops, mop{kind: "unlink", a: e.Path})
			delete(names, e.Path)
		case "sendfile", "copyrange", "fallocate", "symlink":
			return nil, nil, nil, fmt.Errorf("not modelled: %s", e.String())
		}
	}
	m, w := 0, 0
	for i := range ops {
		switch ops[i].kind {
		case "write":
			ops[i].writeIdx = w
			w++
		case "sync":
		default:
			ops[i].metaIdx = m
			m++
		}
	}
	return ops, init, content, nil
}

const (
	wFull = iota
	wLost
	wHalf
	wZero
)

// image is the directory after recovery: the first nmeta metadata operations took
// effect, and each write of ops has its fate.
func image(ops []mop, init map[string]int, content []string, nmeta int, fate []byte) map[string]string {
	names := map[string]int{}
	for n, i := range init {
		names[n] = i
	}
	data := map[int][]byte{}
	for i, c := range content {
		data[i] = []byte(c)
	}
	put := func(ino int, off int64, b []byte) {
		d := data[ino]
		for int64(len(d)) < off+int64(len(b)) {
			d = append(d, 0)
		}
		copy(d[off:], b)
		data[ino] = d
	}
	for _, o := range ops {
		switch o.kind {
		case "write":
			switch fate[o.writeIdx] {
			case wFull:
				put(o.ino, o.off, o.data)
			case wHalf:
				put(o.ino, o.off, o.data[:len(o.data)/2])
			case wZero:
				put(o.ino, o.off, make([]byte, len(o.data)))
			}
			continue
		case "sync":
			continue
		}
		if o.metaIdx >= nmeta {
			continue
		}
		switch o.kind {
		case "create":
			names[o.a] = o.ino
		case "trunc":
			d := data[o.ino]
			for int64(len(d)) < o.size {
				d = append(d, 0)
			}
			data[o.ino] = d[:o.size]
		case "rename":
			if id, ok := names[o.a]; ok {
				if to, had := names[o.b]; !had || to != id {
					delete(names, o.a)
					names[o.b] = id
				}
			}
		case "link":
			if id, ok := names[o.a]; ok {
				names[o.b] = id
			}
		case "unlink":
			delete(names, o.a)
		}
	}
	out := map[string]string{}
	for n, i := range names {
		out[n] = string(data[i])
	}
	return out
}

// fates enumerates what may happen to the unsynced writes.
func fates(nw int, unsynced []int, f func(fate []byte)) {
	fate := make([]byte, nw)
	k := len(unsynced)
	if k <= 4 {
		var rec func(i int)
		rec = func(i int) {
			if i == k {
				f(fate)
				return
			}
			for x := byte(0); x < 4; x++ {
				fate[unsynced[i]] = x
				rec(i + 1)
			}
			fate[unsynced[i]] = 0
		}
		rec(0)
		return
	}
	reset := func(x byte) {
		for _, u := range unsynced {
			fate[u] = x
		}
	}
	for _, tail := range []byte{wLost, wZero} {
		for m := 0; m <= k; m++ { // the first m are there
			for _, at := range []byte{wLost, wHalf, wZero} {
				reset(tail)
				for _, u := range unsynced[:m] {
					fate[u] = wFull
				}
				if m < k {
					fate[unsynced[m]] = at
				}
				f(fate)
			}
		}
	}
	for _, u := range unsynced {
		for _, at := range []byte{wLost, wHalf, wZero} {
			reset(wFull)
			fate[u] = at
			f(fate)
		}
	}
}

// powerLoss examines every image a power failure during the run may leave.
func powerLoss(c *eng.Ctx, s *scen, r *ran) error {
	ops, init, content, err := oplog(r)
	if err == nil {
		err = modelMatches(r, image(ops, init, content, len(ops), make([]byte, len(ops))))
	}
	if err != nil {
		c.Partial("%s: no power-loss model: %v", s.name, err)
		return nil
	}
	seen := map[string]bool{}
	judge := func(img map[string]string) error {
		key := ""
		t := tree{}
		for n, d := range img {
			if s.outs[n] != nil {
				t[n] = node{data: d, mode: 0600}
				key += n + "\x00" + d + "\x00"
			}
		}
		for n, b := range r.before {
			if s.outs[n] == nil && b.mode.IsRegular() && img[n] != b.data {
				return fmt.Errorf("power loss changes %s", n)
			}
		}
		if seen[key] {
			return nil
		}
		seen[key] = true
		c.State("img/%s/%d", s.name, eng.Hash64(key))
		if err := outsEither(r.before, t, s.outs); err != nil {
			return fmt.Errorf("power loss: %w", err)
		}
		return nil
	}
	for i := 0; i <= len(ops); i++ {
		// crash after ops[:i]
		nw, nm := 0, 0
		var unsynced []int
		for a, o := range ops[:i] {
			switch o.kind {
			case "write":
				nw++
				durable := false
				for _, x := range ops[a+1 : i] {
					durable = durable || x.kind == "sync" && x.ino == o.ino
				}
				if !durable {
					unsynced = append(unsynced, o.writeIdx)
				}
			case "sync":
			default:
				nm++
			}
		}
		for m := 0; m <= nm; m++ {
			var bad error
			fates(nw, unsynced, func(fate []byte) {
				if bad == nil {
					c.Trans(1)
					if bad = judge(image(ops[:i], init, content, m, fate)); bad != nil {
						bad = fmt.Errorf("after %d operations (%s), %d of %d metadata operations on disk, unsynced writes %v with fates %v: %w", i, opStr(ops[:i]), m, nm, unsynced, fate, bad)
					}
				}
			})
			if bad != nil {
				return bad
			}
		}
	}
	return nil
}

func opStr(ops []mop) string {
	var w []string
	for _, o := range ops {
		t := o.kind
		if o.a != "" {
			t += " " + o.a
		}
		if o.b != "" {
			t += " " + o.b
		}
		w = append(w, t)
	}
	return strings.Join(w, ", ")
}

// modelMatches binds the model to reality: its final state is the real directory.
func modelMatches(r *ran, img map[string]string) error {
	n := 0
	for name, f := range r.after {
		if f.mode&fs.ModeType != 0 {
			continue
		}
		n++
		if d, ok := img[name]; !ok || d != f.data {
			return fmt.Errorf("model and directory differ in %s", name)
		}
	}
	if n != len(img) {
		return errors.New("model and directory differ in the names")
	}
	return nil
}
