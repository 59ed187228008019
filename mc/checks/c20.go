package checks

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"errors"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	"mc/eng"
	"mc/ref"
	"mc/sbx"
)

func init() {
	register(&eng.Prop{ID: "C20", Level: "model_checking",
		Rule: "one execution = one supervised run of the real sigtool binary (or library serialization) under a umask; after every one of its file-system calls the directory is examined: every file that appears and is not a public output must be accessible to its owner only, from its creation on; every byte written to any file or stream is scanned for private key material, passphrases and (test mode) plaintext; states = (scenario, umask, call, set of file modes)",
		Bound: func(c *eng.Ctx) string {
			return fmt.Sprintf("%d scenarios x umasks %03o x every file-system call%s", len(scenarios(c.Thorough)), c20Umasks(c), pick2(c, "; every single I/O error (one kind per call) under umask 0", "; every single fault under umask 0"))
		},
		Assume: []string{"scrypt runs with a reduced N in the binary under test"},
		Run:    func(c *eng.Ctx) { viaFast(c, "c20") }})
	Subs["c20"] = runC20
}

func c20Umasks(c *eng.Ctx) []int {
	if c.Thorough {
		return []int{0, 022, 077, 027, 007, 0177, 0277, 0777}
	}
	return []int{0, 022, 077}
}

// life is a file from its appearance to its end.
type life struct {
	ino   uint64
	modes map[fs.FileMode]string // and the call after which it was seen
	names map[string]bool
	name  string
	alive bool
}

type watch struct {
	s      *scen
	c      *eng.Ctx
	umask  int
	old    map[uint64]bool
	lives  []*life
	data   map[string][]byte // everything written, by object
	fdData map[string][]byte
}

func (w *watch) look(dir, after string) {
	seen, there := map[uint64]*life{}, map[uint64]bool{}
	var modes []string
	filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() {
			return nil
		}
		fi, err := os.Lstat(p)
		if err != nil {
			return nil
		}
		ino := fi.Sys().(*syscall.Stat_t).Ino
		there[ino] = true
		if w.old[ino] {
			return nil
		}
		var l *life
		for _, x := range w.lives {
			if x.alive && x.ino == ino {
				l = x
			}
		}
		if l == nil {
			l = &life{ino: ino, alive: true, modes: map[fs.FileMode]string{}, names: map[string]bool{}}
			w.lives = append(w.lives, l)
		}
		l.name, _ = filepath.Rel(dir, p)
		l.names[l.name] = true
		if _, ok := l.modes[fi.Mode()]; !ok {
			l.modes[fi.Mode()] = after
		}
		seen[ino] = l
		modes = append(modes, fmt.Sprintf("%o", fi.Mode()))
		return nil
	})
	for _, l := range w.lives {
		l.alive = l.alive && seen[l.ino] == l
	}
	for ino := range w.old {
		if !there[ino] {
			delete(w.old, ino) // the number may be used again
		}
	}
	w.c.State("%s/%o/%s/%v", w.s.name, w.umask, after, modes)
}

func (w *watch) isPublic(name string) bool {
	for _, p := range w.s.public {
		if p == name {
			return true
		}
	}
	return false
}

// published: the file had the name of a public output, and of no other one.
func (w *watch) published(l *life) bool {
	is := false
	for n := range l.names {
		if w.isPublic(n) {
			is = true
		} else if _, ok := w.s.outs[n]; ok {
			return false
		}
	}
	return is
}

// modesOK judges the recorded lives.
func (w *watch) modesOK(faulted bool) error {
	onlyPublic := len(w.s.outs) > 0 && len(w.s.public) == len(w.s.outs)
	for _, l := range w.lives {
		if w.published(l) || onlyPublic {
			continue
		}
		if !l.alive && faulted && w.s.multi {
			// an abandoned temporary: which of the outputs was it for?
			secret := false
			for n := range l.names {
				secret = secret || bytes.Contains(w.fdData[n], []byte("esk"))
			}
			if !secret {
				continue
			}
		}
		for m, after := range l.modes {
			if m.IsRegular() && m.Perm()&077 != 0 {
				return fmt.Errorf("%s has mode %v after %s (umask %03o)", l.name, m, after, w.umask)
			}
		}
	}
	return nil
}

// scan looks at everything that was written.
func (w *watch) scan(r *ran) error {
	keys := append([]*ref.Key{}, w.s.keys...)
	if w.s.newKey != "" {
		if n, ok := r.after[w.s.newKey]; ok && n.data != r.before[w.s.newKey].data {
			for _, pw := range append(w.s.pws, "") {
				if k, err := skOf([]byte(n.data), pw); err == nil {
					keys = append(keys, k)
					break
				}
			}
		}
	}
	streams := map[string][]byte{"<stdout>": r.stdout, "<stderr>": r.stderr}
	for n, d := range w.data {
		streams[n+" (written)"] = d
	}
	for n, f := range r.after {
		if _, was := r.before[n]; !was || r.before[n].data != f.data {
			streams[n] = []byte(f.data)
		}
	}
	for n, d := range streams {
		for _, k := range keys {
			if err := leaks(d, k); err != nil {
				return fmt.Errorf("%s: %w", n, err)
			}
		}
		for _, pw := range w.s.pws {
			if pw == "" {
				continue
			}
			for _, form := range []string{pw, hex.EncodeToString([]byte(pw)), base64.StdEncoding.EncodeToString([]byte(pw))[:len(pw)/3*4]} {
				if bytes.Contains(d, []byte(form)) {
					return fmt.Errorf("%s contains a passphrase", n)
				}
			}
		}
		if strings.HasPrefix(w.s.name, "dec-test") {
			msg := pattern(300, 0x33)
			for i := 0; i+16 <= len(msg); i++ {
				if bytes.Contains(d, msg[i:i+16]) {
					return fmt.Errorf("%s contains plaintext", n)
				}
			}
		}
	}
	return nil
}

// watched runs a scenario under observation.
func (s *scen) watched(c *eng.Ctx, bin string, umask int, ps []planned) (*ran, *watch, error) {
	w := &watch{s: s, c: c, umask: umask}
	last := -1
	h := hooks{umask: umask}
	begin := func() {
		w.old = map[uint64]bool{}
		w.lives, w.data, w.fdData, last = nil, map[string][]byte{}, map[string][]byte{}, -1
	}
	begin()
	var diverged bool
	h.enter = func(e *sbx.Event) sbx.Verdict {
		if e.N == 0 {
			begin()
		}
		for i := range ps {
			if ps[i].at == e.N {
				if s.label(e) != ps[i].label {
					diverged = true
					return sbx.Verdict{}
				}
				return ps[i].f.v
			}
		}
		return sbx.Verdict{}
	}
	h.exit = func(e *sbx.Event, dir string) {
		if e.N == 0 || last < 0 {
			// what was there before the first call (none of them creates anything unseen)
			for n := range s.files {
				if fi, err := os.Lstat(filepath.Join(dir, n)); err == nil {
					w.old[fi.Sys().(*syscall.Stat_t).Ino] = true
				}
			}
		}
		last = e.N
		if len(e.Data) > 0 {
			w.data[e.Path] = append(w.data[e.Path], e.Data...)
			w.fdData[e.Path] = append(w.fdData[e.Path], e.Data...)
		}
		w.look(dir, s.label(e))
	}
	for try := 0; ; try++ {
		diverged = false
		r, err := s.run(c, bin, h)
		if err != nil {
			return nil, nil, err
		}
		if !diverged {
			return r, w, nil
		}
		if try == 3 {
			return nil, nil, errDiverged
		}
	}
}

func runC20(c *eng.Ctx) {
	w := &sweep{c: c, bin: os.Getenv("MC_TOOL")}
	brief := map[string]bool{"EIO": true, "EIO-after": true, "EPIPE": true, "ENOSPC": true, "ENOMEM": true, "short1": true}
	scs := scenarios(c.Thorough)
	var singles []swJob
	for ui, um := range c20Umasks(c) {
		var base []swJob
		for _, s := range scs {
			base = append(base, swJob{s: s})
		}
		next := func(j *swJob, evs []sbx.Event) {
			for i := range evs {
				for _, f := range faults(&evs[i]) {
					if c.Thorough || brief[f.name] {
						singles = append(singles, swJob{j.s, []planned{{evs[i].N, j.s.label(&evs[i]), evs[i].Sys, f}}})
					}
				}
			}
		}
		if ui > 0 {
			next = nil
		}
		w.each(fmt.Sprintf("umask%03o", um), base, func(j *swJob) ([]sbx.Event, error) {
			r, x, err := j.s.watched(c, w.bin, um, nil)
			if err != nil {
				return nil, err
			}
			if err := r.crashed(); err != nil {
				return nil, err
			}
			if r.Code != j.s.want {
				if um&0600 != 0 {
					return r.Events, nil
				}
				return nil, fmt.Errorf("exit %d, expected %d: %s", r.Code, j.s.want, r.stderr)
			}
			if err := x.modesOK(false); err != nil {
				return nil, err
			}
			if r.Code == 0 {
				for n := range j.s.outs {
					if m := r.after[n].mode; !x.isPublic(n) && m.Perm()&077 != 0 {
						return nil, fmt.Errorf("%s ends with mode %v (umask %03o)", n, m, um)
					}
				}
			}
			if j.s.want == 0 && len(x.data) == 0 && len(j.s.outs) > 0 {
				return nil, errors.New("check error: no writes seen")
			}
			return r.Events, x.scan(r)
		}, next)
	}
	w.each("fault", singles, func(j *swJob) ([]sbx.Event, error) {
		r, x, err := j.s.watched(c, w.bin, 0, j.ps)
		if err != nil {
			return nil, err
		}
		if err := x.modesOK(true); err != nil {
			return nil, err
		}
		return r.Events, x.scan(r)
	}, nil)
}
