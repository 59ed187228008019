package checks

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"mc/eng"
	"mc/ref"
	"mc/sbx"
)

func init() {
	register(&eng.Prop{ID: "C23", Level: "model_checking",
		Rule: "one evaluation = one execution of two (thorough: also three) real sigtool processes in one directory under a supervisor which holds each of them at its file-system calls and decides who goes on; every schedule within the preemption bound is executed; the outputs are looked at after every call that changes something and at the end, and are judged with the reference implementation; states = (situation, contents of the outputs by author, exit statuses)",
		Bound: func(c *eng.Ctx) string {
			return fmt.Sprintf("%d groups of commands on shared files x every order of start x all schedules with <= %s preemption at any file-system call and <= %s at calls on objects which more than one of them uses", len(duos(c.Thorough)), sel(c.Thorough, "2", "1"), sel(c.Thorough, "3", "2"))
		},
		Assume: []string{"file-system calls are atomic with respect to each other", "scrypt runs with a reduced N in the binary under test"},
		Run:    func(c *eng.Ctx) { viaFast(c, "c23") }})
	Subs["c23"] = runC23
}

func sel(b bool, x, y string) string {
	if b {
		return x
	}
	return y
}

// actor is one of the commands that run together.
type actor struct {
	args  []string
	stdin string
	lib   bool
	env   []string
	// what it may write, given all versions any file had during the execution
	outs  map[string]func(b []byte, v versions) error
	whole func(stdout []byte, v versions) error // stdout, if it succeeds
}

// versions are the contents a path had, in order; the first is what it had before.
type versions map[string][]string

// any tells whether one of the versions of a path passes the test.
func (v versions) any(path string, f func(b []byte) error) error {
	err := errors.New("there is no " + path)
	for _, s := range v[path] {
		if err = f([]byte(s)); err == nil {
			return nil
		}
	}
	return err
}

type duo struct {
	name   string
	files  map[string]string
	actors []actor
	once   bool // nobody may replace anything
}

// outcome of one actor.
type played struct {
	code   int
	stdout []byte
	stderr []byte
	err    error
	sig    string
}

// stage runs the actors of a duo under the schedule the chooser dictates.
type stage struct {
	mu    sync.Mutex
	cond  *sync.Cond
	turn  int
	alive []bool
	beat  time.Time // of the last call of whoever has the turn
	x     *eng.Chooser
	steps int
}

// point lets the chooser pick who goes on: p itself by default.
func (s *stage) point(p int) {
	var others []int
	for i := range s.alive {
		if i != p && s.alive[i] {
			others = append(others, i)
		}
	}
	if len(others) == 0 {
		return
	}
	if a := s.x.Choose(len(others) + 1); a > 0 {
		s.turn = others[a-1]
		s.cond.Broadcast()
	}
}

func (s *stage) wait(p int) {
	for s.turn != p {
		// whoever has the turn may be waiting for us
		if s.alive[s.turn] && time.Since(s.beat) > 5*time.Second {
			s.turn = p
			break
		}
		s.cond.Wait()
	}
	s.beat = time.Now()
}

// enter is called before each call of actor p.
func (s *stage) enter(p int, ask bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.wait(p)
	if s.steps++; s.steps > 3000 {
		// somebody polls; be fair
		s.steps = 2900
		for i := range s.alive {
			if j := (p + 1 + i) % len(s.alive); s.alive[j] {
				s.turn = j
				break
			}
		}
		s.cond.Broadcast()
		s.wait(p)
		return
	}
	if ask {
		s.point(p)
		s.wait(p)
	}
}

func (s *stage) end(p int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.alive[p] = false
	if s.turn == p {
		for i := range s.alive {
			if s.alive[i] {
				s.turn = i
				break
			}
		}
	}
	s.beat = time.Now()
	s.cond.Broadcast()
}

// perform executes the actors; the given one goes first, and dep selects the calls
// at which the turn may pass to another one.
func (d *duo) perform(c *eng.Ctx, bin string, first int, dep func(e *sbx.Event) bool, x *eng.Chooser) (before, after tree, v versions, res []played, touched []map[string]bool, err error) {
	s0 := &scen{files: d.files}
	dir, err := s0.setup(c)
	if err != nil {
		return
	}
	top := filepath.Dir(dir)
	defer os.RemoveAll(top)
	if before, err = readTree(dir); err != nil {
		return
	}
	n := len(d.actors)
	st := &stage{turn: first, alive: make([]bool, n), beat: time.Now(), x: x}
	st.cond = sync.NewCond(&st.mu)
	for i := range st.alive {
		st.alive[i] = true
	}
	// wakes those who wait for a turn that does not come
	stop := make(chan bool)
	defer close(stop)
	go func() {
		for {
			select {
			case <-stop:
				return
			case <-time.After(time.Second):
				st.cond.Broadcast()
			}
		}
	}()
	v = versions{}
	see := func() {
		for _, a := range d.actors {
			for o := range a.outs {
				b, e := os.ReadFile(filepath.Join(dir, o))
				if e != nil {
					continue
				}
				if l := v[o]; len(l) == 0 || l[len(l)-1] != string(b) {
					v[o] = append(l, string(b))
				}
			}
		}
	}
	for f, b := range d.files {
		v[f] = []string{b}
	}
	see()
	res = make([]played, n)
	touched = make([]map[string]bool, n)
	var wg sync.WaitGroup
	for p := range d.actors {
		a := &d.actors[p]
		touched[p] = map[string]bool{}
		in, out, er := filepath.Join(top, fmt.Sprint("in", p)), filepath.Join(top, fmt.Sprint("out", p)), filepath.Join(top, fmt.Sprint("err", p))
		if err = os.WriteFile(in, []byte(a.stdin), 0644); err != nil {
			return
		}
		o := sbx.Opt{Bin: bin, Args: a.args, Dir: dir, Root: dir, Umask: -1, Limit: 60 * time.Second,
			Env:   append([]string{"HOME=" + filepath.Join(dir, "home"), "GOMAXPROCS=2", "PATH=/usr/bin:/bin"}, a.env...),
			Stdin: in, Stdout: out, Stderr: er}
		if a.lib {
			if o.Bin, err = os.Executable(); err != nil {
				return
			}
			o.Args = append([]string{"lib"}, a.args...)
		}
		p := p
		o.Enter = func(e *sbx.Event) sbx.Verdict {
			st.enter(p, dep(e))
			touched[p][e.Path] = true
			if e.To != "" {
				touched[p][e.To] = true
			}
			return sbx.Verdict{}
		}
		o.Exit = func(e *sbx.Event) {
			st.mu.Lock()
			see()
			st.mu.Unlock()
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer st.end(p)
			r, e := sbx.Run(o)
			if e != nil {
				res[p].err = e
				res[p].code = -1
				return
			}
			res[p].code = r.Code
			if r.Code < 0 {
				res[p].sig = r.Signal.String()
			}
			res[p].stdout, _ = os.ReadFile(out)
			res[p].stderr, _ = os.ReadFile(er)
		}()
	}
	wg.Wait()
	after, err = readTree(dir)
	return
}

// judge decides about an execution; codes are the exit statuses each actor had when
// they ran one after the other.
func (d *duo) judge(before, after tree, v versions, res []played, codes []map[int]bool) error {
	outs := map[string]func([]byte) error{}
	for p := range d.actors {
		r, a := &res[p], &d.actors[p]
		if r.err != nil {
			return fmt.Errorf("%v: %w", a.args, r.err)
		}
		if r.sig != "" {
			return fmt.Errorf("%v: died of signal %s", a.args, r.sig)
		}
		if bytes.Contains(r.stderr, []byte("goroutine ")) && bytes.Contains(r.stderr, []byte("[running]")) {
			return fmt.Errorf("%v: crashed: %.400s", a.args, r.stderr)
		}
		if codes != nil && !codes[p][r.code] {
			return fmt.Errorf("%v: exit status %d, which it never has when the commands run one after the other: %.200s", a.args, r.code, r.stderr)
		}
		for o := range a.outs {
			outs[o] = func([]byte) error { return nil }
		}
		if r.code == 0 && a.whole != nil {
			if err := a.whole(r.stdout, v); err != nil {
				return fmt.Errorf("%v: %w", a.args, err)
			}
		}
	}
	if err := untouched(before, after, outs, func(string) bool { return false }); err != nil {
		return err
	}
	for o := range outs {
		old, had := before[o]
		// by says whether the content is the work of one of the (successful) actors
		by := func(b string, success bool) (int, error) {
			err := errors.New("nobody succeeded")
			for p := range d.actors {
				a := &d.actors[p]
				if a.outs[o] == nil || success && res[p].code != 0 {
					continue
				}
				if err = a.outs[o]([]byte(b), v); err == nil {
					return p, nil
				}
			}
			return -1, err
		}
		if d.once && len(v[o]) > 1 {
			return fmt.Errorf("%s was replaced, which nobody asked for", o)
		}
		for i, b := range v[o] {
			if had && b == old.data {
				continue
			}
			if _, err := by(b, false); err != nil {
				return fmt.Errorf("version %d of %s (%d bytes) is not the complete work of any of the commands: %w", i, o, len(b), err)
			}
		}
		ok := false
		for p := range d.actors {
			ok = ok || d.actors[p].outs[o] != nil && res[p].code == 0
		}
		a, has := after[o]
		switch {
		case !ok && (has != had || a.data != old.data):
			return fmt.Errorf("%s was changed (%d bytes, was %d) although no command succeeded", o, len(a.data), len(old.data))
		case !ok:
		case !has:
			return fmt.Errorf("%s is missing although a command succeeded", o)
		default:
			if _, err := by(a.data, true); err != nil {
				return fmt.Errorf("%s (%d bytes) is not what a successful command wrote: %w", o, len(a.data), err)
			}
		}
	}
	return nil
}

func runC23(c *eng.Ctx) {
	bin := os.Getenv("MC_TOOL")
	everywhere := func(e *sbx.Event) bool { return true }
	nowhere := func(e *sbx.Event) bool { return false }
	for _, d := range duos(c.Thorough) {
		d := d
		for first := range d.actors {
			first := first
			suite := fmt.Sprintf("%s.%d", d.name, first)
			w := &sweep{c: c}
			w.suite(suite, func() {
				// one after the other, in both directions: which objects they share,
				// and which exit statuses are possible
				codes := make([]map[int]bool, len(d.actors))
				shared := map[string]int{}
				bad := false
				if c.Filtering() && !strings.HasPrefix(c.FilterID(), suite+"/") {
					return
				}
				for k := range d.actors {
					k := k
					alone := func() error {
						before, after, v, res, touched, err := d.perform(c, bin, k, nowhere, &eng.Chooser{})
						if err == nil {
							err = d.judge(before, after, v, res, nil)
						}
						if err != nil {
							bad = true
							return err
						}
						for p := range d.actors {
							if codes[p] == nil {
								codes[p] = map[int]bool{}
							}
							codes[p][res[p].code] = true
							for f := range touched[p] {
								shared[f] |= 1 << p
							}
						}
						return nil
					}
					if id := fmt.Sprintf("%s/order%d", suite, k); c.Filtering() && c.FilterID() != id {
						alone()
					} else {
						c.Case(func() string { return id }, alone)
					}
				}
				if bad {
					return
				}
				// with three, other orders are possible, too
				if len(d.actors) > 2 {
					for p := range codes {
						codes[p] = map[int]bool{0: true, 1: true}
					}
				}
				both := func(e *sbx.Event) bool {
					many := func(f string) bool { return shared[f]&(shared[f]-1) != 0 && !strings.HasPrefix(f, "<") }
					return many(e.Path) || many(e.To)
				}
				run := func(dep func(e *sbx.Event) bool) func(x *eng.Chooser) error {
					return func(x *eng.Chooser) error {
						before, after, v, res, _, err := d.perform(c, bin, first, dep, x)
						if err != nil {
							return err
						}
						if err := d.judge(before, after, v, res, codes); err != nil {
							return err
						}
						t := suite
						for p := range res {
							t += fmt.Sprint(" ", res[p].code)
						}
						for _, f := range after.names() {
							if len(v[f]) > 0 {
								t += fmt.Sprint(" ", f, len(v[f]))
							}
						}
						c.State("%s", t)
						c.Outcome(t[len(suite):min(len(t), len(suite)+2*len(res))])
						return nil
					}
				}
				k := 0
				if c.Thorough {
					k = 1
				}
				if len(d.actors) > 2 {
					k--
				}
				c.Explore(suite+"/any", 1+k, run(everywhere))
				c.Explore(suite+"/shared", 2+k, run(both))
			})
		}
	}
}

// ---- situations

func duos(thorough bool) []*duo {
	alice, bob, carol, erin := ref.KeyFor("alice"), ref.KeyFor("bob"), ref.KeyFor("carol"), ref.KeyFor("erin")
	old, msg, other := string(pattern(150, 0x11)), string(pattern(300, 0x33)), string(pattern(260, 0x55))
	encTo := func(label, pt string) string {
		return string((&ref.Spec{ChunkSize: 100, Rx: []*ref.Key{bob}, Pts: ref.Split([]byte(pt), 100, true), Label: label}).Write().Bytes)
	}
	cMsg, cOther, cOld := encTo("1", msg), encTo("2", other), encTo("3", old)
	bad := []byte(cOther)
	bad[len(bad)-70] ^= 1
	const ow = "--overwrite"
	var out []*duo
	add := func(name string, files map[string]string, as ...actor) {
		m := map[string]string{
			"alice.key": skFile(alice, pwAlice), "alice.pub": string(ref.PkDoc(alice, "alice")),
			"bob.key": skFile(bob, ""), "bob.pub": string(ref.PkDoc(bob, "")),
			"carol.key": string(carol.SSHPriv(ref.SSHOpt{Cipher: "none", Comment: "carol@host"})), "carol.pub": carol.SSHPubLine("carol@host"),
			"bystander": "leave me alone\n",
		}
		for k, v := range files {
			m[k] = v
		}
		d := &duo{name: name, files: m, actors: as, once: true}
		for _, a := range as {
			for _, w := range a.args {
				d.once = d.once && w != ow && !(a.lib && w == "1")
			}
		}
		out = append(out, d)
	}
	// one judge for a file of one actor
	type judge = func(b []byte, v versions) error
	wr := func(o string, j judge, args ...string) actor {
		return actor{args: args, env: []string{"PW=" + pwAlice}, outs: map[string]judge{o: j}}
	}
	rd := func(args ...string) actor {
		return actor{args: args, env: []string{"PW=" + pwAlice}}
	}
	with := func(a actor, f judge) actor { a.whole = f; return a }
	// signatures over any version of a file
	sigs := func(k *ref.Key, f string) judge {
		return func(b []byte, v versions) error {
			return v.any(f, func(m []byte) error { return sigOK(b, k, m) })
		}
	}
	encs := func(pt string) judge {
		return func(b []byte, _ versions) error { return encOK(b, []byte(pt), nil, bob) }
	}
	text := func(ts ...string) judge {
		return func(b []byte, _ versions) error {
			for _, t := range ts {
				if string(b) == t {
					return nil
				}
			}
			return errNotOurs
		}
	}
	signA := func(o, f string, more ...string) actor {
		return wr(o, sigs(alice, f), append(append([]string{"sign", "-E", "PW", "-o", o}, more...), "alice.key", f)...)
	}
	signC := func(o, f string, more ...string) actor {
		return wr(o, sigs(carol, f), append(append([]string{"sign", "--no-password", "-o", o}, more...), "carol.key", f)...)
	}
	enc := func(o, f, pt string, more ...string) actor {
		return wr(o, encs(pt), append(append([]string{"encrypt", "-B", "64", "-o", o}, more...), "bob.pub", f)...)
	}
	dec := func(o, f string, pts []string, more ...string) actor {
		return wr(o, text(pts...), append(append([]string{"decrypt", "--no-password", "-o", o}, more...), "bob.key", f)...)
	}
	// key generation
	kOld := map[string]string{"k.key": skFile(erin, pwAlice), "k.pub": string(ref.PkDoc(erin, "erin"))}
	gen := func(pre string, alone bool, more ...string) actor {
		kf, pf := pre+".key", pre+".pub"
		opens := func(b []byte) (*ref.Key, error) { return skOf(b, pwAlice) }
		a := rd(append(append([]string{"generate", "-E", "PW"}, more...), pre)...)
		a.outs = map[string]judge{
			kf: func(b []byte, _ versions) error { _, err := opens(b); return err },
			pf: func(b []byte, v versions) error {
				pk, err := pkOf(b)
				if err != nil {
					return err
				}
				return v.any(kf, func(d []byte) error {
					k, err := opens(d)
					if err == nil && !bytes.Equal(k.Pk, pk) {
						err = errors.New("the public key has no private key")
					}
					return err
				})
			},
		}
		if alone {
			a.whole = func(_ []byte, v versions) error {
				ks, ps := v[kf], v[pf]
				if len(ks) == 0 || len(ps) == 0 {
					return errors.New("a part of the key pair is missing")
				}
				k, err := opens([]byte(ks[len(ks)-1]))
				if err != nil {
					return err
				}
				pk, err := pkOf([]byte(ps[len(ps)-1]))
				if err == nil && !bytes.Equal(pk, k.Pk) {
					err = errors.New("the public key does not belong to the private key")
				}
				return err
			}
		}
		return a
	}
	byK := func(f string) judge {
		return func(b []byte, v versions) error {
			return v.any("k.key", func(d []byte) error {
				k, err := skOf(d, pwAlice)
				if err != nil {
					return err
				}
				return sigOK(b, k, []byte(f))
			})
		}
	}
	toK := func(pt string) judge {
		return func(b []byte, v versions) error {
			return v.any("k.key", func(d []byte) error {
				k, err := skOf(d, pwAlice)
				if err != nil {
					return err
				}
				return encOK(b, []byte(pt), nil, k)
			})
		}
	}
	sig := func(k *ref.Key, m string) string { return string(ref.SigDoc(k, ref.FileDigest([]byte(m)), "x")) }
	// two writers of one file
	add("sign-sign", map[string]string{"f": msg, "s": "old\n"}, signA("s", "f", ow), signC("s", "f", ow))
	add("enc-enc", map[string]string{"f": msg, "g": other, "c": "old\n"}, enc("c", "f", msg, ow), enc("c", "g", other, ow))
	add("dec-dec", map[string]string{"c": cMsg, "d": cOther, "p": "old\n"}, dec("p", "c", []string{msg}, ow), dec("p", "d", []string{other}, ow))
	add("dec-bad", map[string]string{"c": cMsg, "d": string(bad), "p": "old\n"}, dec("p", "c", []string{msg}, ow), dec("p", "d", nil, ow))
	add("sign-enc", map[string]string{"f": msg, "o": "old\n"}, signA("o", "f", ow), enc("o", "f", msg, ow))
	add("gen-gen", kOld, gen("k", false, ow), gen("k", false, ow))
	// the same without anything to replace
	add("sign-sign-new", map[string]string{"f": msg}, signA("s", "f"), signC("s", "f"))
	add("enc-enc-new", map[string]string{"f": msg, "g": other}, enc("c", "f", msg), enc("c", "g", other))
	add("dec-dec-new", map[string]string{"c": cMsg, "d": cOther}, dec("p", "c", []string{msg}), dec("p", "d", []string{other}))
	add("dec-bad-new", map[string]string{"c": cMsg, "d": string(bad)}, dec("p", "c", []string{msg}), dec("p", "d", nil))
	add("gen-gen-new", nil, gen("k", false), gen("k", false))
	// neighbours
	add("sign-near", map[string]string{"f": msg}, signA("f.a", "f"), signC("f.b", "f"))
	add("enc-near", map[string]string{"f": msg, "g": other}, enc("f.x", "f", msg), enc("f.y", "g", other))
	add("gen-near", nil, gen("k", true), gen("k2", true))
	add("gen-near-over", map[string]string{"k.key": kOld["k.key"], "k.pub": kOld["k.pub"], "k2.key": kOld["k.key"], "k2.pub": kOld["k.pub"]}, gen("k", true, ow), gen("k2", true, ow))
	// a reader of what is replaced
	add("sign-verify", map[string]string{"f": msg, "s": sig(alice, msg)}, signA("s", "f", ow), rd("verify", "alice.pub", "s", "f"))
	add("dec-verify", map[string]string{"c": cMsg, "f": old, "s": sig(alice, old)}, dec("f", "c", []string{msg}, ow), rd("verify", "alice.pub", "s", "f"))
	add("dec-sign", map[string]string{"c": cMsg, "f": old}, dec("f", "c", []string{msg}, ow), signA("s", "f"))
	add("enc-dec", map[string]string{"f": msg, "c": cOld}, enc("c", "f", msg, ow), dec("p", "c", []string{old, msg}))
	add("enc-dec-stdout", map[string]string{"f": msg, "c": cOld}, enc("c", "f", msg, ow), with(rd("decrypt", "--no-password", "bob.key", "c"), text(old, msg)))
	add("dec-enc", map[string]string{"c": cMsg, "f": old}, dec("f", "c", []string{msg}, ow),
		wr("e", func(b []byte, v versions) error {
			return v.any("f", func(pt []byte) error { return encs(string(pt))(b, v) })
		}, "encrypt", "-B", "64", "-o", "e", "bob.pub", "f"))
	add("gen-sign", merge(kOld, map[string]string{"f": msg}), gen("k", true, ow), wr("s", byK(msg), "sign", "-E", "PW", "-o", "s", "k.key", "f"))
	add("gen-enc", merge(kOld, map[string]string{"f": msg}), gen("k", true, ow), wr("e", toK(msg), "encrypt", "-B", "64", "-o", "e", "k.pub", "f"))
	// a reader of what is being made
	add("sign-verify-new", map[string]string{"f": msg}, signA("s", "f"), rd("verify", "alice.pub", "s", "f"))
	add("enc-dec-new", map[string]string{"f": msg}, enc("c", "f", msg), dec("p", "c", []string{msg}))
	add("enc-sign-new", map[string]string{"f": msg}, enc("c", "f", msg), signA("s", "c"))
	add("dec-sign-new", map[string]string{"c": cMsg}, dec("f", "c", []string{msg}), signA("s", "f"))
	add("gen-sign-new", map[string]string{"f": msg}, gen("k", true), wr("s", byK(msg), "sign", "-E", "PW", "-o", "s", "k.key", "f"))
	add("gen-enc-new", map[string]string{"f": msg}, gen("k", true), wr("e", toK(msg), "encrypt", "-B", "64", "-o", "e", "k.pub", "f"))
	// the library's own serialization
	libs := []struct {
		what string
		j    judge
	}{
		{"sk", func(b []byte, _ versions) error { _, err := skOf(b, pwAlice); return err }},
		{"pk", func(b []byte, _ versions) error { _, err := pkOf(b); return err }},
		{"sig", sigs(alice, "m")},
	}
	for _, x := range libs {
		a := actor{args: []string{x.what, "o", "1"}, lib: true, outs: map[string]judge{"o": x.j}}
		b := actor{args: []string{x.what, "o", "0"}, lib: true, outs: map[string]judge{"o": x.j}}
		add("lib-"+x.what, map[string]string{"m": msg, "o": "old\n"}, a, a)
		add("lib-"+x.what+"-new", map[string]string{"m": msg}, b, b)
	}
	if thorough {
		add("sign-sign-verify", map[string]string{"f": msg, "s": sig(alice, msg)}, signA("s", "f", ow), signA("s", "f", ow), rd("verify", "alice.pub", "s", "f"))
		add("enc-enc-dec", map[string]string{"f": msg, "g": other, "c": cOld}, enc("c", "f", msg, ow), enc("c", "g", other, ow), dec("p", "c", []string{old, msg, other}))
		add("dec-bad-sign", map[string]string{"c": cMsg, "d": string(bad), "p": old}, dec("p", "c", []string{msg}, ow), dec("p", "d", nil, ow), signA("s", "p"))
	}
	return out
}

func merge(ms ...map[string]string) map[string]string {
	out := map[string]string{}
	for _, m := range ms {
		for k, v := range m {
			out[k] = v
		}
	}
	return out
}
