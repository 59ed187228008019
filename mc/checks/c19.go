package checks

import (
	"errors"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	"mc/eng"
	"mc/ref"
)

func init() {
	register(&eng.Prop{ID: "C19", Level: "model_checking",
		Rule: "one execution = one directory populated with a situation (what exists at the destination, how it is linked with the input) or a history of commands and file operations, in which the real sigtool binary (or library Serialize) runs; the directory before and after each command is compared entry by entry (type, link target, inode, mode, content) with what the directory model allows; states = (command, overwrite, situation, exit status); transitions = commands run",
		Bound: func(c *eng.Ctx) string {
			return fmt.Sprintf("all of: generate x %d x %d entry kinds x overwrite; sign / encrypt / decrypt / Serialize x %d entry kinds x %d spellings x overwrite; encrypt / decrypt onto their input: %d ways x input spelling x overwrite; all histories of %d steps over %d commands and file operations",
				len(c19Kinds), len(c19Kinds), len(c19Kinds), len(c19Spell), len(c19Same), pick(c, 3, 4), len(c19Alphabet()))
		},
		Assume: []string{"scrypt runs with a reduced N in the binary under test"},
		Run:    func(c *eng.Ctx) { viaFast(c, "c19") }})
	Subs["c19"] = runC19
}

// c19Kinds are the things that may exist at a destination.
var c19Kinds = []string{"absent", "file", "empty", "readonly", "hardlink", "symlink", "symlink-dir", "dangling", "loop", "dir", "fulldir", "fifo", "dangling-far"}

// c19Make creates such a thing.
func c19Make(dir, name, kind string) error {
	p := filepath.Join(dir, name)
	switch kind {
	case "absent":
		return nil
	case "file":
		return os.WriteFile(p, []byte("something old\n"), 0644)
	case "empty":
		return os.WriteFile(p, nil, 0600)
	case "readonly":
		return os.WriteFile(p, []byte("read only\n"), 0444)
	case "hardlink":
		return os.Link(filepath.Join(dir, "bystander"), p)
	case "symlink":
		return os.Symlink("bystander", p)
	case "symlink-dir":
		return os.Symlink("sub", p)
	case "dangling":
		return os.Symlink("nowhere", p)
	case "dangling-far":
		return os.Symlink("nodir/nowhere", p)
	case "loop":
		return os.Symlink(filepath.Base(name), p)
	case "dir":
		return os.Mkdir(p, 0755)
	case "fulldir":
		if err := os.Mkdir(p, 0755); err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(p, "x"), []byte("x"), 0644)
	case "fifo":
		return syscall.Mkfifo(p, 0644)
	}
	return errors.New("kind " + kind)
}

// c19Spell are ways to write a path.
var c19Spell = []string{"plain", "dot", "abs", "updir", "dirlink", "sub"}

func c19Path(dir, name, spell string) string {
	switch spell {
	case "dot":
		return "./" + name
	case "abs":
		return filepath.Join(dir, name)
	case "updir":
		return "sub/../" + name
	case "dirlink":
		return "here/" + name
	case "sub":
		return "sub/" + name
	}
	return name
}

// where a path really is, relative to dir (its last component is not followed).
func c19Real(dir, p string) string {
	if !filepath.IsAbs(p) {
		p = filepath.Join(dir, filepath.Dir(p)) + "/" + filepath.Base(p)
	}
	d, err := filepath.EvalSymlinks(filepath.Dir(p))
	if err != nil {
		return p
	}
	r, _ := filepath.Rel(dir, filepath.Join(d, filepath.Base(p)))
	return r
}

// c19World makes a directory with keys and inputs.
func c19World(c *eng.Ctx) (string, error) {
	dir, err := os.MkdirTemp(c.Work, "c19")
	if err != nil {
		return "", err
	}
	alice, bob := ref.KeyFor("alice"), ref.KeyFor("bob")
	w := (&ref.Spec{ChunkSize: 64, Rx: []*ref.Key{bob}, Pts: ref.Split([]byte("plain text\n"), 64, true), Label: "c19"}).Write()
	for n, d := range map[string]string{"alice.key": skFile(alice, pwAlice), "bob.key": skFile(bob, ""), "bob.pub": string(ref.PkDoc(bob, "")), "bystander": "leave me alone\n", "f": "content of f\n", "c": string(w.Bytes)} {
		if err := os.WriteFile(filepath.Join(dir, n), []byte(d), 0644); err != nil {
			return "", err
		}
	}
	if err := os.Mkdir(filepath.Join(dir, "sub"), 0755); err != nil {
		return "", err
	}
	return dir, os.Symlink(".", filepath.Join(dir, "here"))
}

// step is one command with what the directory model says about it.
type step struct {
	args  []string // of sigtool; "lib" first for the library
	stdin string   // file name
	force bool
	dests []string // as spelled
	input string   // what encrypt and decrypt must not replace, as spelled
	// must: the command has no reason to fail by itself
	must bool
}

func sameFile(a, b string) bool {
	x, err := os.Stat(a)
	if err != nil {
		return false
	}
	y, err := os.Stat(b)
	return err == nil && os.SameFile(x, y)
}

func in(dir, p string) string {
	if filepath.IsAbs(p) {
		return p
	}
	return filepath.Join(dir, p)
}

// c19Step runs the command in dir and judges it.
func c19Step(c *eng.Ctx, bin, dir string, s step, judge map[string]func([]byte) error) (int, error) {
	before, err := readTree(dir)
	if err != nil {
		return 0, err
	}
	// the model
	mustFail, mustWork := "", s.must
	allowed := map[string]bool{}
	for _, d := range s.dests {
		fi, err := os.Lstat(in(dir, d))
		allowed[c19Real(dir, d)] = true
		if err == nil && !s.force {
			mustFail = "the destination exists and overwriting was not requested"
		}
		if err == nil && !fi.Mode().IsRegular() {
			mustWork = false
			if fi.Mode()&fs.ModeSymlink != 0 {
				if t, err := filepath.EvalSymlinks(in(dir, d)); err == nil {
					r, _ := filepath.Rel(dir, t)
					allowed[r] = true // writing through the link
				} else if l, err := os.Readlink(in(dir, d)); err == nil {
					allowed[c19Real(dir, filepath.Join(filepath.Dir(d), l))] = true
				}
			}
		}
		if s.input != "" && sameFile(in(dir, d), in(dir, s.input)) {
			mustFail = "the output is the input"
		}
	}
	args := s.args
	tool := bin
	if args[0] == "lib" {
		if tool, err = os.Executable(); err != nil {
			return 0, err
		}
	}
	var stdin []byte
	var r result
	env := []string{"HOME=" + dir, "PW=" + pwAlice, "GOMAXPROCS=2"}
	if s.stdin != "" {
		r, err = runToolFile(tool, dir, in(dir, s.stdin), env, args...)
	} else {
		r, err = runTool(tool, dir, stdin, env, args...)
	}
	c.Trans(1)
	if err != nil {
		return 0, err
	}
	after, err := readTree(dir)
	if err != nil {
		return 0, err
	}
	show := fmt.Sprintf("%v (exit %d)", s.args, r.code)
	if mustFail != "" && r.code == 0 {
		return 0, fmt.Errorf("%s: exit status 0, but %s", show, mustFail)
	}
	if mustFail == "" && mustWork && r.code != 0 {
		return 0, fmt.Errorf("%s: %s", show, r.err)
	}
	if r.code != 0 {
		allowed = nil
	}
	for n, b := range before {
		a, ok := after[n]
		if allowed[n] {
			continue
		}
		if !ok {
			return 0, fmt.Errorf("%s: %s is gone", show, n)
		}
		if b.mode.IsDir() {
			b.mode, a.mode = b.mode.Type(), a.mode.Type()
		}
		if a != b {
			return 0, fmt.Errorf("%s: %s was changed (%v %d bytes, was %v %d bytes)", show, n, a.mode, len(a.data), b.mode, len(b.data))
		}
	}
	for n := range after {
		if _, was := before[n]; !was && !allowed[n] {
			return 0, fmt.Errorf("%s: %s has appeared", show, n)
		}
	}
	if r.code == 0 && judge != nil {
		for _, d := range s.dests {
			b, err := os.ReadFile(in(dir, d))
			if err == nil {
				err = judge[d](b)
			}
			if err != nil {
				return 0, fmt.Errorf("%s: %s: %w", show, d, err)
			}
		}
	}
	return r.code, nil
}

func flagsOf(force bool, args ...string) []string {
	if force {
		return append([]string{args[0], "--overwrite"}, args[1:]...)
	}
	return args
}

func runC19(c *eng.Ctx) {
	bin := os.Getenv("MC_TOOL")
	alice, bob := ref.KeyFor("alice"), ref.KeyFor("bob")
	do := func(id string, prep func(dir string) (step, error), judge func(s step) map[string]func([]byte) error) {
		c.Case(func() string { return id }, func() error {
			dir, err := c19World(c)
			if err != nil {
				return err
			}
			defer os.RemoveAll(dir)
			s, err := prep(dir)
			if err != nil {
				return err
			}
			var j map[string]func([]byte) error
			if judge != nil {
				j = judge(s)
			}
			code, err := c19Step(c, bin, dir, s, j)
			c.State("%s/%d", id, code)
			c.Outcome(fmt.Sprintf("exit %d", code))
			return err
		})
	}
	bools := []bool{false, true}

	c.Suite("generate", func() {
		n := len(c19Kinds)
		c.Par(n*n*2*2, func(i int) {
			kk, kp, force, spell := c19Kinds[i%n], c19Kinds[i/n%n], i/n/n%2 == 1, []string{"plain", "sub"}[i/n/n/2]
			do(fmt.Sprintf("generate/%s/%s/%s/%v", kk, kp, spell, force), func(dir string) (step, error) {
				base := c19Path(dir, "k", spell)
				if err := c19Make(dir, base+".key", kk); err != nil && spell == "plain" {
					return step{}, err
				}
				if err := c19Make(dir, base+".pub", kp); err != nil && spell == "plain" {
					return step{}, err
				}
				return step{args: flagsOf(force, "generate", "-E", "PW", base), force: force, dests: []string{base + ".key", base + ".pub"}, must: true}, nil
			}, func(s step) map[string]func([]byte) error {
				return map[string]func([]byte) error{
					s.dests[0]: func(b []byte) error { _, err := skOf(b, pwAlice); return err },
					s.dests[1]: func(b []byte) error { _, err := pkOf(b); return err },
				}
			})
		})
	})

	type cmd struct {
		name string
		mk   func(dest string, force bool) step
		ok   func([]byte) error
	}
	cmds := []cmd{
		{"sign", func(d string, force bool) step {
			return step{args: flagsOf(force, "sign", "-E", "PW", "-o", d, "alice.key", "f")}
		}, func(b []byte) error { return sigOK(b, alice, []byte("content of f\n")) }},
		{"encrypt", func(d string, force bool) step {
			return step{args: flagsOf(force, "encrypt", "-o", d, "bob.pub", "f"), input: "f"}
		}, func(b []byte) error { return encOK(b, []byte("content of f\n"), nil, bob) }},
		{"decrypt", func(d string, force bool) step {
			return step{args: flagsOf(force, "decrypt", "--no-password", "-o", d, "bob.key", "c"), input: "c"}
		}, equals("plain text\n")},
		{"encrypt-stdin", func(d string, force bool) step {
			return step{args: flagsOf(force, "encrypt", "-o", d, "bob.pub", "-"), stdin: "f", input: "f"}
		}, func(b []byte) error { return encOK(b, []byte("content of f\n"), nil, bob) }},
		{"decrypt-stdin", func(d string, force bool) step {
			return step{args: flagsOf(force, "decrypt", "--no-password", "-o", d, "bob.key"), stdin: "c", input: "c"}
		}, equals("plain text\n")},
	}
	for _, what := range []string{"sk", "pk", "sig"} {
		ok := map[string]func([]byte) error{
			"sk": func(b []byte) error { _, err := skOf(b, pwAlice); return err },
			"pk": func(b []byte) error { _, err := pkOf(b); return err },
			"sig": func(b []byte) error {
				return sigOK(b, alice, []byte("message m\n"))
			}}[what]
		cmds = append(cmds, cmd{"lib-" + what, func(d string, force bool) step {
			o := "0"
			if force {
				o = "1"
			}
			return step{args: []string{"lib", what, d, o}}
		}, ok})
	}
	c.Suite("destination", func() {
		nk, ns := len(c19Kinds), len(c19Spell)
		c.Par(len(cmds)*nk*ns*2, func(i int) {
			cm, kind, spell, force := cmds[i/2/nk/ns], c19Kinds[i/2%nk], c19Spell[i/2/nk%ns], i%2 == 1
			do(fmt.Sprintf("destination/%s/%s/%s/%v", cm.name, kind, spell, force), func(dir string) (step, error) {
				d := c19Path(dir, "out", spell)
				if err := os.WriteFile(filepath.Join(dir, "m"), []byte("message m\n"), 0644); err != nil {
					return step{}, err
				}
				name := "out"
				if spell == "sub" {
					name = "sub/out"
				}
				if err := c19Make(dir, name, kind); err != nil && spell != "sub" {
					return step{}, err
				}
				s := cm.mk(d, force)
				s.force, s.dests, s.must = force, []string{d}, true
				return s, nil
			}, func(s step) map[string]func([]byte) error {
				return map[string]func([]byte) error{s.dests[0]: cm.ok}
			})
		})
	})
	// the default name of sign
	c.Suite("default-name", func() {
		for _, kind := range c19Kinds {
			for _, force := range bools {
				do(fmt.Sprintf("default-name/%s/%v", kind, force), func(dir string) (step, error) {
					return step{args: flagsOf(force, "sign", "-E", "PW", "alice.key", "f"), force: force, dests: []string{"f.sig"}, must: true}, c19Make(dir, "f.sig", kind)
				}, func(s step) map[string]func([]byte) error {
					return map[string]func([]byte) error{"f.sig": func(b []byte) error { return sigOK(b, alice, []byte("content of f\n")) }}
				})
			}
		}
	})

	// encrypt and decrypt onto their own input
	c.Suite("same", func() {
		n := len(c19Same)
		c.Par(n*4*2*len(c19Spell), func(i int) {
			same, op, force, spell := c19Same[i%n], i/n%4, i/n/4%2 == 1, c19Spell[i/n/8]
			if spell == "sub" {
				return
			}
			do(fmt.Sprintf("same/%s/%d/%s/%v", same, op, spell, force), func(dir string) (step, error) {
				input := "f"
				if op%2 == 1 {
					input = "c"
				}
				out, inName, err := c19Alias(dir, input, same)
				if err != nil {
					return step{}, err
				}
				out = c19Path(dir, out, spell)
				st := step{force: force, dests: []string{out}, input: inName}
				switch op {
				case 0:
					st.args = flagsOf(force, "encrypt", "-o", out, "bob.pub", inName)
				case 1:
					st.args = flagsOf(force, "decrypt", "--no-password", "-o", out, "bob.key", inName)
				case 2:
					st.args = flagsOf(force, "encrypt", "-o", out, "bob.pub", "-")
					st.stdin = inName
				case 3:
					st.args = flagsOf(force, "decrypt", "--no-password", "-o", out, "bob.key")
					st.stdin = inName
				}
				if !sameFile(in(dir, out), in(dir, inName)) {
					return st, errors.New("check error: not the same file")
				}
				return st, nil
			}, nil)
		})
	})

	// histories
	al := c19Alphabet()
	c.Suite("history", func() {
		for n := 1; n <= pick(c, 3, 4); n++ {
			total := eng.CountWords(len(al), n)
			c.Par(total, func(i int) {
				w := eng.Word(len(al), n, i)
				if n > 1 && al[w[n-1]].fileOp {
					return // nothing to judge at the end
				}
				id := func() string {
					var t []string
					for _, x := range w {
						t = append(t, al[x].name)
					}
					return "history/" + strings.Join(t, ",")
				}
				c.Case(id, func() error {
					dir, err := c19World(c)
					if err != nil {
						return err
					}
					defer os.RemoveAll(dir)
					for k, x := range w {
						a := al[x]
						if a.fileOp {
							a.op(dir) // may be impossible here
							continue
						}
						code, err := c19Step(c, bin, dir, a.step, nil)
						if err != nil {
							return fmt.Errorf("step %d: %w", k, err)
						}
						if k == n-1 {
							c.State("history/%s/%s/%d", a.name, c19Shape(dir), code)
						}
					}
					return nil
				})
			})
		}
	})
}

// c19Shape is the abstract directory: names, types, link structure, sizes of zero.
func c19Shape(dir string) string {
	t, err := readTree(dir)
	if err != nil {
		return "?"
	}
	group := map[uint64]string{}
	var sb strings.Builder
	for _, n := range t.names() {
		x := t[n]
		g, ok := group[x.ino]
		if !ok {
			g = n
			group[x.ino] = n
		}
		class := ""
		switch {
		case strings.HasPrefix(x.data, "SigTool"):
			class = "enc"
		case strings.Contains(x.data, "signature:"):
			class = "sig"
		case strings.Contains(x.data, "esk:"):
			class = "sk"
		case strings.Contains(x.data, "pk:"):
			class = "pk"
		}
		fmt.Fprintf(&sb, "%s:%v:%s:%s:%s ", n, x.mode, x.link, g, class)
	}
	return sb.String()
}

// c19Same are ways in which an output can be the input.
var c19Same = []string{"name", "hardlink", "symlink", "symlink2", "input-symlink", "both-symlink", "input-hardlink", "hard-of-symlink-target", "subdir-hardlink", "dirlink"}

// c19Alias makes the alias; out and the way the input is given.
func c19Alias(dir, input, how string) (out, inName string, err error) {
	p := func(n string) string { return filepath.Join(dir, n) }
	switch how {
	case "name":
		return input, input, nil
	case "hardlink":
		return "alias", input, os.Link(p(input), p("alias"))
	case "symlink":
		return "alias", input, os.Symlink(input, p("alias"))
	case "symlink2":
		if err := os.Symlink(input, p("a1")); err != nil {
			return "", "", err
		}
		return "alias", input, os.Symlink("a1", p("alias"))
	case "input-symlink":
		return input, "alias", os.Symlink(input, p("alias"))
	case "both-symlink":
		if err := os.Symlink(input, p("a1")); err != nil {
			return "", "", err
		}
		return "alias", "a1", os.Symlink(input, p("alias"))
	case "input-hardlink":
		return input, "alias", os.Link(p(input), p("alias"))
	case "hard-of-symlink-target":
		if err := os.Symlink(input, p("a1")); err != nil {
			return "", "", err
		}
		return "alias", "a1", os.Link(p(input), p("alias"))
	case "subdir-hardlink":
		return input, "sub/alias", os.Link(p(input), p("sub/alias"))
	case "dirlink":
		return input, "here/here/" + input, nil
	}
	return "", "", errors.New("alias " + how)
}

type c19Letter struct {
	name   string
	fileOp bool
	op     func(dir string) error
	step   step
}

func c19Alphabet() []c19Letter {
	var out []c19Letter
	cmd := func(name string, s step) { out = append(out, c19Letter{name: name, step: s}) }
	for _, force := range []bool{false, true} {
		n := map[bool]string{false: "", true: "!"}[force]
		cmd("gen"+n, step{args: flagsOf(force, "generate", "--no-password", "k"), force: force, dests: []string{"k.key", "k.pub"}})
		cmd("sign"+n, step{args: flagsOf(force, "sign", "-E", "PW", "-o", "x", "alice.key", "f"), force: force, dests: []string{"x"}})
		cmd("enc"+n, step{args: flagsOf(force, "encrypt", "-o", "x", "bob.pub", "f"), force: force, dests: []string{"x"}, input: "f"})
		cmd("dec"+n, step{args: flagsOf(force, "decrypt", "--no-password", "-o", "f", "bob.key", "x"), force: force, dests: []string{"f"}, input: "x"})
	}
	cmd("enc-self!", step{args: flagsOf(true, "encrypt", "-o", "x", "bob.pub", "x"), force: true, dests: []string{"x"}, input: "x"})
	cmd("dec-x-stdin!", step{args: flagsOf(true, "decrypt", "--no-password", "-o", "x", "bob.key"), stdin: "c", force: true, dests: []string{"x"}, input: "c"})
	cmd("lib-pk", step{args: []string{"lib", "pk", "k.pub", "0"}, dests: []string{"k.pub"}})
	fop := func(name string, f func(p func(string) string) error) {
		out = append(out, c19Letter{name: name, fileOp: true, op: func(dir string) error {
			return f(func(n string) string { return filepath.Join(dir, n) })
		}})
	}
	fop("ln-f-x", func(p func(string) string) error { return os.Link(p("f"), p("x")) })
	fop("lns-f-x", func(p func(string) string) error { return os.Symlink("f", p("x")) })
	fop("ln-c-x", func(p func(string) string) error { return os.Link(p("c"), p("x")) })
	fop("lns-k.pub-k.key", func(p func(string) string) error { return os.Symlink("k.pub", p("k.key")) })
	fop("rm-x", func(p func(string) string) error { return os.Remove(p("x")) })
	fop("mv-x-f", func(p func(string) string) error { return os.Rename(p("x"), p("f")) })
	fop("rm-k.key", func(p func(string) string) error { return os.Remove(p("k.key")) })
	return out
}
