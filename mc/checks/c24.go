package checks

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"mc/eng"
	"mc/ref"
	"mc/sbx"
)

func init() {
	register(&eng.Prop{ID: "C24", Level: "model_checking",
		Rule: "one execution = one run of the real program on a pseudo-terminal under a supervisor, which types the next line exactly when the program comes to wait for it; states = (situation, lines it took, exit status); transitions = lines typed; every dialogue is judged by a reference model of what should have been asked and of what the outcome must be",
		Bound: func(c *eng.Ctx) string {
			return fmt.Sprintf("generate: all dialogues of up to %d lines over 3 passphrases, broken off or not, x existing keys x where stdout and stderr go; every command that uses a private key x %d forms of key x %d typed lines (and other sources of the passphrase) x where stdout and stderr go; all pairs of %d passphrases typed or given in the environment when making and when using a key", pick(c, 4, 6), len(c24Keys()), len(c24Lines), len(c24Pws))
		},
		Assume: []string{"scrypt runs with a reduced N in the binary under test"},
		Run:    func(c *eng.Ctx) { viaFast(c, "c24") }})
	Subs["c24"] = runC24
}

// ---- terminals

type pty struct {
	m     *os.File
	s     *os.File
	name  string
	mu    sync.Mutex
	shown []byte
	done  chan bool
}

func ioctl(fd uintptr, req, arg uintptr) error {
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, fd, req, arg); e != 0 {
		return e
	}
	return nil
}

func newPty() (*pty, error) {
	fd, err := syscall.Open("/dev/ptmx", syscall.O_RDWR|syscall.O_NOCTTY|syscall.O_CLOEXEC, 0)
	if err != nil {
		return nil, err
	}
	var n, unlock int32
	if err = ioctl(uintptr(fd), syscall.TIOCSPTLCK, uintptr(unsafe.Pointer(&unlock))); err == nil {
		err = ioctl(uintptr(fd), syscall.TIOCGPTN, uintptr(unsafe.Pointer(&n)))
	}
	if err != nil {
		syscall.Close(fd)
		return nil, err
	}
	p := &pty{m: os.NewFile(uintptr(fd), "ptmx"), name: fmt.Sprint("/dev/pts/", n), done: make(chan bool)}
	// our own descriptor keeps the terminal alive
	sfd, err := syscall.Open(p.name, syscall.O_RDWR|syscall.O_NOCTTY|syscall.O_CLOEXEC, 0)
	if err != nil {
		p.m.Close()
		return nil, err
	}
	p.s = os.NewFile(uintptr(sfd), p.name)
	go func() {
		defer close(p.done)
		b := make([]byte, 4096)
		for {
			n, err := p.m.Read(b)
			p.mu.Lock()
			p.shown = append(p.shown, b[:n]...)
			p.mu.Unlock()
			if err != nil {
				return
			}
		}
	}()
	return p, nil
}

// close returns all that was shown.
func (p *pty) close() []byte {
	p.s.Close()
	// the master gets an error once everything was read and the other side is closed
	select {
	case <-p.done:
	case <-time.After(5 * time.Second):
	}
	p.m.Close()
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.shown
}

func (p *pty) termios() (t syscall.Termios, err error) {
	err = ioctl(p.s.Fd(), syscall.TCGETS, uintptr(unsafe.Pointer(&t)))
	return
}

// pending is the number of bytes that can be read at once.
func (p *pty) pending() int {
	var n int32
	if ioctl(p.s.Fd(), syscall.TIOCINQ, uintptr(unsafe.Pointer(&n))) != nil {
		return 0
	}
	return int(n)
}

// ---- dialogues

// talk is a command and what its user types.
type talk struct {
	s      *scen
	lines  []string // each is typed when the program waits for input
	ahead  bool     // all at once
	notty  bool     // standard input is not a terminal, and there is none
	out    bool     // stdout is the terminal
	er     bool     // stderr is the terminal
	secret []string
}

type talked struct {
	before, after  tree
	code           int
	sig            syscall.Signal
	took           int  // lines typed
	more           bool // waited for more, and was interrupted
	stdout, stderr []byte
	shown          []byte
	restored       bool
}

const ctrlC = "\x03"

func (t *talk) run(c *eng.Ctx, bin string) (*talked, error) {
	dir, err := t.s.setup(c)
	if err != nil {
		return nil, err
	}
	top := filepath.Dir(dir)
	defer os.RemoveAll(top)
	r := &talked{restored: true}
	if r.before, err = readTree(dir); err != nil {
		return nil, err
	}
	p, err := newPty()
	if err != nil {
		return nil, fmt.Errorf("%w: terminal: %v", sbx.ErrTrace, err)
	}
	closed := false
	defer func() {
		if !closed {
			p.close()
		}
	}()
	was, err := p.termios()
	if err != nil {
		return nil, fmt.Errorf("%w: termios: %v", sbx.ErrTrace, err)
	}
	o := sbx.Opt{Bin: bin, Args: t.s.args, Dir: dir, Root: dir, Umask: -1, Limit: 60 * time.Second, TTY: p.name,
		Env:   append([]string{"HOME=" + filepath.Join(dir, "home"), "GOMAXPROCS=2", "PATH=/usr/bin:/bin", "TERM=dumb"}, t.s.env...),
		Stdin: p.name, Stdout: filepath.Join(top, "out"), Stderr: filepath.Join(top, "err")}
	if t.out {
		o.Stdout = p.name
	}
	if t.er {
		o.Stderr = p.name
	}
	if t.notty {
		o.Stdin = filepath.Join(top, "in")
	}
	lines := t.lines
	if t.ahead && len(lines) > 0 {
		n := len(lines)
		if lines[n-1] == "\x04" { // cannot be seen in the queue
			n--
		}
		lines = append([]string{strings.Join(lines[:n], "")}, lines[n:]...)
	}
	interrupts := 0
	var last time.Time
	o.Enter = func(e *sbx.Event) sbx.Verdict {
		if e.Sys != "read" || e.Path != "<tty>" && (e.Path != "<stdin>" || t.notty) || e.Arg == 0 {
			return sbx.Verdict{}
		}
		if p.pending() > 0 {
			return sbx.Verdict{}
		}
		if r.took < len(lines) {
			p.m.WriteString(lines[r.took])
			r.took++
			return sbx.Verdict{}
		}
		// a signal that is handled may let the same read go on
		if r.more && time.Since(last) < time.Second {
			return sbx.Verdict{}
		}
		r.more = true
		last = time.Now()
		if interrupts++; interrupts > 3 {
			return sbx.Verdict{Kill: true}
		}
		p.m.WriteString(ctrlC)
		return sbx.Verdict{}
	}
	x, err := sbx.Run(o)
	if err != nil {
		return nil, err
	}
	r.code, r.sig = x.Code, x.Signal
	if now, err := p.termios(); err == nil && now != was {
		r.restored = false
	}
	if r.after, err = readTree(dir); err != nil {
		return nil, err
	}
	r.stdout, _ = os.ReadFile(filepath.Join(top, "out"))
	r.stderr, _ = os.ReadFile(filepath.Join(top, "err"))
	closed = true
	r.shown = p.close()
	return r, nil
}

// interrupted tells whether the user pressed ^C somewhere.
func (t *talk) interrupted(r *talked) bool {
	return r.more || strings.ContainsAny(strings.Join(t.lines[:min(r.took, len(t.lines))], ""), ctrlC+"\x1c")
}

// common judges what has to hold after every dialogue.
func (t *talk) common(r *talked) error {
	for _, b := range [][]byte{r.stderr, r.shown} {
		if bytes.Contains(b, []byte("goroutine ")) && bytes.Contains(b, []byte("[running]")) {
			return fmt.Errorf("crashed: %.400s", b)
		}
	}
	if r.code < 0 && !t.interrupted(r) {
		return fmt.Errorf("died of signal %v", r.sig)
	}
	if !r.restored {
		return errors.New("the settings of the terminal are not what they were")
	}
	for _, s := range t.secret {
		if len(s) < 4 {
			continue
		}
		for n, b := range map[string][]byte{"the terminal": r.shown, "stdout": r.stdout, "stderr": r.stderr} {
			if bytes.Contains(b, []byte(s)) {
				return fmt.Errorf("a passphrase is shown on %s", n)
			}
		}
	}
	if err := untouched(r.before, r.after, t.s.outs, func(string) bool { return false }); err != nil {
		return err
	}
	if r.code != 0 {
		if err := outsOld(r.before, r.after, t.s.outs); err != nil {
			return fmt.Errorf("failed, but %w", err)
		}
	}
	return nil
}

// ---- the check

const c24Pw = "Typed-Passw0rd-7"

type c24Key struct {
	name string
	file string
	asks bool
	pw   string
	any  bool // no passphrase matters
}

func c24Keys() []c24Key {
	a := ref.KeyFor("alice")
	return []c24Key{
		{"native", skFile(a, c24Pw), true, c24Pw, false},
		{"nopass", skFile(a, ""), true, "", false},
		{"ssh", string(a.SSHPriv(ref.SSHOpt{Cipher: "aes256-ctr", Pass: c24Pw, Rounds: 4, Comment: "a@h"})), true, c24Pw, false},
		{"sshplain", string(a.SSHPriv(ref.SSHOpt{Cipher: "none", Comment: "a@h"})), false, "", true},
	}
}

// what is typed, and what it means
var c24Lines = []struct{ typed, pw string }{
	{c24Pw + "\n", c24Pw}, {"\n", ""}, {c24Pw + " \n", c24Pw + " "}, {" " + c24Pw + "\n", " " + c24Pw}, {strings.ToLower(c24Pw) + "\n", strings.ToLower(c24Pw)},
	{c24Pw + "\r", c24Pw}, {c24Pw + "x\n", c24Pw + "x"}, {c24Pw[:8] + "\n", c24Pw[:8]},
	{"wrong\x15" + c24Pw + "\n", c24Pw},     // the line was killed and typed anew
	{c24Pw + "xy\x7f\x7f\n", c24Pw},         // two characters were erased
	{c24Pw + "\x15\n", ""},                  // killed
	{"never mind\x15\x03", "\x00"},          // interrupted
	{c24Pw[:4] + ctrlC + c24Pw[4:], "\x00"}, // interrupted in the middle
	{c24Pw[:4] + "\x1c", "\x00"},            // quit
}

var c24Pws = []string{c24Pw, c24Pw + "2", strings.ToUpper(c24Pw), "", "p", " lead", "lead", "trail ", "two words", "two\twords", "\u00dcml\u00e4ut", "\xdcml\xe4ut", "\"q'$`\\%s", "-", "null", "~", strings.Repeat("long ", 100), strings.Repeat("long ", 100) + "x"}

func runC24(c *eng.Ctx) {
	bin := os.Getenv("MC_TOOL")
	alice, bob := ref.KeyFor("alice"), ref.KeyFor("bob")
	msg := string(pattern(300, 0x33))
	w := &sweep{c: c}
	p, err := newPty()
	if err != nil {
		c.Broken(fmt.Errorf("no terminals: %w", err))
		return
	}
	p.close()

	// making keys
	w.suite("generate", func() {
		words := []string{"first-pw-A", "first-pw-B", ""}
		max := pick(c, 4, 6)
		type situation struct {
			files map[string]string
			force bool
		}
		oldK := map[string]string{"k.key": skFile(bob, "old"), "k.pub": string(ref.PkDoc(bob, "")), "bystander": "x"}
		sits := []situation{{map[string]string{"bystander": "x"}, false}, {oldK, true}, {oldK, false}}
		for n := 0; n <= max; n++ {
			n := n
			c.ParN(6, eng.CountWords(len(words), n)*len(sits), func(i int) {
				sit := sits[i%len(sits)]
				ix := eng.Word(len(words), n, i/len(sits))
				for mode := 0; mode < 5; mode++ {
					mode := mode
					c.Case(func() string { return fmt.Sprintf("generate/%v/%d/%d", ix, i%len(sits), mode) }, func() error {
						t := &talk{s: &scen{args: []string{"generate", "-c", "made"}, files: sit.files}, out: mode&1 == 1, er: mode&2 == 2, ahead: mode == 4, secret: words}
						if sit.force {
							t.s.args = append(t.s.args, "--overwrite")
						}
						t.s.args = append(t.s.args, "k")
						var pws []string
						for _, x := range ix {
							pws = append(pws, words[x])
							t.lines = append(t.lines, words[x]+"\n")
						}
						ok := func([]byte) error { return nil }
						t.s.outs = map[string]func([]byte) error{"k.key": ok, "k.pub": ok}
						r, err := t.run(c, bin)
						if err != nil {
							return err
						}
						c.Trans(r.took)
						c.State("generate/%v/%d/%v/%d", ix, r.took, r.more, r.code)
						if err := t.common(r); err != nil {
							return err
						}
						if sit.files["k.key"] != "" && !sit.force {
							if r.code == 0 {
								return errors.New("succeeded although the keys exist")
							}
							if r.took > 0 {
								return errors.New("asks although the keys exist")
							}
							return nil
						}
						if t.ahead {
							// typed ahead: what was taken is not known; but the first
							// pair of lines that agree must have been accepted or refused
							eq := -1
							for j := 0; j+1 < len(pws); j += 2 {
								if pws[j] == pws[j+1] {
									eq = j
									break
								}
							}
							if r.code != 0 {
								if eq == 0 {
									return errors.New("failed although the passphrase was typed twice alike")
								}
								return nil
							}
							if eq < 0 {
								return errors.New("made keys although no passphrase was typed twice alike")
							}
							return c24Pair(r, pws[eq])
						}
						took := pws[:r.took]
						for j := 0; j+1 < len(took); j += 2 {
							if took[j] == took[j+1] && (r.code != 0 || len(took) > j+2 || r.more) {
								return fmt.Errorf("typed twice alike, but then: exit %d, took %d lines, more: %v", r.code, r.took, r.more)
							}
						}
						if r.code != 0 {
							if len(took) < 2 && !r.more {
								return fmt.Errorf("gave up after %d lines", r.took)
							}
							return nil
						}
						if r.more || len(took) < 2 || len(took)%2 != 0 || took[len(took)-1] != took[len(took)-2] {
							return fmt.Errorf("made keys after %q", took)
						}
						return c24Pair(r, took[len(took)-1])
					})
				}
			})
		}
	})

	// using keys
	cipher := string((&ref.Spec{ChunkSize: 100, Rx: []*ref.Key{alice}, Pts: ref.Split([]byte(msg), 100, true), Label: "c24"}).Write().Bytes)
	type use struct {
		name string
		args []string
		outs map[string]func([]byte) error
		std  func(b []byte) error // stdout, on success
		part func(b []byte) error // stdout, on failure
		data []string             // typed after the passphrase
	}
	none := equals("")
	isSig := func(b []byte) error { return sigOK(b, alice, []byte(msg)) }
	isEnc := func(snd *ref.Key, pt string) func(b []byte) error {
		return func(b []byte) error { return encOK(b, []byte(pt), snd, bob) }
	}
	prefix := func(b []byte) error {
		if !strings.HasPrefix(msg, string(b)) {
			return errors.New("stdout is not a part of the plaintext")
		}
		return nil
	}
	one := func(n string, f func([]byte) error) map[string]func([]byte) error {
		return map[string]func([]byte) error{n: f}
	}
	uses := []use{
		{"sign", []string{"sign", "-o", "o", "K", "msg"}, one("o", isSig), nil, nil, nil},
		{"sign-default", []string{"sign", "K", "msg"}, one("msg.sig", isSig), nil, nil, nil},
		{"sign-stdout", []string{"sign", "-o", "-", "K", "msg"}, nil, isSig, none, nil},
		{"encrypt", []string{"encrypt", "-s", "K", "bob.pub", "-o", "o", "msg"}, one("o", isEnc(alice, msg)), nil, nil, nil},
		{"encrypt-stdout", []string{"encrypt", "-s", "K", "bob.pub", "msg"}, nil, isEnc(alice, msg), none, nil},
		{"encrypt-typed", []string{"encrypt", "-s", "K", "-o", "o", "bob.pub", "-"}, one("o", isEnc(alice, "line one\nline two\n")), nil, nil, []string{"line one\n", "line two\n", "\x04"}},
		{"encrypt-typed-stdout", []string{"encrypt", "-s", "K", "bob.pub", "-"}, nil, isEnc(alice, "line\n"), none, []string{"line\n", "\x04"}},
		{"decrypt", []string{"decrypt", "-o", "o", "K", "cipher"}, one("o", equals(msg)), nil, nil, nil},
		{"decrypt-over", []string{"decrypt", "--overwrite", "-o", "bystander", "K", "cipher"}, one("bystander", equals(msg)), nil, nil, nil},
		{"decrypt-stdout", []string{"decrypt", "K", "cipher"}, nil, equals(msg), prefix, nil},
		{"decrypt-dash", []string{"decrypt", "-o", "-", "K", "cipher"}, nil, equals(msg), prefix, nil},
		{"decrypt-test", []string{"decrypt", "-t", "K", "cipher"}, nil, nil, nil, nil},
	}
	keys := c24Keys()
	files := func(k c24Key) map[string]string {
		return map[string]string{"K": k.file, "msg": msg, "cipher": cipher, "bob.pub": string(ref.PkDoc(bob, "")), "bystander": "x"}
	}
	judge := func(u *use, t *talk, r *talked, ok bool, asks int) error {
		if err := t.common(r); err != nil {
			return err
		}
		std := func(f func([]byte) error) error {
			if f == nil || t.out {
				return nil // not where the output goes, or mixed with prompts
			}
			if err := f(r.stdout); err != nil {
				return fmt.Errorf("exit status %d, stdout (%.60q): %w", r.code, r.stdout, err)
			}
			return nil
		}
		if !ok {
			if r.code == 0 {
				return errors.New("succeeded")
			}
			return std(u.part)
		}
		if r.code != 0 {
			return fmt.Errorf("exit status %d (signal %v), having taken %d lines: %.200s%.200s", r.code, r.sig, r.took, r.stderr, r.shown)
		}
		if r.took != asks {
			return fmt.Errorf("took %d lines, should be %d", r.took, asks)
		}
		for n, f := range u.outs {
			a, has := r.after[n]
			if !has {
				return fmt.Errorf("%s is missing", n)
			}
			if err := f([]byte(a.data)); err != nil {
				return fmt.Errorf("%s: %w", n, err)
			}
		}
		return std(u.std)
	}
	w.suite("use", func() {
		c.ParN(6, len(uses)*len(keys)*len(c24Lines), func(i int) {
			l, k, u := c24Lines[i%len(c24Lines)], keys[i/len(c24Lines)%len(keys)], uses[i/len(c24Lines)/len(keys)]
			for mode := 0; mode < 5; mode++ {
				mode := mode
				if !c.Thorough && mode == 3 {
					continue
				}
				c.Case(func() string { return fmt.Sprintf("use/%s/%s/%d/%d", u.name, k.name, i%len(c24Lines), mode) }, func() error {
					t := &talk{s: &scen{args: u.args, files: files(k), outs: u.outs}, out: mode&1 == 1, er: mode&2 == 2, ahead: mode == 4, secret: []string{c24Pw, strings.TrimSpace(l.pw)}}
					if k.asks {
						t.lines = append(t.lines, l.typed)
					}
					t.lines = append(t.lines, u.data...)
					asks := len(t.lines)
					if t.ahead && asks > 0 {
						if strings.ContainsAny(l.typed, ctrlC+"\x1c") {
							return nil // throws away what comes before
						}
						asks = 1
						if len(u.data) > 0 {
							asks = 2
						}
					}
					r, err := t.run(c, bin)
					if err != nil {
						return err
					}
					c.Trans(r.took)
					c.State("use/%s/%s/%v/%d/%d", u.name, k.name, l.pw == k.pw, r.took, r.code)
					return judge(&u, t, r, k.any || l.pw == k.pw, asks)
				})
			}
		})
	})

	// passphrases that come from elsewhere, or from nowhere
	w.suite("quiet", func() {
		srcs := []struct {
			name  string
			opts  []string
			env   []string
			pw    string
			notty bool
			fail  bool
		}{
			{"env", []string{"-E", "PW"}, []string{"PW=" + c24Pw}, c24Pw, false, false},
			{"env-empty", []string{"-E", "PW"}, []string{"PW="}, "", false, false},
			{"env-unset", []string{"-E", "PW"}, nil, "", false, false},
			{"env-wrong", []string{"-E", "PW"}, []string{"PW=x"}, "x", false, false},
			{"none", []string{"--no-password"}, []string{"PW=" + c24Pw}, "", false, false},
			{"both", []string{"--no-password", "-E", "PW"}, []string{"PW=" + c24Pw}, "", false, false},
			{"env-notty", []string{"-E", "PW"}, []string{"PW=" + c24Pw}, c24Pw, true, false},
			{"none-notty", []string{"--no-password"}, nil, "", true, false},
			{"notty", nil, []string{"PW=" + c24Pw}, "", true, true},
		}
		c.ParN(6, len(uses)*len(keys)*len(srcs), func(i int) {
			s, k, u := srcs[i%len(srcs)], keys[i/len(srcs)%len(keys)], uses[i/len(srcs)/len(keys)]
			c.Case(func() string { return fmt.Sprintf("quiet/%s/%s/%s", u.name, k.name, s.name) }, func() error {
				args := append([]string{u.args[0]}, append(append([]string{}, s.opts...), u.args[1:]...)...)
				t := &talk{s: &scen{args: args, env: s.env, files: files(k), outs: u.outs}, notty: s.notty, secret: []string{c24Pw}, lines: u.data}
				if s.notty {
					t.lines = nil
					t.s.stdin = strings.TrimSuffix(strings.Join(u.data, ""), "\x04")
					if s.fail {
						// the passphrase is there, but not typed
						t.s.stdin = c24Pw + "\n" + t.s.stdin
					}
				}
				r, err := t.run(c, bin)
				if err != nil {
					return err
				}
				c.State("quiet/%s/%s/%s/%d/%d", u.name, k.name, s.name, r.took, r.code)
				if s.name == "env-unset" && r.code != 0 {
					return t.common(r) // a variable that does not exist may well be refused
				}
				if s.fail && k.asks {
					// there is nobody to ask
					if err := t.common(r); err != nil {
						return err
					}
					if r.code == 0 && k.pw != "" {
						return errors.New("succeeded although nobody could be asked for the passphrase")
					}
					return nil
				}
				if s.fail {
					t.s.stdin = ""
					if len(u.data) > 0 {
						return nil
					}
				}
				return judge(&u, t, r, k.any || s.pw == k.pw, len(t.lines))
			})
		})
		// no keys are made when there is nobody to ask
		for i, in := range []string{"", "\n", "\n\n", "typed-pw\ntyped-pw\n"} {
			for mode := 0; mode < 8; mode++ {
				c.Case(func() string { return fmt.Sprintf("quiet/generate/%d/%d", i, mode) }, func() error {
					ok := func([]byte) error { return nil }
					t := &talk{s: &scen{args: []string{"generate", "k"}, stdin: in, files: map[string]string{"bystander": "x"}, outs: map[string]func([]byte) error{"k.key": ok, "k.pub": ok}},
						notty: true, out: mode&1 == 1, er: mode&2 == 2}
					if mode&4 == 4 {
						t.s.files["k.key"], t.s.files["k.pub"] = skFile(bob, "old"), string(ref.PkDoc(bob, ""))
						t.s.args = []string{"generate", "--overwrite", "k"}
					}
					r, err := t.run(c, bin)
					if err != nil {
						return err
					}
					if err := t.common(r); err != nil {
						return err
					}
					if r.code == 0 {
						return errors.New("made keys although nobody could be asked for a passphrase")
					}
					return nil
				})
			}
		}
		// commands without private keys do not ask
		for i, args := range [][]string{{"verify", "alice.pub", "msg.sig", "msg"}, {"verify", "-q", "alice.pub", "msg.sig", "msg"}, {"encrypt", "bob.pub", "-o", "o", "msg"}, {"generate", "--no-password", "o"}, {"generate", "-E", "PW", "o"}, {"help"}, {"--version"}} {
			c.Case(func() string { return fmt.Sprint("quiet/others/", i) }, func() error {
				f := files(keys[0])
				f["alice.pub"] = string(ref.PkDoc(alice, ""))
				f["msg.sig"] = string(ref.SigDoc(alice, ref.FileDigest([]byte(msg)), ""))
				ok := func([]byte) error { return nil }
				t := &talk{s: &scen{args: args, files: f, outs: map[string]func([]byte) error{"o": ok, "o.key": ok, "o.pub": ok}}}
				r, err := t.run(c, bin)
				if err != nil {
					return err
				}
				if err := t.common(r); err != nil {
					return err
				}
				if r.code != 0 || r.more {
					return fmt.Errorf("exit status %d, asks: %v", r.code, r.more)
				}
				return nil
			})
		}
	})

	// the same passphrase, typed or not, at both ends
	w.suite("pairs", func() {
		n := len(c24Pws)
		c.ParN(6, n*n*4, func(i int) {
			made, used, how := c24Pws[i/4/n], c24Pws[i/4%n], i%4
			if how == 0 && !c.Thorough && i/4/n != i/4%n {
				return // C13 has these
			}
			c.Case(func() string { return fmt.Sprintf("pairs/%d/%d/%d", i/4/n, i/4%n, how) }, func() error {
				ok := func([]byte) error { return nil }
				g := &talk{s: &scen{args: []string{"generate", "k"}, outs: map[string]func([]byte) error{"k.key": ok, "k.pub": ok}}, secret: []string{made}}
				if how&1 == 1 {
					g.lines = []string{made + "\n", made + "\n"}
				} else {
					g.s.args = []string{"generate", "-E", "PW", "k"}
					g.s.env = []string{"PW=" + made}
				}
				r, err := g.run(c, bin)
				if err != nil {
					return err
				}
				if err := g.common(r); err != nil {
					return err
				}
				if r.code != 0 || r.more {
					return fmt.Errorf("generate: exit status %d: %.200s", r.code, r.stderr)
				}
				if err := c24Pair(r, made); err != nil {
					return err
				}
				k, err := skOf([]byte(r.after["k.key"].data), made)
				if err != nil {
					return err
				}
				u := &talk{s: &scen{args: []string{"sign", "-o", "o", "k.key", "msg"}, files: map[string]string{"k.key": r.after["k.key"].data, "msg": msg},
					outs: one("o", func(b []byte) error { return sigOK(b, k, []byte(msg)) })}, secret: []string{made, used}}
				if how&2 == 2 {
					u.lines = []string{used + "\n"}
				} else {
					u.s.args = []string{"sign", "-E", "PW", "-o", "o", "k.key", "msg"}
					u.s.env = []string{"PW=" + used}
				}
				x, err := u.run(c, bin)
				if err != nil {
					return err
				}
				c.Trans(r.took + x.took)
				c.State("pairs/%v/%d/%d", made == used, how, x.code)
				return judge(&use{outs: u.s.outs}, u, x, made == used, len(u.lines))
			})
		})
	})
}

// c24Pair wants a pair of keys that opens with the passphrase.
func c24Pair(r *talked, pw string) error {
	k, err := skOf([]byte(r.after["k.key"].data), pw)
	if err != nil {
		return fmt.Errorf("the new key does not open with what was typed: %w", err)
	}
	pk, err := pkOf([]byte(r.after["k.pub"].data))
	if err != nil {
		return err
	}
	if !bytes.Equal(pk, k.Pk) {
		return errors.New("the new keys do not belong together")
	}
	if r.before["k.key"].data == r.after["k.key"].data {
		return errors.New("no new key")
	}
	return nil
}
