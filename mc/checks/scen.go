package checks

import (
	"bytes"
	"encoding/base64"
	"errors"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"mc/eng"
	"mc/ref"
	"mc/sbx"

	"github.com/opencoff/sigtool/sign"
)

func init() { Helpers["lib"] = helperLib }

// scen is one command (or library call) in one situation.
type scen struct {
	name   string
	args   []string
	files  map[string]string // below the work directory
	env    []string
	stdin  string // content; "" is /dev/null
	want   int    // exit status when nothing goes wrong
	lib    bool   // args are for the library helper instead of sigtool
	multi  bool   // several outputs
	outs   map[string]func(b []byte) error
	whole  func(t tree, stdout []byte) error // on success, beyond outs
	plain  string                            // plaintext that may appear on stdout (as a prefix, on failure)
	public []string                          // outputs that need not be private
	pws    []string                          // passphrases in play
	keys   []*ref.Key                        // private keys in play
	newKey string                            // private key file that appears
}

// node is one directory entry.
type node struct {
	data string
	mode fs.FileMode
	ino  uint64
	link string
}

type tree map[string]node

func readTree(dir string) (tree, error) {
	t := tree{}
	err := filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		r, _ := filepath.Rel(dir, p)
		fi, err := os.Lstat(p)
		if err != nil {
			if errors.Is(err, fs.ErrNotExist) {
				return nil
			}
			return err
		}
		n := node{mode: fi.Mode(), ino: fi.Sys().(*syscall.Stat_t).Ino}
		switch {
		case fi.Mode().IsRegular():
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			n.data = string(b)
		case fi.Mode()&fs.ModeSymlink != 0:
			n.link, _ = os.Readlink(p)
		}
		t[r] = n
		return nil
	})
	return t, err
}

func (t tree) names() []string {
	var out []string
	for n := range t {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

// untouched compares everything but the outputs, and reports entries that should
// not be there.
func untouched(before, after tree, outs map[string]func([]byte) error, extra func(string) bool) error {
	for n, b := range before {
		if _, isOut := outs[n]; isOut {
			continue
		}
		a, ok := after[n]
		if !ok {
			return fmt.Errorf("%s is gone", n)
		}
		if a.data != b.data || a.mode != b.mode || a.link != b.link || a.ino != b.ino {
			return fmt.Errorf("%s was changed (%d bytes %v, was %d bytes %v)", n, len(a.data), a.mode, len(b.data), b.mode)
		}
	}
	for n := range after {
		if _, was := before[n]; !was && outs[n] == nil && !extra(n) {
			return fmt.Errorf("%s was left behind", n)
		}
	}
	return nil
}

// outsOld tells whether all outputs are as before.
func outsOld(before, after tree, outs map[string]func([]byte) error) error {
	for n := range outs {
		b, had := before[n]
		a, has := after[n]
		switch {
		case !had && has:
			return fmt.Errorf("%s exists (%d bytes)", n, len(a.data))
		case had && !has:
			return fmt.Errorf("%s is gone", n)
		case had && (a.data != b.data || a.mode != b.mode || a.link != b.link):
			return fmt.Errorf("%s was changed (%d bytes %v, was %d bytes %v)", n, len(a.data), a.mode, len(b.data), b.mode)
		}
	}
	return nil
}

// outsEither: every output is old or completely new.
func outsEither(before, after tree, outs map[string]func([]byte) error) error {
	for n, judge := range outs {
		b, had := before[n]
		a, has := after[n]
		if had && has && a.data == b.data || !had && !has {
			continue
		}
		if !has {
			return fmt.Errorf("%s is gone", n)
		}
		if err := judge([]byte(a.data)); err != nil {
			return fmt.Errorf("%s is neither old nor complete (%d bytes): %w", n, len(a.data), err)
		}
	}
	return nil
}

// complete: success is true.
func (s *scen) complete(after tree, stdout []byte) error {
	for n, judge := range s.outs {
		a, has := after[n]
		if !has {
			return fmt.Errorf("%s is missing", n)
		}
		if err := judge([]byte(a.data)); err != nil {
			return fmt.Errorf("%s (%d bytes): %w", n, len(a.data), err)
		}
	}
	if s.whole != nil {
		return s.whole(after, stdout)
	}
	return nil
}

// ran is what a supervised execution left.
type ran struct {
	*sbx.Result
	before, after  tree
	stdout, stderr []byte
	dir            string
	stuck          map[string]bool // what could not be unlinked
}

type hooks struct {
	umask int // -1: as is
	enter func(e *sbx.Event) sbx.Verdict
	exit  func(e *sbx.Event, dir string)
}

func (s *scen) setup(c *eng.Ctx) (dir string, err error) {
	top, err := os.MkdirTemp(c.Work, "sc")
	if err != nil {
		return "", err
	}
	dir = filepath.Join(top, "w")
	if err := os.Mkdir(dir, 0755); err != nil {
		return "", err
	}
	for n, data := range s.files {
		mode := fs.FileMode(0644)
		if strings.HasSuffix(n, ".key") {
			mode = 0600
		}
		fn := filepath.Join(dir, n)
		if err := os.MkdirAll(filepath.Dir(fn), 0755); err != nil {
			return "", err
		}
		if err := os.WriteFile(fn, []byte(data), mode); err != nil {
			return "", err
		}
		if err := os.Chmod(fn, mode); err != nil {
			return "", err
		}
	}
	if err := os.WriteFile(filepath.Join(top, "in"), []byte(s.stdin), 0644); err != nil {
		return "", err
	}
	return dir, nil
}

// run executes the scenario under supervision in a fresh directory.
func (s *scen) run(c *eng.Ctx, bin string, h hooks) (*ran, error) {
	dir, err := s.setup(c)
	if err != nil {
		return nil, err
	}
	top := filepath.Dir(dir)
	defer os.RemoveAll(top)
	r := &ran{dir: dir}
	if r.before, err = readTree(dir); err != nil {
		return nil, err
	}
	args := s.args
	if s.lib {
		if bin, err = os.Executable(); err != nil {
			return nil, err
		}
		args = append([]string{"lib"}, args...)
	}
	o := sbx.Opt{Bin: bin, Args: args, Dir: dir, Root: dir, Umask: h.umask, Limit: 60 * time.Second,
		Env:   append([]string{"HOME=" + filepath.Join(dir, "home"), "GOMAXPROCS=2", "PATH=/usr/bin:/bin"}, s.env...),
		Stdin: filepath.Join(top, "in"), Stdout: filepath.Join(top, "out"), Stderr: filepath.Join(top, "err"),
		Enter: h.enter}
	if h.exit != nil {
		o.Exit = func(e *sbx.Event) { h.exit(e, dir) }
	}
	if r.Result, err = sbx.Run(o); err != nil {
		return nil, err
	}
	if r.after, err = readTree(dir); err != nil {
		return nil, err
	}
	r.stdout, _ = os.ReadFile(filepath.Join(top, "out"))
	r.stderr, _ = os.ReadFile(filepath.Join(top, "err"))
	return r, nil
}

// crashed reports abnormal ends that no fault excuses.
func (r *ran) crashed() error {
	if r.Killed {
		return nil
	}
	if r.Code < 0 {
		if r.Signal == syscall.SIGPIPE {
			return nil // the usual end of a program whose output is closed
		}
		return fmt.Errorf("the program died of signal %v", r.Signal)
	}
	if bytes.Contains(r.stderr, []byte("goroutine ")) && bytes.Contains(r.stderr, []byte("[running]")) {
		return fmt.Errorf("the program crashed: %.400s", r.stderr)
	}
	return nil
}

// label names the object of an event independently of random temporary names.
func (s *scen) label(e *sbx.Event) string {
	l := func(p string) string {
		if strings.HasPrefix(p, "<") {
			return p
		}
		if _, ok := s.outs[p]; ok {
			return p
		}
		if _, ok := s.files[p]; ok {
			return p
		}
		return "~"
	}
	t := e.Sys + "(" + l(e.Path)
	if e.To != "" {
		t += ">" + l(e.To)
	}
	return t + ")"
}

// ---- oracles

var errNotOurs = errors.New("not the expected content")

// skOf opens a native private key document.
func skOf(b []byte, pw string) (*ref.Key, error) {
	d, err := ref.ParseSk(b)
	if err != nil {
		return nil, err
	}
	if d.Algo == "" {
		return nil, errors.New("no algo field")
	}
	raw, err := d.OpenSk(pw)
	if err != nil {
		return nil, err
	}
	if len(raw) != 64 || !ref.IsKey(raw, raw[32:]) {
		return nil, errors.New("not an Ed25519 key")
	}
	return ref.KeyFromSk(raw), nil
}

// pkOf reads a native public key document.
func pkOf(b []byte) ([]byte, error) {
	m := ref.Fields(b)
	pk, err := base64.StdEncoding.DecodeString(m["pk"])
	if err != nil || len(pk) != 32 {
		return nil, errors.New("no public key")
	}
	k := &ref.Key{Pk: pk}
	if m["hash"] != ref.B64(k.Hash()) {
		return nil, errors.New("wrong key hash")
	}
	return pk, nil
}

// sigOK checks a native signature document.
func sigOK(b []byte, k *ref.Key, content []byte) error {
	m := ref.Fields(b)
	sig, err := base64.StdEncoding.DecodeString(m["signature"])
	if err != nil || len(sig) != 64 {
		return errors.New("no signature")
	}
	if m["pkhash"] != ref.B64(k.Hash()) {
		return errors.New("wrong key hash")
	}
	if !ref.VerifyMsg(k.Pk, ref.FileDigest(content), sig) {
		return errors.New("the signature does not verify")
	}
	return nil
}

// encOK opens an encrypted file for each recipient.
func encOK(b []byte, pt []byte, sender *ref.Key, rx ...*ref.Key) error {
	f, err := ref.Parse(b)
	if err != nil {
		return err
	}
	if len(f.Hdr.Keys) != len(rx) {
		return fmt.Errorf("%d recipients", len(f.Hdr.Keys))
	}
	for _, k := range rx {
		o, err := f.Open(k)
		if err != nil {
			return err
		}
		if !bytes.Equal(o.Plain, pt) {
			return errNotOurs
		}
		if sender != nil {
			if err := f.SenderOK(o, sender.Pk); err != nil {
				return err
			}
		} else if o.Signed {
			return errors.New("signed by somebody")
		}
	}
	return nil
}

func equals(want string) func([]byte) error {
	return func(b []byte) error {
		if string(b) != want {
			return errors.New(diff(b, []byte(want)))
		}
		return nil
	}
}

// ---- catalogue

const (
	pwAlice = "Alice-Passw0rd-Q7"
	pwNew   = "N3w-Key-Passw0rd-X"
)

// skFile is a native private key file with a small scrypt cost.
func skFile(k *ref.Key, pw string) string {
	d := ref.SealSk(k, pw, sum256([]byte("salt"+pw)), 16, 1, 1)
	return string(d.Text())
}

func scenarios(thorough bool) []*scen {
	alice, bob, carol, dave := ref.KeyFor("alice"), ref.KeyFor("bob"), ref.KeyFor("carol"), ref.KeyFor("dave")
	base := func(extra map[string]string) map[string]string {
		m := map[string]string{
			"alice.key": skFile(alice, pwAlice), "alice.pub": string(ref.PkDoc(alice, "alice")),
			"bob.key": skFile(bob, ""), "bob.pub": string(ref.PkDoc(bob, "")),
			"carol.key": string(carol.SSHPriv(ref.SSHOpt{Cipher: "none", Comment: "carol@host"})), "carol.pub": carol.SSHPubLine("carol@host"),
			"bystander": "leave me alone\n",
		}
		for k, v := range extra {
			if v == "-" {
				delete(m, k)
			} else {
				m[k] = v
			}
		}
		return m
	}
	msg := string(pattern(300, 0x33))
	envA := []string{"PW=" + pwAlice}
	envN := []string{"PW=" + pwNew}
	all := []*ref.Key{alice, bob, carol}
	auth := "# comment\n" + dave.SSHPubLine("dave@host") + "\nno-pty " + carol.SSHPubLine("carol@host") + "\n"
	var out []*scen
	add := func(s *scen) { out = append(out, s) }

	// generate
	gen := func(name string, files map[string]string, pw string, want int, args ...string) {
		s := &scen{name: name, args: append([]string{"generate"}, args...), files: base(files), want: want, multi: true, public: []string{"k.pub"}, keys: all, pws: []string{pwAlice}, newKey: "k.key"}
		if pw != "" {
			s.env = envN
			s.pws = append(s.pws, pw)
		}
		s.outs = map[string]func([]byte) error{
			"k.key": func(b []byte) error { _, err := skOf(b, pw); return err },
			"k.pub": func(b []byte) error { _, err := pkOf(b); return err },
		}
		s.whole = func(t tree, _ []byte) error {
			k, err := skOf([]byte(t["k.key"].data), pw)
			if err != nil {
				return err
			}
			pk, err := pkOf([]byte(t["k.pub"].data))
			if err != nil {
				return err
			}
			if !bytes.Equal(k.Pk, pk) {
				return errors.New("the public key does not belong to the private key")
			}
			return nil
		}
		add(s)
	}
	old := map[string]string{"k.key": "old private\n", "k.pub": "old public\n"}
	gen("gen", nil, pwNew, 0, "-E", "PW", "-c", "a comment", "k")
	gen("gen-nopw", nil, "", 0, "--no-password", "k")
	gen("gen-over", old, pwNew, 0, "-E", "PW", "--overwrite", "k")
	gen("gen-over-pub", map[string]string{"k.pub": "old public\n"}, pwNew, 0, "-E", "PW", "--overwrite", "k")
	gen("gen-over-key", map[string]string{"k.key": "old private\n"}, pwNew, 0, "-E", "PW", "--overwrite", "k")
	gen("gen-refuse", old, pwNew, 1, "-E", "PW", "k")
	gen("gen-refuse-pub", map[string]string{"k.pub": "old public\n"}, pwNew, 1, "-E", "PW", "k")
	gen("gen-refuse-key", map[string]string{"k.key": "old private\n"}, pwNew, 1, "-E", "PW", "k")

	// sign
	sgn := func(name string, files map[string]string, k *ref.Key, outf string, want int, args ...string) *scen {
		s := &scen{name: name, args: append([]string{"sign"}, args...), files: base(files), want: want, env: envA, keys: all, pws: []string{pwAlice}}
		s.files["f"] = msg
		j := func(b []byte) error { return sigOK(b, k, []byte(msg)) }
		if outf != "" {
			s.outs = map[string]func([]byte) error{outf: j}
			s.public = []string{outf}
		} else {
			s.whole = func(_ tree, o []byte) error { return j(o) }
		}
		add(s)
		return s
	}
	sgn("sign", nil, alice, "f.sig", 0, "-E", "PW", "alice.key", "f")
	sgn("sign-o", nil, alice, "x", 0, "-E", "PW", "-o", "x", "alice.key", "f")
	sgn("sign-stdout", nil, alice, "", 0, "-E", "PW", "-o", "-", "alice.key", "f")
	sgn("sign-ssh", nil, carol, "f.sig", 0, "--no-password", "carol.key", "f")
	sgn("sign-over", map[string]string{"f.sig": "old\n"}, alice, "f.sig", 0, "-E", "PW", "--overwrite", "alice.key", "f")
	sgn("sign-refuse", map[string]string{"f.sig": "old\n"}, alice, "f.sig", 1, "-E", "PW", "alice.key", "f")
	sgn("sign-wrongpw", nil, alice, "f.sig", 1, "--no-password", "alice.key", "f")
	sgn("sign-over-wrongpw", map[string]string{"f.sig": "old\n"}, alice, "f.sig", 1, "--no-password", "--overwrite", "alice.key", "f")
	sgn("sign-missing", nil, alice, "nofile.sig", 1, "-E", "PW", "alice.key", "nofile")

	// verify
	sig := string(ref.SigDoc(alice, ref.FileDigest([]byte(msg)), "input=f"))
	ver := func(name string, files map[string]string, want int, args ...string) {
		s := &scen{name: name, args: append([]string{"verify"}, args...), files: base(files), want: want, keys: all, pws: []string{pwAlice}}
		add(s)
	}
	ver("verify", map[string]string{"f": msg, "f.sig": sig}, 0, "alice.pub", "f.sig", "f")
	ver("verify-string", map[string]string{"f": msg, "f.sig": sig}, 0, ref.B64(alice.SSHPubBlob()), "f.sig", "f")
	ver("verify-changed", map[string]string{"f": msg + "x", "f.sig": sig}, 1, "alice.pub", "f.sig", "f")
	ver("verify-wrongkey", map[string]string{"f": msg, "f.sig": sig}, 1, "bob.pub", "f.sig", "f")
	ver("verify-quiet", map[string]string{"f": msg, "f.sig": sig}, 0, "-q", "alice.pub", "f.sig", "f")

	// encrypt
	enc := func(name string, files map[string]string, sender *ref.Key, rx []*ref.Key, outf string, want int, args ...string) *scen {
		s := &scen{name: name, args: append([]string{"encrypt"}, args...), files: base(files), want: want, env: envA, keys: all, pws: []string{pwAlice}}
		s.files["f"] = msg
		s.files["home/.ssh/authorized_keys"] = auth
		j := func(b []byte) error { return encOK(b, []byte(msg), sender, rx...) }
		if outf != "" {
			s.outs = map[string]func([]byte) error{outf: j}
		} else {
			s.whole = func(_ tree, o []byte) error { return j(o) }
		}
		add(s)
		return s
	}
	b1 := []*ref.Key{bob}
	enc("enc", nil, nil, b1, "f.enc", 0, "-o", "f.enc", "bob.pub", "f")
	enc("enc-multi", nil, alice, []*ref.Key{bob, carol, dave}, "f.enc", 0, "-s", "alice.key", "-E", "PW", "-B", "64", "-o", "f.enc", "bob.pub", "carol.pub", "dave@host", "f")
	enc("enc-stdout", nil, nil, b1, "", 0, "-B", "100", "bob.pub", "f")
	enc("enc-over", map[string]string{"f.enc": "old\n"}, nil, b1, "f.enc", 0, "-B", "100", "--overwrite", "-o", "f.enc", "bob.pub", "f")
	enc("enc-refuse", map[string]string{"f.enc": "old\n"}, nil, b1, "f.enc", 1, "-o", "f.enc", "bob.pub", "f")
	enc("enc-norcpt", map[string]string{"f.enc": "old\n"}, nil, b1, "f.enc", 1, "--overwrite", "-o", "f.enc", "bob.pub", "nobody@host", "f")
	enc("enc-badrcpt", nil, nil, b1, "f.enc", 1, "-o", "f.enc", "bob.pub", "bystander", "f")
	enc("enc-wrongpw", nil, nil, b1, "f.enc", 1, "-o", "f.enc", "-s", "alice.key", "--no-password", "bob.pub", "f")
	s := enc("enc-same", nil, nil, b1, "", 1, "--overwrite", "-o", "f", "bob.pub", "f")
	s.whole = nil
	s = enc("enc-stdin", map[string]string{"f.enc": "old\n"}, nil, b1, "f.enc", 0, "--overwrite", "-B", "100", "-o", "f.enc", "bob.pub", "-")
	s.stdin = msg
	if thorough {
		enc("enc-big", nil, alice, b1, "f.enc", 0, "-s", "alice.key", "-E", "PW", "-B", "20", "-o", "f.enc", "bob.pub", "f")
	}

	// decrypt
	w := (&ref.Spec{ChunkSize: 64, Rx: []*ref.Key{dave, bob}, Pts: ref.Split([]byte(msg), 64, true), Label: "plain"}).Write()
	ws := (&ref.Spec{ChunkSize: 128, Rx: []*ref.Key{bob}, Sender: alice, Pts: ref.Split([]byte(msg), 128, true), Label: "signed"}).Write()
	bad := append([]byte{}, w.Bytes...)
	bad[len(bad)-70] ^= 1 // the last chunk
	dec := func(name string, files map[string]string, outf string, want int, args ...string) *scen {
		s := &scen{name: name, args: append([]string{"decrypt"}, args...), files: base(files), want: want, keys: all, pws: []string{pwAlice}, plain: msg}
		if s.files["c"] == "" {
			s.files["c"] = string(w.Bytes)
		}
		if outf != "" {
			s.outs = map[string]func([]byte) error{outf: equals(msg)}
		} else {
			s.whole = func(_ tree, o []byte) error { return equals(msg)(o) }
		}
		add(s)
		return s
	}
	dec("dec", nil, "p", 0, "--no-password", "-o", "p", "bob.key", "c")
	dec("dec-verify", map[string]string{"c": string(ws.Bytes)}, "p", 0, "--no-password", "-v", "alice.pub", "-o", "p", "bob.key", "c")
	dec("dec-stdout", nil, "", 0, "--no-password", "bob.key", "c")
	dec("dec-over", map[string]string{"p": "old\n"}, "p", 0, "--no-password", "--overwrite", "-o", "p", "bob.key", "c")
	dec("dec-refuse", map[string]string{"p": "old\n"}, "p", 1, "--no-password", "-o", "p", "bob.key", "c")
	s = dec("dec-stdin", map[string]string{"p": "old\n"}, "p", 0, "--no-password", "--overwrite", "-o", "p", "bob.key")
	s.stdin = string(w.Bytes)
	s = dec("dec-test", nil, "", 0, "--no-password", "-t", "bob.key", "c")
	s.whole = nil
	s.plain = ""
	s = dec("dec-test-o", map[string]string{"p": "old\n"}, "p", 0, "--no-password", "-t", "--overwrite", "-o", "p", "bob.key", "c")
	s.outs, s.whole = nil, nil
	s.plain = ""
	dec("dec-wrongkey", nil, "p", 1, "-E", "PW", "-o", "p", "alice.key", "c").env = envA
	dec("dec-corrupt", map[string]string{"c": string(bad), "p": "old\n"}, "p", 1, "--no-password", "--overwrite", "-o", "p", "bob.key", "c")
	dec("dec-cut", map[string]string{"c": string(w.Bytes[:len(w.Bytes)-64])}, "p", 1, "--no-password", "-o", "p", "bob.key", "c")
	dec("dec-unsigned", nil, "p", 1, "--no-password", "-v", "alice.pub", "-o", "p", "bob.key", "c")
	dec("dec-sender-missing", map[string]string{"c": string(ws.Bytes)}, "p", 1, "--no-password", "-o", "p", "bob.key", "c")
	dec("dec-sender-wrong", map[string]string{"c": string(ws.Bytes)}, "p", 1, "--no-password", "-v", "carol.pub", "-o", "p", "bob.key", "c")

	// the library's own serialization
	lib := func(name string, files map[string]string, what, outf string, over string, want int, j func([]byte) error) {
		s := &scen{name: name, args: []string{what, outf, over}, lib: true, files: base(files), want: want, keys: all, pws: []string{pwAlice}, outs: map[string]func([]byte) error{outf: j}}
		if what != "sk" {
			s.public = []string{outf}
		}
		add(s)
	}
	jsk := func(b []byte) error {
		k, err := skOf(b, pwAlice)
		if err == nil && !bytes.Equal(k.Pk, alice.Pk) {
			err = errNotOurs
		}
		return err
	}
	jpk := func(b []byte) error {
		pk, err := pkOf(b)
		if err == nil && !bytes.Equal(pk, alice.Pk) {
			err = errNotOurs
		}
		return err
	}
	jsig := func(b []byte) error { return sigOK(b, alice, []byte(msg)) }
	for _, x := range []struct {
		what string
		j    func([]byte) error
	}{{"sk", jsk}, {"pk", jpk}, {"sig", jsig}} {
		lib("lib-"+x.what, map[string]string{"m": msg}, x.what, "out."+x.what, "0", 0, x.j)
		lib("lib-"+x.what+"-over", map[string]string{"m": msg, "out." + x.what: "old\n"}, x.what, "out."+x.what, "1", 0, x.j)
		lib("lib-"+x.what+"-refuse", map[string]string{"m": msg, "out." + x.what: "old\n"}, x.what, "out."+x.what, "0", 1, x.j)
	}
	return out
}

// helperLib serializes an object: lib sk|pk|sig FILE 0|1
func helperLib(args []string) {
	k := key("alice")
	over := args[2] == "1"
	var err error
	switch args[0] {
	case "sk":
		err = k.sk.Serialize(args[1], "a comment", over, []byte(pwAlice))
	case "pk":
		err = k.pk.Serialize(args[1], "a comment", over)
	case "sig":
		var s *sign.Signature
		if s, err = k.sk.SignFile("m"); err == nil {
			err = s.Serialize(args[1], "a comment", over)
		}
	}
	if err != nil {
		os.Exit(1)
	}
}
