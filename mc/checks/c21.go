package checks

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"mc/eng"
	"mc/ref"
)

func init() {
	register(&eng.Prop{ID: "C21", Level: "model_checking",
		Rule: "explicit-state search over directories: a state is what each file means (which content, signature by which key over what, encryption of what for whom by whom, damaged), every edge executes one real sigtool command or file edit from a concrete directory of that state and compares exit status and the whole directory afterwards with the symbolic model; at every state all verifications and decryptions are executed and compared; states = distinct symbolic directories; transitions = commands run. The plumbing suite runs the same operation through every combination of command word, input, output, key form, passphrase source and option position",
		Bound: func(c *eng.Ctx) string {
			return fmt.Sprintf("histories of %d steps over %d operations (%d keys, one of them generated, two contents), all observations at every state; all plumbing combinations; 53 kinds of content through every kind of standard input and output; 15 places x 58 file names", c21Depth(c), len(c21Ops()), 3)
		},
		Assume: []string{"scrypt runs with a reduced N in the binary under test"},
		Run:    func(c *eng.Ctx) { viaFast(c, "c21") }})
	Subs["c21"] = runC21
}

func c21Depth(c *eng.Ctx) int { return pick(c, 4, 6) }

// what a sequence of bytes means.
type blob struct {
	sig     string // key that signed content
	enc     bool   // encryption of content by sender for rx
	sender  string
	rx      []string
	content string
	key     string // generated key file (private or public)
}

// dir21 is a state: the variable files, and what is known about bytes.
type dir21 struct {
	files map[string]string
	know  map[string]blob
	keys  map[string]*ref.Key
	ngen  int
	depth int
	word  []string
}

func (d *dir21) clone() *dir21 {
	n := &dir21{files: map[string]string{}, know: map[string]blob{}, keys: map[string]*ref.Key{}, ngen: d.ngen, depth: d.depth, word: append([]string{}, d.word...)}
	for k, v := range d.files {
		n.files[k] = v
	}
	for k, v := range d.know {
		n.know[k] = v
	}
	for k, v := range d.keys {
		n.keys[k] = v
	}
	return n
}

var c21Content = []string{"first content\n", string(pattern(150, 0x44))}

var c21Vars = []string{"k.key", "k.pub", "f", "f.sig", "e", "p"}

// canon names the state independently of random bytes.
func (d *dir21) canon() string {
	ids := map[string]int{}
	keyIDs := map[string]int{}
	kid := func(k string) string {
		if !strings.HasPrefix(k, "G") {
			return k
		}
		if _, ok := keyIDs[k]; !ok {
			keyIDs[k] = len(keyIDs)
		}
		return fmt.Sprintf("G%d", keyIDs[k])
	}
	var term func(s string) string
	term = func(s string) string {
		for i, c := range c21Content {
			if s == c {
				return fmt.Sprintf("c%d", i)
			}
		}
		if i, ok := ids[s]; ok {
			return fmt.Sprintf("#%d", i)
		}
		ids[s] = len(ids)
		t := fmt.Sprintf("#%d=", ids[s])
		b := d.know[s]
		switch {
		case b.key != "":
			return t + "key " + kid(b.key)
		case b.sig != "":
			return t + "S(" + kid(b.sig) + "," + term(b.content) + ")"
		case b.enc:
			var rx []string
			for _, r := range b.rx {
				rx = append(rx, kid(r))
			}
			return t + "E(" + kid(b.sender) + ">" + strings.Join(rx, "+") + "," + term(b.content) + ")"
		}
		return t + "?"
	}
	var sb strings.Builder
	for _, n := range c21Vars {
		s, ok := d.files[n]
		if !ok {
			sb.WriteString(n + ":- ")
			continue
		}
		sb.WriteString(n + ":" + term(s) + " ")
	}
	return sb.String()
}

// key names of commands: the key of k.key is whatever generate last made.
func (d *dir21) keyOf(k string, pub bool) string {
	if k != "G" {
		return k
	}
	n := "k.key"
	if pub {
		n = "k.pub"
	}
	return d.know[d.files[n]].key
}

var c21SK = map[string]string{"A": "a.key", "B": "b.key", "G": "k.key"}
var c21PK = map[string]string{"A": "a.pub", "B": "b.pub", "G": "k.pub"}

const pwGen = "gen-pw"

// pass gives the options that open key k.
func c21Pass(k string) []string {
	switch k {
	case "A":
		return []string{"-E", "PWA"}
	case "G":
		return []string{"-E", "PWG"}
	}
	return []string{"--no-password"}
}

// op21 is an operation. cmd ones yield the command line, and what the model says:
// the output file ("" if none; the command then must fail) and how to judge it.
type op21 struct {
	name string
	edit func(d *dir21) bool // changes d, false if impossible
	cmd  func(d *dir21) (args []string, want want21)
}

type want21 struct {
	ok    bool
	out   string                                 // file that appears or is replaced
	judge func(n *dir21, b string) (blob, error) // meaning of the output
	pair  func(n *dir21, key, pub string) error  // generate
}

func c21Ops() []op21 {
	var ops []op21
	edit := func(name string, f func(d *dir21) bool) { ops = append(ops, op21{name: name, edit: f}) }
	cmd := func(name string, f func(d *dir21) ([]string, want21)) { ops = append(ops, op21{name: name, cmd: f}) }
	has := func(d *dir21, n string) bool { _, ok := d.files[n]; return ok }

	for _, force := range []bool{false, true} {
		mark := map[bool]string{true: "!"}[force]
		cmd("gen"+mark, func(d *dir21) ([]string, want21) {
			w := want21{ok: force || !has(d, "k.key") && !has(d, "k.pub"), pair: func(n *dir21, sk, pk string) error {
				k, err := skOf([]byte(sk), pwGen)
				if err != nil {
					return err
				}
				p, err := pkOf([]byte(pk))
				if err != nil {
					return err
				}
				if !bytes.Equal(k.Pk, p) {
					return errors.New("the halves of the new pair do not match")
				}
				for g, o := range n.keys {
					if bytes.Equal(o.Pk, k.Pk) {
						return errors.New("the new key is " + g)
					}
				}
				n.ngen++
				g := fmt.Sprintf("G%d", n.ngen)
				n.keys[g] = k
				n.know[sk], n.know[pk] = blob{key: g}, blob{key: g}
				return nil
			}}
			return flagsOf(force, "generate", "-E", "PWG", "k"), w
		})
	}
	sgn := func(name, k, target string, force, badpw bool) {
		cmd(name, func(d *dir21) ([]string, want21) {
			kk := d.keyOf(k, false)
			w := want21{ok: !badpw && kk != "" && has(d, target) && (force || !has(d, "f.sig")), out: "f.sig"}
			w.judge = func(n *dir21, b string) (blob, error) {
				return blob{sig: kk, content: n.files[target]}, sigOK([]byte(b), n.keys[kk], []byte(n.files[target]))
			}
			pw := c21Pass(k)
			if badpw {
				pw = []string{"-E", "WRONG"}
			}
			args := append([]string{"sign"}, pw...)
			if target != "f" {
				args = append(args, "-o", "f.sig")
			}
			return flagsOf(force, append(args, c21SK[k], target)...), w
		})
	}
	sgn("sign-A", "A", "f", false, false)
	sgn("sign-A!", "A", "f", true, false)
	sgn("sign-B!", "B", "f", true, false)
	sgn("sign-G!", "G", "f", true, false)
	sgn("sign-B-e!", "B", "e", true, false)
	sgn("sign-A-wrongpw!", "A", "f", true, true)

	enc := func(name, sender string, rx []string, force bool) {
		cmd(name, func(d *dir21) ([]string, want21) {
			ok := has(d, "f") && (force || !has(d, "e"))
			var rk []string
			for _, r := range rx {
				k := d.keyOf(r, true)
				ok = ok && k != ""
				rk = append(rk, k)
			}
			args := []string{"encrypt", "-B", "64", "-o", "e"}
			sk := ""
			if sender != "" {
				args = append(append(args, "-s", c21SK[sender]), c21Pass(sender)...)
				sk = d.keyOf(sender, false)
				ok = ok && sk != ""
			}
			for _, r := range rx {
				args = append(args, c21PK[r])
			}
			w := want21{ok: ok, out: "e"}
			w.judge = func(n *dir21, b string) (blob, error) {
				var to []*ref.Key
				for _, r := range rk {
					to = append(to, n.keys[r])
				}
				return blob{enc: true, sender: sk, rx: rk, content: n.files["f"]}, encOK([]byte(b), []byte(n.files["f"]), n.keys[sk], to...)
			}
			return flagsOf(force, append(args, "f")...), w
		})
	}
	enc("enc>A", "", []string{"A"}, false)
	enc("enc>A!", "", []string{"A"}, true)
	enc("enc-A>B!", "A", []string{"B"}, true)
	enc("enc-B>AB!", "B", []string{"A", "B"}, true)
	enc("enc-G>AG!", "G", []string{"A", "G"}, true)

	dec := func(name, k, from string, force, badpw bool) {
		cmd(name, func(d *dir21) ([]string, want21) {
			ok, pt := d.opens("e", k, from)
			w := want21{ok: ok && !badpw && (force || !has(d, "p")), out: "p"}
			w.judge = func(n *dir21, b string) (blob, error) {
				return n.know[b], equals(pt)([]byte(b))
			}
			pw := c21Pass(k)
			if badpw {
				pw = []string{"-E", "WRONG"}
			}
			args := append([]string{"decrypt", "-o", "p"}, pw...)
			if from != "" {
				args = append(args, "-v", c21PK[from])
			}
			return flagsOf(force, append(args, c21SK[k], "e")...), w
		})
	}
	dec("dec-A", "A", "", false, false)
	dec("dec-A!", "A", "", true, false)
	dec("dec-B-v-A!", "B", "A", true, false)
	dec("dec-A-v-B!", "A", "B", true, false)
	dec("dec-G-v-G!", "G", "G", true, false)
	dec("dec-A-wrongpw!", "A", "", true, true)

	edit("f=c0", func(d *dir21) bool { d.files["f"] = c21Content[0]; return true })
	edit("f=c1", func(d *dir21) bool { d.files["f"] = c21Content[1]; return true })
	cp := func(a, b string) {
		edit("cp "+a+" "+b, func(d *dir21) bool {
			if !has(d, a) {
				return false
			}
			d.files[b] = d.files[a]
			return true
		})
	}
	cp("e", "f")
	cp("f", "e")
	cp("p", "f")
	flip := func(n string, at func(s string) int) {
		edit("flip "+n, func(d *dir21) bool {
			s := d.files[n]
			i := at(s)
			if i < 0 || i >= len(s) {
				return false
			}
			b := []byte(s)
			b[i] ^= 1
			d.files[n] = string(b) // unknown, unless it was damaged before
			return true
		})
	}
	// the third character of the base64 signature
	flip("f.sig", func(s string) int { i := strings.Index(s, "signature: "); return i + 13 })
	flip("e", func(s string) int { return len(s) - 70 })
	edit("cut e", func(d *dir21) bool {
		s := d.files["e"]
		if len(s) < 200 {
			return false
		}
		d.files["e"] = s[:len(s)-48]
		return true
	})
	for _, n := range []string{"f.sig", "e", "p", "k.pub"} {
		edit("rm "+n, func(d *dir21) bool {
			if !has(d, n) {
				return false
			}
			delete(d.files, n)
			return true
		})
	}
	return ops
}

// opens says whether key k opens file n, with a sender expected or not.
func (d *dir21) opens(n, k, from string) (bool, string) {
	b := d.know[d.files[n]]
	kk := d.keyOf(k, false)
	fk := ""
	if from != "" {
		if fk = d.keyOf(from, true); fk == "" {
			return false, ""
		}
	}
	if !b.enc || kk == "" || b.sender != fk {
		return false, ""
	}
	for _, r := range b.rx {
		if r == kk {
			return true, b.content
		}
	}
	return false, ""
}

// make puts the directory on disk.
func (d *dir21) make(c *eng.Ctx, fixed map[string]string) (string, error) {
	dir, err := os.MkdirTemp(c.Work, "c21")
	if err != nil {
		return "", err
	}
	for _, m := range []map[string]string{fixed, d.files} {
		for n, s := range m {
			fn := filepath.Join(dir, n)
			os.MkdirAll(filepath.Dir(fn), 0755)
			if err := os.WriteFile(fn, []byte(s), 0600); err != nil {
				return "", err
			}
		}
	}
	return dir, nil
}

var c21Env = []string{"PWA=" + pwAlice, "PWG=" + pwGen, "WRONG=not it", "GOMAXPROCS=2"}

// step executes the operation in d and gives the next state.
func (d *dir21) step(c *eng.Ctx, bin string, fixed map[string]string, o *op21) (*dir21, error) {
	n := d.clone()
	n.depth++
	n.word = append(n.word, o.name)
	if o.edit != nil {
		if !o.edit(n) {
			return nil, nil
		}
		return n, nil
	}
	args, w := o.cmd(d)
	dir, err := d.make(c, fixed)
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(dir)
	r, err := runTool(bin, dir, nil, append(c21Env, "HOME="+dir), args...)
	c.Trans(1)
	if err != nil {
		return nil, err
	}
	show := fmt.Sprintf("%v: exit %d", args, r.code)
	if (r.code == 0) != w.ok {
		return nil, fmt.Errorf("%s, but it should %s: %.200s", show, map[bool]string{true: "succeed", false: "fail"}[w.ok], r.err)
	}
	if r.code != 0 && r.code != 1 {
		return nil, fmt.Errorf("%s: %s", show, r.err)
	}
	after, err := readTree(dir)
	if err != nil {
		return nil, err
	}
	changed := map[string]bool{}
	if w.ok && w.pair != nil {
		changed["k.key"], changed["k.pub"] = true, true
	} else if w.ok {
		changed[w.out] = true
	}
	for f, x := range after {
		if !x.mode.IsRegular() || changed[f] {
			continue
		}
		old, ok := d.files[f]
		if !ok {
			old, ok = fixed[f]
		}
		if !ok {
			return nil, fmt.Errorf("%s: %s has appeared", show, f)
		}
		if x.data != old {
			return nil, fmt.Errorf("%s: %s was changed", show, f)
		}
	}
	for _, m := range []map[string]string{d.files, fixed} {
		for f := range m {
			if _, ok := after[f]; !ok {
				return nil, fmt.Errorf("%s: %s is gone", show, f)
			}
		}
	}
	c.Outcome(fmt.Sprintf("%s exit %d", args[0], r.code))
	if !w.ok {
		if r.out != "" {
			return nil, fmt.Errorf("%s: there is output: %.100q", show, r.out)
		}
		return n, nil
	}
	for f := range changed {
		x, ok := after[f]
		if !ok {
			return nil, fmt.Errorf("%s: %s is missing", show, f)
		}
		n.files[f] = x.data
	}
	if w.pair != nil {
		err = w.pair(n, n.files["k.key"], n.files["k.pub"])
	} else {
		var b blob
		if b, err = w.judge(n, n.files[w.out]); err == nil && (b.sig != "" || b.enc) {
			if _, again := n.know[n.files[w.out]]; b.enc && w.out == "e" && again {
				err = errors.New("the same ciphertext was produced before")
			}
			n.know[n.files[w.out]] = b
		}
	}
	if err != nil {
		return nil, fmt.Errorf("%s: %w", show, err)
	}
	return n, nil
}

func (d *dir21) prefixOfEncrypted(s string) bool {
	for _, b := range d.know {
		if b.enc && strings.HasPrefix(b.content, s) {
			return true
		}
	}
	return false
}

type obs21 struct {
	args  []string
	stdin string // file
	ok    bool
	out   string // what appears on stdout
	free  bool   // stdout is a message, not data
	id    string // names everything the outcome depends on
}

// observations lists the read-only commands of a state.
func (d *dir21) observations() []obs21 {
	var out []obs21
	dep := func(ns ...string) string {
		var t []string
		for _, n := range ns {
			s, ok := d.files[n]
			t = append(t, fmt.Sprintf("%v%x", ok, sum256([]byte(s))))
		}
		return strings.Join(t, " ")
	}
	for _, k := range []string{"A", "B", "G"} {
		for _, t := range []string{"f", "e", "p"} {
			target, has := d.files[t]
			b := d.know[d.files["f.sig"]]
			kk := d.keyOf(k, true)
			o := obs21{args: []string{"verify", c21PK[k], "f.sig", t}, free: true}
			o.ok = has && kk != "" && b.sig == kk && b.content == target
			o.id = fmt.Sprint(o.args, dep("f.sig", t), kk != "", kk)
			out = append(out, o)
		}
		for _, from := range []string{"", "A", "B", "G"} {
			ok, pt := d.opens("e", k, from)
			for mode := 0; mode < 3; mode++ {
				o := obs21{args: append([]string{"decrypt"}, c21Pass(k)...), ok: ok}
				if from != "" {
					o.args = append(o.args, "-v", c21PK[from])
				}
				switch mode {
				case 0:
					o.args = append(o.args, c21SK[k], "e")
				case 1:
					o.args = append(o.args, c21SK[k])
					o.stdin = "e"
				case 2:
					o.args = append(o.args, "-t", c21SK[k], "e")
				}
				if ok && mode != 2 {
					o.out = pt
				}
				o.id = fmt.Sprint(o.args, o.stdin, dep("e"), d.keyOf(k, false), " ", d.keyOf(from, true))
				out = append(out, o)
			}
		}
	}
	return out
}

func (d *dir21) observe(c *eng.Ctx, bin string, fixed map[string]string, obs []obs21) error {
	dir, err := d.make(c, fixed)
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	before, err := readTree(dir)
	if err != nil {
		return err
	}
	for _, o := range obs {
		var r result
		env := append(c21Env, "HOME="+dir)
		if o.stdin != "" {
			r, err = runToolFile(bin, dir, filepath.Join(dir, o.stdin), env, o.args...)
		} else {
			r, err = runTool(bin, dir, nil, env, o.args...)
		}
		c.Trans(1)
		if err != nil {
			return err
		}
		show := fmt.Sprintf("%v < %q: exit %d", o.args, o.stdin, r.code)
		if (r.code == 0) != o.ok {
			return fmt.Errorf("%s, but it should %s: %.200s", show, map[bool]string{true: "succeed", false: "fail"}[o.ok], r.err)
		}
		if !o.free && r.out != o.out {
			b := d.know[d.files["e"]]
			// damaged: the intact part may have come out already
			if o.ok || b.enc || !d.prefixOfEncrypted(r.out) {
				return fmt.Errorf("%s: %s", show, diff([]byte(r.out), []byte(o.out)))
			}
		}
	}
	after, err := readTree(dir)
	if err != nil {
		return err
	}
	return untouched(before, after, nil, func(string) bool { return false })
}

func c21Fixed() (map[string]string, map[string]*ref.Key) {
	a, b := ref.KeyFor("alice"), ref.KeyFor("bob")
	return map[string]string{
		"a.key": skFile(a, pwAlice), "a.pub": string(ref.PkDoc(a, "alice")),
		"b.key": string(b.SSHPriv(ref.SSHOpt{Cipher: "none", Comment: "bob@host"})), "b.pub": b.SSHPubLine("bob@host"),
	}, map[string]*ref.Key{"A": a, "B": b}
}

func runC21(c *eng.Ctx) {
	bin := os.Getenv("MC_TOOL")
	fixed, keys := c21Fixed()
	ops := c21Ops()

	c.Suite("contents", func() { c21Contents(c, bin, fixed, keys) })
	c.Suite("names", func() { c21Names(c, bin, fixed, keys) })
	c.Suite("history", func() {
		start := &dir21{files: map[string]string{"f": c21Content[0]}, know: map[string]blob{}, keys: keys}
		if c.Filtering() {
			c.Case(c.FilterID, func() error {
				_, w, _ := strings.Cut(c.FilterID(), "/")
				d := start
				for _, n := range strings.Split(w, ";") {
					if n == "" {
						continue
					}
					for i := range ops {
						if ops[i].name == n {
							nd, err := d.step(c, bin, fixed, &ops[i])
							if err != nil {
								return err
							}
							if nd != nil {
								d = nd
							}
						}
					}
				}
				return d.observe(c, bin, fixed, d.observations())
			})
			return
		}
		var mu sync.Mutex
		seen := map[string]bool{start.canon(): true}
		done := map[string]bool{}
		level := []*dir21{start}
		for depth := 0; len(level) > 0; depth++ {
			// observations of the new states
			var todo []struct {
				d *dir21
				o []obs21
			}
			for _, d := range level {
				var os []obs21
				for _, o := range d.observations() {
					if !done[o.id] {
						done[o.id] = true
						os = append(os, o)
					}
				}
				if len(os) > 0 {
					todo = append(todo, struct {
						d *dir21
						o []obs21
					}{d, os})
				}
			}
			c.Par(len(todo), func(i int) {
				t := todo[i]
				c.Case(func() string { return "history/" + strings.Join(t.d.word, ";") + ";" }, func() error { return t.d.observe(c, bin, fixed, t.o) })
			})
			if depth == c21Depth(c) || c.Stopped() {
				break
			}
			var next []*dir21
			c.Par(len(level)*len(ops), func(i int) {
				d, o := level[i/len(ops)], &ops[i%len(ops)]
				var n *dir21
				c.Case(func() string { return "history/" + strings.Join(append(append([]string{}, d.word...), o.name), ";") }, func() (err error) {
					n, err = d.step(c, bin, fixed, o)
					return err
				})
				if n == nil {
					return
				}
				k := n.canon()
				mu.Lock()
				defer mu.Unlock()
				if !seen[k] {
					seen[k] = true
					c.State("%s", k)
					next = append(next, n)
				}
			})
			c.Note("depth %d: %d new states", depth+1, len(next))
			level = next
		}
	})
	c21Plumbing(c, bin, fixed, keys)
}

func words21(w string) []string {
	var out []string
	for i := 1; i <= len(w); i++ {
		out = append(out, w[:i])
	}
	return append(out, strings.ToUpper(w), strings.ToUpper(w[:1])+w[1:])
}

// c21Plumbing runs operations in all their guises.
func c21Plumbing(c *eng.Ctx, bin string, fixed map[string]string, keys map[string]*ref.Key) {
	a, b := keys["A"], keys["B"]
	msg := c21Content[1]
	type variant struct {
		id     string
		args   []string
		stdin  string
		ok     bool
		out    string // file, "" for stdout, "-" for nothing
		judge  func([]byte) error
		silent bool // -q: nothing on stdout
	}
	files := map[string]string{"f": msg}
	for n, s := range fixed {
		files[n] = s
	}
	// more forms of the keys
	files["a.ssh"] = string(a.SSHPriv(ref.SSHOpt{Cipher: "none", Comment: "alice@host"}))
	files["a.sshpub"] = a.SSHPubLine("alice@host")
	files["a.sshpub0"] = a.SSHPubLine("")
	files["a.sshenc"] = string(a.SSHPriv(ref.SSHOpt{Cipher: "aes256-ctr", Pass: pwAlice, Rounds: 1, Comment: "alice@host"}))
	files["a.nopw"] = skFile(a, "")
	files[".ssh/authorized_keys"] = b.SSHPubLine("bob@host") + "\n" + a.SSHPubLine("alice@host") + "\n"
	zero, one := &ref.Key{Pk: make([]byte, 32)}, &ref.Key{Pk: append([]byte{1}, make([]byte, 31)...)}
	files["zero.pub"], files["one.pub"] = string(ref.PkDoc(zero, "")), string(ref.PkDoc(one, ""))
	files["zero.sshpub"] = zero.SSHPubLine("zero@host")
	files[".ssh/authorized_keys"] += zero.SSHPubLine("zero@host") + "\n"
	files["f.sig"] = string(ref.SigDoc(a, ref.FileDigest([]byte(msg)), "input=f"))
	files["g.sig"] = string(ref.SigDoc(a, ref.FileDigest([]byte(msg+"x")), "input=f"))
	files["f-b.sig"] = string(ref.SigDoc(b, ref.FileDigest([]byte(msg)), "input=f"))
	plain := (&ref.Spec{ChunkSize: 64, Rx: []*ref.Key{b, a}, Pts: ref.Split([]byte(msg), 64, true), Label: "p"}).Write()
	signed := (&ref.Spec{ChunkSize: 64, Rx: []*ref.Key{a}, Sender: b, Pts: ref.Split([]byte(msg), 64, true), Label: "s"}).Write()
	onlyB := (&ref.Spec{ChunkSize: 64, Rx: []*ref.Key{b}, Pts: ref.Split([]byte(msg), 64, true), Label: "b"}).Write()
	files["c"], files["cs"], files["cb"] = string(plain.Bytes), string(signed.Bytes), string(onlyB.Bytes)
	base := &dir21{files: files}

	// private key forms of A with the options that open them
	type keyForm struct {
		id, file string
		opts     []string
		ok       bool
	}
	var skForms []keyForm
	for _, f := range []struct{ file, pw string }{{"a.key", pwAlice}, {"a.ssh", "*"}, {"a.sshenc", pwAlice}, {"a.nopw", ""}} {
		for _, p := range []struct {
			pw   string
			opts []string
		}{{pwAlice, []string{"-E", "PWA"}}, {pwAlice, []string{"--env-password=PWA"}}, {pwAlice, []string{"--env-password", "PWA"}}, {pwAlice, []string{"-EPWA"}}, {"", []string{"--no-password"}}, {"", []string{"-E", "EMPTY"}}, {"bad", []string{"-E", "WRONG"}}} {
			skForms = append(skForms, keyForm{f.file + strings.Join(p.opts, "="), f.file, p.opts, f.pw == "*" || f.pw == p.pw})
		}
	}
	pkForms := []string{"a.pub", "a.sshpub", "a.sshpub0", "./a.pub"}
	blobA := ref.B64(a.SSHPubBlob())
	rawA := ref.B64(a.Pk)

	var vs []variant
	add := func(v variant) { vs = append(vs, v) }
	// place puts the options before, between or after the arguments
	place := func(pos int, word string, opts, args []string) []string {
		out := []string{word}
		switch pos {
		case 0:
			out = append(append(out, opts...), args...)
		case 1:
			out = append(append(out, args...), opts...)
		case 2:
			out = append(append(append(out, args[:1]...), opts...), args[1:]...)
		case 3:
			out = append(append(append(out, opts...), "--"), args...)
		}
		return out
	}
	signJudge := func(b []byte) error { return sigOK(b, a, []byte(msg)) }
	for pos := 0; pos < 4; pos++ {
		for wi, word := range words21("sign") {
			for ki, k := range skForms {
				if wi > 0 && ki > 0 && !c.Thorough {
					continue // words and keys are crossed in the thorough tier
				}
				for oi, o := range [][]string{nil, {"-o", "x"}, {"--output=x"}, {"-o", "-"}, {"-ox"}} {
					out := []string{"f.sig", "x", "x", "", "x"}[oi]
					opts := append(append([]string{}, k.opts...), o...)
					if out == "f.sig" {
						opts = append(opts, "--overwrite")
					}
					add(variant{id: fmt.Sprintf("sign/%d/%s/%s/%d", pos, word, k.id, oi), args: place(pos, word, opts, []string{k.file, "f"}), ok: k.ok, out: out, judge: signJudge})
				}
			}
		}
		for _, word := range words21("verify") {
			for _, pk := range append(pkForms, blobA, rawA, "b.pub", ref.B64(b.SSHPubBlob()), ref.B64(b.Pk), "nofile") {
				for _, sig := range []string{"f.sig", "g.sig", "f-b.sig", "./f.sig", "nofile", "f"} {
					for _, q := range [][]string{nil, {"-q"}, {"--quiet"}} {
						isB := pk == "b.pub" || pk == ref.B64(b.SSHPubBlob()) || pk == ref.B64(b.Pk)
						ok := pk != "nofile" && (!isB && (sig == "f.sig" || sig == "./f.sig") || isB && sig == "f-b.sig")
						add(variant{id: fmt.Sprintf("verify/%d/%s/%s/%s/%v", pos, word, pk, sig, q), args: place(pos, word, q, []string{pk, sig, "f"}), ok: ok, out: "-", silent: q != nil})
					}
				}
			}
		}
		ins := []struct{ arg, stdin string }{{"f", ""}, {"-", "f"}, {"./f", ""}}
		outs := [][]string{nil, {"-o", "x"}, {"--outfile=x"}, {"-o", "-"}, {"-ox"}}
		for wi, word := range words21("encrypt") {
			for ii, in := range ins {
				for oi, o := range outs {
					for ri, rx := range [][]string{{"a.pub"}, {"a.sshpub"}, {"a.sshpub0"}, {"alice@host"}, {"bob@host", "a.pub"}, {"b.pub", "alice@host"}, {"nobody@host"}, {"a.pub", "nobody@host"}, {"nofile"}, {"a.key"},
						// keys nobody can have
						{"zero.pub"}, {"a.pub", "one.pub"}, {"zero.sshpub", "a.pub"}, {"zero@host", "b.pub"}} {
						for si := -1; si < len(skForms); si++ {
							if !c.Thorough && wi > 0 && (si > -1 || ri > 0) || si > 0 && (ri > 0 || ii > 1 || oi > 1) {
								continue
							}
							var opts []string
							ok := ri < 6
							var sender *ref.Key
							id := "-"
							if si >= 0 {
								k := skForms[si]
								opts = append([]string{"-s", k.file}, k.opts...)
								ok = ok && k.ok
								sender, id = a, k.id
							}
							opts = append(opts, o...)
							out := "x"
							if oi == 0 || oi == 3 {
								out = ""
							}
							want := []*ref.Key{a}
							switch ri {
							case 4, 5:
								want = []*ref.Key{b, a}
							}
							add(variant{id: fmt.Sprintf("encrypt/%d/%s/%s/%d/%v/%s", pos, word, in.arg, oi, rx, id), args: place(pos, word, opts, append(append([]string{}, rx...), in.arg)), stdin: in.stdin, ok: ok, out: out,
								judge: func(b []byte) error { return encOK(b, []byte(msg), sender, want...) }})
						}
					}
				}
			}
		}
		for wi, word := range words21("decrypt") {
			for ki, k := range skForms {
				for ci, ct := range []string{"c", "cs", "cb", "f"} {
					for ii := 0; ii < 4; ii++ {
						for oi, o := range append(outs, []string{"-t"}, []string{"--test", "-o", "x"}) {
							for vi, v := range [][]string{nil, {"-v", "b.pub"}, {"--verify-sender=b.pub"}, {"-v", "a.pub"}} {
								if !c.Thorough && (wi > 0 && ki > 0 || wi > 0 && ci > 1 || ki > 0 && (ii > 1 || oi > 1) || vi > 1 && oi > 1) {
									continue
								}
								args := []string{k.file}
								stdin := ""
								switch ii {
								case 0:
									args = append(args, ct)
								case 1:
									stdin = ct
								case 2:
									args, stdin = append(args, "-"), ct
								case 3:
									args = append(args, "./"+ct)
								}
								opts := append(append(append([]string{}, k.opts...), o...), v...)
								ok := k.ok && (ci == 0 && vi == 0 || ci == 1 && (vi == 1 || vi == 2))
								x := variant{id: fmt.Sprintf("decrypt/%d/%s/%s/%s/%d/%d/%d", pos, word, k.id, ct, ii, oi, vi), args: place(pos, word, opts, args), stdin: stdin, ok: ok, out: "x", judge: equals(msg)}
								switch oi {
								case 0, 3:
									x.out = ""
								case 5, 6:
									x.out, x.silent = "-", true
								}
								add(x)
							}
						}
					}
				}
			}
		}
	}
	// what is not a command fails
	for _, w := range []string{"", "signn", "x", "generat e", "verify ", "-", "decryptt", "encr ypt", "sigtool", "sign\n"} {
		add(variant{id: fmt.Sprintf("nocommand/%q", w), args: []string{w, "--no-password", "a.nopw", "f"}, out: "-", silent: true})
	}
	// too few arguments fail
	for _, w := range [][]string{{"sign"}, {"sign", "a.nopw"}, {"verify"}, {"verify", "a.pub"}, {"verify", "a.pub", "f.sig"}, {"encrypt"}, {"encrypt", "f"}, {"encrypt", "a.pub"}, {"decrypt"}, {"generate"}, {}} {
		add(variant{id: fmt.Sprintf("fewargs/%v", w), args: w, out: "-", silent: true})
	}

	c.Suite("plumbing", func() {
		const batch = 16
		c.Par((len(vs)+batch-1)/batch, func(bi int) {
			dir, err := base.make(c, nil)
			if err != nil {
				c.Broken(err)
				return
			}
			defer os.RemoveAll(dir)
			before, err := readTree(dir)
			if err != nil {
				c.Broken(err)
				return
			}
			for i := bi * batch; i < len(vs) && i < (bi+1)*batch; i++ {
				v := vs[i]
				c.Case(func() string { return "plumbing/" + v.id }, func() error {
					var r result
					var err error
					env := append(c21Env, "EMPTY=", "HOME="+dir)
					if v.stdin != "" {
						r, err = runToolFile(bin, dir, filepath.Join(dir, v.stdin), env, v.args...)
					} else {
						r, err = runTool(bin, dir, nil, env, v.args...)
					}
					c.Trans(1)
					if err != nil {
						return err
					}
					show := fmt.Sprintf("%q < %q: exit %d", v.args, v.stdin, r.code)
					if (r.code == 0) != v.ok {
						return fmt.Errorf("%s, but it should %s: %.200s", show, map[bool]string{true: "succeed", false: "fail"}[v.ok], r.err)
					}
					c.State("%s/%v", v.id, v.ok)
					after, err := readTree(dir)
					if err != nil {
						return err
					}
					outs := map[string]func([]byte) error{}
					if v.ok && v.out != "" && v.out != "-" {
						outs[v.out] = v.judge
					}
					defer func() {
						os.Remove(filepath.Join(dir, "x"))
						os.WriteFile(filepath.Join(dir, "f.sig"), []byte(files["f.sig"]), 0600)
						before, _ = readTree(dir)
					}()
					if err := untouched(before, after, outs, func(string) bool { return false }); err != nil {
						return fmt.Errorf("%s: %w", show, err)
					}
					got := []byte(r.out)
					if len(outs) > 0 {
						x, ok := after[v.out]
						if !ok {
							return fmt.Errorf("%s: %s is missing", show, v.out)
						}
						if len(got) > 0 {
							return fmt.Errorf("%s: output on stdout as well", show)
						}
						got = []byte(x.data)
					}
					switch {
					case v.out == "-":
						if v.silent && len(got) > 0 {
							return fmt.Errorf("%s: output %.100q", show, got)
						}
					case !v.ok:
						if len(got) > 0 {
							return fmt.Errorf("%s: output %.100q", show, got)
						}
					default:
						if err := v.judge(got); err != nil {
							return fmt.Errorf("%s: %w", show, err)
						}
					}
					return nil
				})
			}
		})
	})
	c.Note("plumbing: %d command lines", len(vs))
}
