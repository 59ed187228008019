package checks

import (
	"bytes"
	"errors"
	"fmt"
	"math/bits"
	"os"
	"path"
	"sort"
	"strconv"
	"strings"

	"mc/eng"
	"mc/ref"
)

func init() {
	register(&eng.Prop{ID: "C25", Level: "model_checking",
		Rule: "one execution = one run of the real program with one command line in a directory of keys, files, signatures and ciphertexts; states = (command, what the line asks for, exit status); transitions = words; each run is judged by a reference reading of the command line, which says what must have been done - or that nothing may have been",
		Bound: func(c *eng.Ctx) string {
			return fmt.Sprintf("all sequences of up to %d words over alphabets of up to 19 words for each of the 5 commands; all edits (one word removed, put in, replaced, or exchanged with its neighbour; %d in a row) of %d complete command lines; every way to distribute the options of the fullest command lines over the places between the arguments, in several spellings; all sequences of up to %d words before and around the command; all block sizes of up to %d characters; all prefixes of command names", pick(c, 3, 4), pick(c, 1, 2), len(c25Lines()), pick(c, 2, 3), pick(c, 3, 4))
		},
		Assume: []string{"scrypt runs with a reduced N in the binary under test"},
		Run:    func(c *eng.Ctx) { viaFast(c, "c25") }})
	Subs["c25"] = runC25
}

// ---- what a command line says

type opt25 struct {
	long  string
	short byte
	val   bool
}

var c25Opts = map[string][]opt25{
	"generate": {{"help", 'h', false}, {"no-password", 0, false}, {"comment", 'c', true}, {"env-password", 'E', true}, {"overwrite", 0, false}},
	"sign":     {{"help", 'h', false}, {"no-password", 0, false}, {"env-password", 'E', true}, {"output", 'o', true}, {"overwrite", 0, false}},
	"verify":   {{"help", 'h', false}, {"quiet", 'q', false}},
	"encrypt":  {{"help", 'h', false}, {"outfile", 'o', true}, {"sign", 's', true}, {"no-password", 0, false}, {"env-password", 'E', true}, {"block-size", 'B', true}, {"overwrite", 0, false}},
	"decrypt":  {{"help", 'h', false}, {"outfile", 'o', true}, {"no-password", 0, false}, {"env-password", 'E', true}, {"verify-sender", 'v', true}, {"test", 't', false}, {"overwrite", 0, false}},
	"":         {{"help", 'h', false}, {"version", 'v', false}, {"debug", 0, false}},
}

// line25 is a command line taken apart.
type line25 struct {
	cmd  string
	val  map[string]string // options with values
	on   map[string]bool   // options without
	args []string
	bad  string // why it cannot be done
	grey bool   // may be refused: not in the documentation, but understandable
}

// parse25 reads options and arguments; with stop, up to the first argument.
func parse25(cmd string, words []string, stop bool) *line25 {
	l := &line25{cmd: cmd, val: map[string]string{}, on: map[string]bool{}}
	seen := map[string]bool{}
	bad := func(f string, a ...any) {
		if l.bad == "" {
			l.bad = fmt.Sprintf(f, a...)
		}
	}
	set := func(o opt25, v string) {
		if seen[o.long] {
			l.grey = true
		}
		seen[o.long] = true
		if o.val {
			l.val[o.long] = v
			return
		}
		b, err := strconv.ParseBool(v)
		if err != nil {
			bad("%s=%s", o.long, v)
		}
		l.on[o.long] = b
	}
	for i := 0; i < len(words); i++ {
		w := words[i]
		if len(w) < 2 || w[0] != '-' {
			if stop {
				l.args = append(l.args, words[i:]...)
				return l
			}
			l.args = append(l.args, w)
			continue
		}
		if w == "--" {
			l.args = append(l.args, words[i+1:]...)
			return l
		}
		if w[1] == '-' {
			name, v, has := strings.Cut(w[2:], "=")
			var found []opt25
			for _, o := range c25Opts[cmd] {
				if o.long == name {
					found = []opt25{o}
					break
				}
				if name != "" && strings.HasPrefix(o.long, name) {
					found = append(found, o)
				}
			}
			if len(found) != 1 {
				bad("option %s", w)
				return l // what follows may be its value
			}
			o := found[0]
			if o.long != name {
				l.grey = true
			}
			switch {
			case has:
				if !o.val {
					l.grey = true
				}
			case !o.val:
				v = "true"
			case i+1 < len(words):
				i++
				v = words[i]
			default:
				bad("no value for %s", w)
				return l
			}
			set(o, v)
			continue
		}
	shorts:
		for j := 1; j < len(w); j++ {
			for _, o := range c25Opts[cmd] {
				if o.short != w[j] {
					continue
				}
				if !o.val {
					set(o, "true")
					continue shorts
				}
				v := w[j+1:]
				if v == "" {
					if i+1 == len(words) {
						bad("no value for %s", w)
						return l
					}
					i++
					v = words[i]
				}
				set(o, v)
				break shorts
			}
			bad("option %s", w)
			return l
		}
	}
	return l
}

func size25(s string) (v uint64, ok bool) {
	if s == "" {
		return 0, false
	}
	shift := strings.IndexByte("kMGTPE", s[len(s)-1])
	switch {
	case shift >= 0:
		s = s[:len(s)-1]
	case s[len(s)-1] == 'K':
		s, shift = s[:len(s)-1], 0
	case s[len(s)-1] == 'B':
		s = s[:len(s)-1]
	}
	for i := range s {
		if s[i] < '0' || s[i] > '9' {
			return 0, false
		}
	}
	v, err := strconv.ParseUint(s, 10, 64)
	if err != nil {
		return 0, false
	}
	if shift >= 0 {
		hi, lo := bits.Mul64(v, 1<<(10*(shift+1)))
		if hi != 0 {
			return 0, false
		}
		v = lo
	}
	return v, true
}

// ---- where they run

type sit25 struct {
	files map[string]string
	sk    map[string]*ref.Key // by file
	pw    map[string]string
	pk    map[string]*ref.Key
	enc   map[string]struct {
		rx  []*ref.Key
		snd *ref.Key
	}
	ssh   map[string]*ref.Key
	all   []*ref.Key
	plain string
	env   map[string]string
	stdin map[string]string // by command
}

func newSit25() *sit25 {
	alice, bob, carol, dave := ref.KeyFor("alice"), ref.KeyFor("bob"), ref.KeyFor("carol"), ref.KeyFor("dave")
	s := &sit25{plain: "what alice and bob may read\n"}
	enc := func(label string, snd *ref.Key, rx ...*ref.Key) string {
		return string((&ref.Spec{ChunkSize: 100, Rx: rx, Sender: snd, Pts: ref.Split([]byte(s.plain), 100, true), Label: label}).Write().Bytes)
	}
	s.files = map[string]string{
		"k.key": skFile(alice, ""), "k.pub": string(ref.PkDoc(alice, "")),
		"l.key": skFile(bob, "Pw-1"), "l.pub": string(ref.PkDoc(bob, "")),
		"z.pub": string(ref.PkDoc(&ref.Key{Pk: make([]byte, 32)}, "")), // nobody can have that one
		"f":     "content of f\n", "-x": "content of -x\n", "old": "leave me alone\n",
		"s": string(ref.SigDoc(alice, ref.FileDigest([]byte("content of f\n")), "")),
		"t": string(ref.SigDoc(bob, ref.FileDigest([]byte("content of -x\n")), "")),
		"e": enc("c25e", nil, alice, bob), "es": enc("c25es", alice, alice),
		"home/.ssh/authorized_keys": carol.SSHPubLine("u@h") + "\n" + dave.SSHPubLine("dave at home") + "\n",
	}
	s.sk = map[string]*ref.Key{"k.key": alice, "l.key": bob}
	s.pw = map[string]string{"k.key": "", "l.key": "Pw-1"}
	s.pk = map[string]*ref.Key{"k.pub": alice, "l.pub": bob}
	s.ssh = map[string]*ref.Key{"u@h": carol}
	s.all = []*ref.Key{alice, bob, carol, dave}
	s.env = map[string]string{"PW": "Pw-1", "NOPW": ""}
	s.enc = map[string]struct {
		rx  []*ref.Key
		snd *ref.Key
	}{"e": {[]*ref.Key{alice, bob}, nil}, "es": {[]*ref.Key{alice}, alice}}
	s.stdin = map[string]string{"encrypt": "data on stdin\n", "decrypt": s.files["e"], "sign": "data on stdin\n"}
	return s
}

// want25 is what may come of a command line.
type want25 struct {
	what   string
	kind   string
	refuse bool // it may be refused
	free   bool // nothing is said about it
	do     func(r *result, after tree) error
	outs   map[string]func([]byte) error // files it makes
}

func (s *sit25) isFile(n string) bool { _, ok := s.files[n]; return ok && !strings.Contains(n, "/") }

// content of an input, or not.
func (s *sit25) content(n string) (string, bool) {
	if !s.isFile(n) {
		return "", false
	}
	return s.files[n], true
}

// opens finds the private key in file n.
func (s *sit25) opens(l *line25, n string) (k *ref.Key, grey bool) {
	k, ok := s.sk[n]
	if !ok {
		return nil, false
	}
	pw, given := "", false
	if l.on["no-password"] {
		given = true
		if _, both := l.val["env-password"]; both {
			grey = true
		}
	} else if v, ok := l.val["env-password"]; ok {
		var is bool
		pw, is = s.env[v]
		given = true
		if !is {
			grey = true
		}
	}
	if !given || pw != s.pw[n] {
		return nil, false
	}
	return k, grey
}

// target judges an output name: may it be written, and is it an ordinary case?
func (s *sit25) target(l *line25, out string) (ok, grey bool) {
	if out == "" || strings.HasSuffix(out, "/") || out == "home" || out == "." {
		return false, true
	}
	if _, is := s.files[out]; is && !l.on["overwrite"] {
		return false, false
	}
	return true, false
}

// says tells what has to come of "sigtool CMD WORDS".
func (s *sit25) says(cmd string, words []string) *want25 {
	l := parse25(cmd, words, false)
	kind := cmd + "/" + l.kind()
	nothing := &want25{what: "refused", refuse: true, kind: kind}
	if l.on["help"] {
		// also when something else is wrong
		return &want25{what: "help", kind: kind, refuse: l.bad != "" || l.grey, do: func(r *result, after tree) error {
			if r.out+r.err == "" {
				return errors.New("no help")
			}
			return nil
		}}
	}
	if l.bad != "" {
		// the rest was not looked at; asking for help there is fine
		for _, w := range words {
			if strings.HasPrefix(w, "-") && strings.Contains(w, "h") {
				return &want25{what: "help?", kind: kind, refuse: true, do: func(*result, tree) error { return nil }}
			}
		}
		return nothing
	}
	w := &want25{what: cmd, kind: kind, refuse: l.grey, outs: map[string]func([]byte) error{}}
	// put says that b goes to the output
	put := func(out string, f func(b []byte) error) {
		if out == "-" {
			w.do = func(r *result, after tree) error { return f([]byte(r.out)) }
			return
		}
		w.outs[out] = f
		w.do = func(*result, tree) error { return nil }
	}
	switch cmd {
	case "generate":
		if len(l.args) != 1 {
			return nothing
		}
		bn := path.Clean(l.args[0])
		if l.args[0] == "" || strings.HasPrefix(bn, "-") || bn == "." || strings.HasSuffix(l.args[0], "/") {
			return &want25{what: "odd name", kind: kind, free: true, outs: map[string]func([]byte) error{bn + ".key": okAny, bn + ".pub": okAny}}
		}
		_, a := s.files[bn+".key"]
		_, b := s.files[bn+".pub"]
		if (a || b) && !l.on["overwrite"] {
			return nothing
		}
		pw := ""
		if !l.on["no-password"] {
			v, ok := l.val["env-password"]
			if !ok {
				return nothing // nobody to ask
			}
			if pw, ok = s.env[v]; !ok {
				w.refuse = true
			}
		} else if _, both := l.val["env-password"]; both {
			w.refuse = true
		}
		w.outs[bn+".key"], w.outs[bn+".pub"] = okAny, okAny
		w.do = func(r *result, after tree) error {
			sk, pk := []byte(after[bn+".key"].data), []byte(after[bn+".pub"].data)
			k, err := skOf(sk, pw)
			if err != nil {
				return err
			}
			p, err := pkOf(pk)
			if err != nil {
				return err
			}
			if !bytes.Equal(p, k.Pk) {
				return errors.New("the keys do not belong together")
			}
			for _, old := range s.all {
				if bytes.Equal(old.Pk, k.Pk) {
					return errors.New("not a new key")
				}
			}
			for _, d := range [][]byte{sk, pk} {
				if c := yamlWord(ref.Fields(d)["comment"]); c != l.val["comment"] {
					return fmt.Errorf("comment %q", c)
				}
			}
			return nil
		}
	case "sign":
		if len(l.args) != 2 {
			return nothing
		}
		out, given := l.val["output"]
		if !given || out == "" {
			if given {
				w.refuse = true
			}
			out = l.args[1] + ".sig"
		}
		k, grey := s.opens(l, l.args[0])
		if grey {
			w.refuse = true
		}
		data, ok := s.content(l.args[1])
		if k == nil || !ok {
			return nothing
		}
		if out != "-" {
			ok, _ := s.target(l, out)
			if !ok {
				return nothing
			}
			if out == l.args[0] || out == l.args[1] {
				w.refuse = true
			}
		}
		put(out, func(b []byte) error { return sigOK(b, k, []byte(data)) })
	case "verify":
		if len(l.args) != 3 {
			return nothing
		}
		k := s.pk[l.args[0]]
		data, ok := s.content(l.args[2])
		if k == nil || !ok {
			return nothing
		}
		good := map[string]struct{ by, of string }{"s": {"k.pub", "f"}, "t": {"l.pub", "-x"}}[l.args[1]]
		if good.by == "" || s.pk[good.by] != k || s.files[good.of] != data {
			nothing.what = "bad signature"
			return nothing
		}
		w.do = func(r *result, after tree) error {
			if l.on["quiet"] && r.out+r.err != "" {
				return errors.New("not quiet")
			}
			return nil
		}
	case "encrypt":
		if len(l.args) < 2 {
			return nothing
		}
		var rx []*ref.Key
		for _, a := range l.args[:len(l.args)-1] {
			k := s.pk[a]
			if k == nil {
				k = s.ssh[a]
			}
			if k == nil {
				return nothing
			}
			rx = append(rx, k)
		}
		in := l.args[len(l.args)-1]
		data, ok := s.content(in)
		if in == "-" {
			data, ok = s.stdin["encrypt"], true
		}
		if !ok {
			return nothing
		}
		var snd *ref.Key
		if n, given := l.val["sign"]; given {
			var grey bool
			if snd, grey = s.opens(l, n); snd == nil {
				return nothing
			}
			w.refuse = w.refuse || grey
		}
		var bs uint64
		if v, given := l.val["block-size"]; given {
			if bs, ok = size25(v); !ok {
				if v != "" {
					return nothing
				}
				w.refuse = true
			}
		}
		out, given := l.val["outfile"]
		if !given || out == "" {
			if given {
				w.refuse = true
			}
			out = "-"
		}
		if out != "-" {
			if ok, _ := s.target(l, out); !ok || out == in {
				return nothing
			}
			for _, a := range append([]string{l.val["sign"]}, l.args...) {
				if a == out {
					w.refuse = true
				}
			}
		}
		put(out, func(b []byte) error { return s.encrypted(b, data, bs, snd, rx) })
	case "decrypt":
		if len(l.args) < 1 || len(l.args) > 2 {
			return nothing
		}
		k, grey := s.opens(l, l.args[0])
		w.refuse = w.refuse || grey
		in := "-"
		if len(l.args) == 2 {
			in = l.args[1]
		}
		e := in
		if in == "-" {
			e = "e"
		}
		x, ok := s.enc[e]
		if k == nil || !ok {
			return nothing
		}
		is := false
		for _, r := range x.rx {
			is = is || r == k
		}
		if !is {
			return nothing
		}
		if v, given := l.val["verify-sender"]; given {
			p := s.pk[v]
			if p == nil || p != x.snd {
				return nothing
			}
		} else if x.snd != nil {
			w.refuse = true // see DESIGN.md
		}
		out, given := l.val["outfile"]
		if l.on["test"] {
			// nothing is written, so its name does not matter
			w.refuse = w.refuse || given
			w.do = func(r *result, after tree) error {
				if strings.Contains(r.out, s.plain) {
					return errors.New("plaintext on stdout")
				}
				return nil
			}
			return w
		}
		if !given || out == "" {
			if given {
				w.refuse = true
			}
			out = "-"
		}
		if out != "-" {
			if ok, _ := s.target(l, out); !ok || out == in {
				return nothing
			}
			for _, a := range append([]string{l.val["verify-sender"]}, l.args...) {
				if a == out {
					w.refuse = true
				}
			}
		}
		put(out, equals(s.plain))
	}
	return w
}

func okAny([]byte) error { return nil }

// yamlWord takes the quotes off a scalar.
func yamlWord(s string) string {
	if n := len(s); n >= 2 && s[0] == '\'' && s[n-1] == '\'' {
		return strings.ReplaceAll(s[1:n-1], "''", "'")
	}
	if n := len(s); n >= 2 && s[0] == '"' && s[n-1] == '"' {
		if u, err := strconv.Unquote(s); err == nil {
			return u
		}
	}
	return s
}

// kind names the line by what it asks for.
func (l *line25) kind() string {
	var o []string
	for k := range l.val {
		o = append(o, k)
	}
	for k, v := range l.on {
		if v {
			o = append(o, k)
		}
	}
	sort.Strings(o)
	return fmt.Sprintf("%s/%d/%v/%v", strings.Join(o, ","), len(l.args), l.bad != "", l.grey)
}

func (s *sit25) encrypted(b []byte, data string, bs uint64, snd *ref.Key, rx []*ref.Key) error {
	f, err := ref.Parse(b)
	if err != nil {
		return err
	}
	if bs > 1<<30 {
		bs = 1 << 30
	}
	if bs != 0 && uint64(f.Hdr.ChunkSize) != bs {
		return fmt.Errorf("block size %d", f.Hdr.ChunkSize)
	}
	for _, k := range s.all {
		o, err := f.Open(k)
		is := false
		for _, r := range rx {
			is = is || r == k
		}
		if !is {
			if err == nil {
				return errors.New("somebody else can read it")
			}
			continue
		}
		if err != nil {
			return err
		}
		if string(o.Plain) != data {
			return errNotOurs
		}
		if snd == nil {
			if o.Signed {
				return errors.New("signed")
			}
		} else if err := f.SenderOK(o, snd.Pk); err != nil {
			return err
		}
	}
	return nil
}

// global reads what comes before the command.
func (s *sit25) global(words []string) *want25 {
	l := parse25("", words, true)
	nothing := &want25{what: "refused", refuse: true}
	info := &want25{what: "help", refuse: l.bad != "" || l.grey, do: func(r *result, after tree) error {
		if r.out == "" {
			return errors.New("no help")
		}
		return nil
	}}
	if l.on["version"] || l.on["help"] {
		return info
	}
	if l.bad != "" {
		for _, w := range words {
			if strings.HasPrefix(w, "-") && (strings.Contains(w, "h") || strings.Contains(w, "v")) {
				info.do = func(*result, tree) error { return nil }
				return info
			}
		}
		return nothing
	}
	if len(l.args) == 0 || l.args[0] == "" {
		return nothing
	}
	name, grey := l.args[0], l.grey
	if strings.ToLower(name) != name {
		grey = true
		name = strings.ToLower(name)
	}
	for i, w := range words {
		if w == "--" && len(words)-i-1 == len(l.args) {
			grey = true
		}
	}
	cmd := ""
	for _, x := range []string{"generate", "sign", "verify", "encrypt", "decrypt", "help"} {
		if strings.HasPrefix(x, name) {
			cmd = x // all begin differently
		}
	}
	var w *want25
	switch cmd {
	case "":
		return nothing
	case "help":
		w = info
		w.refuse = w.refuse || len(l.args) > 1
	default:
		w = s.says(cmd, l.args[1:])
	}
	w.refuse = w.refuse || grey
	return w
}

func okRun(*result, tree) error { return nil }

// ---- running them

type dirs25 struct {
	s    *sit25
	c    *eng.Ctx
	bin  string
	free chan *dir25
}

type dir25 struct {
	path   string
	before tree
}

func (d *dirs25) get() (*dir25, error) {
	select {
	case x := <-d.free:
		return x, nil
	default:
	}
	sc := &scen{files: d.s.files}
	p, err := sc.setup(d.c)
	if err != nil {
		return nil, err
	}
	t, err := readTree(p)
	return &dir25{p, t}, err
}

func (d *dirs25) put(x *dir25, clean bool) {
	if clean {
		select {
		case d.free <- x:
			return
		default:
		}
	}
	os.RemoveAll(path.Dir(x.path))
}

// run runs the program with the words and judges what came of it.
func (d *dirs25) run(words []string, w *want25) error {
	x, err := d.get()
	if err != nil {
		return err
	}
	clean := false
	defer func() { d.put(x, clean) }()
	env := []string{"HOME=" + x.path + "/home", "GOMAXPROCS=2", "PATH=/usr/bin:/bin"}
	for k, v := range d.s.env {
		env = append(env, k+"="+v)
	}
	in := ""
	for _, a := range words {
		for n, v := range d.s.stdin {
			if a != "" && strings.HasPrefix(n, strings.ToLower(a)) {
				in = v
			}
		}
		if in != "" {
			break
		}
	}
	r, err := runTool(d.bin, x.path, []byte(in), env, words...)
	if err != nil {
		return err
	}
	after, err := readTree(x.path)
	if err != nil {
		return err
	}
	d.c.Trans(len(words))
	d.c.State("%s/%s/%d/%v", w.what, w.kind, r.code, w.refuse)
	d.c.Outcome(fmt.Sprintf("%s: %d", w.what, min(r.code, 1)))
	same := func(outs map[string]func([]byte) error) error {
		return untouched(x.before, after, outs, func(string) bool { return false })
	}
	clean = same(nil) == nil
	show := fmt.Sprintf("%q: exit status %d", words, r.code)
	if w.free {
		if err := same(w.outs); err != nil {
			return fmt.Errorf("%s: %w", show, err)
		}
		return nil
	}
	if r.code != 0 {
		if !w.refuse {
			return fmt.Errorf("%s: %.200s", show, r.err)
		}
		if err := same(nil); err != nil {
			return fmt.Errorf("%s, but %w", show, err)
		}
		for _, t := range []string{d.s.plain, "MAGIC", "sigtool\x00", "signature:"} {
			if strings.Contains(r.out, t) {
				return fmt.Errorf("%s, but there is output", show)
			}
		}
		return nil
	}
	if w.do == nil {
		return fmt.Errorf("%s, but it cannot be done as written", show)
	}
	if err := same(w.outs); err != nil {
		return fmt.Errorf("%s: %w", show, err)
	}
	for n, f := range w.outs {
		a, ok := after[n]
		if !ok {
			return fmt.Errorf("%s, but %s is missing", show, n)
		}
		if b, was := x.before[n]; was && a.data == b.data {
			return fmt.Errorf("%s, but %s is as it was", show, n)
		}
		if err := f([]byte(a.data)); err != nil {
			return fmt.Errorf("%s, but %s: %w", show, n, err)
		}
	}
	if err := w.do(&r, after); err != nil {
		return fmt.Errorf("%s, but %w (stdout: %.100q)", show, err, r.out)
	}
	return nil
}

// ---- the check

// c25Words are the alphabets of the sequences.
var c25Words = map[string][]string{
	"generate": {"n", "k", "--no-password", "-E", "PW", "-EPW", "--overwrite", "-c", "-cC d", "--comment=", "--", "-", "-x", "-h", "--bogus"},
	"sign":     {"k.key", "l.key", "f", "-x", "--no-password", "-E", "PW", "-EPW", "-o", "-on", "-o-", "--output=old", "--overwrite", "--", "-h", "--bogus"},
	"verify":   {"k.pub", "l.pub", "s", "t", "f", "-x", "old", "-q", "--quiet", "--", "-", "-h", "--bogus"},
	"encrypt":  {"k.pub", "l.pub", "u@h", "z@h", "f", "-", "-o", "n", "-on", "-oold", "--overwrite", "-s", "-sk.key", "--no-password", "-B3", "--", "-h", "--outfile", "--bogus"},
	"decrypt":  {"k.key", "l.key", "e", "es", "-", "--no-password", "-EPW", "-o", "-on", "-oold", "-v", "-vk.pub", "-t", "--overwrite", "--", "-h", "--bogus"},
}

// c25More are put into complete lines.
var c25More = map[string][]string{
	"generate": {"", "--help", "--overwrite=false", "--overwrite=maybe", "-EUNSET", "--env-password", "--env-password=NOPW", "-p", "--com", "k.key", "-cx=y", "n.key"},
	"sign":     {"", "--help", "-", "--overwrite=false", "--overwrite=maybe", "-EUNSET", "--env-password=NOPW", "-oold", "--outfile=n", "--output", "--over", "-s", "k.pub", "s"},
	"verify":   {"", "--help", "-qh", "--quiet=false", "-Q", "k.key", "-o", "n", "e"},
	"encrypt":  {"", "--help", "k.key", "--overwrite=false", "-EPW", "-Enone", "--sign=", "-s", "-sl.key", "--sign=k.pub", "--output=n", "-o-", "-B", "--block-size=2k", "-B1x", "-t", "-v", "--signature", "-of", "-ok.pub", "old", "z.pub"},
	"decrypt":  {"", "--help", "k.pub", "--overwrite=false", "-EUNSET", "--verify-sender=", "-vl.pub", "--verify-sender", "--output=n", "-o-", "-tv", "-ton", "--test=false", "-s", "-B3", "f", "-oe", "-oes", "-x"},
}

// c25Lines are complete command lines.
func c25Lines() [][]string {
	var out [][]string
	for _, l := range []string{
		"generate --no-password n", "generate -E PW -c C n", "generate --no-password --overwrite --comment=x k", "generate -EPW --comment y -- n",
		"sign --no-password k.key f", "sign -E PW l.key f -o n", "sign --no-password --overwrite -o old k.key f", "sign --no-password -o - -- k.key -x",
		"verify k.pub s f", "verify -q l.pub t -- -x",
		"encrypt k.pub l.pub f", "encrypt -o n u@h -", "encrypt -s k.key --no-password l.pub u@h -B 7 -o old --overwrite f", "encrypt -E PW -s l.key k.pub -- -x",
		"decrypt --no-password k.key e", "decrypt -E PW l.key", "decrypt --no-password -v k.pub k.key es -o n", "decrypt -t --no-password k.key -", "decrypt --no-password --overwrite -oold --verify-sender k.pub k.key es",
	} {
		out = append(out, strings.Fields(l))
	}
	return out
}

// edits25 yields every line that is one edit away.
func edits25(line, words []string, f func([]string)) {
	for i := 1; i <= len(line); i++ {
		for _, w := range words {
			n := append(append(append([]string{}, line[:i]...), w), line[i:]...)
			f(n)
			if i < len(line) && line[i] != w {
				n := append([]string{}, line...)
				n[i] = w
				f(n)
			}
		}
		if i < len(line) {
			f(append(append([]string{}, line[:i]...), line[i+1:]...))
		}
		if i+1 < len(line) && line[i] != line[i+1] {
			n := append([]string{}, line...)
			n[i], n[i+1] = n[i+1], n[i]
			f(n)
		}
	}
}

func runC25(c *eng.Ctx) {
	s := newSit25()
	d := &dirs25{s: s, c: c, bin: os.Getenv("MC_TOOL"), free: make(chan *dir25, 64)}
	each := func(suite string, n int, line func(i int) []string) {
		if c.Filtering() && !c.FilterHas(suite+"/") {
			return
		}
		c.Suite(suite, func() {
			c.Par(n, func(i int) {
				ws := line(i)
				c.Case(func() string { return fmt.Sprintf("%s/%s", suite, strings.Join(quoted25(ws), " ")) }, func() error {
					return d.run(ws, s.global(ws))
				})
			})
		})
	}
	cmds := []string{"generate", "sign", "verify", "encrypt", "decrypt"}
	for _, cmd := range cmds {
		al := c25Words[cmd]
		for n := 0; n <= pick(c, 3, 4); n++ {
			each(fmt.Sprintf("words-%s-%d", cmd, n), eng.CountWords(len(al), n), func(i int) []string {
				ws := []string{cmd}
				for _, x := range eng.Word(len(al), n, i) {
					ws = append(ws, al[x])
				}
				return ws
			})
		}
	}
	for _, cmd := range cmds {
		more := append(append([]string{}, c25Words[cmd]...), c25More[cmd]...)
		seen := map[string]bool{}
		var lines [][]string
		add := func(l []string) {
			if k := strings.Join(l, "\x00"); !seen[k] {
				seen[k] = true
				lines = append(lines, l)
			}
		}
		nth := 0
		for _, l := range c25Lines() {
			if l[0] != cmd {
				continue
			}
			add(l)
			var one [][]string
			edits25(l, more, func(n []string) { one = append(one, n); add(n) })
			if c.Thorough && nth%2 == 1 {
				// twice, over the small alphabet
				for _, x := range one {
					edits25(x, c25Words[cmd], add)
				}
			}
			nth++
		}
		each("edits-"+cmd, len(lines), func(i int) []string { return lines[i] })
	}
	// options anywhere
	var lines [][]string
	for _, o := range []struct {
		cmd  string
		args []string
		opts [][]string // each in several spellings, words separated by blanks
	}{
		{"generate", []string{"n"}, [][]string{{"-E PW", "-EPW", "--env-password PW", "--env-password=PW"}, {"-c -h", "-c-h", "--comment -h", "--comment=-h"}, {"--overwrite"}}},
		{"sign", []string{"l.key", "f"}, [][]string{{"-E PW", "-EPW", "--env-password PW", "--env-password=PW"}, {"-o old", "-oold", "--output old", "--output=old"}, {"--overwrite"}}},
		{"verify", []string{"k.pub", "s", "f"}, [][]string{{"-q", "--quiet"}}},
		{"encrypt", []string{"k.pub", "u@h", "f"}, [][]string{{"-E PW", "-EPW", "--env-password PW", "--env-password=PW"}, {"-o old", "-oold", "--outfile old", "--outfile=old"}, {"--overwrite"}, {"-s l.key", "-sl.key", "--sign l.key", "--sign=l.key"}, {"-B 5", "-B5", "--block-size 5", "--block-size=5"}}},
		{"decrypt", []string{"k.key", "es"}, [][]string{{"--no-password"}, {"-o old", "-oold", "--outfile old", "--outfile=old"}, {"--overwrite"}, {"-v k.pub", "-vk.pub", "--verify-sender k.pub", "--verify-sender=k.pub"}}},
		{"decrypt", []string{"l.key", "e"}, [][]string{{"-E PW", "-EPW", "--env-password PW", "--env-password=PW"}, {"-t", "--test"}}},
	} {
		places := len(o.args) + 1
		spell := 1
		for _, x := range o.opts {
			if c.Thorough {
				spell *= len(x)
			} else {
				spell = max(spell, len(x))
			}
		}
		for p := 0; p < eng.CountWords(places, len(o.opts)); p++ {
			for k := 0; k < spell; k++ {
				at := eng.Word(places, len(o.opts), p)
				line := []string{o.cmd}
				for i := 0; i < places; i++ {
					q := k
					for j, x := range o.opts {
						w := x[(k+j)%len(x)]
						if c.Thorough {
							w = x[q%len(x)]
							q /= len(x)
						}
						if at[j] == i {
							line = append(line, strings.Fields(w)...)
						}
					}
					if i < len(o.args) {
						line = append(line, o.args[i])
					}
				}
				lines = append(lines, line)
			}
		}
	}
	each("orders", len(lines), func(i int) []string { return lines[i] })

	// around the command
	gl := []string{"-h", "--help", "-v", "--version", "--debug", "--bogus", "-z", "-vh", "help", "HELP", "zzz", "", "-", "--", "n", "-o"}
	rests := [][]string{nil, {"generate", "--no-password", "n"}, {"sign", "--no-password", "k.key", "f"}, {"verify", "k.pub", "s", "f"}, {"encrypt", "k.pub", "f"}, {"decrypt", "--no-password", "k.key", "e"}}
	for n := 0; n <= pick(c, 2, 3); n++ {
		each(fmt.Sprint("global-", n), eng.CountWords(len(gl), n)*len(rests), func(i int) []string {
			var ws []string
			for _, x := range eng.Word(len(gl), n, i/len(rests)) {
				ws = append(ws, gl[x])
			}
			return append(ws, rests[i%len(rests)]...)
		})
	}
	lines = nil
	for _, r := range rests[1:] {
		for i := 1; i <= len(r[0]); i++ {
			p := r[0][:i]
			for _, x := range []string{p, strings.ToUpper(p), p + "x", p + "-", "-" + p, "--" + p, p + " ", " " + p, p[1:], p + r[0][i-1:], p + "\n"} {
				lines = append(lines, append([]string{x}, r[1:]...))
			}
		}
	}
	each("names", len(lines), func(i int) []string { return lines[i] })

	// block sizes
	digits := []string{"0", "1", "7", "k", "K", "M", "G", "B", "E", "-", ".", "x", " "}
	lines = nil
	for n := 0; n <= pick(c, 3, 4); n++ {
		for i := 0; i < eng.CountWords(len(digits), n); i++ {
			v := ""
			for _, x := range eng.Word(len(digits), n, i) {
				v += digits[x]
			}
			lines = append(lines, []string{"encrypt", "-B", v, "k.pub", "f"})
		}
	}
	for _, v := range []string{"1073741823", "1073741824", "1073741825", "1048576k", "1024M", "4294967295", "4294967296", "4294967297", "4194305k", "18446744073709551615", "18446744073709551616", "18446744073709551617", "16E", "17179869184G", "15E", "128k", "128kB", "0x10", "1e3", "1_000", "+1", "１"} {
		lines = append(lines, []string{"encrypt", "-B", v, "k.pub", "f"})
	}
	each("sizes", len(lines), func(i int) []string { return lines[i] })
}

func quoted25(ws []string) []string {
	out := make([]string, len(ws))
	for i, w := range ws {
		out[i] = w
		if w == "" || strings.ContainsAny(w, " '\"\n/") {
			out[i] = strconv.Quote(w)
		}
	}
	return out
}
