package checks

import (
	"bufio"
	"bytes"
	"crypto/ed25519"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"

	"mc/eng"
	"mc/ref"

	"github.com/opencoff/sigtool/sign"
)

func init() {
	register(&eng.Prop{ID: "C08", Level: "model_checking",
		Rule: "one execution = one history of encryptor calls on two interleaved sessions (or one session with a faulty random source); every AEAD use (key, nonce, ciphertext) is recovered from the emitted bytes by the reference decoder; states = (history state, number of uses, verdict); transitions = API calls and random reads",
		Bound: func(c *eng.Ctx) string {
			return fmt.Sprintf("all call sequences of length 1..%d over 10 calls, two sessions; all sequences of %d calls on a sink whose k-th write (k < 7) fails having taken none, half or all, and then works again; %d consecutive sessions x 4 kinds; every random read x {fails once, fails from then on, delivers 1, delivers half, trickles}",
				pick(c, 5, 6), pick(c, 5, 6), pick(c, 64, 512))
		},
		Run: runC08})
	Helpers["c08"] = c08Helper
}

// aeadUse is one recovered AEAD invocation; ct may be a prefix (torn output).
type uses struct {
	m map[string][]byte
	n int
}

func (u *uses) add(key, nonce, ct []byte) error {
	if u.m == nil {
		u.m = map[string][]byte{}
	}
	k := string(key) + "|" + string(nonce)
	old, ok := u.m[k]
	if !ok {
		u.m[k] = ct
		u.n++
		return nil
	}
	n := min(len(old), len(ct))
	if !bytes.Equal(old[:n], ct[:n]) {
		return fmt.Errorf("key/nonce pair used for two different messages (%d and %d bytes)", len(old), len(ct))
	}
	if len(ct) > len(old) {
		u.m[k] = ct
	}
	return nil
}

// secrets of one session as recovered from its output.
type secrets struct {
	root, salt, ephPk []byte
	wn                [][]byte
}

// recover decodes a possibly torn output; entry holders in rx.
func (u *uses) recover(b []byte, rx map[string]*pair) (*secrets, error) {
	f, rest, err := ref.ParsePre(b)
	if err != nil {
		return nil, nil // torn within the header: nothing sealed under data keys is visible
	}
	s := &secrets{salt: f.Hdr.Salt, ephPk: f.Hdr.Pk}
	for i, w := range f.Hdr.Keys {
		s.wn = append(s.wn, w.Nonce)
		opened := false
		for _, p := range rx {
			root, err := f.Hdr.Unwrap(p.ref, w)
			if err != nil {
				continue
			}
			opened = true
			if s.root != nil && !bytes.Equal(s.root, root) {
				return nil, errors.New("entries carry different root keys")
			}
			s.root = root
			kek, nonce, _ := f.Hdr.WrapSecrets(p.ref, w)
			if err := u.add(kek, nonce, w.DKey); err != nil {
				return nil, fmt.Errorf("wrapped key %d: %w", i, err)
			}
			break
		}
		if !opened {
			return nil, fmt.Errorf("entry %d does not open", i)
		}
	}
	if s.root == nil {
		return nil, nil
	}
	sk, sn := f.Hdr.SenderSecrets(s.root)
	if err := u.add(sk, sn, f.Hdr.Sender); err != nil {
		return nil, fmt.Errorf("sender blob: %w", err)
	}
	dk := ref.Expand(s.root, f.Sum)
	for i := uint32(0); len(rest) > 4; i++ {
		m := uint32(rest[0]&0x7f)<<24 | uint32(rest[1])<<16 | uint32(rest[2])<<8 | uint32(rest[3])
		eof := rest[0]&0x80 != 0
		body := rest[4:]
		if uint64(len(body)) > uint64(m)+16 {
			body = body[:m+16]
		}
		if err := u.add(dk.Aes, dk.NonceOf(i), body); err != nil {
			return nil, fmt.Errorf("chunk %d: %w", i, err)
		}
		rest = rest[4+len(body):]
		if eof {
			break
		}
	}
	return s, nil
}

// tornSink accepts up to n bytes and then fails, keeping what fits.
type tornSink struct {
	sink
	n int
}

func (s *tornSink) Write(p []byte) (int, error) {
	if s.Len()+len(p) > s.n {
		k := s.n - s.Len()
		s.sink.Write(p[:k])
		return k, errInjected
	}
	return s.sink.Write(p)
}

// flakySink refuses write number k (having taken none, half or all of it) and then
// works again; it remembers all that was offered.
type flakySink struct {
	all    []byte
	n, k   int
	mode   int
	failed bool
}

func (s *flakySink) Close() error { return nil }
func (s *flakySink) Write(p []byte) (int, error) {
	s.all = append(s.all, p...)
	s.n++
	if s.n-1 == s.k {
		s.failed = true
		return len(p) * s.mode / 2, errInjected
	}
	return len(p), nil
}

// recover finds everything in the offered bytes that is a chunk record under the keys
// of the header in front, wherever it is.
func (s *flakySink) recover(u *uses, k *ref.Key) error {
	f, rest, err := ref.ParsePre(s.all)
	if err != nil {
		return nil
	}
	var root []byte
	for _, w := range f.Hdr.Keys {
		if root, err = f.Hdr.Unwrap(k, w); err == nil {
			break
		}
	}
	if root == nil {
		return errors.New("no entry opens")
	}
	sk, sn := f.Hdr.SenderSecrets(root)
	if err := u.add(sk, sn, f.Hdr.Sender); err != nil {
		return fmt.Errorf("sender blob: %w", err)
	}
	dk := ref.Expand(root, f.Sum)
	for p := 0; p+4+16 <= len(rest); p++ {
		l := binary.BigEndian.Uint32(rest[p:])
		m := int(l &^ ref.EOFBit)
		if m > len(rest) || p+4+m+16 > len(rest) {
			continue
		}
		ct := rest[p+4 : p+4+m+16]
		for i := uint32(0); i < 16; i++ {
			if _, err := dk.Open(i, ref.Chunk{Len: l, CT: ct}); err != nil {
				continue
			}
			if err := u.add(dk.Aes, dk.NonceOf(i), ct); err != nil {
				return fmt.Errorf("chunk %d: %w", i, err)
			}
		}
	}
	return nil
}

type sess struct {
	id    int
	e     *sign.Encryptor
	w     io.WriteCloser
	sinks []*tornSink
	nth   int
	rx    map[string]*pair
}

func newSess(id int, snd *pair) (*sess, error) {
	e, err := sign.NewEncryptor(snd.skOrNil(), 4)
	if err != nil {
		return nil, err
	}
	s := &sess{id: id, e: e, rx: map[string]*pair{}}
	return s, s.add(key("r1"))
}

func (s *sess) add(p *pair) error {
	err := s.e.AddRecipient(p.pk)
	if err == nil {
		s.rx[p.name] = p
	}
	return err
}

var c08Ops = []string{"add", "encrypt", "encrypt0", "torn1", "torn2", "newstream", "newstreamfail", "write9", "write3", "close"}

func (s *sess) step(op string) {
	s.nth++
	sk := func(n int) *tornSink {
		t := &tornSink{n: n}
		s.sinks = append(s.sinks, t)
		return t
	}
	pt := func(n int) []byte { return pattern(n, byte(s.nth*16+s.id*128)) }
	switch op {
	case "add":
		s.add(key(fmt.Sprintf("r%d", 1+s.nth%3)))
	case "encrypt":
		s.e.Encrypt(bytes.NewReader(pt(9)), sk(1<<30))
	case "encrypt0":
		s.e.Encrypt(bytes.NewReader(nil), sk(1<<30))
	case "torn1":
		s.e.Encrypt(bytes.NewReader(pt(9)), sk(40))
	case "torn2":
		s.e.Encrypt(bytes.NewReader(pt(2000)), sk(900))
	case "newstream", "newstreamfail":
		n := 1 << 30
		if op == "newstreamfail" {
			n = 100
		}
		w, err := s.e.NewStreamWriter(sk(n))
		if err == nil {
			s.w = w
		}
	case "write9":
		s.w.Write(pt(9))
	case "write3":
		s.w.Write(pt(3))
	case "close":
		s.w.Close()
	}
}

func distinctSecrets(all []*secrets) error {
	seen := map[string]string{}
	for i, s := range all {
		if s == nil {
			continue
		}
		for _, x := range append([][]byte{s.root, s.salt, s.ephPk}, s.wn...) {
			who := fmt.Sprint("session ", i)
			if len(x) == 0 {
				return fmt.Errorf("%s: empty secret", who)
			}
			if o, ok := seen[string(x)]; ok {
				return fmt.Errorf("%s and %s share a random quantity", o, who)
			}
			seen[string(x)] = who
		}
	}
	return nil
}

// inLog checks that the random quantities of a session are disjoint parts of the
// bytes the random source delivered.
func inLog(log []byte, s *secrets) error {
	used := make([]bool, len(log))
	find := func(name string, n int, ok func(b []byte) bool) error {
		for i := 0; i+n <= len(log); i++ {
			if !ok(log[i : i+n]) {
				continue
			}
			for j := i; j < i+n; j++ {
				if used[j] {
					return fmt.Errorf("%s shares random bytes with another quantity", name)
				}
				used[j] = true
			}
			return nil
		}
		return fmt.Errorf("%s does not come from the random source", name)
	}
	eq := func(x []byte) func(b []byte) bool { return func(b []byte) bool { return bytes.Equal(b, x) } }
	if err := find("root key", 32, eq(s.root)); err != nil {
		return err
	}
	if err := find("salt", 32, eq(s.salt)); err != nil {
		return err
	}
	if err := find("ephemeral key", 32, func(b []byte) bool {
		k := append([]byte{}, b...)
		k[0] &= 248
		k[31] &= 127
		k[31] |= 64
		return bytes.Equal(ref.X25519Base(k), s.ephPk)
	}); err != nil {
		return err
	}
	for i, w := range s.wn {
		if err := find(fmt.Sprintf("wrap nonce %d", i), len(w), eq(w)); err != nil {
			return err
		}
	}
	return nil
}

func runC08(c *eng.Ctx) {
	for _, k := range []string{"r1", "r2", "r3", "s1"} {
		key(k)
	}
	for _, snd := range []*pair{nil, key("s1")} {
		suite := "hist"
		if snd != nil {
			suite = "histsigned"
		}
		maxL := pick(c, 5, 6)
		if snd != nil {
			maxL--
		}
		c.Suite(suite, func() {
			for n := 1; n <= maxL; n++ {
				c.Par(eng.CountWords(len(c08Ops), n), func(i int) {
					ix := eng.Word(len(c08Ops), n, i)
					w := make([]string, n)
					st, data := false, false
					for j, x := range ix {
						w[j] = c08Ops[x]
						switch w[j] {
						case "newstream":
							st, data = true, true
						case "write3", "write9", "close":
							if !st {
								return
							}
						case "encrypt", "encrypt0", "torn1", "torn2":
							data = true
						}
					}
					if !data {
						return
					}
					c.Case(func() string { return suite + "/" + strings.Join(w, ".") }, func() error {
						a, err := newSess(0, snd)
						if err != nil {
							return err
						}
						b, err := newSess(1, snd)
						if err != nil {
							return err
						}
						for j, op := range w {
							// b lags one call behind
							for _, s := range []struct {
								s  *sess
								op string
							}{{a, op}, {b, w[(j+n-1)%n]}} {
								if s.s.w == nil && (s.op == "close" || strings.HasPrefix(s.op, "write")) {
									continue
								}
								s.s.step(s.op)
								c.Trans(1)
							}
						}
						if a.w != nil {
							a.step("close")
						}
						u := &uses{}
						var all []*secrets
						for _, s := range []*sess{a, b} {
							var last *secrets
							for _, k := range s.sinks {
								x, err := u.recover(k.Bytes(), s.rx)
								if err != nil {
									return err
								}
								if x != nil {
									last = x
								}
							}
							all = append(all, last)
						}
						c.State("%s/%d/%s/%v", suite, u.n, w[n-1], snd != nil)
						return distinctSecrets(all)
					})
				})
			}
		})
	}

	// a sink that fails once and then works again: what it refused was offered to it,
	// and nothing else may be sealed with the same nonce afterwards
	c.Suite("flaky", func() {
		fops := []string{"write3", "write4", "write9", "close", "encrypt"}
		n := pick(c, 5, 6)
		const maxK = 7
		c.Par(eng.CountWords(len(fops), n), func(i int) {
			ix := eng.Word(len(fops), n, i)
			w := make([]string, n)
			for j, x := range ix {
				w[j] = fops[x]
			}
			c.Case(func() string { return "flaky/" + strings.Join(w, ".") }, func() error {
				for first := 0; first < 2; first++ {
					for mode := 0; mode < 3; mode++ {
						for k := 0; k < maxK; k++ {
							e, err := sign.NewEncryptor(nil, 4)
							if err != nil {
								return err
							}
							if err := e.AddRecipient(key("r1").pk); err != nil {
								return err
							}
							f := &flakySink{k: k, mode: mode}
							sinks := []*flakySink{f}
							var wr io.WriteCloser
							if first == 0 {
								if x, err := e.NewStreamWriter(f); err == nil {
									wr = x
								}
							} else {
								e.Encrypt(bytes.NewReader(pattern(9, 200)), f)
							}
							for j, op := range w {
								pt := pattern(int(op[len(op)-1]-'0'), byte(16*j+16))
								switch {
								case op == "encrypt":
									f2 := &flakySink{k: -1}
									sinks = append(sinks, f2)
									e.Encrypt(bytes.NewReader(pattern(9, byte(16*j+16))), f2)
								case wr == nil:
								case op == "close":
									wr.Close()
								default:
									wr.Write(pt)
								}
								c.Trans(1)
							}
							u := &uses{}
							for _, f := range sinks {
								if err := f.recover(u, key("r1").ref); err != nil {
									return fmt.Errorf("start %d, write %d fails (mode %d): %w", first, k, mode, err)
								}
							}
							c.State("flaky/%d/%d/%d", first, mode, u.n)
							if !f.failed {
								break
							}
						}
					}
				}
				return nil
			})
		})
	})

	// many consecutive sessions; every quantity comes from the random source, in
	// disjoint pieces, and none repeats
	c.Suite("sessions", func() {
		n := pick(c, 64, 512)
		for kind := 0; kind < 4; kind++ {
			c.Case(func() string { return fmt.Sprint("sessions/", kind) }, func() error {
				var snd *pair
				if kind&1 == 1 {
					snd = key("s1")
				}
				u := &uses{}
				var all []*secrets
				for i := 0; i < n; i++ {
					var log []byte
					eng.RandLog(func(b []byte) { log = append(log, b...) })
					f := encOneShot
					if kind&2 == 2 {
						f = encStream
					}
					// the same plaintext every time
					b, err := f(pattern(21, 1), 8, snd, key("r1"), key("r1"), key("r2"))
					eng.RandLog(nil)
					if err != nil {
						return err
					}
					s, err := u.recover(b, map[string]*pair{"1": key("r1"), "2": key("r2")})
					if err != nil {
						return err
					}
					if err := inLog(log, s); err != nil {
						return fmt.Errorf("session %d: %w", i, err)
					}
					all = append(all, s)
					c.Trans(5)
				}
				c.State("sessions/%d/%d", kind, u.n)
				return distinctSecrets(all)
			})
		}
		c.Case(func() string { return "sessions/keys" }, func() error {
			seen := map[string]bool{}
			for i := 0; i < n; i++ {
				k, err := sign.NewPrivateKey()
				if err != nil {
					return err
				}
				c.Trans(1)
				if seen[string(k.Sk)] {
					return errors.New("NewPrivateKey repeated a key")
				}
				seen[string(k.Sk)] = true
				z := 0
				for _, x := range k.Sk[:32] {
					if x == 0 {
						z++
					}
				}
				if len(k.Sk) != 64 || z > 16 {
					return errors.New("new key is not random")
				}
				if !bytes.Equal(ed25519.NewKeyFromSeed(k.Sk[:32]), k.Sk) || !bytes.Equal(k.PublicKey().Pk, k.Sk[32:]) {
					return errors.New("NewPrivateKey made an inconsistent key")
				}
			}
			return nil
		})
		c.Case(func() string { return "sessions/sksalt" }, func() error {
			var salts [][]byte
			for i := 0; i < 3; i++ {
				var log []byte
				eng.RandLog(func(b []byte) { log = append(log, b...) })
				d, err := freshKey("r1").sk.MarshalBinary("", []byte("pw"))
				eng.RandLog(nil)
				if err != nil {
					return err
				}
				doc, err := ref.ParseSk(d)
				if err != nil {
					return err
				}
				c.Trans(1)
				if len(doc.Salt) < 32 || !bytes.Contains(log, doc.Salt) {
					return errors.New("private key salt does not come from the random source")
				}
				for _, s := range salts {
					if bytes.Equal(s[:12], doc.Salt[:12]) {
						return errors.New("private key salt repeats")
					}
				}
				salts = append(salts, doc.Salt)
			}
			return nil
		})
	})

	// long streams: the records of equal plaintext must differ, whatever their distance
	c.Suite("wrap", func() {
		c.SetHang(2 * time.Hour)
		defer c.SetHang(150 * time.Second)
		type longRun struct {
			api int
			n   int64
		}
		runs := []longRun{{0, 1<<20 + 3}, {1, 1<<20 + 3}, {0, 1<<24 + 3}, {1, 1<<24 + 3}}
		if c.Thorough { // beyond the range of the 32 bit chunk counter
			runs = append(runs, longRun{0, 1<<32 + 3}, longRun{1, 1<<32 + 3})
		}
		c.ParN(len(runs), len(runs), func(i int) {
			r := runs[i]
			c.Case(func() string { return fmt.Sprintf("wrap/%d/%d", r.api, r.n) }, func() error {
				e, err := sign.NewEncryptor(nil, 1)
				if err != nil {
					return err
				}
				if err := e.AddRecipient(key("r1").pk); err != nil {
					return err
				}
				w := &wrapSink{}
				if r.n < 1<<21 {
					w.all = map[string]int64{}
				}
				if r.api == 0 {
					err = e.Encrypt(io.LimitReader(zeroReader{}, r.n), w)
				} else if s, err := e.NewStreamWriter(w); err != nil {
					return err
				} else if _, err = io.CopyN(s, zeroReader{}, r.n); err == nil {
					err = s.Close()
				}
				c.Trans(int(w.n))
				if r.n < 1<<32 && err != nil {
					return err
				}
				return w.err
			})
		})
	})

	// failing random source: run in a process of its own, since giving up by
	// panicking (or a fatal error of crypto/rand) is a legitimate reaction
	c.Suite("fault", func() {
		type cs struct{ scen, mode string }
		var cases []cs
		for _, scen := range []string{"oneshot", "oneshotsigned", "stream", "streamsigned", "newkey", "marshal"} {
			r, err := c08Run(scen, "none", 0)
			if err != nil || !r.ok {
				c.Violate("fault/"+scen+"/none", fmt.Sprint("fails with a sound random source: ", err, r))
				return
			}
			n := r.reads
			if n == 0 && scen != "newkey" {
				c.Violate("fault/"+scen+"/none", "does not use the random source")
				return
			}
			for k := 0; k < n; k++ {
				for _, m := range []string{"once", "from", "one", "half", "oneerr"} {
					cases = append(cases, cs{scen, fmt.Sprintf("%s:%d", m, k)})
				}
			}
			cases = append(cases, cs{scen, "trickle:0"})
		}
		c.ParN(4, len(cases), func(i int) {
			x := cases[i]
			c.Case(func() string { return "fault/" + x.scen + "/" + x.mode }, func() error {
				m, ks, _ := strings.Cut(x.mode, ":")
				k, _ := strconv.Atoi(ks)
				r, err := c08Run(x.scen, m, k)
				if err != nil {
					return err
				}
				c.Trans(r.reads)
				if !r.ok {
					if m == "one" || m == "half" || m == "trickle" {
						return errors.New("a random source that delivers piecemeal makes the operation fail")
					}
					c.State("fault/%s/%s/refused", x.scen, m)
					return nil
				}
				c.State("fault/%s/%s/done", x.scen, m)
				if r.failed && m == "from" {
					return errors.New("the operation succeeded although the random source had failed")
				}
				if x.scen == "newkey" {
					return nil
				}
				if x.scen == "marshal" {
					d, err := ref.ParseSk(r.out)
					if err != nil {
						return err
					}
					if !bytes.Contains(r.log, d.Salt) {
						return errors.New("private key salt is not (entirely) from the random source")
					}
					return nil
				}
				u := &uses{}
				s, err := u.recover(r.out, map[string]*pair{"1": key("r1"), "2": key("r2")})
				if err != nil {
					return err
				}
				if s == nil {
					return errors.New("undecodable output")
				}
				return inLog(r.log, s)
			})
		})
	})
}

type zeroReader struct{}

func (zeroReader) Read(p []byte) (int, error) {
	clear(p)
	return len(p), nil
}

// wrapSink looks at a file of chunks of one zero byte (records of 21 bytes) and
// wants no two of them to be equal; it compares all (if there is a map), or those at
// distances of powers of two from the first ones.
type wrapSink struct {
	n     int64 // chunks seen
	hdr   int
	rec   []byte
	first [4][]byte
	all   map[string]int64
	err   error
}

func (w *wrapSink) Write(p []byte) (int, error) {
	n := len(p)
	if w.hdr == 0 { // header: fixed part, variable part and checksum in any number of writes
		w.rec = append(w.rec, p...)
		if len(w.rec) < 12 {
			return n, nil
		}
		h := 12 + int(binary.BigEndian.Uint32(w.rec[8:])) + 32
		if len(w.rec) < h {
			return n, nil
		}
		w.hdr = h
		p, w.rec = w.rec[h:], nil
	}
	if len(w.rec) == 0 && len(p) == 21 {
		w.record(p)
		return n, nil
	}
	w.rec = append(w.rec, p...)
	for len(w.rec) >= 21 {
		w.record(w.rec[:21])
		w.rec = w.rec[21:]
	}
	return n, nil
}

func (w *wrapSink) record(r []byte) {
	i := w.n
	w.n++
	if r[0]&0x80 != 0 || w.err != nil || binary.BigEndian.Uint32(r) != 1 {
		return // last chunk, trailer
	}
	if w.all != nil {
		if j, ok := w.all[string(r)]; ok {
			w.err = fmt.Errorf("chunks %d and %d are sealed under the same key and nonce", j, i)
		}
		w.all[string(r)] = i
		return
	}
	if i < int64(len(w.first)) {
		w.first[i] = append([]byte{}, r...)
	}
	for k, f := range w.first {
		if d := i - int64(k); d > 0 && d&(d-1) == 0 && bytes.Equal(r, f) {
			w.err = fmt.Errorf("chunks %d and %d are sealed under the same key and nonce", k, i)
		}
	}
}

func (w *wrapSink) Close() error { return nil }

type c08Result struct {
	ok, failed bool
	reads      int
	log, out   []byte
}

func c08Run(scen, mode string, k int) (*c08Result, error) {
	me, err := os.Executable()
	if err != nil {
		return nil, err
	}
	cmd := exec.Command(me, "c08", scen, mode, strconv.Itoa(k))
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Run()
	r := &c08Result{}
	sc := bufio.NewScanner(&out)
	sc.Buffer(nil, 1<<24)
	started := false
	for sc.Scan() {
		k, v, _ := strings.Cut(sc.Text(), " ")
		switch k {
		case "start":
			started = true
		case "read":
			r.reads++
		case "failed":
			r.failed = true
		case "log":
			b, _ := hex.DecodeString(v)
			r.log = append(r.log, b...)
		case "out":
			r.out, _ = hex.DecodeString(v)
			r.ok = true
		}
	}
	if !started {
		return nil, errors.New("helper process did not start")
	}
	return r, nil
}

func c08Helper(a []string) {
	scen, mode := a[0], a[1]
	k, _ := strconv.Atoi(a[2])
	r1, r2, s1 := key("r1"), key("r2"), key("s1")
	eng.SeedRand(1, "c08"+scen)
	eng.RandLog(func(b []byte) { fmt.Printf("log %x\n", b) })
	n := 0
	eng.RandHook(func(want int) (int, error) {
		fmt.Println("read")
		i := n
		n++
		fail := func() (int, error) { fmt.Println("failed"); return 0, errInjected }
		switch mode {
		case "once":
			if i == k {
				return fail()
			}
		case "from":
			if i >= k {
				return fail()
			}
		case "one":
			if i == k {
				return 1, nil
			}
		case "half":
			if i == k {
				return max(1, want/2), nil
			}
		case "oneerr": // one byte, then failure
			if i == k {
				return 1, nil
			}
			if i == k+1 {
				return fail()
			}
		case "trickle":
			return 1, nil
		}
		return want, nil
	})
	fmt.Println("start")
	var out []byte
	var err error
	switch scen {
	case "oneshot":
		out, err = encOneShot(pattern(21, 1), 8, nil, r1, r2)
	case "oneshotsigned":
		out, err = encOneShot(pattern(21, 1), 8, s1, r1, r2)
	case "stream":
		out, err = encStream(pattern(21, 1), 8, nil, r1, r2)
	case "streamsigned":
		out, err = encStream(pattern(21, 1), 8, s1, r1, r2)
	case "newkey":
		var k *sign.PrivateKey
		if k, err = sign.NewPrivateKey(); err == nil {
			out = k.Sk
		}
	case "marshal":
		out, err = r1.sk.MarshalBinary("", []byte("pw"))
	}
	if err == nil {
		fmt.Printf("out %x\n", out)
	}
}
