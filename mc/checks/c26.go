package checks

import (
	"bytes"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"sync"

	"mc/eng"
	"mc/ref"

	"github.com/opencoff/sigtool/sign"
)

func init() {
	register(&eng.Prop{ID: "C26", Level: "model_checking",
		Rule: "one execution = one encryption; 2-safety by self-composition: all files of the bounded space are compared with each other - the structure of those that agree in the public parameters byte for byte, the opaque parts of all for any common substring, and every file with the keys and data that went into it; states = public structures; transitions = opaque fields looked at",
		Bound: func(c *eng.Ctx) string {
			return fmt.Sprintf("senders {none, two keys, a recipient} x all recipient sequences of length 1..%d over 3 keys (native and OpenSSH form) x plaintext lengths around the chunk boundaries x 3 contents x chunk sizes x both APIs, each encrypted twice; common substrings of 12 bytes; with the same randomness, everything readable compared over keys and contents, and digests of all pairs of what a guesser knows; 53 kinds of content x 9 ways to hand them over in pieces, against plain data of the same length", pick(c, 2, 3))
		},
		Assume: []string{"the cipher itself leaks nothing (AES-GCM, X25519, HKDF)", "12 equal random bytes do not occur by chance"},
		Run:    runC26})
}

// span is a part of a file that must look random.
type span struct {
	name string
	b    []byte
}

// outside is what anybody can see of a file: its structure and the opaque parts.
func outside(ct []byte) (view string, spans []span, err error) {
	f, err := ref.Parse(ct)
	if err != nil {
		return "", nil, err
	}
	var t strings.Builder
	fmt.Fprintf(&t, "%x", ct[:12])
	var fields func(b []byte, at string, depth int) error
	fields = func(b []byte, at string, depth int) error {
		for len(b) > 0 {
			k, n := binary.Uvarint(b)
			if n <= 0 {
				return errors.New("header encoding")
			}
			fmt.Fprintf(&t, " %x", b[:n])
			b = b[n:]
			u, n := binary.Uvarint(b)
			if n <= 0 {
				return errors.New("header encoding")
			}
			fmt.Fprintf(&t, ":%x", b[:n])
			b = b[n:]
			switch k & 7 {
			case 0:
			case 2:
				if u > uint64(len(b)) {
					return errors.New("header encoding")
				}
				name := fmt.Sprintf("%s.%d", at, k>>3)
				if k>>3 == 5 && depth == 0 {
					t.WriteString("(")
					if err := fields(b[:u], name, 1); err != nil {
						return err
					}
					t.WriteString(")")
				} else {
					spans = append(spans, span{name, b[:u]})
				}
				b = b[u:]
			default:
				return errors.New("header encoding")
			}
		}
		return nil
	}
	if err := fields(f.Var, "header", 0); err != nil {
		return "", nil, err
	}
	spans = append(spans, span{"checksum", f.Sum})
	for i, c := range f.Chunks {
		fmt.Fprintf(&t, " %08x+%d", c.Len, len(c.CT))
		spans = append(spans, span{fmt.Sprint("chunk ", i), c.CT})
	}
	fmt.Fprintf(&t, " %d+%d", len(f.Trailer), len(f.Rest))
	spans = append(spans, span{"trailer", f.Trailer}, span{"rest", f.Rest})
	return t.String(), spans, nil
}

const grain = 12

// mark is a window of an opaque part.
type mark struct {
	h    uint64
	file uint32
	span uint16
	off  uint32
}

type seen26 struct {
	name  string
	spans []span
}

// watch26 collects what can be seen.
type watch26 struct {
	c     *eng.Ctx
	mu    sync.Mutex
	files []seen26
	views map[string][2]string // public parameters: view, first file
	marks []mark
}

// add looks at a file; public is what its structure may depend on.
func (w *watch26) add(name, public string, ct []byte, secrets map[string][]byte) error {
	view, spans, err := outside(ct)
	if err != nil {
		return err
	}
	w.c.Trans(len(spans))
	w.c.State("%s", view)
	for _, s := range spans {
		for i := 0; i+8 <= len(s.b); i++ {
			same := true
			for _, x := range s.b[i+1 : i+8] {
				same = same && x == s.b[i]
			}
			if same {
				return fmt.Errorf("%s contains a run of %02x", s.name, s.b[i])
			}
		}
	}
	for n, k := range secrets {
		for i := 0; i+grain <= len(k); i += 4 {
			if bytes.Contains(ct, k[i:i+grain]) {
				return fmt.Errorf("part of %s is in the file", n)
			}
		}
		b64 := []byte(strings.TrimRight(base64.StdEncoding.EncodeToString(k), "="))
		for i := 0; i+16 <= len(b64); i += 16 {
			if bytes.Contains(ct, b64[i:i+16]) {
				return fmt.Errorf("%s is in the file, in base64", n)
			}
		}
		if len(k) < grain && len(k) > 5 && bytes.Contains(ct, k) {
			return fmt.Errorf("%s is in the file", n)
		}
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	if v, ok := w.views[public]; !ok {
		w.views[public] = [2]string{view, name}
	} else if v[0] != view {
		return fmt.Errorf("it can be told from %s: structure %q, not %q", v[1], view, v[0])
	}
	n := uint32(len(w.files))
	w.files = append(w.files, seen26{name, spans})
	for i, s := range spans {
		for j := 0; j+grain <= len(s.b); j++ {
			w.marks = append(w.marks, mark{binary.LittleEndian.Uint64(s.b[j:]), n, uint16(i), uint32(j)})
		}
	}
	return nil
}

// common finds opaque parts that occur twice.
func (w *watch26) common() error {
	slices.SortFunc(w.marks, func(a, b mark) int {
		switch {
		case a.h < b.h:
			return -1
		case a.h > b.h:
			return 1
		}
		return 0
	})
	at := func(m mark) []byte { return w.files[m.file].spans[m.span].b[m.off : m.off+grain] }
	for i := 1; i < len(w.marks); i++ {
		for j := i - 1; j >= 0 && w.marks[j].h == w.marks[i].h; j-- {
			a, b := w.marks[j], w.marks[i]
			if bytes.Equal(at(a), at(b)) {
				return fmt.Errorf("%s of %s and %s of %s have bytes in common", w.files[a.file].spans[a.span].name, w.files[a.file].name, w.files[b.file].spans[b.span].name, w.files[b.file].name)
			}
		}
	}
	return nil
}

func runC26(c *eng.Ctx) {
	rxs := []*pair{key("priv-a"), key("priv-b"), key("priv-c")}
	snds := []*pair{nil, key("priv-s"), key("priv-t"), rxs[0]}
	secrets := map[string][]byte{}
	for _, p := range append(append([]*pair{}, rxs...), snds[1:3]...) {
		secrets["the public key of "+p.name] = p.ref.Pk
		secrets["the private key of "+p.name] = p.ref.Sk
		secrets["the key hash of "+p.name] = p.ref.Hash()
		secrets["the curve form of the public key of "+p.name] = p.ref.CurvePK()
		secrets["the curve form of the private key of "+p.name] = p.ref.CurveSK()
		secrets["the comment "+p.name] = []byte(p.name)
	}
	// the public keys with comments, native and OpenSSH
	pks := map[*pair][2]*sign.PublicKey{}
	for _, p := range rxs {
		a, err1 := sign.MakePublicKey(ref.PkDoc(p.ref, p.name))
		b, err2 := sign.MakePublicKey([]byte(p.ref.SSHPubLine(p.name)))
		if err := errors.Join(err1, err2); err != nil {
			c.Broken(err)
			return
		}
		a.ToCurve25519PK()
		b.ToCurve25519PK()
		pks[p] = [2]*sign.PublicKey{a, b}
	}
	w := &watch26{c: c, views: map[string][2]string{}}
	type shape struct {
		chunk uint64
		n     int
	}
	shapes := []shape{{16, 0}, {16, 15}, {16, 16}, {16, 17}, {16, 48}, {100, 0}, {100, 150}, {100, 200}, {0, 300}}
	if c.Thorough {
		shapes = append(shapes, shape{1, 3}, shape{33, 32}, shape{33, 33}, shape{33, 34}, shape{33, 99}, shape{4096, 9000})
	}
	var seqs [][]int
	eng.Words(2*len(rxs), 1, pick(c, 2, 3), func(ix []int) { seqs = append(seqs, ix) })
	if c.Thorough {
		// the form of the key matters little in longer ones
		seqs = slices.DeleteFunc(seqs, func(ix []int) bool {
			return len(ix) == 3 && (ix[0] >= 3 || ix[2] >= 3)
		})
	}
	contents := []func(n int) []byte{
		func(n int) []byte { return make([]byte, n) },
		func(n int) []byte { return pattern(n, 0x5b) },
		func(n int) []byte { return bytes.Repeat([]byte("SigTool secret! "), n/16+1)[:n] },
	}
	if c.Filtering() {
		// what a file has in common with others shows only in all of them
		c.SetFilter("")
	}
	c.Suite("files", func() {
		c.Par(len(shapes)*len(seqs)*len(snds), func(i int) {
			sh, ix, snd := shapes[i%len(shapes)], seqs[i/len(shapes)%len(seqs)], snds[i/len(shapes)/len(seqs)]
			for ci, content := range contents {
				for api := 0; api < 2; api++ {
					for again := 0; again < 2; again++ {
						name := fmt.Sprintf("files/%v/%v/%s/%d/%d/%d", sh, ix, sndName(snd), ci, api, again)
						c.Case(func() string { return name }, func() error {
							pt := content(sh.n)
							e, err := sign.NewEncryptor(snd.skOrNil(), sh.chunk)
							if err != nil {
								return err
							}
							for _, r := range ix {
								if err := e.AddRecipient(pks[rxs[r%len(rxs)]][r/len(rxs)]); err != nil {
									return err
								}
							}
							var s sink
							if api == 0 {
								err = e.Encrypt(bytes.NewReader(pt), &s)
							} else {
								err = streamTo(e, &s, pt)
							}
							if err != nil {
								return err
							}
							f, _, err := ref.ParsePre(s.Bytes())
							if err != nil {
								return err
							}
							sec := map[string][]byte{}
							for k, v := range secrets {
								sec[k] = v
							}
							if ci > 0 {
								sec["the plaintext"] = pt
							}
							o, err := f.Open(rxs[ix[0]%len(rxs)].ref)
							if err != nil {
								return err
							}
							sec["the root key"] = o.Root
							k := o.Keys
							sec["the data key"], sec["the hmac key"] = k.Aes, k.Hmac
							return w.add(name, fmt.Sprint(sh, len(f.Hdr.Keys), api), s.Bytes(), sec)
						})
					}
				}
			}
		})
	})
	c.Suite("guesses", func() { c26Guess(c) })
	c.Suite("contents", func() { c26Contents(c, rxs[0], snds[1]) })
	c.Suite("common", func() {
		c.Case(func() string { return "common/all" }, w.common)
	})
	c.Suite("tool", func() { c26Tool(c, secrets) })
}

// c26Guess plays somebody who guesses who the file is for and what is in it. With the
// same randomness, what is not encrypted must not depend on keys and content at all,
// and nothing in the file may be a digest of what he knows.
func c26Guess(c *eng.Ctx) {
	rxs := []*pair{key("priv-a"), key("priv-b"), key("priv-c")}
	snds := []*pair{nil, key("priv-s"), key("priv-t")}
	var seqs [][]int
	eng.Words(len(rxs), 1, 3, func(ix []int) { seqs = append(seqs, ix) })
	contents := []func(n int) []byte{
		func(n int) []byte { return make([]byte, n) },
		func(n int) []byte { return pattern(n, 0x5b) },
	}
	var mu sync.Mutex
	first := map[string][2]string{}
	for _, n := range []int{0, 40, 64} {
		c.Par(len(seqs)*len(snds), func(i int) {
			ix, snd := seqs[i%len(seqs)], snds[i/len(seqs)]
			for ci, content := range contents {
				for api := 0; api < 2; api++ {
					name := fmt.Sprintf("guesses/%d/%v/%s/%d/%d", n, ix, sndName(snd), ci, api)
					c.Case(func() string { return name }, func() error {
						eng.SeedRand(c.Seed, "guesses")
						pt := content(n)
						var rx []*pair
						for _, j := range ix {
							rx = append(rx, rxs[j])
						}
						enc := encOneShot
						if api == 1 {
							enc = encStream
						}
						ct, err := enc(pt, 32, snd, rx...)
						if err != nil {
							return err
						}
						f, err := ref.Parse(ct)
						if err != nil {
							return err
						}
						open := fmt.Sprintf("session key %x salt %x", f.Hdr.Pk, f.Hdr.Salt)
						for _, k := range f.Hdr.Keys {
							open += fmt.Sprintf(" nonce %x", k.Nonce)
						}
						if snd == nil {
							open += fmt.Sprintf(" trailer %x", f.Trailer)
						}
						class := fmt.Sprint(n, len(ix), snd == nil, api)
						mu.Lock()
						if v, ok := first[class]; !ok {
							first[class] = [2]string{open, name}
						} else if v[0] != open {
							err = fmt.Errorf("what anybody can see depends on keys or content: %s, and %s for %s", open, v[0], v[1])
						}
						mu.Unlock()
						if err != nil {
							return err
						}
						known := map[string][]byte{"the salt": f.Hdr.Salt, "the session key": f.Hdr.Pk, "a nonce": f.Hdr.Keys[0].Nonce, "the header": f.Var, "the checksum": f.Sum, "the content": pt, "": nil}
						for _, r := range rx {
							known["the public key of "+r.name] = r.ref.Pk
							known["the key hash of "+r.name] = r.ref.Hash()
							known["the curve form of the public key of "+r.name] = r.ref.CurvePK()
						}
						if snd != nil {
							known["the public key of the sender"] = snd.ref.Pk
							known["the key hash of the sender"] = snd.ref.Hash()
						}
						rest := append(append([]byte{}, f.Var...), ct[12+len(f.Var)+len(f.Sum):]...)
						for an, a := range known {
							for bn, b := range known {
								ab := append(append([]byte{}, a...), b...)
								h1, h2 := sha256.Sum256(ab), sha512.Sum512(ab)
								c.Trans(2)
								for _, w := range [][]byte{h1[:grain], h1[len(h1)-grain:], h2[:grain], h2[len(h2)-grain:]} {
									if bytes.Contains(rest, w) {
										return fmt.Errorf("a digest of %s and %s is in the file", an, bn)
									}
								}
							}
						}
						return nil
					})
				}
			}
		})
	}
}

// cuts lists ways to hand over data in pieces.
func cuts(d []byte) map[string][][]byte {
	every := func(n int) (out [][]byte) {
		for len(d) > 0 && n < len(d) && len(out) < 3000 {
			if len(out)*n+n >= len(d) {
				break
			}
			out = append(out, d[len(out)*n:len(out)*n+n])
		}
		return append(out, d[len(out)*n:])
	}
	m := map[string][][]byte{"whole": {d}, "ones": every(1), "sevens": every(7), "blocks": every(16), "blocks of 4096": every(4096),
		"after a third": {d[:len(d)/3], d[len(d)/3:]}, "empty ones": {{}, d[:len(d)/2], {}, d[len(d)/2:], {}}}
	m["lines"] = bytes.SplitAfter(d, []byte("\n"))
	m["words"] = bytes.SplitAfter(d, []byte(" "))
	if n := len(d); n > 0 {
		m["last alone"] = [][]byte{d[:n-1], d[n-1:]}
		m["first alone"] = [][]byte{d[:1], d[1:]}
	}
	return m
}

// c26Contents looks at what is in a file, and at how its maker got it: neither shows
// in the structure.
func c26Contents(c *eng.Ctx, rx, snd *pair) {
	var mu sync.Mutex
	views := map[string][2]string{}
	look := func(public, name string, ct []byte) error {
		view, spans, err := outside(ct)
		if err != nil {
			return err
		}
		c.Trans(len(spans))
		mu.Lock()
		defer mu.Unlock()
		if v, ok := views[public]; !ok {
			views[public] = [2]string{view, name}
		} else if v[0] != view {
			return fmt.Errorf("it can be told from %s: structure %q, not %q", v[1], short(view), short(v[0]))
		}
		return nil
	}
	type item struct {
		name string
		d    []byte
	}
	var items []item
	for _, x := range contents() {
		// what is compared with it has the same length and nothing special
		items = append(items, item{x.name, x.data}, item{fmt.Sprintf("plain/%d", len(x.data)), pattern(len(x.data), 0x33)})
	}
	if c.Filtering() {
		c.SetFilter("")
	}
	for _, chunk := range []uint64{16, 100, 4096, 0} {
		c.Par(len(items), func(i int) {
			it := items[i]
			if len(it.d) > int(chunk)*1000 && chunk != 0 {
				return
			}
			for _, s := range []*pair{nil, snd} {
				for how, pieces := range cuts(it.d) {
					c.Case(func() string { return fmt.Sprintf("contents/%d/%s/%s/%s", chunk, it.name, how, sndName(s)) }, func() error {
						e, err := newEnc(chunk, s, rx)
						if err != nil {
							return err
						}
						var one sink
						if err = e.Encrypt(&pieceReader{slices.Clone(pieces)}, &one); err != nil {
							return err
						}
						name := it.name + "/" + how
						if err = look(fmt.Sprintf("%d/%d/encrypt", chunk, len(it.d)), name, one.Bytes()); err != nil {
							return err
						}
						if e, err = newEnc(chunk, s, rx); err != nil {
							return err
						}
						var two sink
						w, err := e.NewStreamWriter(&two)
						if err != nil {
							return err
						}
						for _, p := range pieces {
							if _, err = w.Write(p); err != nil {
								return err
							}
						}
						if err = w.Close(); err != nil {
							return err
						}
						return look(fmt.Sprintf("%d/%d/writer", chunk, len(it.d)), name, two.Bytes())
					})
				}
			}
			c.State("contents/%d/%s", chunk, it.name)
		})
	}
}

// pieceReader delivers its data in given pieces.
type pieceReader struct{ pieces [][]byte }

func (r *pieceReader) Read(p []byte) (int, error) {
	for len(r.pieces) > 0 && len(r.pieces[0]) == 0 {
		r.pieces = r.pieces[1:]
	}
	if len(r.pieces) == 0 {
		return 0, io.EOF
	}
	n := copy(p, r.pieces[0])
	r.pieces[0] = r.pieces[0][n:]
	return n, nil
}

func short(s string) string {
	if len(s) > 300 {
		return s[:300] + ".."
	}
	return s
}

func sndName(p *pair) string {
	if p == nil {
		return "nobody"
	}
	return p.name
}

// streamTo writes pt in two pieces.
func streamTo(e *sign.Encryptor, s *sink, pt []byte) error {
	w, err := e.NewStreamWriter(s)
	if err != nil {
		return err
	}
	h := len(pt) / 3
	for _, p := range [][]byte{pt[:h], pt[h:]} {
		if _, err := w.Write(p); err != nil {
			return err
		}
	}
	return w.Close()
}

// c26Tool looks at files made by the program: names and the ways of giving the same
// things do not show either.
func c26Tool(c *eng.Ctx, secrets map[string][]byte) {
	bin, err := cli(c)
	if err != nil {
		c.Broken(err)
		return
	}
	a, b, s, t := ref.KeyFor("priv-a"), ref.KeyFor("priv-b"), ref.KeyFor("priv-s"), ref.KeyFor("priv-t")
	data := string(pattern(500, 0x21))
	sc := &scen{files: map[string]string{
		"recipient-one.pub": string(ref.PkDoc(a, "comment-of-one")), "recipient-two.pub": string(ref.PkDoc(b, "comment-of-two")), "recipient-ssh.pub": a.SSHPubLine("comment-of-ssh"),
		"sender-s.key": string(s.SSHPriv(ref.SSHOpt{Cipher: "none", Comment: "comment-of-s"})), "sender-t.key": string(t.SSHPriv(ref.SSHOpt{Cipher: "none", Comment: "comment-of-t"})),
		"name-of-input": data, "n2": data, "home/.ssh/authorized_keys": b.SSHPubLine("user-name@host-name") + "\n",
	}}
	dir, err := sc.setup(c)
	if err != nil {
		c.Broken(err)
		return
	}
	defer os.RemoveAll(filepath.Dir(dir))
	sec := map[string][]byte{"the plaintext": []byte(data)}
	for k, v := range secrets {
		sec[k] = v
	}
	for _, n := range []string{"recipient-one", "comment-of-one", "comment-of-two", "comment-of-ssh", "sender-s", "comment-of-s", "name-of-input", "name-of-output", "user-name", "host-name"} {
		sec["the name "+n] = []byte(n)
	}
	if h, err := os.Hostname(); err == nil {
		sec["the host name"] = []byte(h)
	}
	w := &watch26{c: c, views: map[string][2]string{}}
	for _, snd := range []string{"", "sender-s.key", "sender-t.key"} {
		for _, rx := range []string{"recipient-one.pub", "recipient-two.pub", "recipient-ssh.pub", "user-name@host-name"} {
			for _, in := range []string{"name-of-input", "n2", "-"} {
				for _, out := range []string{"name-of-output", "o", "-"} {
					name := fmt.Sprintf("tool/%s/%s/%s/%s", snd, rx, in, out)
					c.Case(func() string { return name }, func() error {
						args := []string{"encrypt", "-B", "200", "-o", out, "--overwrite"}
						if snd != "" {
							args = append(args, "-s", snd)
						}
						r, err := runTool(bin, dir, []byte(data), []string{"HOME=" + dir + "/home", "USER=user-name"}, append(args, rx, in)...)
						if err != nil {
							return err
						}
						if r.code != 0 {
							return fmt.Errorf("exit status %d: %.200s", r.code, r.err)
						}
						ct := []byte(r.out)
						if out != "-" {
							if ct, err = os.ReadFile(filepath.Join(dir, out)); err != nil {
								return err
							}
						}
						return w.add(name, "", ct, sec)
					})
				}
			}
		}
	}
	c.Case(func() string { return "tool/common" }, w.common)
}
