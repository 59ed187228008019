package checks

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"crypto/sha256"
	"crypto/sha512"

	"mc/eng"
	"mc/ref"

	"github.com/opencoff/sigtool/sign"
)

func init() {
	register(&eng.Prop{ID: "C13", Level: "model_checking",
		Rule: "one execution = one key document (written by the code or by the reference, possibly edited) opened with one or all passphrases of the catalogue; the verdict of the reference (which passphrase bytes, which decoded esk/salt/N/r/p) decides; states = (suite, edited field, verdict); transitions = documents opened",
		Bound: func(c *eng.Ctx) string {
			return fmt.Sprintf("all pairs over %d passphrases (all words of length 0..%d over %d characters plus long, near-equal and pre-hash shaped ones); every value of every byte of a document; every bit and every length of esk and salt; all pairs over %d KDF parameter triples plus invalid ones; all mixtures of the fields of 3 documents; the passphrases an environment can hold and what is near them x commands of the tool; default cost checked with the real KDF on %d documents",
				len(c13Pass(c)), pick(c, 2, 3), len(c13Alpha), len(c13Params()), pick(c, 3, 8))
		},
		Assume: []string{"most documents use a small scrypt N (written by the reference), or a build with reduced N (written by the code)"},
		Run:    runC13})
	Subs["c13fast"] = runC13fast
}

var c13Alpha = []byte("aA 0\n\x00\xff\xc3")

func c13Pass(c *eng.Ctx) []string {
	var out []string
	seen := map[string]bool{}
	add := func(s string) {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	eng.Words(len(c13Alpha), 0, pick(c, 2, 3), func(w []int) { add(c12Word(w, c13Alpha)) })
	for _, n := range []int{31, 32, 33, 55, 56, 63, 64, 65, 71, 72, 73, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4096, 65536} {
		s := strings.Repeat("p", n)
		add(s)
		add(s[:n-1] + "q")
		add("q" + s[1:])
		add(s[:n-1] + "\x00")
	}
	s5, s2 := sha512.Sum512([]byte("a")), sha256.Sum256([]byte("a"))
	for _, s := range []string{"passphrase", "Passphrase", "passphrase ", " passphrase", "passphrase\n", "passphrase\r\n", "passphrase\x00", "passphras", "caf\u00e9", "cafe\u0301", "\ufeffa", "a\x00b", "a\x00c",
		string(s5[:]), hex.EncodeToString(s5[:]), string(s2[:]), hex.EncodeToString(s2[:]), "YQ==", "%61", "\"a\"", "'a'"} {
		add(s)
	}
	return out
}

type c13Par struct{ n, r, p int }

func c13Params() []c13Par {
	var out []c13Par
	for _, n := range []int{2, 4, 8, 16, 64, 256} {
		for r := 1; r <= 4; r++ {
			for p := 1; p <= 3; p++ {
				out = append(out, c13Par{n, r, p})
			}
		}
	}
	return out
}

func c13Doc(k *ref.Key, pw string, tag string, p c13Par) *ref.SkDoc {
	return ref.SealSk(k, pw, sum256([]byte("salt "+tag)), p.n, p.r, p.p)
}

// c13Open judges one attempt. want: the key must come out; otherwise an error, or
// (lenient) the same key.
func c13Open(doc []byte, pw string, k *ref.Key, want bool) error {
	sk, err := sign.MakePrivateKey(doc, func() ([]byte, error) { return []byte(pw), nil })
	if err != nil {
		if want {
			return fmt.Errorf("passphrase %.40q: %w", pw, err)
		}
		if sk != nil {
			return errors.New("a key along with an error")
		}
		return nil
	}
	if sk == nil || !bytes.Equal(sk.Sk, k.Sk) || !bytes.Equal(sk.PublicKey().Pk, k.Pk) {
		return fmt.Errorf("passphrase %.40q: opened as a different key", pw)
	}
	if !want {
		return fmt.Errorf("opened with passphrase %.40q (%d bytes)", pw, len(pw))
	}
	return nil
}

// leaks looks for key material in the clear.
func leaks(b []byte, k *ref.Key) error {
	seed := k.Sk[:32]
	forms := map[string][]byte{"raw": seed, "hex": []byte(hex.EncodeToString(seed)), "HEX": []byte(strings.ToUpper(hex.EncodeToString(seed)))}
	cv := k.CurveSK()
	forms["curve"] = cv
	forms["curve hex"] = []byte(hex.EncodeToString(cv))
	for _, x := range []struct {
		n string
		b []byte
	}{{"seed", seed}, {"curve", cv}} {
		for off := 0; off < 3; off++ {
			// whole 3 byte groups inside the value, at each alignment
			in := x.b[(3-off)%3:]
			in = in[:len(in)/3*3]
			forms[fmt.Sprint(x.n, " base64 ", off)] = []byte(base64.StdEncoding.EncodeToString(in))
			forms[fmt.Sprint(x.n, " base64url ", off)] = []byte(base64.URLEncoding.EncodeToString(in))
		}
	}
	for n, f := range forms {
		if bytes.Contains(b, f) {
			return fmt.Errorf("the private key is in the clear (%s)", n)
		}
	}
	return nil
}

func runC13(c *eng.Ctx) {
	k, k2 := ref.KeyFor("k1"), ref.KeyFor("k2")
	tiny := c13Par{2, 1, 1}
	pws := c13Pass(c)

	c.Suite("matrix", func() {
		c.Par(len(pws), func(i int) {
			c.Case(func() string { return fmt.Sprintf("matrix/%d/%.20q", i, pws[i]) }, func() error {
				doc := c13Doc(k, pws[i], fmt.Sprint(i), tiny).Text()
				for j, pw := range pws {
					c.Trans(1)
					if err := c13Open(doc, pw, k, i == j); err != nil {
						return err
					}
				}
				// no callback: the empty passphrase
				sk, err := sign.MakePrivateKey(doc, nil)
				if (err == nil) != (pws[i] == "") || err == nil && !bytes.Equal(sk.Sk, k.Sk) {
					return fmt.Errorf("without a callback: %v", err)
				}
				c.State("matrix/%v", len(pws[i]))
				return nil
			})
		})
	})

	c.Suite("edits", func() {
		base := c13Doc(k, "pw", "edit", tiny)
		text := base.Text()
		c13Bytes(c, "edits/byte/", text, base, k)
		edited := func(name string, f func(d *ref.SkDoc)) {
			d := *base
			d.Esk, d.Salt = append([]byte{}, base.Esk...), append([]byte{}, base.Salt...)
			f(&d)
			c.Case(func() string { return "edits/" + name }, func() error {
				c.Trans(1)
				c.State("edits/" + strings.SplitN(name, "/", 2)[0])
				return c13Open(d.Text(), "pw", k, false)
			})
		}
		for b := 0; b < len(base.Esk)*8; b++ {
			edited(fmt.Sprint("esk/", b), func(d *ref.SkDoc) { d.Esk[b/8] ^= 1 << (b % 8) })
		}
		for b := 0; b < len(base.Salt)*8; b++ {
			edited(fmt.Sprint("salt/", b), func(d *ref.SkDoc) { d.Salt[b/8] ^= 1 << (b % 8) })
		}
		for n := 0; n < 100; n++ {
			if n != len(base.Esk) {
				edited(fmt.Sprint("esklen/", n), func(d *ref.SkDoc) { d.Esk = append(d.Esk, make([]byte, 100)...)[:n] })
			}
			if n != len(base.Salt) {
				edited(fmt.Sprint("saltlen/", n), func(d *ref.SkDoc) { d.Salt = append(d.Salt, make([]byte, 100)...)[:n] })
			}
		}
	})

	c.Suite("params", func() {
		ps := c13Params()
		c.Par(len(ps), func(i int) {
			c.Case(func() string { return fmt.Sprintf("params/%v", ps[i]) }, func() error {
				d := c13Doc(k, "pw", fmt.Sprint(i), ps[i])
				for j, q := range ps {
					x := *d
					x.N, x.R, x.P = q.n, q.r, q.p
					c.Trans(1)
					if err := c13Open(x.Text(), "pw", k, i == j); err != nil {
						return fmt.Errorf("parameters replaced by %v: %w", q, err)
					}
				}
				for _, bad := range []c13Par{{0, 1, 1}, {1, 1, 1}, {3, 1, 1}, {-2, 1, 1}, {2, 0, 1}, {2, -1, 1}, {2, 1, 0}, {2, 1, -1}, {1 << 40, 1, 1}, {2, 1 << 40, 1}, {2, 1, 1 << 40}, {1 << 31, 1 << 31, 1 << 31}, {2, 1 << 30, 1}, {2, 1 << 15, 1 << 15}} {
					x := *d
					x.N, x.R, x.P = bad.n, bad.r, bad.p
					c.Trans(1)
					if err := c13Open(x.Text(), "pw", k, false); err != nil {
						return fmt.Errorf("parameters replaced by %v: %w", bad, err)
					}
				}
				c.State("params")
				return nil
			})
		})
	})

	c.Suite("mixtures", func() {
		ds := []*ref.SkDoc{c13Doc(k, "pw", "m0", c13Par{2, 1, 1}), c13Doc(k2, "pw", "m1", c13Par{2, 1, 1}), c13Doc(k, "pw2", "m2", c13Par{4, 2, 1})}
		owner := []*ref.Key{k, k2, k}
		pw := []string{"pw", "pw", "pw2"}
		eng.Words(3, 3, 3, func(w []int) {
			for pi, p := range pw {
				c.Case(func() string { return fmt.Sprintf("mixtures/%v/%d", w, pi) }, func() error {
					d := *ds[w[2]]
					d.Esk, d.Salt = ds[w[0]].Esk, ds[w[1]].Salt
					c.Trans(1)
					same := w[0] == w[1] && (ds[w[2]].N == ds[w[0]].N) && p == pw[w[0]]
					c.State("mixtures/%v", same)
					return c13Open(d.Text(), p, owner[w[0]], same)
				})
			}
		})
	})

	c.Suite("callback", func() {
		doc := c13Doc(k, "pw", "cb", tiny).Text()
		dir, err := os.MkdirTemp(c.Work, "c13")
		if err != nil {
			c.Broken(err)
			return
		}
		defer os.RemoveAll(dir)
		fn := filepath.Join(dir, "k")
		os.WriteFile(fn, doc, 0600)
		for i, r := range []struct {
			pw  []byte
			err error
		}{{[]byte("pw"), errInjected}, {nil, errInjected}, {[]byte(""), nil}, {nil, nil}, {[]byte("pw"), nil}} {
			c.Case(func() string { return fmt.Sprint("callback/", i) }, func() error {
				want := r.err == nil && string(r.pw) == "pw"
				get := func() ([]byte, error) { return append([]byte(nil), r.pw...), r.err }
				for m := 0; m < 3; m++ {
					var sk *sign.PrivateKey
					var err error
					switch m {
					case 0:
						sk, err = sign.MakePrivateKey(doc, get)
					case 1:
						sk, err = sign.ReadPrivateKey(fn, get)
					case 2:
						old, e := freshKey("k2").sk, error(nil)
						if e = old.UnmarshalBinary(doc, get); e != nil {
							if len(old.Sk) != 0 && !bytes.Equal(old.Sk, k2.Sk) {
								return errors.New("a failed read left other key material in the object")
							}
							old = nil
						}
						sk, err = old, e
					}
					c.Trans(1)
					if (err == nil) != want {
						return fmt.Errorf("entry point %d: %v", m, err)
					}
					if err == nil && !bytes.Equal(sk.Sk, k.Sk) {
						return errors.New("different key")
					}
				}
				c.State("callback/%v", want)
				return nil
			})
		}
	})

	c.Suite("cost", func() {
		n := pick(c, 3, 8)
		c.ParN(3, n, func(i int) {
			pw := []string{"", "pw", strings.Repeat("long ", 30), "\x00", "a", "b", "c", "d"}[i]
			c.Case(func() string { return fmt.Sprint("cost/", i) }, func() error {
				p := key("k1")
				b, err := p.sk.MarshalBinary("c", []byte(pw))
				if err != nil {
					return err
				}
				d, err := ref.ParseSk(b)
				if err != nil {
					return err
				}
				c.Trans(2)
				if d.N < 1<<19 || d.R < 8 || d.P < 1 {
					return fmt.Errorf("key derivation cost N=%d r=%d p=%d is below the documented one", d.N, d.R, d.P)
				}
				if len(d.Salt) < 32 {
					return fmt.Errorf("%d byte salt", len(d.Salt))
				}
				// the declared cost is the one used
				sk, err := d.OpenSk(pw)
				if err != nil || !bytes.Equal(sk, p.ref.Sk) {
					return fmt.Errorf("the reference cannot open the document with its declared parameters: %v", err)
				}
				if err := c13Open(b, pw, p.ref, true); err != nil {
					return err
				}
				if err := c13Open(b, pw+"x", p.ref, false); err != nil {
					return err
				}
				c.State("cost")
				return leaks(b, p.ref)
			})
		})
	})

	if bin, err := fastSelf(c); err != nil {
		c.Broken(err)
	} else if tool, err := cli(c); err != nil {
		c.Broken(err)
	} else {
		c.RunSub(bin, "c13fast", "MC_TOOL="+tool)
	}
}

// c13Judge: a document with changed esk, salt or parameters must not open; other
// changes (comment, algo, layout) may be refused or open as the same key.
func c13Judge(c *eng.Ctx, x []byte, base *ref.SkDoc, k *ref.Key) error {
	c.Trans(1)
	sk, err := sign.MakePrivateKey(x, func() ([]byte, error) { return []byte("pw"), nil })
	if err != nil {
		return nil
	}
	if sk == nil || !bytes.Equal(sk.Sk, k.Sk) || !bytes.Equal(sk.PublicKey().Pk, k.Pk) {
		return errors.New("opened as a different key")
	}
	d, perr := ref.ParseSk(x)
	if perr != nil {
		return nil // unusual layout of the same values: it decrypted, so the values are right
	}
	if !bytes.Equal(d.Esk, base.Esk) || !bytes.Equal(d.Salt, base.Salt) || d.N != base.N || d.R != base.R || d.P != base.P {
		return errors.New("a changed document was opened")
	}
	return nil
}

// c13Bytes gives every value to every byte, and deletes and doubles each.
func c13Bytes(c *eng.Ctx, name string, text []byte, base *ref.SkDoc, k *ref.Key) {
	c.Par(len(text), func(i int) {
		c.Case(func() string { return fmt.Sprint(name, i) }, func() error {
			for v := 0; v < 256; v++ {
				if byte(v) == text[i] {
					continue
				}
				x := append([]byte{}, text...)
				x[i] = byte(v)
				if err := c13Judge(c, x, base, k); err != nil {
					return fmt.Errorf("byte %d = %#x: %w", i, v, err)
				}
			}
			// deleted, doubled
			if err := c13Judge(c, append(append([]byte{}, text[:i]...), text[i+1:]...), base, k); err != nil {
				return fmt.Errorf("byte %d deleted: %w", i, err)
			}
			if err := c13Judge(c, append(append([]byte{}, text[:i+1]...), text[i:]...), base, k); err != nil {
				return fmt.Errorf("byte %d doubled: %w", i, err)
			}
			return nil
		})
	})
}

// runC13fast: documents written by the code (scrypt with reduced N in both directions).
func runC13fast(c *eng.Ctx) {
	pws := c13Pass(c)
	k := key("k1")
	c13Tool(c, os.Getenv("MC_TOOL"))
	c.Suite("written", func() {
		c.Par(len(pws), func(i int) {
			c.Case(func() string { return fmt.Sprintf("written/%d/%.20q", i, pws[i]) }, func() error {
				keep := []byte(pws[i])
				doc, err := k.sk.MarshalBinary("", keep)
				if err != nil {
					return err
				}
				if string(keep) != pws[i] {
					return errors.New("the passphrase buffer was changed")
				}
				for j, pw := range pws {
					if j != i && (i+j)%8 != 0 && !c.Thorough {
						continue
					}
					c.Trans(1)
					if err := c13Open(doc, pw, k.ref, i == j); err != nil {
						return err
					}
				}
				c.State("written/%d", len(pws[i]))
				if len(pws[i]) > 6 && bytes.Contains(doc, keep) {
					return errors.New("the passphrase is in the document")
				}
				return leaks(doc, k.ref)
			})
		})
	})
	c.Suite("written-edits", func() {
		doc, err := k.sk.MarshalBinary("comment", []byte("pw"))
		if err != nil {
			c.Broken(err)
			return
		}
		base, err := ref.ParseSk(doc)
		if err != nil {
			c.Broken(err)
			return
		}
		c13Bytes(c, "written-edits/byte/", doc, base, k.ref)
		c.Par(24, func(i int) {
			c.Case(func() string { return fmt.Sprint("written-edits/params/", i) }, func() error {
				for r := 1; r <= 2*base.R; r++ {
					for p := 1; p <= 4; p++ {
						x := *base
						x.N, x.R, x.P = 1<<i, r, p
						c.Trans(1)
						if err := c13Open(x.Text(), "pw", k.ref, x.N == base.N && r == base.R && p == base.P); err != nil {
							return fmt.Errorf("N=%d r=%d p=%d: %w", x.N, r, p, err)
						}
					}
				}
				return nil
			})
		})
	})
	c.Suite("salts", func() {
		c.Case(func() string { return "salts/same" }, func() error {
			seen := map[string]bool{}
			pk := freshKey("k2")
			for i := 0; i < pick(c, 300, 3000); i++ {
				s := []*pair{k, pk, key("k1")}[i%3]
				doc, err := s.sk.MarshalBinary("same", []byte("same"))
				if err != nil {
					return err
				}
				d, err := ref.ParseSk(doc)
				if err != nil {
					return err
				}
				c.Trans(1)
				if len(d.Salt) < 32 || seen[string(d.Salt)] || seen[string(d.Esk)] {
					return fmt.Errorf("document %d repeats a salt or ciphertext (%d byte salt)", i, len(d.Salt))
				}
				seen[string(d.Salt)], seen[string(d.Esk)] = true, true
				if d.N < 1<<19 || d.R < 8 || d.P < 1 {
					return fmt.Errorf("key derivation cost N=%d r=%d p=%d", d.N, d.R, d.P)
				}
			}
			return nil
		})
	})
	c.Suite("keys", func() {
		n := pick(c, 64, 1000)
		c.Par(n, func(i int) {
			c.Case(func() string { return fmt.Sprint("keys/", i) }, func() error {
				sk, err := sign.NewPrivateKey()
				if err != nil {
					return err
				}
				kr := ref.KeyFromSk(sk.Sk)
				if !ref.IsKey(sk.Sk, sk.PublicKey().Pk) {
					return errors.New("generated key halves do not match")
				}
				sk.ToCurve25519SK()
				doc, err := sk.MarshalBinary(fmt.Sprint(i), []byte("pw"))
				if err != nil {
					return err
				}
				c.Trans(2)
				if err := c13Open(doc, "pw", kr, true); err != nil {
					return err
				}
				if err := c13Open(doc, "pw ", kr, false); err != nil {
					return err
				}
				return leaks(doc, kr)
			})
		})
	})
}
