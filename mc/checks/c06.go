package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	"mc/eng"
	"mc/ref"

	"github.com/opencoff/sigtool/sign"
)

func init() {
	register(&eng.Prop{ID: "C06", Level: "model_checking",
		Rule: "one execution = one recipient history of an encryptor (additions valid, refused, late) and all keys trying to decrypt the result; states = (set of recipients, order class, key, verdict); transitions = AddRecipient and SetPrivateKey calls",
		Bound: func(c *eng.Ctx) string {
			return fmt.Sprintf("all recipient sequences of length 0..%d over %d keys x 7 decrypting keys x 2 encryptors x signed/unsigned; all sequences of up to %d keys that were read in 4 ways with 3 comments; all sequences of up to %d reads into and additions of one key object x one-shot/stream; every history of additions (good, degenerate) and data operations of length <= %d with additions at every position; up to %d distinct recipients; 8 numbers of recipients around the largest header",
				pick(c, 4, 5), 4, pick(c, 3, 4), pick(c, 5, 6), pick(c, 5, 6), pick(c, 1000, 2500))
		},
		Run: runC06})
}

func pick(c *eng.Ctx, q, t int) int {
	if c.Thorough {
		return t
	}
	return q
}

// degenerate public keys: well-formed documents whose key agreement must fail.
func badPKs() []*sign.PublicKey {
	var out []*sign.PublicKey
	add := func(b []byte) {
		pk, err := sign.MakePublicKey([]byte("pk: " + ref.B64(b) + "\n"))
		if err == nil {
			out = append(out, pk)
		}
	}
	one := make([]byte, 32)
	one[0] = 1
	add(one) // identity
	m1 := bytes.Repeat([]byte{0xff}, 32)
	m1[0], m1[31] = 0xec, 0x7f
	add(m1) // y = -1
	return out
}

func runC06(c *eng.Ctx) {
	uni := []*pair{key("r1"), key("r2"), key("r3"), key("sender")}
	others := []*pair{key("o1"), key("o2"), key("s2")}
	all := append(append([]*pair{}, uni...), others...)
	snd := key("sender")
	maxL := pick(c, 4, 5)

	verify := func(b []byte, rcpt map[*pair]bool, pt []byte, s *pair, what string) error {
		for _, k := range all {
			for api := 0; api < 2; api++ {
				got, _, err := senderRun(b, k, s, api)
				c.Trans(1)
				if rcpt[k] {
					if err != nil {
						return fmt.Errorf("%s: recipient %s cannot decrypt: %w", what, k.name, err)
					}
					if !bytes.Equal(got, pt) {
						return fmt.Errorf("%s: recipient %s: %s", what, k.name, diff(got, pt))
					}
				} else if err == nil {
					return fmt.Errorf("%s: %s is not a recipient but can decrypt", what, k.name)
				} else if len(got) > 0 {
					return fmt.Errorf("%s: %s is not a recipient but gets %d bytes", what, k.name, len(got))
				}
			}
		}
		return nil
	}

	c.Suite("sequences", func() {
		for n := 0; n <= maxL; n++ {
			c.Par(eng.CountWords(4, n)*4, func(i int) {
				w := eng.Word(4, n, i/4)
				api, s := i%2, []*pair{nil, snd}[i/2%2]
				c.Case(func() string { return fmt.Sprintf("sequences/%v/%s/signed=%v", w, encAPIs[api].name, s != nil) }, func() error {
					var rx []*pair
					set := map[*pair]bool{}
					for _, x := range w {
						rx = append(rx, uni[x])
						set[uni[x]] = true
					}
					pt := pattern(13, 1)
					b, err := encAPIs[api].f(pt, 5, s, rx...)
					if err != nil {
						if n == 0 {
							c.Outcome("no recipients: refused")
							return nil
						}
						return err
					}
					c.Trans(n)
					c.State("seq/%v/%d/%v", w, api, s != nil)
					if f, _, err := ref.ParsePre(b); err == nil && len(f.Hdr.Keys) != n {
						return fmt.Errorf("%d wrapped keys for %d additions", len(f.Hdr.Keys), n)
					}
					return verify(b, set, pt, s, "sequence")
				})
			})
		}
	})

	// the same with keys that were read in different ways, with and without comments
	c.Suite("looks", func() {
		cms := []string{"", "root@localhost", "b@host"}
		mk := func(x int) (*pair, *sign.PublicKey, error) {
			p, cm, way := uni[x%2], cms[x/2%3], x/6
			switch way {
			case 0:
				pk, err := sign.MakePublicKey(ref.PkDoc(p.ref, cm))
				return p, pk, err
			case 1:
				pk, err := sign.MakePublicKey([]byte(p.ref.SSHPubLine(cm) + "\n"))
				return p, pk, err
			case 2:
				pks, err := sign.ParseAuthorizedKeys([]byte(p.ref.SSHPubLine(cm) + "\n"))
				if err != nil || len(pks) != 1 {
					return nil, nil, fmt.Errorf("%d keys, %v", len(pks), err)
				}
				return p, pks[0], nil
			}
			return p, p.sk.PublicKey(), nil
		}
		const items = 20 // the last two ignore the comment
		for n := 1; n <= pick(c, 3, 4); n++ {
			c.Par(eng.CountWords(items, n), func(i int) {
				w := eng.Word(items, n, i)
				c.Case(func() string { return fmt.Sprintf("looks/%v", w) }, func() error {
					e, err := sign.NewEncryptor(nil, 5)
					if err != nil {
						return err
					}
					set := map[*pair]bool{}
					for _, x := range w {
						p, pk, err := mk(x)
						if err != nil {
							return err
						}
						if err := e.AddRecipient(pk); err != nil {
							return err
						}
						set[p] = true
					}
					var s sink
					pt := pattern(7, 1)
					if err := e.Encrypt(bytes.NewReader(pt), &s); err != nil {
						return err
					}
					c.Trans(n)
					c.State("looks/%d/%d", n, len(set))
					for _, k := range uni[:3] {
						got, err := decOneShot(s.Bytes(), k, nil)
						if set[k] && (err != nil || !bytes.Equal(got, pt)) {
							return fmt.Errorf("recipient %s cannot decrypt: %v", k.name, err)
						}
						if !set[k] && err == nil {
							return fmt.Errorf("%s is not a recipient but can decrypt", k.name)
						}
					}
					return nil
				})
			})
		}
	})

	// histories: additions (good ones, degenerate ones) mixed with data operations
	type op struct {
		n string
		k int // key index, -1-j = degenerate j
	}
	bad := badPKs()
	ops := []op{{"add r1", 0}, {"add r2", 1}, {"add bad0", -1}, {"add bad1", -2}, {"write", 0}, {"start", 0}, {"encrypt", 0}, {"close", 0}}
	maxH := pick(c, 5, 6)
	c.Suite("histories", func() {
		for n := 1; n <= maxH; n++ {
			c.Par(eng.CountWords(len(ops), n), func(i int) {
				w := eng.Word(len(ops), n, i)
				// symmetry: only the last op may follow a close or encrypt unless an addition
				c.Case(func() string { return fmt.Sprintf("histories/%v", w) }, func() error {
					e, err := sign.NewEncryptor(nil, 5)
					if err != nil {
						return err
					}
					set := map[*pair]bool{}
					started, done := false, false
					added := 0
					var s sink
					var wr io.WriteCloser
					var pt []byte
					for _, x := range w {
						o := ops[x]
						c.Trans(1)
						before := append([]byte{}, s.Bytes()...)
						switch o.n {
						case "write":
							if wr != nil && !done {
								if _, err := wr.Write([]byte("abcdefg")); err != nil {
									return err
								}
								pt = append(pt, "abcdefg"...)
							}
						case "start":
							if !started {
								if wr, err = e.NewStreamWriter(&s); err != nil {
									return err
								}
								started = true
							}
						case "encrypt":
							if !started {
								pt = pattern(12, 2)
								if err := e.Encrypt(bytes.NewReader(pt), &s); err != nil {
									return err
								}
								started, done = true, true
							}
						case "close":
							if wr != nil && !done {
								if err := wr.Close(); err != nil {
									return err
								}
								done = true
							}
						default:
							pk := uni[0].pk
							if o.k < 0 {
								if -1-o.k >= len(bad) {
									continue
								}
								pk = bad[-1-o.k]
							} else {
								pk = uni[o.k].pk
							}
							err := e.AddRecipient(pk)
							switch {
							case started && err == nil:
								return errors.New("AddRecipient succeeded after encryption began")
							case started:
							case o.k >= 0 && err != nil:
								return fmt.Errorf("AddRecipient: %w", err)
							case o.k >= 0:
								set[uni[o.k]] = true
							case err == nil:
								// accepting a degenerate key is not decided here, but it must
								// not make the file readable for others
							}
							if err == nil {
								added++
							}
							if !bytes.Equal(before, s.Bytes()) {
								return errors.New("AddRecipient wrote output")
							}
						}
					}
					if !started {
						pt = pattern(12, 2)
						if err := e.Encrypt(bytes.NewReader(pt), &s); err != nil {
							if len(set) == 0 {
								return nil
							}
							return err
						}
					} else if !done {
						if err := wr.Close(); err != nil {
							return err
						}
					}
					names := ""
					for _, k := range uni {
						if set[k] {
							names += k.name
						}
					}
					c.State("hist/%s/%d/%v/%d", names, added, started, len(pt))
					if f, _, err := ref.ParsePre(s.Bytes()); err != nil {
						return err
					} else if len(f.Hdr.Keys) != added {
						return fmt.Errorf("%d wrapped keys after %d successful additions", len(f.Hdr.Keys), added)
					}
					return verify(s.Bytes(), set, pt, nil, "history")
				})
			})
		}
	})

	c.Suite("reused", func() { c06Reused(c) })
	c.Suite("most", func() { c06Most(c) })
	c.Suite("alike", func() { c06Alike(c) })
	c.Suite("many", func() {
		n := pick(c, 1000, 2500)
		var ks []*pair
		for i := 0; i < n; i++ {
			ks = append(ks, key(fmt.Sprint("many", i)))
		}
		pt := pattern(40, 3)
		var b []byte
		c.Case(func() string { return "many/make" }, func() error {
			var err error
			b, err = encOneShot(pt, 16, nil, ks...)
			return err
		})
		c.Par(n, func(i int) {
			c.Case(func() string { return fmt.Sprintf("many/recipient=%d", i) }, func() error {
				got, err := decOneShot(b, ks[i], nil)
				if err != nil || !bytes.Equal(got, pt) {
					return fmt.Errorf("recipient %d of %d: %v", i, n, err)
				}
				c.Trans(i + 1)
				return nil
			})
		})
		c.Case(func() string { return "many/outsider" }, func() error {
			if _, err := decOneShot(b, key("o1"), nil); err == nil {
				return errors.New("outsider decrypts")
			}
			return nil
		})
	})
}
