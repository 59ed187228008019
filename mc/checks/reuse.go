package checks

import (
	"bytes"
	"errors"
	"fmt"

	"github.com/opencoff/sigtool/sign"

	"mc/eng"
	"mc/ref"
)

// One object that reads one document after the other is, after each, what was read
// last as if it had never been anything else; a document that can't be read leaves it
// alone.

func c12Reuse(c *eng.Ctx) {
	a, b := key("k1"), key("k2")
	ca, cb := "comment of a", "b@host"
	type doc struct {
		name, comment string
		p             *pair // nil: can't be read
		text          []byte
	}
	pks := []doc{
		{"native a", "", a, ref.PkDoc(a.ref, "x")},
		{"native b", "", b, ref.PkDoc(b.ref, "")},
		{"ssh a", ca, a, []byte(a.ref.SSHPubLine(ca) + "\n")},
		{"ssh b", cb, b, []byte(b.ref.SSHPubLine(cb))},
		{"ssh b without comment", "", b, []byte(b.ref.SSHPubLine(""))},
		{"short key", "", nil, []byte("pk: " + ref.B64(a.ref.Pk[:31]) + "\nhash: " + ref.B64(a.ref.Hash()) + "\n")},
		{"nothing", "", nil, nil},
		{"RSA", "", nil, []byte("ssh-rsa " + ref.B64(ref.RSABlob()) + " c\n")},
	}
	var seqs [][]int
	n := len(pks)
	eng.Words(n+1, 1, pick(c, 4, 5), func(ix []int) { seqs = append(seqs, ix) })
	c.Par(len(seqs), func(i int) {
		ix := seqs[i]
		c.Case(func() string { return fmt.Sprint("reuse/pk/", ix) }, func() error {
			var pk sign.PublicKey
			var last *doc
			type copied struct {
				pk   sign.PublicKey
				hash []byte
				d    *doc
			}
			var old []copied
			for _, x := range ix {
				if x == n {
					if last != nil {
						if err := c12UsePk(&pk, last.p); err != nil {
							return err
						}
					}
					continue
				}
				d := &pks[x]
				text := bytes.Clone(d.text)
				err := pk.UnmarshalBinary(text)
				if !bytes.Equal(text, d.text) {
					return fmt.Errorf("%s: its bytes were changed", d.name)
				}
				clobber(text)
				if (err == nil) != (d.p != nil) {
					return fmt.Errorf("%s: %v", d.name, err)
				}
				if err == nil {
					last = d
					old = append(old, copied{pk, pk.Hash(), d})
				}
			}
			c.Trans(len(ix))
			for i := range old {
				o := &old[i]
				if !bytes.Equal(o.hash, o.d.p.ref.Hash()) || o.pk.Comment != o.d.comment {
					return fmt.Errorf("the hash or the comment that was read %d. changed later", i)
				}
				if err := c12UsePk(&o.pk, o.d.p); err != nil {
					return fmt.Errorf("a copy of the %d. key, made before the next was read: %w", i, err)
				}
			}
			if last == nil {
				if len(pk.Pk) > 0 || len(pk.Hash()) > 0 || pk.Comment != "" {
					return errors.New("a key came out of nothing")
				}
				return nil
			}
			c.State("reuse/pk/%s/%d", last.name, len(ix))
			if pk.Comment != last.comment {
				return fmt.Errorf("comment %q after reading %s", pk.Comment, last.name)
			}
			return c12UsePk(&pk, last.p)
		})
	})

	// signatures
	ma, mb := []byte("message a"), []byte("message b")
	type sdoc struct {
		name string
		p    *pair
		msg  []byte
		text []byte
		hint bool
	}
	sigs := []sdoc{
		{"a", a, ma, ref.SigDoc(a.ref, ma, "x"), true},
		{"b", b, mb, ref.SigDoc(b.ref, mb, ""), true},
		{"a without hint", a, mb, []byte("signature: " + ref.B64(a.ref.SignMsg(mb)) + "\n"), false},
		{"short", nil, nil, []byte("pkhash: " + ref.B64(b.ref.Hash()) + "\nsignature: " + ref.B64(a.ref.SignMsg(mb)[:63]) + "\n"), false},
		{"nothing", nil, nil, nil, false},
		{"bad hint", nil, nil, []byte("pkhash: AAAA\nsignature: " + ref.B64(b.ref.SignMsg(ma)) + "\n"), false},
	}
	seqs = nil
	eng.Words(len(sigs)+1, 1, pick(c, 4, 5), func(ix []int) { seqs = append(seqs, ix) })
	use := func(s *sign.Signature, last *sdoc) error {
		for _, p := range []*pair{a, b} {
			for _, m := range [][]byte{ma, mb} {
				want := p == last.p && bytes.Equal(m, last.msg)
				if p.pk.VerifyMessage(m, s) != want {
					return fmt.Errorf("signature read last is %s; verifies %q with the key of %s: %v", last.name, m, p.name, !want)
				}
			}
			if want := last.hint && p == last.p; s.IsPKMatch(p.pk) != want {
				return fmt.Errorf("signature read last is %s; matches the key of %s: %v", last.name, p.name, !want)
			}
		}
		return nil
	}
	c.Par(len(seqs), func(i int) {
		ix := seqs[i]
		c.Case(func() string { return fmt.Sprint("reuse/sig/", ix) }, func() error {
			var s sign.Signature
			var last *sdoc
			var old []sign.Signature
			var oldDoc []*sdoc
			for _, x := range ix {
				if x == len(sigs) {
					if last != nil {
						if err := use(&s, last); err != nil {
							return err
						}
					}
					continue
				}
				d := &sigs[x]
				text := bytes.Clone(d.text)
				err := s.UnmarshalBinary(text)
				if !bytes.Equal(text, d.text) {
					return fmt.Errorf("%s: its bytes were changed", d.name)
				}
				clobber(text)
				if (err == nil) != (d.p != nil) {
					return fmt.Errorf("%s: %v", d.name, err)
				}
				if err == nil {
					last = d
					old, oldDoc = append(old, s), append(oldDoc, d)
				}
			}
			c.Trans(len(ix))
			for i := range old {
				if err := use(&old[i], oldDoc[i]); err != nil {
					return fmt.Errorf("a copy of the %d. signature, made before the next was read: %w", i, err)
				}
			}
			if last == nil {
				return nil
			}
			c.State("reuse/sig/%s/%d", last.name, len(ix))
			return use(&s, last)
		})
	})

	// private keys; scrypt with parameters that take no time
	pw := func(s string) func() ([]byte, error) { return func() ([]byte, error) { return []byte(s), nil } }
	type kdoc struct {
		name string
		p    *pair
		text []byte
		pw   func() ([]byte, error)
	}
	da, db := ref.SealSk(a.ref, "pa", pattern(32, 1), 2, 1, 1).Text(), ref.SealSk(b.ref, "pb", pattern(32, 2), 2, 1, 1).Text()
	sks := []kdoc{
		{"native a", a, da, pw("pa")},
		{"native b", b, db, pw("pb")},
		{"ssh a", a, a.ref.SSHPriv(ref.SSHOpt{Cipher: "none", Comment: "x"}), nil},
		{"ssh b", b, b.ref.SSHPriv(ref.SSHOpt{Cipher: "none"}), pw("")},
		{"native a with a wrong passphrase", nil, da, pw("pb")},
		{"native b, no passphrase", nil, db, func() ([]byte, error) { return nil, errors.New("no passphrase") }},
		{"nothing", nil, nil, nil},
		{"half an ssh b", nil, b.ref.SSHPriv(ref.SSHOpt{Cipher: "none"})[:150], nil},
	}
	toA, err1 := encOneShot([]byte("to a"), 64, nil, a)
	toB, err2 := encOneShot([]byte("to b"), 64, nil, b)
	if err := errors.Join(err1, err2); err != nil {
		c.Violate("reuse/files", err.Error())
		return
	}
	useSk := func(sk *sign.PrivateKey, p *pair) error {
		if !bytes.Equal(sk.Sk, p.ref.Sk) || !bytes.Equal(sk.PublicKey().Pk, p.ref.Pk) || !bytes.Equal(sk.PublicKey().Hash(), p.ref.Hash()) {
			return errors.New("another key was read back")
		}
		s, err := sk.SignMessage(ma, "")
		if err != nil {
			return err
		}
		if !ref.VerifyMsg(p.ref.Pk, ma, s.Sig) || !s.IsPKMatch(p.pk) {
			return errors.New("signs as another key")
		}
		for _, f := range []struct {
			p    *pair
			b    []byte
			want string
		}{{a, toA, "to a"}, {b, toB, "to b"}} {
			got, err := decOneShot(f.b, &pair{p.name, sk, sk.PublicKey(), p.ref}, nil)
			if (err == nil) != (f.p == p) || err == nil && string(got) != f.want {
				return fmt.Errorf("%s: %q, %v", f.want, got, err)
			}
		}
		return nil
	}
	seqs = nil
	eng.Words(len(sks)+1, 1, pick(c, 4, 5), func(ix []int) { seqs = append(seqs, ix) })
	c.Par(len(seqs), func(i int) {
		ix := seqs[i]
		c.Case(func() string { return fmt.Sprint("reuse/sk/", ix) }, func() error {
			var sk sign.PrivateKey
			var last *kdoc
			var old []sign.PrivateKey
			var oldPk []*sign.PublicKey
			var oldDoc []*kdoc
			for _, x := range ix {
				if x == len(sks) {
					if last != nil {
						if err := useSk(&sk, last.p); err != nil {
							return err
						}
					}
					continue
				}
				d := &sks[x]
				text := bytes.Clone(d.text)
				err := sk.UnmarshalBinary(text, d.pw)
				if !bytes.Equal(text, d.text) {
					return fmt.Errorf("%s: its bytes were changed", d.name)
				}
				clobber(text)
				if (err == nil) != (d.p != nil) {
					return fmt.Errorf("%s: %v", d.name, err)
				}
				if err == nil {
					last = d
					old, oldPk, oldDoc = append(old, sk), append(oldPk, sk.PublicKey()), append(oldDoc, d)
				}
			}
			c.Trans(len(ix))
			for i := range old {
				if err := useSk(&old[i], oldDoc[i].p); err != nil {
					return fmt.Errorf("a copy of the %d. key, made before the next was read: %w", i, err)
				}
				if err := c12UsePk(oldPk[i], oldDoc[i].p); err != nil {
					return fmt.Errorf("the public half of the %d. key, taken before the next was read: %w", i, err)
				}
			}
			if last == nil {
				if len(sk.Sk) > 0 {
					return errors.New("a key came out of nothing")
				}
				return nil
			}
			c.State("reuse/sk/%s/%d", last.name, len(ix))
			return useSk(&sk, last.p)
		})
	})
}

// c12UsePk does with a public key what can be done with it.
func c12UsePk(pk *sign.PublicKey, p *pair) error {
	if !bytes.Equal(pk.Pk, p.ref.Pk) || !bytes.Equal(pk.Hash(), p.ref.Hash()) {
		return errors.New("another key was read back")
	}
	e, err := sign.NewEncryptor(nil, 64)
	if err != nil {
		return err
	}
	if err = e.AddRecipient(pk); err != nil {
		return err
	}
	var s sink
	if err = e.Encrypt(bytes.NewReader([]byte("to it")), &s); err != nil {
		return err
	}
	if got, err := decOneShot(s.Bytes(), p, nil); err != nil || string(got) != "to it" {
		return fmt.Errorf("what is encrypted for it can't be decrypted: %q, %v", got, err)
	}
	sig, err := p.sk.SignMessage([]byte("m"), "")
	if err != nil {
		return err
	}
	if !sig.IsPKMatch(pk) || !pk.VerifyMessage([]byte("m"), sig) {
		return errors.New("does not verify what its private key signs")
	}
	return nil
}

// clobber is what becomes of a buffer that its owner uses for something else.
func clobber(b []byte) {
	for i := range b {
		b[i] = 0xEE
	}
}
