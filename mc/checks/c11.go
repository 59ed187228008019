package checks

import (
	"bytes"
	"crypto/ed25519"
	"encoding/binary"
	"errors"
	"fmt"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"syscall"
	"time"

	"mc/eng"
	"mc/ref"

	"github.com/opencoff/sigtool/sign"
)

func init() {
	register(&eng.Prop{ID: "C11", Level: "model_checking",
		Rule: "one execution = one (signature, content, key) triple judged by the code and by the reference; states = (suite, relation of the content, relation of the key, verdict); transitions = sign and verify calls",
		Bound: func(c *eng.Ctx) string {
			return fmt.Sprintf("all triples over %d messages / %d file contents (sizes around hash blocks and pages up to %d bytes) x 4 keys; every single-bit edit of signature, public key and small contents; every byte of a 2-page file; all signature lengths 0..130; every history of up to %d replacements of a file's content (3 contents x 5 ways, with time stamps and size kept or not); all file kinds; same content under other names and links; 21 pairs of keys that agree in 5 bytes or look special; every bit of the key hash; 53 kinds of content x 17 changes that some program takes for none",
				len(c11Messages()), len(c11Contents(c)), 1<<20+1, pick(c, 3, 4))
		},
		Run: runC11})
}

func c11Messages() [][]byte {
	ms := [][]byte{nil, {0}, []byte("sigtool signed message"), []byte("sigtool signed messagea"), []byte("a")}
	for _, n := range []int{31, 32, 33, 63, 64, 65, 105, 106, 111, 112, 127, 128, 129, 1000} {
		ms = append(ms, pattern(n, 1))
	}
	return append(ms, make([]byte, 64), make([]byte, 65), bytes.Repeat([]byte{0xff}, 64))
}

func c11Contents(c *eng.Ctx) [][]byte {
	var out [][]byte
	for _, n := range []int{0, 1, 2, 7, 8, 9, 63, 64, 119, 120, 121, 127, 128, 4095, 4096, 4097, 8192, 65535, 65536, 65537, 1<<20 - 1, 1 << 20, 1<<20 + 1} {
		out = append(out, pattern(n, 3))
		if n > 0 && n < 5000 {
			out = append(out, make([]byte, n))
		}
	}
	sized := func(b []byte) []byte { return binary.BigEndian.AppendUint64(append([]byte{}, b...), uint64(len(b))) }
	// contents that end in what the digest appends
	x := pattern(56, 9)
	out = append(out, x, sized(x), sized(sized(x)), sized(nil))
	return out
}

func runC11(c *eng.Ctx) {
	ks := []*pair{key("k1"), key("k2"), key("k3"), key("k4")}
	sigOf := func(p *pair, b []byte) *sign.Signature { // signature object with the given bytes
		s := &sign.Signature{}
		if err := s.UnmarshalBinary([]byte("pkhash: " + ref.B64(p.ref.Hash()) + "\nsignature: " + ref.B64(b) + "\n")); err != nil {
			// not an acceptable document; as an object, then
			s = &sign.Signature{Sig: b}
		}
		return s
	}

	ms := c11Messages()
	c.Suite("messages", func() {
		c.Par(len(ms)*len(ks), func(i int) {
			m, k := ms[i/len(ks)], ks[i%len(ks)]
			c.Case(func() string { return fmt.Sprintf("messages/%d/%s", i/len(ks), k.name) }, func() error {
				keep := append([]byte{}, m...)
				s, err := k.sk.SignMessage(m, "")
				if err != nil {
					return err
				}
				if !bytes.Equal(m, keep) {
					return errors.New("SignMessage changed the message")
				}
				if !ref.VerifyMsg(k.ref.Pk, m, s.Sig) {
					return errors.New("the reference does not accept the signature")
				}
				b, err := s.MarshalBinary("c")
				if err != nil {
					return err
				}
				s2 := &sign.Signature{}
				if err := s2.UnmarshalBinary(b); err != nil {
					return err
				}
				for _, sg := range []*sign.Signature{s, s2} {
					for j, m2 := range ms {
						for _, k2 := range ks {
							want := bytes.Equal(m, m2) && k == k2
							got := k2.pk.VerifyMessage(m2, sg)
							c.Trans(1)
							c.State("messages/%v/%v/%v", bytes.Equal(m, m2), k == k2, got)
							if got != want {
								return fmt.Errorf("message %d with key %s: verify = %v", j, k2.name, got)
							}
							if sg.IsPKMatch(k2.pk) != (k == k2) {
								return fmt.Errorf("key hint for %s: %v", k2.name, !(k == k2))
							}
						}
					}
				}
				// the same key read in another way
				if !k.sk.PublicKey().VerifyMessage(m, s2) || !s.IsPKMatch(k.sk.PublicKey()) {
					return errors.New("the private key's own public key does not verify")
				}
				return nil
			})
		})
	})

	c.Suite("refsigs", func() {
		c.Par(len(ms), func(i int) {
			m, k := ms[i], ks[0]
			c.Case(func() string { return fmt.Sprint("refsigs/", i) }, func() error {
				good := k.ref.SignMsg(m)
				if !k.pk.VerifyMessage(m, sigOf(k, good)) {
					return errors.New("reference signature rejected")
				}
				// every bit
				for b := 0; b < 512; b++ {
					x := append([]byte{}, good...)
					x[b/8] ^= 1 << (b % 8)
					c.Trans(1)
					if k.pk.VerifyMessage(m, sigOf(k, x)) {
						return fmt.Errorf("accepted with signature bit %d flipped", b)
					}
				}
				// S + L: same equation, not canonical
				L, _ := new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)
				s := new(big.Int).SetBytes(rev(good[32:]))
				for n := 1; n < 16; n++ {
					s.Add(s, L)
					b := s.Bytes()
					if len(b) > 32 {
						break
					}
					x := append(append([]byte{}, good[:32]...), rev(append(make([]byte, 32-len(b)), b...))...)
					if k.pk.VerifyMessage(m, sigOf(k, x)) {
						return errors.New("accepted a malleated signature")
					}
				}
				for n := 0; n <= 130; n++ {
					x := append(append([]byte{}, good...), make([]byte, 66)...)[:n]
					c.Trans(1)
					if k.pk.VerifyMessage(m, sigOf(k, x)) != (n == 64) {
						return fmt.Errorf("verdict for a %d byte signature", n)
					}
				}
				// not domain separated
				for _, raw := range [][]byte{m, append([]byte("sigtool signed message"), m...)} {
					if k.pk.VerifyMessage(m, sigOf(k, rawSign(k, raw))) {
						return errors.New("accepted a signature without domain separation")
					}
				}
				c.State("refsigs")
				return nil
			})
		})
		// every bit of the public key
		c.Par(256, func(b int) {
			k := ks[1]
			c.Case(func() string { return fmt.Sprint("pkbits/", b) }, func() error {
				x := append([]byte{}, k.ref.Pk...)
				x[b/8] ^= 1 << (b % 8)
				s, err := k.sk.SignMessage([]byte("m"), "")
				if err != nil {
					return err
				}
				c.Trans(1)
				pk, err := sign.MakePublicKey([]byte("pk: " + ref.B64(x) + "\nhash: " + ref.B64(k.ref.Hash()) + "\n"))
				if err != nil {
					return nil
				}
				if pk.VerifyMessage([]byte("m"), s) {
					return errors.New("verifies under an altered public key")
				}
				if s.IsPKMatch(pk) {
					return errors.New("key hint matches an altered public key")
				}
				return nil
			})
		})
		// every bit of the message, every one-bit-off length
		c.Par(len(ms), func(i int) {
			m, k := ms[i], ks[2]
			c.Case(func() string { return fmt.Sprint("msgbits/", i) }, func() error {
				s, err := k.sk.SignMessage(m, "")
				if err != nil {
					return err
				}
				for b := 0; b < 8*len(m); b++ {
					x := append([]byte{}, m...)
					x[b/8] ^= 1 << (b % 8)
					c.Trans(1)
					if k.pk.VerifyMessage(x, s) {
						return fmt.Errorf("verifies with message bit %d flipped", b)
					}
				}
				if k.pk.VerifyMessage(append(append([]byte{}, m...), 0), s) || len(m) > 0 && k.pk.VerifyMessage(m[:len(m)-1], s) {
					return errors.New("verifies with another message length")
				}
				return nil
			})
		})
	})

	dir, err := os.MkdirTemp(os.Getenv("MC_WORK"), "c11")
	if err != nil {
		c.Broken(err)
		return
	}
	defer os.RemoveAll(dir)
	write := func(n string, b []byte) string {
		p := filepath.Join(dir, n)
		if err := os.WriteFile(p, b, 0644); err != nil {
			c.Broken(err)
		}
		return p
	}
	fs := c11Contents(c)
	var names []string
	for i, b := range fs {
		names = append(names, write(fmt.Sprintf("f%d", i), b))
	}
	c.Suite("alike", func() { c11Alike(c) })
	c.Suite("contents", func() { c11ContentsSuite(c, dir) })
	c.Suite("files", func() {
		c.Par(len(fs), func(i int) {
			c.Case(func() string { return fmt.Sprint("files/", i) }, func() error {
				k := ks[i%len(ks)]
				s, err := k.sk.SignFile(names[i])
				if err != nil {
					return err
				}
				if !ref.VerifyMsg(k.ref.Pk, ref.FileDigest(fs[i]), s.Sig) {
					return errors.New("the reference does not accept the signature")
				}
				for j := range fs {
					for _, k2 := range ks {
						if k2 != k && j != i && !c.Thorough {
							continue
						}
						want := bytes.Equal(fs[i], fs[j]) && k == k2
						got, err := k2.pk.VerifyFile(names[j], s)
						c.Trans(1)
						c.State("files/%v/%v/%v", i == j, k == k2, got)
						if err != nil {
							return err
						}
						if got != want {
							return fmt.Errorf("content %d with key %s: verify = %v", j, k2.name, got)
						}
					}
				}
				// other names for the same content
				sub := filepath.Join(dir, fmt.Sprint("sub", i))
				os.Mkdir(sub, 0755)
				defer os.RemoveAll(sub)
				cp := filepath.Join(sub, "with space\n#x")
				os.WriteFile(cp, fs[i], 0600)
				ln, sy := filepath.Join(sub, "hard"), filepath.Join(sub, "sym")
				os.Link(names[i], ln)
				os.Symlink(names[i], sy)
				for _, n := range []string{cp, ln, sy} {
					if ok, err := k.pk.VerifyFile(n, s); !ok || err != nil {
						return fmt.Errorf("same content as %q: %v, %v", filepath.Base(n), ok, err)
					}
					s2, err := k.sk.SignFile(n)
					if err != nil {
						return err
					}
					if ok, err := k.pk.VerifyFile(names[i], s2); !ok || err != nil {
						return fmt.Errorf("signed as %q: %v, %v", filepath.Base(n), ok, err)
					}
					c.Trans(3)
				}
				// signature of the reference
				if ok, err := k.pk.VerifyFile(names[i], sigOf(k, k.ref.SignMsg(ref.FileDigest(fs[i])))); !ok || err != nil {
					return fmt.Errorf("reference signature: %v, %v", ok, err)
				}
				return nil
			})
		})
		// every byte of a small file, and its length
		base := pattern(8200, 5)
		k := ks[0]
		s, err := k.sk.SignFile(write("base", base))
		if err != nil {
			c.Violate("files/base", err.Error())
			return
		}
		c.Par(64, func(w int) {
			c.Case(func() string { return fmt.Sprint("fileedit/", w) }, func() error {
				fn := filepath.Join(dir, fmt.Sprint("edit", w))
				defer os.Remove(fn)
				x := append([]byte{}, base...)
				if err := os.WriteFile(fn, x, 0644); err != nil {
					return nil
				}
				fd, err := os.OpenFile(fn, os.O_RDWR, 0)
				if err != nil {
					return nil
				}
				defer fd.Close()
				check := func(want bool, what string, at int) error {
					c.Trans(1)
					ok, err := k.pk.VerifyFile(fn, s)
					if err != nil {
						return err
					}
					if ok != want {
						return fmt.Errorf("%s %d: verify = %v", what, at, ok)
					}
					return nil
				}
				if err := check(true, "unchanged", 0); err != nil {
					return err
				}
				for p := w; p < len(x); p += 64 {
					fd.WriteAt([]byte{x[p] ^ 0x10}, int64(p))
					if err := check(false, "byte changed at", p); err != nil {
						return err
					}
					fd.WriteAt(x[p:p+1], int64(p))
				}
				for p := w; p < len(x); p += 64 {
					fd.Truncate(int64(p))
					if err := check(false, "truncated to", p); err != nil {
						return err
					}
					fd.WriteAt(x[p:], int64(p))
				}
				for n := 1 + w; n < 300; n += 64 {
					fd.Truncate(int64(len(x) + n)) // zeros appended
					if err := check(false, "zeros appended", n); err != nil {
						return err
					}
					fd.Truncate(int64(len(x)))
				}
				return check(true, "restored", 0)
			})
		})
	})

	// one name whose content changes: in place or by another file, with the size, the
	// time stamps or both as they were
	c.Suite("replaced", func() {
		cs := [][]byte{[]byte("pay 100 to bob"), []byte("pay 900 to eve"), []byte("pay 1000 to bob")}
		ways := []string{"inplace", "inplace-keep", "rename", "rename-keep", "link"}
		type act struct {
			content int
			way     int
		}
		var acts []act
		for i := range cs {
			for w := range ways {
				acts = append(acts, act{i, w})
			}
		}
		at := time.Unix(1700000000, 0)
		for n := 1; n <= pick(c, 3, 4); n++ {
			c.Par(eng.CountWords(len(acts), n), func(x int) {
				w := eng.Word(len(acts), n, x)
				c.Case(func() string { return fmt.Sprintf("replaced/%v", w) }, func() error {
					k := ks[x%len(ks)]
					d := filepath.Join(dir, fmt.Sprintf("rep%d.%d", n, x))
					os.Mkdir(d, 0755)
					defer os.RemoveAll(d)
					fn := filepath.Join(d, "f")
					if err := os.WriteFile(fn, cs[0], 0644); err != nil {
						return err
					}
					os.Chtimes(fn, at, at)
					var sigs []*sign.Signature
					var over []int
					look := func(cur int) error {
						for i, s := range sigs {
							ok, err := k.pk.VerifyFile(fn, s)
							c.Trans(1)
							if err != nil || ok != (over[i] == cur) {
								return fmt.Errorf("content %d, signature over %d: %v, %v", cur, over[i], ok, err)
							}
						}
						s, err := k.sk.SignFile(fn)
						if err != nil {
							return err
						}
						if !ref.VerifyMsg(k.ref.Pk, ref.FileDigest(cs[cur]), s.Sig) {
							return fmt.Errorf("signature is not over content %d", cur)
						}
						sigs, over = append(sigs, s), append(over, cur)
						return nil
					}
					if err := look(0); err != nil {
						return err
					}
					for j, y := range w {
						a := acts[y]
						var err error
						switch ways[a.way] {
						case "inplace", "inplace-keep":
							err = os.WriteFile(fn, cs[a.content], 0644)
						case "rename", "rename-keep":
							if err = os.WriteFile(fn+".new", cs[a.content], 0644); err == nil {
								err = os.Rename(fn+".new", fn)
							}
						case "link":
							t := fmt.Sprint(fn, j)
							if err = os.WriteFile(t, cs[a.content], 0644); err == nil {
								os.Chtimes(t, at, at)
								os.Remove(fn)
								err = os.Symlink(t, fn)
							}
						}
						if err != nil {
							return err
						}
						if a.way&1 == 1 {
							os.Chtimes(fn, at, at)
						}
						if err := look(a.content); err != nil {
							return err
						}
					}
					c.State("replaced/%v", w[len(w)-1])
					return nil
				})
			})
		}
		// the same relative name in several directories
		c.Case(func() string { return "replaced/chdir" }, func() error {
			wd, err := os.Getwd()
			if err != nil {
				return err
			}
			defer os.Chdir(wd)
			k := ks[0]
			var sigs []*sign.Signature
			for i, b := range cs {
				d := filepath.Join(dir, fmt.Sprint("cwd", i))
				os.Mkdir(d, 0755)
				os.WriteFile(filepath.Join(d, "f"), b, 0644)
				os.Chtimes(filepath.Join(d, "f"), at, at)
				if err := os.Chdir(d); err != nil {
					return err
				}
				s, err := k.sk.SignFile("f")
				if err != nil {
					return err
				}
				sigs = append(sigs, s)
				for j, s := range sigs {
					if ok, err := k.pk.VerifyFile("f", s); err != nil || ok != (i == j) {
						return fmt.Errorf("directory %d, signature made in %d: %v, %v", i, j, ok, err)
					}
				}
			}
			return nil
		})
	})

	c.Suite("kinds", func() {
		k := ks[0]
		fifo, sock, sub := filepath.Join(dir, "fifo"), filepath.Join(dir, "sock"), filepath.Join(dir, "dir")
		syscall.Mkfifo(fifo, 0644)
		os.Mkdir(sub, 0755)
		if l, err := net.Listen("unix", sock); err == nil {
			defer l.Close()
		}
		// keep the pipe open, so that opening it does not wait for a partner
		if fd, err := os.OpenFile(fifo, os.O_RDWR|syscall.O_NONBLOCK, 0); err == nil {
			fd.Write([]byte("data in the pipe"))
			defer fd.Close()
		}
		os.Symlink("/nonexistent/x", filepath.Join(dir, "dangling"))
		os.Symlink("loop", filepath.Join(dir, "loop"))
		os.Symlink(fifo, filepath.Join(dir, "symfifo"))
		empty := write("empty", nil)
		es, err := k.sk.SignFile(empty)
		if err != nil {
			c.Violate("kinds/empty", err.Error())
			return
		}
		for _, n := range []string{fifo, sub, sock, filepath.Join(dir, "dangling"), filepath.Join(dir, "loop"), filepath.Join(dir, "symfifo"), filepath.Join(dir, "missing"),
			filepath.Join(empty, "x"), "", "/dev/null", "/dev/zero", "/dev/tty", "/proc/version", "/proc/self/status", "/proc/self"} {
			c.Case(func() string { return "kinds/" + filepath.Base(n) }, func() error {
				c.Trans(2)
				c.State("kinds/" + filepath.Base(n))
				if s, err := k.sk.SignFile(n); err == nil {
					ok, _ := k.pk.VerifyFile(empty, s)
					return fmt.Errorf("signed (verifies for empty content: %v)", ok)
				}
				if ok, err := k.pk.VerifyFile(n, es); err == nil {
					return fmt.Errorf("verify = %v without an error", ok)
				}
				return nil
			})
		}
	})

	// large (sparse) files: sizes that collide modulo 2^32, and changes far into them
	c.Suite("large", func() {
		k := ks[0]
		sizes := []int64{0, 1, 1<<26 + 1, 1 << 31, 1<<31 + 1}
		if c.Thorough {
			sizes = append(sizes, 1<<32-1, 1<<32, 1<<32+1)
		}
		fn := func(n int64) string { return filepath.Join(dir, fmt.Sprint("large", n)) }
		sigs := make([]*sign.Signature, len(sizes))
		c.Par(len(sizes), func(i int) {
			c.Case(func() string { return fmt.Sprint("large/sign/", sizes[i]) }, func() error {
				os.WriteFile(fn(sizes[i]), nil, 0644)
				if err := os.Truncate(fn(sizes[i]), sizes[i]); err != nil {
					return err
				}
				s, err := k.sk.SignFile(fn(sizes[i]))
				sigs[i] = s
				return err
			})
		})
		for _, s := range sigs {
			if s == nil {
				return
			}
		}
		c.Par(len(sizes)*len(sizes), func(x int) {
			i, j := x/len(sizes), x%len(sizes)
			if !c.Thorough && i != j && i != (j+1)%len(sizes) && sizes[i] > 1<<30 {
				return
			}
			c.Case(func() string { return fmt.Sprintf("large/%d/%d", sizes[i], sizes[j]) }, func() error {
				ok, err := k.pk.VerifyFile(fn(sizes[i]), sigs[j])
				if err != nil || ok != (i == j) {
					return fmt.Errorf("signature over %d zeros, file of %d: %v, %v", sizes[j], sizes[i], ok, err)
				}
				c.State("large/%d/%v", sizes[i], ok)
				return nil
			})
		})
		// one byte changed, at both sides of every power of two
		flip := func(size, off int64) {
			c.Case(func() string { return fmt.Sprintf("large/%d/at=%d", size, off) }, func() error {
				f := fn(size) + fmt.Sprint(".", off)
				defer os.Remove(f)
				fd, err := os.Create(f)
				if err != nil {
					return err
				}
				defer fd.Close()
				if err = fd.Truncate(size); err == nil {
					_, err = fd.WriteAt([]byte{1}, off)
				}
				if err != nil {
					return err
				}
				for i := range sizes {
					if sizes[i] != size {
						continue
					}
					if ok, err := k.pk.VerifyFile(f, sigs[i]); err != nil || ok {
						return fmt.Errorf("byte %d of %d changed: %v, %v", off, size, ok, err)
					}
				}
				return nil
			})
		}
		type place struct{ size, off int64 }
		var places []place
		for b := 0; b <= 26; b++ {
			places = append(places, place{1<<26 + 1, 1 << b})
			if b != 1 { // 2-1 is 1<<0; the file names must differ
				places = append(places, place{1<<26 + 1, 1<<b - 1})
			}
		}
		places = append(places, place{1<<31 + 1, 1 << 31})
		for b := 27; b <= 32; b++ {
			if c.Thorough {
				places = append(places, place{1<<32 + 1, 1 << b}, place{1<<32 + 1, 1<<b - 1})
			} else if b < 31 && b > 28 {
				places = append(places, place{1<<31 + 1, 1 << b})
			}
		}
		c.Par(len(places), func(i int) { flip(places[i].size, places[i].off) })
		for _, n := range sizes {
			os.Remove(fn(n))
		}
	})
}

// rawSign is a plain Ed25519 signature.
func rawSign(k *pair, m []byte) []byte { return ed25519.Sign(ed25519.PrivateKey(k.ref.Sk), m) }

func rev(b []byte) []byte {
	o := make([]byte, len(b))
	for i, x := range b {
		o[len(b)-1-i] = x
	}
	return o
}
