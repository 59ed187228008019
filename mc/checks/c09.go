package checks

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"mc/eng"
	"mc/ref"

	"github.com/opencoff/sigtool/sign"
)

func init() {
	register(&eng.Prop{ID: "C09", Level: "model_checking",
		Rule: "one execution = one artefact written by one of {code, independent reference, pinned release} and read by another, or one artefact outside the format read by the code; states = (artefact kind, shape class, verdict); transitions = artefacts read",
		Bound: func(c *eng.Ctx) string {
			return fmt.Sprintf("all shapes with chunk size 1..%d, 0..%d bytes, signed or not, 1-3 recipients and each as the reader, both APIs, in both directions; all orders of header fields; %d artefacts of the pinned release; all 256 versions; all single-byte changes of the magic, header and checksum; boundary values of the length field; key documents with every small KDF parameter triple",
				pick(c, 6, 12), pick(c, 14, 30), 64)
		},
		Run: runC09})
}

type golden struct {
	Keys []string
	Pw   []string
	Sigs []struct{ Key, Len, Salt int }
	Encs []struct {
		Len, Chunk, Salt, Sender int
		Rx                       []int
	}
}

func goldenDir() string { return filepath.Join(os.Getenv("MC_VERIF"), "golden") }

// conforms checks a file written by the code against the reference reader.
func conforms(b, pt []byte, chunk uint32, snd *pair, rx []*pair) error {
	f, err := ref.Parse(b)
	if err != nil {
		return err
	}
	if len(f.Rest) > 0 {
		return fmt.Errorf("%d bytes after the trailer", len(f.Rest))
	}
	if f.Hdr.ChunkSize != chunk {
		return fmt.Errorf("header chunk size %d, want %d", f.Hdr.ChunkSize, chunk)
	}
	if len(f.Hdr.Salt) != 32 || len(f.Hdr.Pk) != 32 || len(f.Hdr.Sender) != 80 {
		return errors.New("header field sizes")
	}
	if len(f.Hdr.Keys) != len(rx) {
		return fmt.Errorf("%d entries for %d recipients", len(f.Hdr.Keys), len(rx))
	}
	for i, w := range f.Hdr.Keys {
		if len(w.Nonce) != 12 {
			return errors.New("entry nonce size")
		}
		if _, err := f.Hdr.Unwrap(rx[i].ref, w); err != nil {
			return fmt.Errorf("entry %d does not open for recipient %d", i, i)
		}
	}
	for i, ch := range f.Chunks {
		if i < len(f.Chunks)-1 && ch.Len&^ref.EOFBit != chunk {
			return fmt.Errorf("inner chunk %d has %d bytes", i, ch.Len&^ref.EOFBit)
		}
	}
	o, err := f.Open(rx[0].ref)
	if err != nil {
		return err
	}
	if !bytes.Equal(o.Plain, pt) {
		return errors.New(diff(o.Plain, pt))
	}
	if o.Signed != (snd != nil) {
		return fmt.Errorf("sender blob signed=%v", o.Signed)
	}
	if snd != nil {
		return f.SenderOK(o, snd.ref.Pk)
	}
	return nil
}

// refusesFile: opening, setting the key or decrypting must fail, without releasing data.
func refusesFile(b []byte, rx, snd *pair) error {
	got, err := decOneShot(b, rx, snd)
	if err == nil {
		return errors.New("accepted")
	}
	if len(got) > 0 {
		return errors.New("plaintext released")
	}
	return nil
}

func runC09(c *eng.Ctx) {
	all := []*pair{key("r1"), key("r2"), key("r3")}
	snd := key("sender")
	maxC, maxN := pick(c, 6, 12), pick(c, 14, 30)
	type shape struct {
		chunk, n, nrx, api int
		s                  *pair
	}
	var shapes []shape
	for ch := 1; ch <= maxC; ch++ {
		for n := 0; n <= maxN; n++ {
			for nrx := 1; nrx <= 3; nrx++ {
				for api := 0; api < 2; api++ {
					for _, s := range []*pair{nil, snd} {
						if nrx > 1 && n > 7 && !c.Thorough {
							continue
						}
						shapes = append(shapes, shape{ch, n, nrx, api, s})
					}
				}
			}
		}
	}
	// larger chunk sizes with 2-5 byte varints and length prefixes
	for _, ch := range []int{127, 128, 129, 255, 256, 16383, 16384, 65536, 1 << 20, 1 << 21, 1<<21 + 1, 4 << 20} {
		for _, n := range []int{0, 1, ch - 1, ch, ch + 1, 2 * ch} {
			if n > 1<<22 {
				continue
			}
			for api := 0; api < 2; api++ {
				shapes = append(shapes, shape{ch, n, 1, api, nil}, shape{ch, n, 1, api, snd})
			}
		}
	}
	id := func(s string, x shape) string {
		return fmt.Sprintf("%s/chunk=%d/len=%d/rx=%d/api=%d/signed=%v", s, x.chunk, x.n, x.nrx, x.api, x.s != nil)
	}
	c.Suite("refwrites", func() {
		c.Par(len(shapes), func(i int) {
			x := shapes[i]
			c.Case(func() string { return id("refwrites", x) }, func() error {
				pt := pattern(x.n, 3)
				sp := &ref.Spec{ChunkSize: uint32(x.chunk), Sender: x.s.refOrNil(), Pts: ref.Split(pt, x.chunk, x.api == 0), Label: fmt.Sprint("c09", i)}
				for _, r := range all[:x.nrx] {
					sp.Rx = append(sp.Rx, r.ref)
				}
				b := sp.Write().Bytes
				for _, r := range all[:x.nrx] {
					got, err := decOneShot(b, r, x.s)
					if err == nil && !bytes.Equal(got, pt) {
						err = errors.New(diff(got, pt))
					}
					if err != nil {
						return fmt.Errorf("Decrypt of a conforming file: %w", err)
					}
					got, err = decStream(b, 1+x.n/2, r, x.s)
					if err == nil && !bytes.Equal(got, pt) {
						err = errors.New(diff(got, pt))
					}
					if err != nil {
						return fmt.Errorf("stream read of a conforming file: %w", err)
					}
					c.Trans(2)
				}
				c.State("refwrites/%d/%d/%v/%d", (x.n+x.chunk-1)/x.chunk, x.nrx, x.s != nil, x.api)
				return nil
			})
		})
	})
	c.Suite("codewrites", func() {
		c.Par(len(shapes), func(i int) {
			x := shapes[i]
			c.Case(func() string { return id("codewrites", x) }, func() error {
				pt := pattern(x.n, 4)
				f := encOneShot
				if x.api == 1 {
					f = encStream
				}
				b, err := f(pt, uint64(x.chunk), x.s, all[:x.nrx]...)
				if err != nil {
					return err
				}
				c.Trans(1)
				c.State("codewrites/%d/%d/%v/%d", (x.n+x.chunk-1)/x.chunk, x.nrx, x.s != nil, x.api)
				return conforms(b, pt, uint32(x.chunk), x.s, all[:x.nrx])
			})
		})
	})

	// any order of the protobuf fields is conforming
	c.Suite("fieldorder", func() {
		perms := permutations(6)
		c.Par(len(perms), func(i int) {
			c.Case(func() string { return fmt.Sprint("fieldorder/", perms[i]) }, func() error {
				w := (&ref.Spec{ChunkSize: 200, Rx: []*ref.Key{all[0].ref, all[1].ref}, Sender: snd.ref, Label: "c09fo"}).Write()
				h := w.Hdr
				enc := [][]byte{ref.PbUint(1, 200), ref.PbBytes(2, h.Salt), ref.PbBytes(3, h.Pk), ref.PbBytes(4, h.Sender),
					ref.PbBytes(5, h.Keys[0].Encode()), ref.PbBytes(5, append(ref.PbBytes(2, h.Keys[1].Nonce), ref.PbBytes(1, h.Keys[1].DKey)...))}
				var v []byte
				for _, k := range perms[i] {
					v = append(v, enc[k]...)
				}
				b := ref.Preamble("SigTool", 3, v)
				dk := ref.Expand(w.Root, b[len(b)-32:])
				pts := [][]byte{pattern(200, 1), pattern(9, 2)}
				var lens []uint32
				for j, p := range pts {
					ch := dk.Seal(uint32(j), p, j == 1)
					lens = append(lens, ch.Len)
					b = append(b, ch.Raw()...)
				}
				b = append(b, snd.ref.SignMsg(dk.Mac(lens, pts))...)
				for _, r := range all[:2] {
					got, err := decOneShot(b, r, snd)
					if err != nil {
						return err
					}
					if !bytes.Equal(got, bytes.Join(pts, nil)) {
						return errors.New("wrong plaintext")
					}
					c.Trans(1)
				}
				c.State("fieldorder")
				return nil
			})
		})
	})

	// artefacts of the pinned release
	c.Suite("golden", func() {
		var g golden
		b, err := os.ReadFile(filepath.Join(goldenDir(), "index.json"))
		if err == nil {
			err = json.Unmarshal(b, &g)
		}
		if err != nil {
			c.Broken(err)
			return
		}
		file := func(n string) []byte {
			b, err := os.ReadFile(filepath.Join(goldenDir(), n))
			if err != nil {
				c.Broken(err)
			}
			return b
		}
		var ks []*pair
		for i, s := range g.Keys {
			raw, _ := base64.StdEncoding.DecodeString(s)
			k := ref.KeyFromSk(raw)
			sk, err := sign.MakePrivateKey(k.SSHPriv(ref.SSHOpt{Cipher: "none"}), nil)
			if err != nil {
				c.Broken(err)
				return
			}
			sk.ToCurve25519SK()
			p := &pair{fmt.Sprint("golden", i), sk, sk.PublicKey(), k}
			p.pk.ToCurve25519PK()
			ks = append(ks, p)
		}
		c.ParN(1, len(ks), func(i int) {
			c.Case(func() string { return fmt.Sprint("golden/key", i) }, func() error {
				sk, err := sign.MakePrivateKey(file(fmt.Sprintf("k%d.key", i)), func() ([]byte, error) { return []byte(g.Pw[i]), nil })
				if err != nil {
					return err
				}
				c.Trans(2)
				if !bytes.Equal(sk.Sk, ks[i].ref.Sk) || !bytes.Equal(sk.PublicKey().Hash(), ks[i].ref.Hash()) {
					return errors.New("another key")
				}
				pk, err := sign.MakePublicKey(file(fmt.Sprintf("k%d.pub", i)))
				if err != nil {
					return err
				}
				if !bytes.Equal(pk.Pk, ks[i].ref.Pk) || !bytes.Equal(pk.Hash(), ks[i].ref.Hash()) {
					return errors.New("another public key")
				}
				c.State("golden/key")
				return nil
			})
		})
		c.Par(len(g.Encs), func(i int) {
			e := g.Encs[i]
			c.Case(func() string { return fmt.Sprint("golden/enc", i) }, func() error {
				b := file(fmt.Sprintf("enc%02d", i))
				var s *pair
				if e.Sender >= 0 {
					s = ks[e.Sender]
				}
				pt := pattern(e.Len, byte(e.Salt))
				for _, r := range e.Rx {
					got, err := decOneShot(b, ks[r], s)
					if err == nil && !bytes.Equal(got, pt) {
						err = errors.New(diff(got, pt))
					}
					if err != nil {
						return err
					}
					if got, err = decStream(b, 100, ks[r], s); err == nil && !bytes.Equal(got, pt) {
						err = errors.New(diff(got, pt))
					}
					if err != nil {
						return err
					}
					c.Trans(2)
				}
				c.State("golden/enc/%v", s != nil)
				return nil
			})
		})
		c.Par(len(g.Sigs), func(i int) {
			e := g.Sigs[i]
			c.Case(func() string { return fmt.Sprint("golden/sig", i) }, func() error {
				dir, err := os.MkdirTemp(os.Getenv("MC_WORK"), "c09")
				if err != nil {
					c.Broken(err)
					return nil
				}
				defer os.RemoveAll(dir)
				sf, df := filepath.Join(dir, "sig"), filepath.Join(dir, "data")
				os.WriteFile(df, pattern(e.Len, byte(e.Salt)), 0644)
				os.WriteFile(sf, file(fmt.Sprint("sig", i)), 0644)
				s, err := sign.ReadSignature(sf)
				if err != nil {
					return err
				}
				if ok, err := ks[e.Key].pk.VerifyFile(df, s); !ok || err != nil {
					return fmt.Errorf("file signature of the pinned release: %v, %v", ok, err)
				}
				if !s.IsPKMatch(ks[e.Key].pk) {
					return errors.New("key hint does not match")
				}
				os.WriteFile(sf, file(fmt.Sprint("msgsig", i)), 0644)
				s, err = sign.ReadSignature(sf)
				if err != nil {
					return err
				}
				if !ks[e.Key].pk.VerifyMessage([]byte(fmt.Sprintf("message %d", i)), s) {
					return errors.New("message signature of the pinned release")
				}
				c.Trans(2)
				c.State("golden/sig")
				return nil
			})
		})
	})

	// documents
	c.Suite("docs", func() {
		for i, p := range all {
			c.Case(func() string { return fmt.Sprint("docs/codewrites/", i) }, func() error {
				b, err := p.pk.MarshalBinary("")
				if err != nil {
					return err
				}
				m := ref.Fields(b)
				if m["pk"] != ref.B64(p.ref.Pk) || m["hash"] != ref.B64(p.ref.Hash()) || len(m) != 2 {
					return fmt.Errorf("public key document %q", b)
				}
				if b, err = p.pk.MarshalBinary("word"); err != nil {
					return err
				}
				if m = ref.Fields(b); m["comment"] != "word" || m["pk"] != ref.B64(p.ref.Pk) {
					return fmt.Errorf("public key document with comment %q", b)
				}
				s, err := p.sk.SignMessage([]byte("msg"), "word")
				if err != nil {
					return err
				}
				if b, err = s.MarshalBinary("word"); err != nil {
					return err
				}
				m = ref.Fields(b)
				sig, _ := base64.StdEncoding.DecodeString(m["signature"])
				if m["pkhash"] != ref.B64(p.ref.Hash()) || m["comment"] != "word" || len(m) != 3 || !ref.VerifyMsg(p.ref.Pk, []byte("msg"), sig) {
					return fmt.Errorf("signature document %q", b)
				}
				pk, err := sign.MakePublicKey(ref.PkDoc(p.ref, "word"))
				if err != nil || !bytes.Equal(pk.Pk, p.ref.Pk) || !bytes.Equal(pk.Hash(), p.ref.Hash()) {
					return fmt.Errorf("reference public key document: %v", err)
				}
				c.Trans(4)
				c.State("docs/pk")
				return nil
			})
		}
		c.Case(func() string { return "docs/codewrites/sk" }, func() error {
			b, err := all[0].sk.MarshalBinary("word", []byte("secret"))
			if err != nil {
				return err
			}
			if m := ref.Fields(b); m["algo"] != "scrypt-sha256" || m["comment"] != "word" {
				return fmt.Errorf("private key document %q", b)
			}
			d, err := ref.ParseSk(b)
			if err != nil {
				return err
			}
			raw, err := d.OpenSk("secret")
			if err != nil || !bytes.Equal(raw, all[0].ref.Sk) {
				return fmt.Errorf("reference cannot open the private key document: %v", err)
			}
			c.Trans(1)
			return nil
		})
		type prm struct{ n, r, p, salt int }
		var ps []prm
		for _, n := range []int{2, 4, 16, 1024, 32768} {
			for _, r := range []int{1, 2, 8} {
				for _, p := range []int{1, 2, 3} {
					for _, s := range []int{12, 16, 32, 64} {
						ps = append(ps, prm{n, r, p, s})
					}
				}
			}
		}
		c.Par(len(ps), func(i int) {
			x := ps[i]
			c.Case(func() string { return fmt.Sprintf("docs/sk/N=%d/r=%d/p=%d/salt=%d", x.n, x.r, x.p, x.salt) }, func() error {
				d := ref.SealSk(all[1].ref, "pw", pattern(x.salt, 9), x.n, x.r, x.p)
				sk, err := sign.MakePrivateKey(d.Text(), func() ([]byte, error) { return []byte("pw"), nil })
				if err != nil {
					return err
				}
				c.Trans(1)
				c.State("docs/sk/%d", x.salt)
				if !bytes.Equal(sk.Sk, all[1].ref.Sk) || !bytes.Equal(sk.PublicKey().Hash(), all[1].ref.Hash()) {
					return errors.New("another key")
				}
				return nil
			})
		})
	})

	// everything outside the format is refused
	c.Suite("refuse", func() {
		w := (&ref.Spec{ChunkSize: 64, Rx: []*ref.Key{all[0].ref}, Pts: [][]byte{pattern(10, 1)}, Label: "c09v"}).Write()
		v := w.Hdr.Encode()
		rest := w.Bytes[w.File.HdrLen:]
		seal := func(magic string, ver byte, v []byte) []byte {
			pre := ref.Preamble(magic, ver, v)
			dk := ref.Expand(w.Root, pre[len(pre)-32:])
			ch := dk.Seal(0, pattern(10, 1), true)
			return append(append(pre, ch.Raw()...), make([]byte, 64)...)
		}
		check := func(id string, b []byte) {
			c.Case(func() string { return "refuse/" + id }, func() error {
				c.Trans(1)
				c.State("refuse/" + strings.SplitN(id, "/", 2)[0])
				return refusesFile(b, all[0], nil)
			})
		}
		c.Case(func() string { return "refuse/control" }, func() error {
			_, err := decOneShot(seal("SigTool", 3, v), all[0], nil)
			return err
		})
		for i := 0; i < 256; i++ {
			if i != 3 {
				check(fmt.Sprint("version/", i), seal("SigTool", byte(i), v))
			}
		}
		for p := 0; p < 7; p++ {
			for x := 1; x < 256; x++ {
				m := []byte("SigTool")
				m[p] ^= byte(x)
				check(fmt.Sprintf("magic/%d/%d", p, x), seal(string(m), 3, v))
			}
		}
		full := seal("SigTool", 3, v)
		hl := 12 + len(v)
		for p := 0; p < hl+32; p++ {
			for _, x := range []byte{1, 0x80, 0xff, 0x20} {
				b := append([]byte{}, full...)
				b[p] ^= x
				if p == 7 && b[p] == 3 {
					continue
				}
				check(fmt.Sprintf("checksum/%d/%d", p, x), b)
			}
		}
		// size limits: padded (by an unknown field) headers with a right checksum
		for _, n := range []int{1048577, 1048578, 1 << 21, 1 << 24} {
			pad := n - len(v)
			f := ref.PbBytes(15, make([]byte, pad-5))
			for len(f) != pad {
				f = ref.PbBytes(15, make([]byte, pad-5-(len(f)-pad)))
			}
			check(fmt.Sprint("toobig/", n), seal("SigTool", 3, append(append([]byte{}, v...), f...)))
		}
		for n := 0; n < 32; n++ {
			check(fmt.Sprint("toosmall/", n), ref.Preamble("SigTool", 3, v[:n]))
			check(fmt.Sprint("toosmallpad/", n), append(ref.Preamble("SigTool", 3, ref.PbBytes(2, make([]byte, 30))[:n]), rest...))
		}
		// the length field disagrees with the header
		for _, d := range []int{-1, 1, -33, 32, 16} {
			b := append([]byte{}, full...)
			n := uint32(len(v) + d)
			b[8], b[9], b[10], b[11] = byte(n>>24), byte(n>>16), byte(n>>8), byte(n)
			check(fmt.Sprint("length/", d), b)
		}
		// required fields and sizes
		h := w.Hdr
		parts := map[string][]byte{"chunk": ref.PbUint(1, 64), "salt": ref.PbBytes(2, h.Salt), "pk": ref.PbBytes(3, h.Pk), "sender": ref.PbBytes(4, h.Sender), "key": ref.PbBytes(5, h.Keys[0].Encode())}
		order := []string{"chunk", "salt", "pk", "sender", "key"}
		build := func(over string, val []byte) []byte {
			var o []byte
			for _, n := range order {
				if n == over {
					o = append(o, val...)
				} else {
					o = append(o, parts[n]...)
				}
			}
			return o
		}
		check("field/nochunk", seal("SigTool", 3, build("chunk", nil)))
		check("field/hugechunk", seal("SigTool", 3, build("chunk", ref.PbUint(1, 1<<30+1))))
		check("field/nosalt", seal("SigTool", 3, build("salt", nil)))
		check("field/nokeys", seal("SigTool", 3, build("key", nil)))
		for n := 0; n < 70; n++ {
			if n != 32 {
				check(fmt.Sprint("saltlen/", n), seal("SigTool", 3, build("salt", ref.PbBytes(2, make([]byte, n)))))
			}
		}
		// these may be refused on opening or when the key is set
		late := func(id string, b []byte) {
			c.Case(func() string { return "refuse/" + id }, func() error {
				c.Trans(1)
				if _, err := decOneShot(b, all[0], nil); err == nil {
					return errors.New("decrypts")
				}
				return nil
			})
		}
		late("field/nopk", seal("SigTool", 3, build("pk", nil)))
		late("field/nosender", seal("SigTool", 3, build("sender", nil)))
		for n := 0; n < 100; n++ {
			if n != 32 {
				late(fmt.Sprint("pklen/", n), seal("SigTool", 3, build("pk", ref.PbBytes(3, append(append([]byte{}, h.Pk...), make([]byte, 70)...)[:n]))))
			}
			if n != 80 {
				late(fmt.Sprint("senderlen/", n), seal("SigTool", 3, build("sender", ref.PbBytes(4, append(append([]byte{}, h.Sender...), make([]byte, 70)...)[:n]))))
			}
			if n != 48 {
				k := ref.Wrapped{DKey: append(append([]byte{}, h.Keys[0].DKey...), make([]byte, 70)...)[:n], Nonce: h.Keys[0].Nonce}
				late(fmt.Sprint("dkeylen/", n), seal("SigTool", 3, build("key", ref.PbBytes(5, k.Encode()))))
			}
		}
	})
}

func permutations(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var out [][]int
	for _, p := range permutations(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int{}, p[:i]...), n-1), p[i:]...)
			out = append(out, q)
		}
	}
	return out
}
