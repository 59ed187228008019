package checks

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"mc/eng"
	"mc/ref"

	"github.com/opencoff/sigtool/sign"
)

// Data is data: whatever it looks like - text, holes, the tool's own formats -
// is encrypted and signed byte by byte.

type content struct {
	name string
	data []byte
}

// contents lists kinds of content that a program may be tempted to treat
// specially.
func contents() []content {
	a, b := key("r1").ref, key("r2").ref
	text := "first line\nsecond line\n"
	var out []content
	add := func(name string, data string) { out = append(out, content{name, []byte(data)}) }
	zero := func(n int) string { return strings.Repeat("\x00", n) }
	pat := string(pattern(200, 0x21))

	add("empty", "")
	for _, n := range []int{1, 16, 64, 4096, 8192, 70000} {
		add(fmt.Sprintf("zeros/%d", n), zero(n))
	}
	add("zeros-end", pat+zero(8192))
	add("zeros-start", zero(8192)+pat)
	add("zeros-middle", pat+zero(12288)+pat)
	add("zeros-end-short", "x"+zero(3))
	add("ones", strings.Repeat("\xff", 300))
	add("blanks", strings.Repeat(" ", 100))
	add("same-blocks", strings.Repeat("0123456789abcdef", 64))
	add("all-bytes", func() string {
		var s []byte
		for i := 0; i < 512; i++ {
			s = append(s, byte(i))
		}
		return string(s)
	}())
	add("nl", "\n")
	add("cr", "\r")
	add("crlf", "\r\n")
	add("text", text)
	add("text-no-nl", strings.TrimSuffix(text, "\n"))
	add("text-nlnl", text+"\n")
	add("text-crlf", strings.ReplaceAll(text, "\n", "\r\n"))
	add("text-cr", strings.ReplaceAll(text, "\n", "\r"))
	add("text-blank", text+" ")
	add("text-tab", "\t"+text)
	add("text-nul", text+"\x00")
	add("text-nul-in", "first\x00second")
	add("text-eof", text+"\x1a")
	add("text-eot", text+"\x04")
	add("text-upper", strings.ToUpper(text))
	add("bom", "\xef\xbb\xbf"+text)
	add("bom16", "\xff\xfe"+"a\x00b\x00")
	add("bad-utf8", "caf\xe9 \xc3\x28 \xed\xa0\x80")
	add("nfc", "caf\xc3\xa9")
	add("nfd", "cafe\xcc\x81")
	add("gzip", "\x1f\x8b\x08\x00"+zero(20)+pat)
	add("dash", "-")
	add("percent", "%s%d%n%!")
	add("magic", "SigTool")
	add("magic-version", "SigTool\x03\x00\x00\x00\x40"+pat)
	add("json", "{}")
	add("yaml", "---\na: b\n")
	for _, ch := range []uint32{64, 4096} {
		// an encrypted file, for the same and for another recipient
		add(fmt.Sprintf("encrypted/%d", ch), string((&ref.Spec{ChunkSize: ch, Rx: []*ref.Key{a}, Pts: ref.Split([]byte(pat), int(ch), true), Label: "nest"}).Write().Bytes))
		add(fmt.Sprintf("encrypted-signed/%d", ch), string((&ref.Spec{ChunkSize: ch, Rx: []*ref.Key{b}, Sender: a, Pts: ref.Split([]byte(pat), int(ch), true), Label: "nest2"}).Write().Bytes))
	}
	add("signature", string(ref.SigDoc(a, ref.FileDigest([]byte(text)), "input=f")))
	add("pubkey", string(ref.PkDoc(a, "x")))
	add("seckey", skFile(a, "pw"))
	add("ssh-pub", a.SSHPubLine("x")+"\n")
	add("ssh-priv", string(a.SSHPriv(ref.SSHOpt{Cipher: "none", Comment: "x"})))
	add("pem", "-----BEGIN X-----\nAAAA\n-----END X-----\n")
	add("eof-marks", "\x80\x00\x00\x00"+zero(16)+"\x80\x00\x00\x00")
	add("elf", "\x7fELF\x02\x01\x01"+zero(57)+pat)
	return out
}

// variants of a content that some program somewhere takes for the same.
func contentVariants(d []byte) map[string][]byte {
	cp := func(b []byte) []byte { return append([]byte{}, b...) }
	out := map[string][]byte{
		"+nl":     append(cp(d), '\n'),
		"+nul":    append(cp(d), 0),
		"+blank":  append(cp(d), ' '),
		"+cr":     append(cp(d), '\r'),
		"nl+":     append([]byte("\n"), d...),
		"bom+":    append([]byte("\xef\xbb\xbf"), d...),
		"trim":    bytes.TrimSpace(d),
		"trimnul": bytes.TrimRight(d, "\x00"),
		"lf":      bytes.ReplaceAll(d, []byte("\r\n"), []byte("\n")),
		"crlf":    bytes.ReplaceAll(d, []byte("\n"), []byte("\r\n")),
		"upper":   bytes.ToUpper(d),
		"utf8":    bytes.ToValidUTF8(d, []byte("\xef\xbf\xbd")),
		"twice":   append(cp(d), d...),
		"empty":   {},
	}
	if i := bytes.IndexByte(d, 0); i >= 0 {
		out["tonul"] = cp(d[:i])
	}
	if i := bytes.IndexByte(d, '\n'); i >= 0 {
		out["line"] = cp(d[:i])
	}
	if i := bytes.IndexByte(d, 0x1a); i >= 0 {
		out["toeof"] = cp(d[:i])
	}
	for k, v := range out {
		if bytes.Equal(v, d) {
			delete(out, k)
		}
	}
	return out
}

// c01Contents: the round trip of every kind of content.
func c01Contents(c *eng.Ctx) {
	cs := contents()
	chunks := []uint64{1, 16, 64, 4096, 8192, 0}
	r, s := key("r1"), key("sender")
	c.Par(len(cs)*len(chunks)*4, func(i int) {
		ct, ch, api, signed := cs[i/4/len(chunks)], chunks[i/4%len(chunks)], i/2%2, i%2 == 1
		if ch == 1 && len(ct.data) > 10000 && !c.Thorough {
			return
		}
		c.Case(func() string {
			return fmt.Sprintf("contents/%s/chunk=%d/%s/signed=%v", ct.name, ch, encAPIs[api].name, signed)
		}, func() error {
			var sd *pair
			if signed {
				sd = s
			}
			return roundTripOf(c, api, ch, ct.data, sd, []*pair{r})
		})
		c.State("content/%s/%d", ct.name, ch)
	})
}

// c01Blocks: many blocks.
func c01Blocks(c *eng.Ctx) {
	type job struct {
		chunk uint64
		n     int
	}
	var jobs []job
	for _, k := range []int{127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 1023, 1024, 1025} {
		jobs = append(jobs, job{1, k}, job{3, 3 * k}, job{2, 2*k - 1})
	}
	for _, k := range []int{32768, 32769, 65535, 65536, 65537} {
		jobs = append(jobs, job{1, k})
	}
	if c.Thorough {
		for _, k := range []int{4096, 32767, 65534, 65538, 131072, 131073} {
			jobs = append(jobs, job{1, k}, job{3, 3 * k}, job{2, 2*k - 1})
		}
		// these take minutes
		c.SetHang(30 * time.Minute)
		defer c.SetHang(150 * time.Second)
		jobs = append(jobs, job{1, 1 << 20}, job{1, 1<<20 + 1}, job{1, 1<<24 + 1}, job{2, 1<<24 + 1})
	}
	r, s := key("r1"), key("sender")
	c.ParN(4, len(jobs)*2, func(i int) {
		j, api := jobs[i/2], i%2
		var sd *pair
		if i/2%2 == 1 {
			sd = s
		}
		c.Case(func() string { return fmt.Sprintf("blocks/%d/%d/%s", j.chunk, j.n, encAPIs[api].name) }, func() error {
			return roundTripOf(c, api, j.chunk, pattern(j.n, 0x5c), sd, []*pair{r})
		})
	})
}

// c11ContentsSuite: signatures of every kind of content, and what they must not
// be taken for.
func c11ContentsSuite(c *eng.Ctx, dir string) {
	cs := contents()
	k := key("k1")
	c.Par(len(cs), func(i int) {
		ct := cs[i]
		c.Case(func() string { return "contents/" + ct.name }, func() error {
			fn, other := filepath.Join(dir, fmt.Sprint("ct", i)), filepath.Join(dir, fmt.Sprint("cv", i))
			if err := os.WriteFile(fn, ct.data, 0600); err != nil {
				return nil
			}
			sf, err := k.sk.SignFile(fn)
			if err != nil {
				return fmt.Errorf("SignFile: %w", err)
			}
			sm, err := k.sk.SignMessage(ct.data, "")
			if err != nil {
				return fmt.Errorf("SignMessage: %w", err)
			}
			if !ref.VerifyMsg(k.ref.Pk, ref.FileDigest(ct.data), sf.Sig) || !ref.VerifyMsg(k.ref.Pk, ct.data, sm.Sig) {
				return errors.New("the reference does not accept the signature")
			}
			if ok, err := k.pk.VerifyFile(fn, sf); !ok || err != nil {
				return fmt.Errorf("VerifyFile: %v, %v", ok, err)
			}
			if !k.pk.VerifyMessage(ct.data, sm) {
				return errors.New("VerifyMessage refuses")
			}
			c.Trans(4)
			for n, v := range contentVariants(ct.data) {
				if err := os.WriteFile(other, v, 0600); err != nil {
					return nil
				}
				c.Trans(2)
				c.State("contents/%s/%s", ct.name, n)
				if ok, err := k.pk.VerifyFile(other, sf); ok || err != nil {
					return fmt.Errorf("VerifyFile of the content changed by %s: %v, %v", n, ok, err)
				}
				if k.pk.VerifyMessage(v, sm) {
					return fmt.Errorf("VerifyMessage of the content changed by %s", n)
				}
			}
			// nor for the other kind of signature
			if ok, _ := k.pk.VerifyFile(fn, sm); ok {
				return errors.New("a message signature verifies the file")
			}
			if k.pk.VerifyMessage(ct.data, sf) {
				return errors.New("a file signature verifies the message")
			}
			return nil
		})
	})
}

// c11Alike: signatures by keys that look alike, and the key hint of a signature
// document of which a bit of the hash was changed.
func c11Alike(c *eng.Ctx) {
	groups := alikeKeys()
	c.Par(len(groups), func(i int) {
		g := groups[i]
		c.Case(func() string { return "alike/" + g.name }, func() error {
			pt := pattern(100, 4)
			// signatures
			for a, p := range g.keys {
				s, err := p.sk.SignMessage(pt, "")
				if err != nil {
					return err
				}
				for b, q := range g.keys {
					c.Trans(2)
					if q.pk.VerifyMessage(pt, s) != (a == b) || s.IsPKMatch(q.pk) != (a == b) {
						return fmt.Errorf("signature by %d, key %d: verify %v, key hint %v", a, b, q.pk.VerifyMessage(pt, s), s.IsPKMatch(q.pk))
					}
				}
			}
			p := g.keys[0]
			s, err := p.sk.SignMessage(pt, "")
			if err != nil {
				return err
			}
			for bit := -1; bit < 128; bit++ {
				h := append([]byte{}, p.ref.Hash()...)
				if bit >= 0 {
					h[bit/8] ^= 1 << (bit % 8)
				}
				s2 := &sign.Signature{}
				c.Trans(1)
				if err := s2.UnmarshalBinary([]byte("pkhash: " + ref.B64(h) + "\nsignature: " + ref.B64(s.Sig) + "\n")); err != nil {
					if bit < 0 {
						return err
					}
					continue
				}
				if s2.IsPKMatch(p.pk) != (bit < 0) {
					return fmt.Errorf("bit %d of the key hash changed: key hint %v", bit, bit >= 0)
				}
			}
			c.State("alike/%s", g.name)
			return nil
		})
	})
}

// c06Alike: keys that look alike - equal comments, equal beginnings or ends of
// the key or its hash - are still different keys.
func c06Alike(c *eng.Ctx) {
	groups := alikeKeys()
	c.Par(len(groups)*2, func(i int) {
		g, api := groups[i/2], i%2
		c.Case(func() string { return fmt.Sprintf("alike/%s/%s", g.name, encAPIs[api].name) }, func() error {
			pt := pattern(100, 4)
			x, y := g.keys[0], g.keys[1]
			for _, rx := range [][]*pair{{x}, {y}, {x, y}, {y, x}, {x, y, x}} {
				ct, err := encAPIs[api].f(pt, 64, nil, rx...)
				if err != nil {
					return err
				}
				for _, p := range g.keys {
					listed := false
					for _, r := range rx {
						listed = listed || r == p
					}
					got, err := decOneShot(ct, p, nil)
					c.Trans(1)
					c.State("alike/%s/%d/%v", g.name, len(rx), listed)
					if listed && (err != nil || !bytes.Equal(got, pt)) {
						return fmt.Errorf("a listed recipient cannot decrypt: %v", err)
					}
					if !listed && err == nil {
						return errors.New("a key that is not listed decrypts")
					}
				}
			}
			// senders
			for a, p := range g.keys {
				ct, err := encAPIs[api].f(pt, 64, p, key("r1"))
				if err != nil {
					return err
				}
				for b, q := range g.keys {
					_, err := decOneShot(ct, key("r1"), q)
					c.Trans(1)
					if (err == nil) != (a == b) {
						return fmt.Errorf("sender %d, expected %d: %v", a, b, err)
					}
				}
			}
			return nil
		})
	})
}

type keyGroup struct {
	name string
	keys []*pair
}

// alikeNames are names of keys (found by search) that agree in five bytes
// somewhere, or whose bytes or their encoding look special.
var alikeNames = []struct {
	name string
	keys []string
}{
	{"pk-start", []string{"alike248641", "alike1010357"}},
	{"pk-end", []string{"alike778858", "alike1106521"}},
	{"hash-start", []string{"alike252736", "alike1547351"}},
	{"hash-end", []string{"alike553161", "alike664687"}},
	{"pk-zero-start", []string{"alike26531"}},
	{"pk-zero-end", []string{"alike14341"}},
	{"pk-ff-start", []string{"alike106077"}},
	{"pk-nul-nl", []string{"alike13431"}},
	{"hash-zero-start", []string{"alike34020"}},
	{"hash-zero-end", []string{"alike150747"}},
	{"seed-zero-start", []string{"alike35508"}},
	{"seed-zero-end", []string{"alike6826"}},
	{"b64-slash", []string{"alike273"}},
	{"b64-plus", []string{"alike1681"}},
	{"b64-0x", []string{"alike11427"}},
	{"b64-0o", []string{"alike6866"}},
	{"b64-digits", []string{"alike2718"}},
	{"b64-true", []string{"alike38698"}},
	{"b64-null", []string{"alike531142"}},
	{"hash-b64-plus", []string{"alike2638"}},
	{"hash-b64-digits", []string{"alike50414"}},
}

func alikeKeys() []keyGroup {
	var out []keyGroup
	for _, a := range alikeNames {
		g := keyGroup{name: a.name}
		for _, k := range a.keys {
			g.keys = append(g.keys, key(k))
		}
		if len(g.keys) == 1 {
			g.keys = append(g.keys, key("r2"))
		}
		out = append(out, g)
	}
	return out
}

var randLooks = []struct {
	name  string
	whole bool
	edit  func(b []byte)
}{
	{"first=0", false, func(b []byte) { b[0] = 0 }},
	{"first two=0", false, func(b []byte) { copy(b[:min(2, len(b))], []byte{0, 0}) }},
	{"last=0", false, func(b []byte) { b[len(b)-1] = 0 }},
	{"last four=0", false, func(b []byte) { copy(b[max(0, len(b)-4):], make([]byte, 4)) }},
	{"first=ff", false, func(b []byte) { b[0] = 0xff }},
	{"last=ff", false, func(b []byte) { b[len(b)-1] = 0xff }},
	{"first=nl", false, func(b []byte) { b[0] = 10 }},
	{"last=nl", false, func(b []byte) { b[len(b)-1] = 10 }},
	{"first=80", false, func(b []byte) { b[0] = 0x80 }},
	{"last=blank", false, func(b []byte) { b[len(b)-1] = 32 }},
	{"all=0", true, func(b []byte) { clear(b) }},
	{"all=ff", true, func(b []byte) {
		for i := range b {
			b[i] = 0xff
		}
	}},
}

// c01Randoms: the round trip works whatever the random source delivers.
func c01Randoms(c *eng.Ctx) {
	r, s := key("r1"), key("sender")
	rs := []*pair{r, key("r2")}
	c.Par(len(randLooks)*4, func(i int) {
		l, api, signed := randLooks[i/4], i/2%2, i%2 == 1
		var sd *pair
		if signed {
			sd = s
		}
		// -1: all of them
		for k := -1; k < 12; k++ {
			c.Case(func() string {
				return fmt.Sprintf("randoms/%s/%s/signed=%v/read=%d", l.name, encAPIs[api].name, signed, k)
			}, func() error {
				eng.RandEdit(func(call int, b []byte) {
					if len(b) > 0 && (k < 0 || call == k) {
						l.edit(b)
					}
				})
				err := roundTripOf(c, api, 16, pattern(40, 7), sd, rs)
				if err != nil && l.whole && strings.HasPrefix(err.Error(), "encryption failed") {
					c.Outcome("degenerate randomness refused")
					return nil
				}
				c.State("randoms/%s/%d", l.name, k)
				return err
			})
		}
	})
}

// c12Keys: documents of many keys and signatures, special looking ones among
// them, read back as what they were.
func c12Keys(c *eng.Ctx) {
	names := alikeAll()
	n := pick(c, 4096, 40000)
	for i := 0; len(names) < n; i++ {
		names = append(names, fmt.Sprint("many", i))
	}
	const blk = 64
	c.Par((len(names)+blk-1)/blk, func(bi int) {
		c.Case(func() string { return fmt.Sprintf("keys/%d", bi*blk) }, func() error {
			for i := bi * blk; i < len(names) && i < bi*blk+blk; i++ {
				p := freshKey(names[i])
				if err := docsOf(p, ""); err != nil {
					return fmt.Errorf("key %s: %w", names[i], err)
				}
				c.Trans(1)
				if i < 64 {
					c.State("keys/%s", names[i])
				}
			}
			return nil
		})
	})
	// signatures: messages are counted until the signature looks special
	k := key("k1")
	m := pick(c, 1<<14, 1<<17)
	c.Par(m/256, func(bi int) {
		c.Case(func() string { return fmt.Sprintf("sigs/%d", bi*256) }, func() error {
			for i := bi * 256; i < bi*256+256; i++ {
				msg := []byte(fmt.Sprint("message ", i))
				s, err := k.sk.SignMessage(msg, "")
				if err != nil {
					return err
				}
				c.Trans(1)
				if err := sigDocOf(k, s, msg); err != nil {
					return fmt.Errorf("message %q, signature %x: %w", msg, s.Sig, err)
				}
			}
			return nil
		})
	})
}

func alikeAll() []string {
	var names []string
	for _, a := range alikeNames {
		names = append(names, a.keys...)
	}
	return names
}

func sigDocOf(k *pair, s *sign.Signature, msg []byte) error {
	b, err := s.MarshalBinary("")
	if err != nil {
		return err
	}
	s2 := &sign.Signature{}
	if err := s2.UnmarshalBinary(b); err != nil {
		return err
	}
	if !bytes.Equal(s.Sig, s2.Sig) || !s2.IsPKMatch(k.pk) || !k.pk.VerifyMessage(msg, s2) {
		return errors.New("another signature was read back")
	}
	return nil
}

// docsOf writes and reads the public documents of a key.
func docsOf(p *pair, comment string) error {
	b, err := p.pk.MarshalBinary(comment)
	if err != nil {
		return err
	}
	for how, doc := range [][]byte{b, ref.PkDoc(p.ref, comment), []byte(p.ref.SSHPubLine(comment))} {
		q, err := sign.MakePublicKey(doc)
		if err != nil {
			return fmt.Errorf("form %d: %w", how, err)
		}
		if !bytes.Equal(q.Pk, p.ref.Pk) || !bytes.Equal(q.Hash(), p.ref.Hash()) {
			return fmt.Errorf("form %d: another key was read back", how)
		}
		msg := []byte("of " + p.name)
		s, err := p.sk.SignMessage(msg, "")
		if err != nil {
			return err
		}
		if err := sigDocOf(&pair{p.name, p.sk, q, p.ref}, s, msg); err != nil {
			return fmt.Errorf("form %d: %w", how, err)
		}
	}
	return nil
}

// c12SkKeys: private key documents of special looking keys, with salts that
// look special.
func c12SkKeys(c *eng.Ctx) {
	names := append(alikeAll(), "k1", "k2")
	c.Par(len(names)*(len(randLooks)+1), func(i int) {
		n, li := names[i/(len(randLooks)+1)], i%(len(randLooks)+1)
		c.Case(func() string { return fmt.Sprintf("keys/%s/%d", n, li) }, func() error {
			p := key(n)
			if li > 0 {
				eng.RandEdit(func(call int, b []byte) {
					if len(b) > 0 {
						randLooks[li-1].edit(b)
					}
				})
			}
			pw := []byte("pw " + n)
			b, err := p.sk.MarshalBinary("c", pw)
			if err != nil {
				if li > 0 && randLooks[li-1].whole {
					return nil
				}
				return err
			}
			c.Trans(1)
			c.State("skkeys/%s/%d", n, li)
			got, err := sign.MakePrivateKey(b, func() ([]byte, error) { return pw, nil })
			if err != nil {
				return err
			}
			if !bytes.Equal(got.Sk, p.ref.Sk) || !bytes.Equal(got.PublicKey().Pk, p.ref.Pk) || !bytes.Equal(got.PublicKey().Hash(), p.ref.Hash()) {
				return errors.New("another key was read back")
			}
			return nil
		})
	})
	// new keys
	c.Par(len(randLooks)+1, func(li int) {
		c.Case(func() string { return fmt.Sprintf("newkeys/%d", li) }, func() error {
			if li > 0 {
				eng.RandEdit(func(call int, b []byte) {
					if len(b) > 0 {
						randLooks[li-1].edit(b)
					}
				})
			}
			sk, err := sign.NewPrivateKey()
			if err != nil {
				if li > 0 && randLooks[li-1].whole {
					return nil
				}
				return err
			}
			k := ref.KeyFromSk(sk.Sk)
			p := &pair{"new", sk, sk.PublicKey(), k}
			if !bytes.Equal(sk.Sk, k.Sk) {
				return errors.New("a new private key is not one")
			}
			c.Trans(1)
			return docsOf(p, "new key")
		})
	})
}

// c16Keys: lines with many different keys.
func c16Keys(c *eng.Ctx) {
	names := alikeAll()
	for i := 0; i < pick(c, 3000, 30000); i++ {
		names = append(names, fmt.Sprint("many", i))
	}
	cm := func(i int) string { return fmt.Sprintf("user%d@host", i) }
	c16All(c, "keys", "single", len(names), func(i int) string { return ref.KeyFor(names[i]).SSHPubLine(cm(i)) + "\n" })
	c16All(c, "keys", "alike", len(alikeNames)*4, func(i int) string {
		g := alikeNames[i/4].keys
		x, y := ref.KeyFor(g[0]), ref.KeyFor("k1")
		if len(g) > 1 {
			y = ref.KeyFor(g[1])
		}
		if i&1 == 1 {
			x, y = y, x
		}
		if i&2 == 2 {
			return x.SSHPubLine("same@host") + "\n" + y.SSHPubLine("same@host") + "\n"
		}
		return x.SSHPubLine("x@host") + "\n" + y.SSHPubLine("y@host") + "\n" + x.SSHPubLine("z@host") + "\n"
	})
	c16All(c, "keys", "all", 2, func(i int) string {
		var sb strings.Builder
		for j, n := range names {
			sb.WriteString(ref.KeyFor(n).SSHPubLine(cm(j*(1-i))) + "\n")
		}
		return sb.String()
	})
}
