package checks

import (
	"bytes"
	"errors"
	"fmt"

	"mc/eng"
	"mc/ref"

	"github.com/opencoff/sigtool/sign"
)

func init() {
	register(&eng.Prop{ID: "C05", Level: "model_checking",
		Rule: "one execution = one file (honest or built by a co-recipient who knows every symmetric key) decrypted by one recipient with one expected sender, through both interfaces; states = (suite, edit class, verdict); transitions = edits applied",
		Bound: func(c *eng.Ctx) string {
			return "3 actual x 4 expected senders x writers x shapes; all sequences of up to 4 (thorough 5) calls that set key and sender, on honest files and ones with a bad trailer; insider: all products of header edits x sender blobs x secrets taken from either of two genuine files or the attacker x chunk edits x trailers"
		},
		Assume: []string{"Ed25519 is unforgeable: the insider can only replay signatures that exist"},
		Run:    runC05})
}

// senderRun decrypts for rx expecting snd; returns per API plaintext/err/auth flag.
func senderRun(b []byte, rx, snd *pair, api int) (pt []byte, auth bool, err error) {
	d, err := sign.NewDecryptor(bytes.NewReader(b))
	if err != nil {
		return nil, false, err
	}
	if err := d.SetPrivateKey(rx.sk, snd.pkOrNil()); err != nil {
		return nil, d.AuthenticatedSender(), err
	}
	if api == 0 {
		var s sink
		err = d.Decrypt(&s)
		pt = s.Bytes()
	} else {
		r, e := d.NewStreamReader()
		if e != nil {
			return nil, d.AuthenticatedSender(), e
		}
		pt, err = readAll(r, 7)
	}
	return pt, d.AuthenticatedSender(), err
}

// c05Again gives a session its key more than once: each time the sender is checked
// as if it was the first time.
func c05Again(c *eng.Ctx) {
	s1, s2, r1, out := key("s1"), key("s2"), key("r1"), key("o1")
	senders := []*pair{nil, s1, s2}
	pt := pattern(20, 1)
	type file struct {
		name string
		act  *pair
		bad  bool // the trailer does not sign the data
		b    []byte
	}
	var files []file
	for _, act := range senders {
		w := (&ref.Spec{ChunkSize: 8, Rx: []*ref.Key{key("r2").ref, r1.ref}, Sender: act.refOrNil(), Pts: ref.Split(pt, 8, false), Label: "c05 again"}).Write().Bytes
		files = append(files, file{sndName(act), act, false, w})
		if act != nil {
			bad := bytes.Clone(w)
			bad[len(bad)-40] ^= 4
			files = append(files, file{sndName(act) + "/bad trailer", act, true, bad})
		}
	}
	var seqs [][]int
	eng.Words(6, 1, pick(c, 4, 5), func(ix []int) { seqs = append(seqs, ix) })
	c.Suite("again", func() {
		c.Par(len(seqs)*len(files)*2, func(i int) {
			ix, f, api := seqs[i%len(seqs)], files[i/len(seqs)%len(files)], i/len(seqs)/len(files)
			c.Case(func() string { return fmt.Sprintf("again/%s/%v/%d", f.name, ix, api) }, func() error {
				d, err := sign.NewDecryptor(bytes.NewReader(f.b))
				if err != nil {
					return err
				}
				any := false
				for n, x := range ix {
					k, snd := r1, senders[x%3]
					if x >= 3 {
						k = out
					}
					err := d.SetPrivateKey(k.sk, snd.pkOrNil())
					want := k == r1 && snd == f.act
					if (err == nil) != want {
						return fmt.Errorf("call %d, key of %s with sender %s: %v", n, k.name, sndName(snd), err)
					}
					any = any || want
					if auth := any && f.act != nil; d.AuthenticatedSender() && !auth || want && d.AuthenticatedSender() != auth {
						return fmt.Errorf("AuthenticatedSender() = %v after call %d", d.AuthenticatedSender(), n)
					}
				}
				c.Trans(len(ix))
				c.State("again/%s/%v", f.name, any)
				var got []byte
				if api == 0 {
					var s sink
					err = d.Decrypt(&s)
					got = s.Bytes()
				} else if r, e := d.NewStreamReader(); e != nil {
					err = e
				} else {
					got, err = readAll(r, 7)
				}
				switch {
				case !any && (err == nil || len(got) > 0):
					return fmt.Errorf("%d bytes released without an accepted sender", len(got))
				case f.bad && err == nil:
					return errors.New("data accepted that its sender did not sign")
				case f.bad && len(got) == len(pt):
					return errors.New("all data released although its sender did not sign it")
				case !isPrefix(got, pt):
					return errors.New(diff(got, pt))
				case err == nil && len(got) != len(pt):
					return errors.New(diff(got, pt))
				case err != nil && any && !f.bad && len(ix) == 1:
					return err
				}
				return nil
			})
		})
	})
}

func runC05(c *eng.Ctx) {
	s1, s2, r1, r2 := key("s1"), key("s2"), key("r1"), key("r2")
	c05Again(c)

	c.Suite("honest", func() {
		senders := []*pair{nil, s1, s2, r2}
		type job struct {
			act, exp, w, n, chunk int
			api                   int
		}
		var jobs []job
		for act := 0; act < 4; act++ {
			for exp := 0; exp < 4; exp++ {
				for w := 0; w < 4; w++ {
					for _, n := range []int{0, 1, 7, 8, 16, 20} {
						for _, ch := range []int{8, 64} {
							for api := 0; api < 2; api++ {
								jobs = append(jobs, job{act, exp, w, n, ch, api})
							}
						}
					}
				}
			}
		}
		c.Par(len(jobs), func(i int) {
			j := jobs[i]
			c.Case(func() string {
				return fmt.Sprintf("honest/actual=%d/expected=%d/writer=%d/len=%d/chunk=%d/api=%d", j.act, j.exp, j.w, j.n, j.chunk, j.api)
			}, func() error {
				pt := pattern(j.n, 1)
				act, exp := senders[j.act], senders[j.exp]
				var b []byte
				var err error
				switch j.w {
				case 0:
					b, err = encOneShot(pt, uint64(j.chunk), act, r1, r2)
				case 1:
					b, err = encStream(pt, uint64(j.chunk), act, r1, r2)
				default:
					b = (&ref.Spec{ChunkSize: uint32(j.chunk), Rx: []*ref.Key{r1.ref, r2.ref}, Sender: act.refOrNil(), Pts: ref.Split(pt, j.chunk, j.w == 2), Label: "c05"}).Write().Bytes
				}
				if err != nil {
					return err
				}
				got, auth, err := senderRun(b, r2, exp, j.api)
				want := j.act == j.exp
				c.Trans(1)
				c.State("honest/%d/%d/%v/%v", j.act, j.exp, err == nil, auth)
				if want && err != nil {
					return fmt.Errorf("honest file rejected: %w", err)
				}
				if !want && err == nil {
					return errors.New("accepted although the actual sender is not the expected one")
				}
				if want && !bytes.Equal(got, pt) {
					return errors.New(diff(got, pt))
				}
				if wantAuth := want && act != nil; auth != wantAuth {
					return fmt.Errorf("AuthenticatedSender() = %v, want %v", auth, wantAuth)
				}
				if !want && len(got) > 0 {
					return fmt.Errorf("%d bytes released without an accepted sender", len(got))
				}
				return nil
			})
		})
	})

	// co-recipient r1 attacks r2, who expects s1
	type base struct {
		name string
		pts  [][]byte
	}
	bases := []base{
		{"multi", ref.Split(pattern(20, 1), 8, false)},
		{"exact", ref.Split(pattern(16, 2), 8, true)},
		{"one", ref.Split(pattern(5, 3), 8, false)},
		{"empty", ref.Split(nil, 8, false)},
	}
	if !c.Thorough {
		bases = []base{bases[0], bases[1], bases[3]}
	}
	for _, bs := range bases {
		mk := func(label string, snd *ref.Key, pts [][]byte) *ref.Written {
			return (&ref.Spec{ChunkSize: 8, Rx: []*ref.Key{r1.ref, r2.ref}, Sender: snd, Pts: pts, Label: label}).Write()
		}
		full := bytes.Join(bs.pts, nil)
		otherPts := ref.Split(pattern(20, 0x44), 8, false)
		F := mk("c05F"+bs.name, s1.ref, bs.pts)
		G := mk("c05G"+bs.name, s1.ref, otherPts) // another genuine file of s1
		sigF, _ := F.Hdr.OpenSender(F.Root)
		sigG, _ := G.Hdr.OpenSender(G.Root)

		// attacker's own secrets
		A := mk("c05A"+bs.name, r1.ref, otherPts)

		type secrets struct {
			n        string
			root     []byte
			salt, pk []byte
			keys     []ref.Wrapped
		}
		var secs []secrets
		for _, x := range []struct {
			n string
			w *ref.Written
		}{{"F", F}, {"G", G}, {"A", A}} {
			secs = append(secs, secrets{x.n, x.w.Root, x.w.Hdr.Salt, x.w.Hdr.Pk, x.w.Hdr.Keys})
		}
		secs = append(secs,
			// F's identity fields with the attacker's wrapping: the root stays F's
			secrets{"F+pkA", F.Root, F.Hdr.Salt, A.Hdr.Pk, nil},
			secrets{"F+saltG", F.Root, G.Hdr.Salt, F.Hdr.Pk, nil},
			secrets{"G+saltF", G.Root, F.Hdr.Salt, G.Hdr.Pk, nil},
		)
		// for the mixed ones the attacker owns an ephemeral key when pk is his; r2's
		// entry can only be made with an ephemeral secret he knows (A's)
		ephA := refEph("c05A" + bs.name)
		for i := range secs {
			if secs[i].keys == nil {
				if bytes.Equal(secs[i].pk, A.Hdr.Pk) {
					secs[i].keys = []ref.Wrapped{ref.Wrap(secs[i].root, ephA, secs[i].salt, []byte("nonce0123456"), r2.ref.Pk, r2.ref.CurvePK())}
				} else if bytes.Equal(secs[i].pk, F.Hdr.Pk) {
					secs[i].keys = F.Hdr.Keys
				} else {
					secs[i].keys = G.Hdr.Keys
				}
			}
		}
		type sblob struct {
			n   string
			sig []byte
		}
		blobs := []sblob{{"sigF", sigF}, {"sigG", sigG}, {"zero", make([]byte, 64)}, {"attacker", nil}, {"sigFflip", flipped(sigF)}, {"trailerF", F.File.Trailer}}
		type hed struct {
			n string
			f func(h *ref.Header)
		}
		heds := []hed{
			{"same", func(h *ref.Header) {}},
			{"chunk9", func(h *ref.Header) { h.ChunkSize = 9 }},
			{"chunk100", func(h *ref.Header) { h.ChunkSize = 100 }},
			{"dropr1", func(h *ref.Header) { h.Keys = h.Keys[len(h.Keys)-1:] }},
			{"dupkeys", func(h *ref.Header) { h.Keys = append(append([]ref.Wrapped{}, h.Keys...), h.Keys...) }},
			{"addA", func(h *ref.Header) { h.Keys = append(append([]ref.Wrapped{}, h.Keys...), A.Hdr.Keys[0]) }},
		}
		type ced struct {
			n   string
			pts func() [][]byte
		}
		mut := func(i, j int) [][]byte {
			out := [][]byte{}
			for _, p := range bs.pts {
				out = append(out, append([]byte{}, p...))
			}
			if len(out) > i && len(out[i]) > j {
				out[i][j] ^= 1
			}
			return out
		}
		ceds := []ced{
			{"same", func() [][]byte { return mut(99, 0) }},
			{"flipfirst", func() [][]byte { return mut(0, 0) }},
			{"fliplast", func() [][]byte { return mut(len(bs.pts)-1, 0) }},
			{"trunc", func() [][]byte { return bs.pts[:max(1, len(bs.pts)-1)] }},
			{"first", func() [][]byte { return bs.pts[:1] }},
			{"none", func() [][]byte { return [][]byte{nil} }},
			{"extend", func() [][]byte { return append(mut(99, 0), []byte("evil")) }},
			{"swap", func() [][]byte {
				p := mut(99, 0)
				p[0], p[len(p)-1] = p[len(p)-1], p[0]
				return p
			}},
			{"rechunk", func() [][]byte {
				var out [][]byte
				for i := range full {
					out = append(out, full[i:i+1])
				}
				return out
			}},
			{"other", func() [][]byte { return otherPts }},
			{"othersame", func() [][]byte {
				var out [][]byte
				for _, p := range bs.pts {
					out = append(out, bytes.Repeat([]byte{0x5a}, len(p)))
				}
				return out
			}},
		}
		trs := []string{"F", "G", "attacker", "zero", "random", "sigF", "empty", "short", "flip"}

		suite := "insider/" + bs.name
		total := len(secs) * len(blobs) * len(heds) * len(ceds) * len(trs)
		c.Suite(suite, func() {
			c.Par(total, func(i int) {
				k := i
				next := func(n int) int { r := k % n; k /= n; return r }
				tr, ce, he, bl, se := trs[next(len(trs))], ceds[next(len(ceds))], heds[next(len(heds))], blobs[next(len(blobs))], secs[next(len(secs))]
				c.Case(func() string {
					return fmt.Sprintf("%s/secrets=%s/blob=%s/hdr=%s/chunks=%s/trailer=%s", suite, se.n, bl.n, he.n, ce.n, tr)
				}, func() error {
					h := &ref.Header{ChunkSize: 8, Salt: se.salt, Pk: se.pk, Keys: append([]ref.Wrapped{}, se.keys...)}
					sig := bl.sig
					if sig == nil {
						sig = r1.ref.SignMsg(h.SenderDigest(se.root))
					}
					h.Sender = h.SealSender(se.root, sig)
					he.f(h)
					b := ref.Preamble("SigTool", 3, h.Encode())
					dk := ref.Expand(se.root, b[len(b)-32:])
					pts := ce.pts()
					var lens []uint32
					for i, p := range pts {
						ch := dk.Seal(uint32(i), p, i == len(pts)-1)
						lens = append(lens, ch.Len)
						b = append(b, ch.Raw()...)
					}
					mac := dk.Mac(lens, pts)
					switch tr {
					case "F":
						b = append(b, F.File.Trailer...)
					case "G":
						b = append(b, G.File.Trailer...)
					case "attacker":
						b = append(b, r1.ref.SignMsg(mac)...)
					case "zero":
						b = append(b, make([]byte, 64)...)
					case "random":
						b = append(b, pattern(64, 0x77)...)
					case "sigF":
						b = append(b, sigF...)
					case "flip":
						b = append(b, flipped(F.File.Trailer)...)
					case "short":
						b = append(b, F.File.Trailer[:63]...)
					}
					c.Trans(5)
					for api := 0; api < 2; api++ {
						pt, auth, err := senderRun(b, r2, s1, api)
						ok := err == nil
						c.State("%s/%s/%s/%v", suite, se.n, bl.n, ok)
						c.Outcome(fmt.Sprintf("accepted=%v", ok))
						if ok {
							if !auth {
								return errors.New("success with an expected sender but AuthenticatedSender() is false")
							}
							genuine := bytes.Equal(pt, full) && (se.n == "F") || bytes.Equal(pt, bytes.Join(otherPts, nil)) && se.n == "G"
							if !genuine {
								return fmt.Errorf("forged file accepted as coming from the sender: %d bytes", len(pt))
							}
						}
						if identical := bytes.Equal(b, F.Bytes); identical && !ok {
							return fmt.Errorf("genuine file rejected: %w", err)
						}
						// without an expected sender only unsigned files pass
						pt, auth, err = senderRun(b, r2, nil, api)
						if err == nil && bl.n != "zero" {
							return errors.New("signed file accepted without a sender key")
						}
						if auth {
							return errors.New("AuthenticatedSender() without a sender key")
						}
						_ = pt
					}
					return nil
				})
			})
		})
	}
}

func flipped(b []byte) []byte {
	x := append([]byte{}, b...)
	x[len(x)/2] ^= 4
	return x
}

func refEph(label string) []byte { return ref.EphFor(label) }
