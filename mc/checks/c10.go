package checks

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"runtime"
	"time"

	"mc/eng"
	"mc/ref"

	"github.com/opencoff/sigtool/sign"
)

func init() {
	register(&eng.Prop{ID: "C10", Level: "model_checking",
		Rule: "one execution = one hostile input opened, keyed (with and without an expected sender) and decrypted through both interfaces; states = (suite, stage reached, verdict); transitions = stages executed. Suite alloc also measures the bytes allocated",
		Bound: func(c *eng.Ctx) string {
			return fmt.Sprintf("all words of length 0..%d over %d protobuf-relevant bytes in 5 header contexts with a right checksum; all pairs of %d structural defects; all truncations of 3 files; all chunk length boundary values x data shapes at every chunk; fixed-header boundary values; nested groups and amplification shapes",
				pick(c, 4, 5), len(pbAlpha), 60)
		},
		Assume: []string{"memory limit: 8 MiB + 256 x input size (+ 3 x the declared chunk size when that is within the limit and the key opens the file)"},
		Run:    runC10})
}

var pbAlpha = []byte{0x00, 0x01, 0x03, 0x08, 0x0a, 0x0b, 0x0c, 0x0d, 0x12, 0x20, 0x22, 0x28, 0x2a, 0x7f, 0x80, 0xff}

// hostile runs every entry point on b; only panics, hangs and wrong content matter.
// allowed is the right plaintext (nil: unknown, success is judged only by shape).
func hostile(c *eng.Ctx, suite string, b, pt []byte) error {
	stage := 0
	for v := 0; v < 3; v++ {
		rx, snd := key("r1"), (*pair)(nil)
		if v == 2 {
			snd = key("s1")
		}
		d, err := sign.NewDecryptor(bytes.NewReader(b))
		c.Trans(1)
		if err != nil {
			break
		}
		stage = max(stage, 1)
		c.Trans(1)
		if err := d.SetPrivateKey(rx.sk, snd.pkOrNil()); err != nil {
			continue
		}
		stage = max(stage, 2)
		d.AuthenticatedSender()
		var got []byte
		if v != 1 {
			var s sink
			err = d.Decrypt(&s)
			got = s.Bytes()
		} else {
			var r interface{ Read([]byte) (int, error) }
			if r, err = d.NewStreamReader(); err != nil {
				return fmt.Errorf("NewStreamReader on a keyed session: %w", err)
			}
			got, err = readAll(r, 7)
		}
		c.Trans(1)
		if err == nil {
			stage = 3
			if pt != nil && !bytes.Equal(got, pt) {
				return fmt.Errorf("decrypts to something else: %s", diff(got, pt))
			}
		} else if pt != nil && !isPrefix(got, pt) {
			return fmt.Errorf("released something else: %s", diff(got, pt))
		}
	}
	c.State("%s/%d", suite, stage)
	return nil
}

func runC10(c *eng.Ctx) {
	r1 := key("r1")
	key("s1")
	w := (&ref.Spec{ChunkSize: 64, Rx: []*ref.Key{key("r2").ref, r1.ref}, Pts: [][]byte{pattern(64, 1), pattern(20, 2)}, Label: "c10"}).Write()
	pt := append(pattern(64, 1), pattern(20, 2)...)
	good := w.Hdr.Encode()
	// seal completes a header body into a file; chunk keys fit the new checksum
	seal := func(v []byte) []byte {
		pre := ref.Preamble("SigTool", 3, v)
		dk := ref.Expand(w.Root, pre[len(pre)-32:])
		pre = append(pre, dk.Seal(0, pt[:64], false).Raw()...)
		pre = append(pre, dk.Seal(1, pt[64:], true).Raw()...)
		return append(pre, make([]byte, 64)...)
	}
	c.Case(func() string { return "control/good" }, func() error {
		got, err := decOneShot(seal(good), r1, nil)
		if err == nil && !bytes.Equal(got, pt) {
			err = fmt.Errorf("wrong plaintext")
		}
		return err
	})

	h := w.Hdr
	ctxs := map[string]func(x []byte) []byte{
		"before": func(x []byte) []byte { return append(append([]byte{}, x...), good...) },
		"after":  func(x []byte) []byte { return append(append([]byte{}, good...), x...) },
		"entry": func(x []byte) []byte {
			e := append(h.Keys[1].Encode(), x...)
			return cat2(ref.PbUint(1, 64), ref.PbBytes(2, h.Salt), ref.PbBytes(3, h.Pk), ref.PbBytes(4, h.Sender), ref.PbBytes(5, e))
		},
		"entryonly": func(x []byte) []byte {
			return cat2(ref.PbUint(1, 64), ref.PbBytes(2, h.Salt), ref.PbBytes(3, h.Pk), ref.PbBytes(4, h.Sender), ref.PbBytes(5, x), ref.PbBytes(5, h.Keys[1].Encode()))
		},
		"bare": func(x []byte) []byte {
			// padded to the minimum by an unknown field
			return append(append([]byte{}, x...), ref.PbBytes(14, make([]byte, 32))...)
		},
	}
	for _, name := range []string{"before", "after", "entry", "entryonly", "bare"} {
		f := ctxs[name]
		suite := "words," + name
		c.Suite(suite, func() {
			for n := 0; n <= pick(c, 4, 5); n++ {
				c.Par(eng.CountWords(len(pbAlpha), n), func(i int) {
					ix := eng.Word(len(pbAlpha), n, i)
					x := make([]byte, n)
					for j, k := range ix {
						x[j] = pbAlpha[k]
					}
					c.Case(func() string { return fmt.Sprintf("%s/%x", suite, x) }, func() error {
						return hostile(c, suite, seal(f(x)), pt)
					})
				})
			}
		})
	}

	// structural defects, alone and in pairs
	type defect struct {
		name  string
		field int
		enc   []byte
	}
	normal := [][]byte{ref.PbUint(1, 64), ref.PbBytes(2, h.Salt), ref.PbBytes(3, h.Pk), ref.PbBytes(4, h.Sender),
		append(ref.PbBytes(5, h.Keys[0].Encode()), ref.PbBytes(5, h.Keys[1].Encode())...)}
	var defs []defect
	add := func(name string, f int, e []byte) { defs = append(defs, defect{name, f, e}) }
	huge := []uint64{1<<20 + 1, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 40, 1<<63 - 1, 1 << 63, 1<<64 - 1}
	for f := 1; f <= 5; f++ {
		add("absent", f, nil)
		for _, t := range []uint64{0, 1, 3, 4, 5, 6, 7} {
			if f == 1 && t == 0 {
				t = 2
			}
			add(fmt.Sprint("wire", t), f, append(ref.Varint(uint64(f)<<3|t), bytes.Repeat([]byte{1}, 8)...))
		}
		for _, l := range huge {
			if f == 1 {
				add(fmt.Sprint("value", l), f, ref.PbUint(1, l))
			} else {
				add(fmt.Sprint("len", l), f, append(append(ref.Varint(uint64(f)<<3|2), ref.Varint(l)...), make([]byte, 40)...))
			}
		}
		if f > 1 {
			for _, l := range []int{0, 1, 12, 16, 31, 33, 47, 49, 64, 79, 81, 4096} {
				add(fmt.Sprint("size", l), f, ref.PbBytes(f, pattern(l, byte(f))))
			}
		}
	}
	for _, v := range []uint64{0, 1, 63, 65, 1<<30 + 1, 1 << 32, 1<<32 + 64} {
		add(fmt.Sprint("chunk", v), 1, ref.PbUint(1, v))
	}
	for _, k := range []int{0, 1, 31, 32, 33, 47, 49, 100} {
		d := append(append([]byte{}, h.Keys[1].DKey...), make([]byte, 100)...)[:k]
		add(fmt.Sprint("dkey", k), 5, ref.PbBytes(5, (&ref.Wrapped{DKey: d, Nonce: h.Keys[1].Nonce}).Encode()))
	}
	for _, k := range []int{0, 1, 11, 13, 1000} {
		add(fmt.Sprint("nonce", k), 5, ref.PbBytes(5, (&ref.Wrapped{DKey: h.Keys[1].DKey, Nonce: make([]byte, k)}).Encode()))
	}
	for _, l := range huge {
		for f := 1; f <= 2; f++ {
			e := append(append(ref.Varint(uint64(f)<<3|2), ref.Varint(l)...), make([]byte, 50)...)
			add(fmt.Sprintf("entrylen%d/%d", f, l), 5, ref.PbBytes(5, e))
		}
	}
	lowpts := map[string][]byte{"zero": make([]byte, 32), "one": append([]byte{1}, make([]byte, 31)...), "ff": bytes.Repeat([]byte{0xff}, 32)}
	for _, n := range []string{"zero", "one", "ff"} {
		add("pk"+n, 3, ref.PbBytes(3, lowpts[n]))
	}
	body := func(ds ...defect) []byte {
		var v []byte
		for f := 1; f <= 5; f++ {
			e, hit := normal[f-1], false
			for _, d := range ds {
				if d.field == f {
					if !hit {
						e = nil
					}
					e, hit = append(append([]byte{}, e...), d.enc...), true
				}
			}
			v = append(v, e...)
		}
		for len(v) < 32 {
			v = append(v, ref.PbBytes(14, make([]byte, 32))...)
		}
		return v
	}
	c.Suite("defects", func() {
		n := len(defs)
		c.Par(n*(n+1)/2, func(k int) {
			i := 0
			for k >= n-i {
				k -= n - i
				i++
			}
			a, b := defs[i], defs[i+k]
			c.Case(func() string { return fmt.Sprintf("defects/%d.%s/%d.%s", a.field, a.name, b.field, b.name) }, func() error {
				if i == i+k {
					return hostile(c, "defects", seal(body(a)), pt)
				}
				return hostile(c, "defects", seal(body(a, b)), pt)
			})
		})
	})

	// chunk records: length word x what follows, at each position
	c.Suite("chunks", func() {
		lens := []uint32{0, 1, 19, 20, 21, 63, 64, 65, 80, 81, 1 << 16, 1 << 20, 1<<30 - 1, 1 << 30, 1<<30 + 1, 1<<31 - 1, 1<<31 - 16, 1<<31 - 17}
		type j struct {
			chunk uint32
			at    int
			l     uint32
			eof   bool
			n     int
		}
		var js []j
		for _, ch := range []uint32{1, 64, 1 << 20, 1<<20 + 1} {
			for at := 0; at < 2; at++ {
				for _, l := range lens {
					for _, e := range []bool{false, true} {
						for _, n := range []int{0, 1, 3, 15, 16, 17, 36, 80, 200} {
							js = append(js, j{ch, at, l, e, n})
						}
					}
				}
			}
		}
		c.Par(len(js), func(i int) {
			x := js[i]
			c.Case(func() string { return fmt.Sprintf("chunks/%d/%d/%d/%v/%d", x.chunk, x.at, x.l, x.eof, x.n) }, func() error {
				hh := *h
				hh.ChunkSize = x.chunk
				b := ref.Preamble("SigTool", 3, hh.Encode())
				dk := ref.Expand(w.Root, b[len(b)-32:])
				want := []byte{}
				if x.at == 1 {
					b = append(b, dk.Seal(0, []byte{9}, false).Raw()...)
					want = []byte{9}
				}
				l := x.l
				if x.eof {
					l |= ref.EOFBit
				}
				b = binary.BigEndian.AppendUint32(b, l)
				return hostile(c, "chunks", append(b, pattern(x.n, 7)...), want)
			})
		})
	})

	c.Suite("truncate", func() {
		for k, x := range []*ref.Written{w,
			(&ref.Spec{ChunkSize: 64, Rx: []*ref.Key{r1.ref}, Sender: key("s1").ref, Label: "c10e"}).Write(),
			(&ref.Spec{ChunkSize: 8, Rx: []*ref.Key{r1.ref}, Sender: key("s1").ref, Pts: ref.Split(pattern(16, 1), 8, true), Label: "c10f"}).Write()} {
			p := [][]byte{pt, {}, pattern(16, 1)}[k]
			c.Par(len(x.Bytes), func(n int) {
				c.Case(func() string { return fmt.Sprintf("truncate/%d/%d", k, n) }, func() error {
					return hostile(c, "truncate", x.Bytes[:n], p)
				})
			})
		}
		// fixed header boundary values
		for _, vl := range []uint32{0, 1, 31, 32, 33, 300, 1 << 16, 1<<20 - 1, 1 << 20, 1<<20 + 1, 1<<31 - 1, 1 << 31, 1<<32 - 33, 1<<32 - 32, 1<<32 - 1} {
			for _, n := range []int{0, 1, 31, 32, 64, 1000} {
				c.Case(func() string { return fmt.Sprintf("truncate/fixed/%d/%d", vl, n) }, func() error {
					b := binary.BigEndian.AppendUint32([]byte("SigTool\x03"), vl)
					return hostile(c, "fixed", append(b, pattern(n, 0)...), nil)
				})
			}
		}
	})

	// memory and time, one case at a time
	c.Suite("alloc", func() {
		measure := func(id string, b []byte, extra uint64) {
			c.Case(func() string { return "alloc/" + id }, func() error {
				var m0, m1 runtime.MemStats
				t := time.Now()
				runtime.ReadMemStats(&m0)
				err := hostile(c, "alloc", b, nil)
				runtime.ReadMemStats(&m1)
				if err != nil {
					return err
				}
				used := m1.TotalAlloc - m0.TotalAlloc
				// three sessions are opened on each input
				if lim := 3 * (8<<20 + 256*uint64(len(b)) + extra); used > lim {
					return fmt.Errorf("%d bytes allocated for an input of %d bytes", used, len(b))
				}
				if d := time.Since(t); d > 60*time.Second {
					return fmt.Errorf("took %v", d)
				}
				return nil
			})
		}
		c.ParN(1, len(defs), func(i int) {
			d := defs[i]
			var extra uint64
			if d.field == 1 && d.name == "value1048577" {
				extra = 3 << 20
			}
			if d.field == 1 && len(d.enc) > 1 {
				if v, n := binary.Uvarint(d.enc[1:]); n > 0 && uint32(v) <= 1<<30 {
					extra = 3 * uint64(uint32(v))
				}
			}
			measure(fmt.Sprintf("defect/%d.%s", d.field, d.name), seal(body(d)), extra)
		})
		for _, vl := range []uint32{1 << 20, 1<<20 + 1, 1 << 24, 1 << 30, 1<<31 - 1, 1 << 31, 1<<32 - 33, 1<<32 - 32, 1<<32 - 1} {
			measure(fmt.Sprint("fixed/", vl), append(binary.BigEndian.AppendUint32([]byte("SigTool\x03"), vl), pattern(100, 0)...), 0)
		}
		for _, l := range []uint32{65, 1 << 20, 1 << 30, 1<<31 - 1} {
			b := append([]byte{}, w.Bytes[:w.File.HdrLen]...)
			measure(fmt.Sprint("chunk/", l), append(binary.BigEndian.AppendUint32(b, l), pattern(100, 0)...), 192)
			measure(fmt.Sprint("eofchunk/", l), append(binary.BigEndian.AppendUint32(b, l|ref.EOFBit), pattern(100, 0)...), 192)
		}
		// amplification: as many small things as fit in a header
		fill := func(unit []byte, n int) []byte {
			return append(append([]byte{}, good...), bytes.Repeat(unit, (n-len(good))/len(unit))...)
		}
		for _, n := range []int{1 << 12, 1 << 16, 1 << 20} {
			measure(fmt.Sprint("empty entries/", n), seal(fill([]byte{0x2a, 0}, n)), 0)
			measure(fmt.Sprint("unknown/", n), seal(fill([]byte{0x70, 0}, n)), 0)
			measure(fmt.Sprint("groups/", n), seal(fill([]byte{0x73}, n)), 0)
			measure(fmt.Sprint("closed groups/", n), seal(fill([]byte{0x73, 0x74}, n)), 0)
			measure(fmt.Sprint("salts/", n), seal(fill(ref.PbBytes(2, h.Salt), n)), 0)
			measure(fmt.Sprint("nested/", n), seal(append(append([]byte{}, good...), append(bytes.Repeat([]byte{0x73}, (n-len(good))/2), bytes.Repeat([]byte{0x74}, (n-len(good))/2)...)...)), 0)
		}
		measure("entries", seal(append(append([]byte{}, good...), bytes.Repeat(ref.PbBytes(5, h.Keys[0].Encode()), 1000)...)), 0)
		// the largest legitimate chunk size
		b := *h
		b.ChunkSize = 1 << 30
		measure("maxchunk", seal(b.Encode()), 3<<30)
	})
}

func cat2(bs ...[]byte) []byte { return bytes.Join(bs, nil) }
