package checks

import (
	"bytes"
	"encoding/binary"
	"fmt"

	"mc/eng"
	"mc/ref"
)

func init() {
	register(&eng.Prop{ID: "C04", Level: "model_checking",
		Rule: "one execution = one altered file decrypted through both interfaces; states = (suite, outcome, number of bytes released); transitions = edits applied (bytes or fragments)",
		Bound: func(c *eng.Ctx) string {
			return fmt.Sprintf("7 files (empty, single, multi-chunk, exact multiple; signed and not; 1-2 recipients): every byte position x %s; every truncation, every deletion/duplication of a range, every insertion; every word of <= %d fragments from two files plus forged markers; every header byte and field edit with recomputed checksum",
				map[bool]string{false: "10 values", true: "255 values"}[c.Thorough], map[bool]int{false: 4, true: 5}[c.Thorough])
		},
		Assume: []string{"AES-GCM, HMAC, HKDF, X25519 and SHA-2 are sound; the attacker does not know any key of the file"},
		Run:    runC04})
}

type tfile struct {
	name string
	w    *ref.Written
	pt   []byte
	rx   *pair
	snd  *pair
}

func c04files() []*tfile {
	r1, r2, s := key("r1"), key("r2"), key("sender")
	var out []*tfile
	add := func(name string, chunk, n int, one bool, snd *pair, rx *pair, all ...*pair) {
		sp := &ref.Spec{ChunkSize: uint32(chunk), Sender: snd.refOrNil(), Pts: ref.Split(pattern(n, byte(len(out)*16+1)), chunk, one), Label: "c04" + name}
		for _, a := range all {
			sp.Rx = append(sp.Rx, a.ref)
		}
		out = append(out, &tfile{name, sp.Write(), pattern(n, byte(len(out)*16+1)), rx, snd})
	}
	add("multi", 6, 15, false, nil, r1, r1)
	add("multisigned", 6, 15, false, s, r1, r1)
	add("exact", 5, 10, true, nil, r1, r1)
	add("exactstream", 5, 10, false, s, r2, r1, r2)
	add("single", 20, 9, false, nil, r2, r1, r2)
	add("empty", 20, 0, false, nil, r1, r1)
	add("emptysigned", 20, 0, false, s, r1, r1)
	return out
}

// judge decrypts b both ways; success must give exactly one of the allowed
// plaintexts, and whatever is released must be a prefix of one of them.
func judge(c *eng.Ctx, suite string, b []byte, rx, snd *pair, allowed ...[]byte) error {
	for _, api := range []string{"decrypt", "read5", "read4096"} {
		var got []byte
		var err error
		switch api {
		case "decrypt":
			got, err = decOneShot(b, rx, snd)
		case "read5":
			got, err = decStream(b, 5, rx, snd)
		default:
			got, err = decStream(b, 4096, rx, snd)
		}
		okp := false
		for _, a := range allowed {
			if err == nil && bytes.Equal(got, a) || err != nil && isPrefix(got, a) {
				okp = true
			}
		}
		if err == nil {
			c.Outcome("original")
		} else {
			c.Outcome("rejected")
		}
		c.State("%s/%s/%v/%d", suite, api, err == nil, len(got))
		if !okp {
			if err == nil {
				return fmt.Errorf("%s succeeds with other content: %d bytes %x", api, len(got), got)
			}
			return fmt.Errorf("%s releases bytes that are not a prefix of the plaintext before failing (%v): %x", api, err, got)
		}
	}
	return nil
}

// chunkTooBig avoids edits that legitimately make the code allocate a huge buffer.
func chunkTooBig(b []byte) bool {
	if len(b) < 12 {
		return false
	}
	vl := int(binary.BigEndian.Uint32(b[8:]))
	if vl > len(b)-12 {
		return false
	}
	h, err := ref.ParseHeader(b[12 : 12+vl])
	return err != nil && false || err == nil && h.ChunkSize > 1<<22
}

func runC04(c *eng.Ctx) {
	files := c04files()
	vals := func(x byte) []byte {
		var out []byte
		if c.Thorough {
			for v := 1; v < 256; v++ {
				out = append(out, x^byte(v))
			}
			return out
		}
		for i := 0; i < 8; i++ {
			out = append(out, x^1<<i)
		}
		for _, v := range []byte{0, 0xff} {
			if v != x {
				out = append(out, v)
			}
		}
		return out
	}
	for _, f := range files {
		b := f.w.Bytes
		pt := f.pt
		c.Suite("intact/"+f.name, func() {
			c.Case(func() string { return "intact/" + f.name }, func() error {
				got, err := decOneShot(b, f.rx, f.snd)
				if err != nil || !bytes.Equal(got, pt) {
					return fmt.Errorf("unaltered file: %v, %s", err, diff(got, pt))
				}
				return nil
			})
		})
		c.Suite("bytes/"+f.name, func() {
			c.Par(len(b), func(i int) {
				for _, v := range vals(b[i]) {
					e := append([]byte{}, b...)
					e[i] = v
					c.Case(func() string { return fmt.Sprintf("bytes/%s/at=%d/val=%02x", f.name, i, v) }, func() error {
						c.Trans(1)
						return judge(c, "bytes", e, f.rx, f.snd, pt)
					})
				}
			})
		})
		// the same inside the header, with the checksum fixed
		c.Suite("hdrbytes/"+f.name, func() {
			c.Par(f.w.File.HdrLen-32, func(i int) {
				for _, v := range vals(b[i]) {
					e := append([]byte{}, b...)
					e[i] = v
					pre := e[:f.w.File.HdrLen-32]
					copy(e[f.w.File.HdrLen-32:], sum256(pre))
					if chunkTooBig(e) {
						continue
					}
					c.Case(func() string { return fmt.Sprintf("hdrbytes/%s/at=%d/val=%02x", f.name, i, v) }, func() error {
						c.Trans(2)
						return judge(c, "hdrbytes", e, f.rx, f.snd, pt)
					})
				}
			})
		})
		c.Suite("ranges/"+f.name, func() {
			maxLen := 5
			if c.Thorough {
				maxLen = len(b)
			}
			c.Par(len(b)+1, func(i int) {
				test := func(what string, k int, e []byte) {
					c.Case(func() string { return fmt.Sprintf("ranges/%s/%s=%d,%d", f.name, what, i, k) }, func() error {
						c.Trans(1)
						return judge(c, "ranges", e, f.rx, f.snd, pt)
					})
				}
				test("cut", 0, b[:i])
				// nothing of the file can be missing without notice
				c.Case(func() string { return fmt.Sprintf("ranges/%s/short=%d", f.name, i) }, func() error {
					_, e1 := decOneShot(b[:i], f.rx, f.snd)
					_, e2 := decStream(b[:i], 100, f.rx, f.snd)
					c.Trans(2)
					if (e1 == nil || e2 == nil) && i < len(b) {
						return fmt.Errorf("%d of %d bytes pass as the complete file: %v, %v", i, len(b), e1, e2)
					}
					return nil
				})
				for _, tail := range [][]byte{{0x80, 0, 0, 0}, {0, 0, 0, 0}, make([]byte, 20), append([]byte{0x80, 0, 0, 0}, make([]byte, 80)...)} {
					test(fmt.Sprintf("cutplus%x-", len(tail)*256+int(tail[0])), len(tail), append(append([]byte{}, b[:i]...), tail...))
				}
				for k := 1; k <= maxLen && i+k <= len(b); k++ {
					test("del", k, append(append([]byte{}, b[:i]...), b[i+k:]...))
					if k <= 5 {
						test("dup", k, append(append(append([]byte{}, b[:i+k]...), b[i:i+k]...), b[i+k:]...))
					}
				}
				for _, v := range []byte{0, 1, 0x80, 0xff} {
					test("ins", int(v), append(append(append([]byte{}, b[:i]...), v), b[i:]...))
				}
			})
		})
	}

	// fragment words over two files with the same recipient
	maxW := 4
	if c.Thorough {
		maxW = 5
	}
	pairsOf := [][2]*tfile{{files[0], files[2]}, {files[1], files[3]}}
	{
		// same chunk size and lengths, other secrets: the most similar pair
		tw := func(lbl string, salt byte, s *pair) *tfile {
			pt := pattern(15, salt)
			sp := &ref.Spec{ChunkSize: 6, Sender: s.refOrNil(), Pts: ref.Split(pt, 6, false), Rx: []*ref.Key{key("r1").ref}, Label: lbl}
			return &tfile{lbl, sp.Write(), pt, key("r1"), s}
		}
		pairsOf = append(pairsOf, [2]*tfile{tw("twinA", 1, nil), tw("twinB", 2, nil)}, [2]*tfile{tw("stwinA", 3, key("sender")), tw("stwinB", 4, key("sender"))})
	}
	for _, pr := range pairsOf {
		A, B := pr[0], pr[1]
		type tok struct {
			n string
			b []byte
		}
		var toks []tok
		setLen := func(ch ref.Chunk, l uint32) []byte { return ref.Chunk{Len: l, CT: ch.CT}.Raw() }
		for i, ch := range A.w.File.Chunks {
			toks = append(toks, tok{fmt.Sprintf("A%d", i), ch.Raw()}, tok{fmt.Sprintf("A%d^eof", i), setLen(ch, ch.Len^ref.EOFBit)})
		}
		for i, ch := range B.w.File.Chunks {
			toks = append(toks, tok{fmt.Sprintf("B%d", i), ch.Raw()})
		}
		toks = append(toks, tok{"Atr", A.w.File.Trailer}, tok{"Btr", B.w.File.Trailer}, tok{"eof0", []byte{0x80, 0, 0, 0}}, tok{"z0", []byte{0, 0, 0, 0}},
			tok{"eof0+tag", append([]byte{0x80, 0, 0, 0}, make([]byte, 16)...)})
		hdrs := []tok{{"hA", A.w.Bytes[:A.w.File.HdrLen]}, {"hB", B.w.Bytes[:B.w.File.HdrLen]}}
		suite := "words/" + A.name + "+" + B.name
		c.Suite(suite, func() {
			for n := 0; n <= maxW; n++ {
				total := eng.CountWords(len(toks), n)
				c.Par(total*2, func(i int) {
					h := hdrs[i%2]
					w := eng.Word(len(toks), n, i/2)
					b := append([]byte{}, h.b...)
					for _, t := range w {
						b = append(b, toks[t].b...)
					}
					want, rx, snd := A.pt, A.rx, A.snd
					if h.n == "hB" {
						want, rx, snd = B.pt, B.rx, B.snd
					}
					c.Case(func() string {
						s := suite + "/" + h.n
						for _, t := range w {
							s += "." + toks[t].n
						}
						return s
					}, func() error {
						c.Trans(n)
						return judge(c, suite, b, rx, snd, want)
					})
				})
			}
		})

		// header field edits: fields exchanged, dropped, duplicated, reordered
		suite = "fields/" + A.name + "+" + B.name
		c.Suite(suite, func() {
			hs := []*ref.Header{A.w.Hdr, B.w.Hdr}
			pick := func(i int) []*ref.Header {
				return []*ref.Header{hs[i&1], hs[i>>1&1], hs[i>>2&1], hs[i>>3&1], hs[i>>4&1]}
			}
			keyVariants := func(own, oth []ref.Wrapped) map[string][]ref.Wrapped {
				m := map[string][]ref.Wrapped{"own": own, "own+own": append(append([]ref.Wrapped{}, own...), own...),
					"own+other": append(append([]ref.Wrapped{}, own...), oth...), "other+own": append(append([]ref.Wrapped{}, oth...), own...)}
				x := append([]ref.Wrapped{}, own...)
				for i := range x {
					x[i], x[len(x)-1] = x[len(x)-1], x[i]
				}
				m["swap"] = x
				y := append([]ref.Wrapped{}, own...)
				y[0].Nonce = oth[0].Nonce
				m["nonce"] = y
				return m
			}
			for i := 0; i < 32; i++ {
				p := pick(i)
				for _, cs := range []uint32{p[0].ChunkSize, p[0].ChunkSize - 1, p[0].ChunkSize + 1, 1, 4096} {
					oth := hs[0]
					if p[4] == hs[0] {
						oth = hs[1]
					}
					for kn, ks := range keyVariants(p[4].Keys, oth.Keys) {
						for _, extra := range [][]byte{nil, ref.PbUint(6, 1), ref.PbBytes(7, []byte("x"))} {
							h := &ref.Header{ChunkSize: cs, Salt: p[1].Salt, Pk: p[2].Pk, Sender: p[3].Sender, Keys: ks}
							pre := ref.Preamble("SigTool", 3, append(h.Encode(), extra...))
							for bn, body := range map[string]*tfile{"A": A, "B": B} {
								b := append(append([]byte{}, pre...), body.w.Bytes[body.w.File.HdrLen:]...)
								id := fmt.Sprintf("%s/mix=%05b/chunk=%d/keys=%s/extra=%x/body=%s", suite, i, cs, kn, extra, bn)
								c.Case(func() string { return id }, func() error {
									c.Trans(3)
									return judge(c, suite, b, body.rx, body.snd, body.pt)
								})
							}
						}
					}
				}
			}
		})
	}
}
