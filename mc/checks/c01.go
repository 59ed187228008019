package checks

import (
	"bytes"
	"fmt"
	"io"

	"mc/eng"
	"mc/ref"

	"github.com/opencoff/sigtool/sign"
)

func init() {
	register(&eng.Prop{ID: "C01", Level: "model_checking",
		Rule: "one execution = encrypt a plaintext of one length with one (chunk size, API, sender mode, recipient count), then decrypt with every recipient through both APIs and with the reference reader; a state is (chunk count class, last chunk length class, API, sender, decoder), a transition is one chunk sealed or opened",
		Bound: func(c *eng.Ctx) string {
			if c.Thorough {
				return "lengths 0..4*chunk+2 for chunk sizes 1..64; lengths around multiples for {127..129, 255..257, 1000, 4095..4097, 64K, 128K, 1M, 4M default}; chunk sizes 2^30-1, 2^30, 2^30+1, 2^32-1, 2^32, 2^32+5, 2^63, 2^64-1; full blocks of up to 2^30 bytes; recipients 1..3 and at the header limit; 53 kinds of content x 6 chunk sizes; up to 2^24+1 blocks; every random quantity x 12 looks of its bytes"
			}
			return "lengths 0..3*chunk+2 for chunk sizes 1..33; lengths around multiples for {64, 127..129, 255..257, 1000, 4095..4097, 64K, 128K, 1M, 4M default}; chunk sizes 2^30-1, 2^30, 2^30+1, 2^32-1, 2^32, 2^32+5, 2^63, 2^64-1; full blocks of up to 2^30 bytes; recipients 1..3 and at the header limit; 53 kinds of content x 6 chunk sizes; up to 65537 blocks; every random quantity x 12 looks of its bytes"
		},
		Assume: []string{"where lengths are enumerated the contents are position dependent patterns; the kinds of content are enumerated separately", "chunk counter wrap-around (2^32 chunks) is beyond the bound"},
		Run:    runC01})
}

type encFn func(pt []byte, chunk uint64, sender *pair, rx ...*pair) ([]byte, error)

var encAPIs = []struct {
	name string
	f    encFn
}{{"encrypt", encOneShot}, {"stream", encStream}}

func roundTrip(c *eng.Ctx, api int, chunk uint64, n int, sender *pair, rx []*pair) error {
	return roundTripOf(c, api, chunk, pattern(n, byte(chunk)), sender, rx)
}

func roundTripOf(c *eng.Ctx, api int, chunk uint64, pt []byte, sender *pair, rx []*pair) error {
	n := len(pt)
	ct, err := encAPIs[api].f(pt, chunk, sender, rx...)
	if err != nil {
		return fmt.Errorf("encryption failed: %w", err)
	}
	// the reference reader agrees
	f, err := ref.Parse(ct)
	if err != nil {
		return fmt.Errorf("reference reader: %w", err)
	}
	if len(f.Rest) != 0 {
		return fmt.Errorf("%d bytes after the trailer", len(f.Rest))
	}
	want := chunk
	if chunk == 0 {
		want = 4 << 20
	}
	if want > 1<<30 {
		want = 1 << 30
	}
	if uint64(f.Hdr.ChunkSize) != want {
		return fmt.Errorf("chunk size in the header is %d, want %d", f.Hdr.ChunkSize, want)
	}
	if len(f.Hdr.Keys) != len(rx) {
		return fmt.Errorf("%d wrapped keys for %d recipients", len(f.Hdr.Keys), len(rx))
	}
	c.Trans(len(f.Chunks))
	last := 0
	if n := len(f.Chunks); n > 0 {
		last = int(f.Chunks[n-1].Len &^ ref.EOFBit)
	}
	lc := "full"
	if last == 0 {
		lc = "empty"
	} else if uint64(last) < want {
		lc = "part"
	}
	nc := len(f.Chunks)
	if nc > 4 {
		nc = 4
	}
	for _, r := range rx {
		o, err := f.Open(r.ref)
		if err != nil {
			return fmt.Errorf("reference reader, recipient %s: %w", r.name, err)
		}
		if !bytes.Equal(o.Plain, pt) {
			return fmt.Errorf("reference reader: %s", diff(o.Plain, pt))
		}
		if o.Signed != (sender != nil) {
			return fmt.Errorf("signed=%v with sender=%v", o.Signed, sender != nil)
		}
		if sender != nil {
			if err := f.SenderOK(o, sender.ref.Pk); err != nil {
				return fmt.Errorf("reference reader: %w", err)
			}
		}
		got, err := decOneShot(ct, r, sender)
		if err != nil {
			return fmt.Errorf("Decrypt by %s: %w", r.name, err)
		}
		if !bytes.Equal(got, pt) {
			return fmt.Errorf("Decrypt by %s: %s", r.name, diff(got, pt))
		}
		c.State("%s/%s/%d/%s/%v/one", encAPIs[api].name, lc, nc, r.name, sender != nil)
		for _, bs := range []int{n + 1, 4096} {
			got, err = decStream(ct, bs, r, sender)
			if err != nil {
				return fmt.Errorf("stream reader (%d) by %s: %w", bs, r.name, err)
			}
			if !bytes.Equal(got, pt) {
				return fmt.Errorf("stream reader (%d) by %s: %s", bs, r.name, diff(got, pt))
			}
			c.State("%s/%s/%d/%s/%v/str", encAPIs[api].name, lc, nc, r.name, sender != nil)
		}
		c.Trans(3 * len(f.Chunks))
	}
	c.Outcome(encAPIs[api].name + "/" + lc)
	return nil
}

func runC01(c *eng.Ctx) {
	maxChunk, mult := 33, 3
	if c.Thorough {
		maxChunk, mult = 64, 4
	}
	all := []*pair{key("r1"), key("r2"), key("r3")}
	s := key("sender")
	type job struct {
		api   int
		chunk uint64
		n     int
		s     *pair
		rx    []*pair
	}
	var jobs []job
	add := func(chunk uint64, n int, nrx ...int) {
		for api := range encAPIs {
			for _, sd := range []*pair{nil, s} {
				for _, k := range nrx {
					jobs = append(jobs, job{api, chunk, n, sd, all[:k]})
				}
			}
		}
	}
	for ch := 1; ch <= maxChunk; ch++ {
		for n := 0; n <= mult*ch+2; n++ {
			if ch <= 4 {
				add(uint64(ch), n, 1, 2, 3)
			} else {
				add(uint64(ch), n, 1)
			}
		}
	}
	for _, ch := range []int{64, 127, 128, 129, 255, 256, 257, 1000, 4095, 4096, 4097} {
		for k := 0; k <= 4; k++ {
			for d := -17; d <= 17; d++ {
				if n := k*ch + d; n >= 0 {
					add(uint64(ch), n, 1)
				}
			}
		}
	}
	run := func(name string, w int) {
		c.Suite(name, func() {
			c.ParN(w, len(jobs), func(i int) {
				j := jobs[i]
				c.Case(func() string {
					return fmt.Sprintf("%s/%s/chunk=%d/len=%d/signed=%v/rx=%d", name, encAPIs[j.api].name, j.chunk, j.n, j.s != nil, len(j.rx))
				}, func() error { return roundTrip(c, j.api, j.chunk, j.n, j.s, j.rx) })
			})
		})
		jobs = nil
	}
	run("lengths", 8)

	for _, ch := range []int{64 << 10, 128 << 10, 1 << 20} {
		for k := 0; k <= 3; k++ {
			for _, d := range []int{-1, 0, 1} {
				if n := k*ch + d; n >= 0 && (ch < 1<<20 || k < 2 || c.Thorough) {
					add(uint64(ch), n, 1)
				}
			}
		}
	}
	for _, n := range []int{0, 1, 4<<20 - 1, 4 << 20, 4<<20 + 1, 8 << 20, 8<<20 + 1} {
		add(0, n, 1)
	}
	run("large", 4)

	c.Suite("contents", func() { c01Contents(c) })
	c.Suite("blocks", func() { c01Blocks(c) })
	c.Suite("randoms", func() { c01Randoms(c) })

	// the extremes of the chunk size; memory hungry, two at a time
	for _, ch := range []uint64{1<<30 - 1, 1 << 30, 1<<30 + 1, 1<<32 - 1, 1 << 32, 1<<32 + 5, 1 << 63, 1<<64 - 1} {
		for api := range encAPIs {
			jobs = append(jobs, job{api, ch, 100, nil, all[:1]})
			if c.Thorough {
				jobs = append(jobs, job{api, ch, 0, s, all[:1]})
			}
		}
	}
	run("extreme", 2)

	c.Suite("full", func() { c01Full(c) })

	// number of recipients: either an error, or every (probed) one can decrypt
	c.Suite("recipients", func() {
		// find the limit first: a wrapped key entry is a constant number of bytes
		per := 0
		{
			ct, err := encOneShot([]byte("x"), 64, nil, all[0])
			ct2, err2 := encOneShot([]byte("x"), 64, nil, all[0], all[0])
			if err != nil || err2 != nil {
				return
			}
			per = len(ct2) - len(ct)
		}
		if per <= 0 {
			return
		}
		lim := 1048576 / per
		counts := []int{lim - 3, lim - 2, lim - 1, lim, lim + 1, lim + 2, lim + 100}
		if c.Thorough {
			counts = append(counts, 1, 10, 100, 1000, 10000, lim/2, lim/4, 2*lim)
		}
		c.Par(len(counts)*2, func(i int) {
			n, api := counts[i/2], i%2
			c.Case(func() string { return fmt.Sprintf("recipients/n=%d/%s", n, encAPIs[api].name) }, func() error {
				return manyRecipients(c, n, api)
			})
		})
	})
}

// manyRecipients: n entries; the probed ones at the ends and middle are distinct keys.
func manyRecipients(c *eng.Ctx, n, api int) error {
	probe := map[int]*pair{0: key("r1"), n / 2: key("r2"), n - 1: key("r3")}
	e, err := sign.NewEncryptor(nil, 64)
	if err != nil {
		return err
	}
	filler := key("filler")
	for i := 0; i < n; i++ {
		p := probe[i]
		if p == nil {
			p = filler
		}
		if err := e.AddRecipient(p.pk); err != nil {
			c.Outcome("too many: AddRecipient refuses")
			return nil
		}
	}
	pt := pattern(100, 9)
	var s sink
	if api == 0 {
		err = e.Encrypt(bytes.NewReader(pt), &s)
	} else {
		var w io.WriteCloser
		if w, err = e.NewStreamWriter(&s); err == nil {
			if _, err = w.Write(pt); err == nil {
				err = w.Close()
			}
		}
	}
	c.Trans(n)
	if err != nil {
		c.Outcome("too many: encryption refuses")
		if n*100 < 1048576/2 {
			return fmt.Errorf("%d recipients refused: %w", n, err)
		}
		return nil
	}
	c.Outcome("many recipients accepted")
	for i, p := range probe {
		got, err := decOneShot(s.Bytes(), p, nil)
		if err != nil {
			return fmt.Errorf("encryption to %d recipients succeeded but recipient %d cannot decrypt: %w", n, i, err)
		}
		if !bytes.Equal(got, pt) {
			return fmt.Errorf("recipient %d of %d: %s", i, n, diff(got, pt))
		}
	}
	return nil
}
