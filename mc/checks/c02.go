package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	"mc/eng"
	"mc/ref"

	"github.com/opencoff/sigtool/sign"
)

func init() {
	register(&eng.Prop{ID: "C02", Level: "model_checking",
		Rule: "one execution = one way of cutting one input into Write calls, source reads, arriving ciphertext pieces, accepted sink pieces or plaintext read buffers; a state is (chunk, length, number of pieces, largest piece, kind); a transition is one I/O call",
		Bound: func(c *eng.Ctx) string {
			n := 9
			if c.Thorough {
				n = 13
			}
			return fmt.Sprintf("every composition of inputs of 0..%d bytes (chunk sizes 1..5) into Writes, source reads and plaintext reads, each also with a zero-length call at every place; arrival of ciphertext and partial sinks: every placement of <= %d deviations out of {1 byte, half, all but one, nothing, data together with EOF} plus all constant piece sizes", n, map[bool]int{false: 2, true: 3}[c.Thorough])
		},
		Run: runC02})
}

// checkCT: the file is conforming and decrypts to pt.
func checkCT(ct, pt []byte, rx, sender *pair) error {
	f, err := ref.Parse(ct)
	if err != nil {
		return fmt.Errorf("output is not a complete file: %w", err)
	}
	o, err := f.Open(rx.ref)
	if err != nil {
		return fmt.Errorf("output does not decrypt: %w", err)
	}
	if len(f.Rest) != 0 {
		return errors.New("junk after the trailer")
	}
	if !bytes.Equal(o.Plain, pt) {
		return fmt.Errorf("output decrypts to other data: %s", diff(o.Plain, pt))
	}
	if sender != nil {
		return f.SenderOK(o, sender.ref.Pk)
	}
	return nil
}

// piecesReader delivers data in given pieces (0 = a (0,nil) read), the last one
// optionally together with io.EOF.
type piecesReader struct {
	data    []byte
	pieces  []int
	withEOF bool
	calls   int
}

func (r *piecesReader) Read(p []byte) (int, error) {
	r.calls++
	if len(p) == 0 {
		return 0, nil
	}
	if len(r.data) == 0 && len(r.pieces) == 0 {
		return 0, io.EOF
	}
	n := len(r.data)
	if len(r.pieces) > 0 {
		n = r.pieces[0]
	}
	if n > len(p) {
		if len(r.pieces) > 0 {
			r.pieces[0] -= len(p)
		}
		n = len(p)
	} else if len(r.pieces) > 0 {
		r.pieces = r.pieces[1:]
	}
	copy(p, r.data[:n])
	r.data = r.data[n:]
	if len(r.data) == 0 && r.withEOF && len(r.pieces) == 0 {
		return n, io.EOF
	}
	return n, nil
}

func newEnc(chunk uint64, sender *pair, rx ...*pair) (*sign.Encryptor, error) {
	e, err := sign.NewEncryptor(sender.skOrNil(), chunk)
	if err != nil {
		return nil, err
	}
	for _, r := range rx {
		if err := e.AddRecipient(r.pk); err != nil {
			return nil, err
		}
	}
	return e, nil
}

func withZeros(parts []int, f func(p []int)) {
	f(parts)
	for i := 0; i <= len(parts); i++ {
		q := append([]int{}, parts[:i]...)
		q = append(q, 0)
		f(append(q, parts[i:]...))
	}
}

func runC02(c *eng.Ctx) {
	maxN, dev := 9, 2
	if c.Thorough {
		maxN, dev = 13, 3
	}
	rx, snd := key("r1"), key("sender")

	type job struct {
		chunk int
		parts []int
		n     int
	}
	var jobs []job
	for chunk := 1; chunk <= 5; chunk++ {
		for n := 0; n <= maxN; n++ {
			eng.Compositions(n, 0, func(parts []int) {
				withZeros(parts, func(p []int) { jobs = append(jobs, job{chunk, append([]int{}, p...), n}) })
			})
		}
	}
	big := func(p []int) int {
		m := 0
		for _, x := range p {
			m = max(m, x)
		}
		return m
	}

	c.Suite("writes", func() {
		c.Par(len(jobs), func(i int) {
			j := jobs[i]
			c.Case(func() string { return fmt.Sprintf("writes/chunk=%d/%v", j.chunk, j.parts) }, func() error {
				pt := pattern(j.n, 5)
				e, err := newEnc(uint64(j.chunk), nil, rx)
				if err != nil {
					return err
				}
				var s sink
				w, err := e.NewStreamWriter(&s)
				if err != nil {
					return err
				}
				left := pt
				buf := bytes.Repeat([]byte{0xEE}, j.n+1)
				for _, p := range j.parts {
					b := buf[:p]
					copy(b, left)
					left = left[p:]
					before := append([]byte{}, b...)
					n, err := w.Write(b)
					if err != nil || n != p {
						return fmt.Errorf("Write(%d bytes) = %d, %v", p, n, err)
					}
					if !bytes.Equal(b, before) {
						return errors.New("Write modified the caller's buffer")
					}
					for i := range buf { // reuse of the buffer must not matter
						buf[i] = 0xEE
					}
				}
				if err := w.Close(); err != nil {
					return err
				}
				for _, x := range buf {
					if x != 0xEE {
						return errors.New("the caller's buffer was modified after Write returned")
					}
				}
				c.Trans(len(j.parts) + 1)
				c.State("w/%d/%d/%d/%d", j.chunk, j.n, len(j.parts), big(j.parts))
				return checkCT(s.Bytes(), pt, rx, nil)
			})
		})
	})

	c.Suite("source", func() {
		c.Par(len(jobs)*2, func(i int) {
			j, withEOF := jobs[i/2], i%2 == 1
			c.Case(func() string { return fmt.Sprintf("source/chunk=%d/%v/dataEOF=%v", j.chunk, j.parts, withEOF) }, func() error {
				pt := pattern(j.n, 6)
				e, err := newEnc(uint64(j.chunk), nil, rx)
				if err != nil {
					return err
				}
				var s sink
				r := &piecesReader{data: pt, pieces: append([]int{}, j.parts...), withEOF: withEOF}
				if err := e.Encrypt(r, &s); err != nil {
					return err
				}
				c.Trans(r.calls)
				c.State("s/%d/%d/%d/%d/%v", j.chunk, j.n, len(j.parts), big(j.parts), withEOF)
				return checkCT(s.Bytes(), pt, rx, nil)
			})
		})
	})

	c.Suite("reads", func() {
		// files written by the reference writer, in both chunkings
		files := map[string]*ref.Written{}
		for chunk := 1; chunk <= 5; chunk++ {
			for n := 0; n <= maxN; n++ {
				for _, one := range []bool{false, true} {
					sp := ref.Spec{ChunkSize: uint32(chunk), Rx: []*ref.Key{rx.ref}, Pts: ref.Split(pattern(n, 7), chunk, one), Label: fmt.Sprint("c02", chunk, n, one)}
					files[fmt.Sprint(chunk, n, one)] = sp.Write()
				}
			}
		}
		c.Par(len(jobs)*2, func(i int) {
			j, one := jobs[i/2], i%2 == 1
			c.Case(func() string { return fmt.Sprintf("reads/chunk=%d/%v/emptylast=%v", j.chunk, j.parts, one) }, func() error {
				pt := pattern(j.n, 7)
				d, err := opened(bytes.NewReader(files[fmt.Sprint(j.chunk, j.n, one)].Bytes), rx, nil)
				if err != nil {
					return err
				}
				r, err := d.NewStreamReader()
				if err != nil {
					return err
				}
				var got []byte
				type kept struct{ b, copy []byte }
				var old []kept
				ended := false
				read := func(sz int) error {
					b := guarded(sz)
					n, err := r.Read(b)
					if err := spilt(b); err != nil {
						return fmt.Errorf("Read %w", err)
					}
					if n < 0 || n > sz {
						return fmt.Errorf("Read(%d) = %d", sz, n)
					}
					if ended && (n != 0 || err == nil && sz > 0) {
						return fmt.Errorf("Read after EOF = %d, %v", n, err)
					}
					got = append(got, b[:n]...)
					if !isPrefix(got, pt) {
						return fmt.Errorf("released bytes are not a prefix of the plaintext: %s", diff(got, pt))
					}
					if err == io.EOF {
						ended = true
					} else if err != nil {
						return err
					}
					for _, o := range old {
						if !bytes.Equal(o.b, o.copy) {
							return errors.New("a later Read modified an earlier caller buffer")
						}
					}
					old = append(old, kept{b, append([]byte{}, b...)})
					return nil
				}
				for _, p := range j.parts {
					if err := read(p); err != nil {
						return err
					}
				}
				for k := 0; k < 2*j.n+10 && !ended; k++ {
					if err := read(4); err != nil {
						return err
					}
				}
				if !ended {
					return errors.New("no EOF")
				}
				if !bytes.Equal(got, pt) {
					return fmt.Errorf("stream ended early: %s", diff(got, pt))
				}
				for k := 0; k < 2; k++ {
					if err := read(3); err != nil {
						return err
					}
				}
				c.Trans(len(old))
				c.State("r/%d/%d/%d/%d/%v", j.chunk, j.n, len(j.parts), big(j.parts), one)
				return nil
			})
		})
	})

	// longer transfers with a few deviations
	pt := pattern(60, 8)
	type tr struct {
		name   string
		chunk  int
		sender *pair
	}
	for _, t := range []tr{{"c16", 16, nil}, {"c20s", 20, snd}, {"c64s", 64, snd}, {"c7", 7, nil}} {
		file := (&ref.Spec{ChunkSize: uint32(t.chunk), Rx: []*ref.Key{key("r2").ref, rx.ref}, Sender: t.sender.refOrNil(),
			Pts: ref.Split(pt, t.chunk, false), Label: "c02" + t.name}).Write().Bytes
		for _, api := range []string{"decrypt", "read"} {
			dec := func(src io.Reader) error {
				d, err := opened(src, rx, t.sender)
				if err != nil {
					return err
				}
				var got []byte
				if api == "decrypt" {
					var s sink
					if err := d.Decrypt(&s); err != nil {
						return err
					}
					got = s.Bytes()
				} else {
					r, err := d.NewStreamReader()
					if err != nil {
						return err
					}
					if got, err = readAll(r, 9); err != nil {
						return err
					}
				}
				if !bytes.Equal(got, pt) {
					return errors.New(diff(got, pt))
				}
				return nil
			}
			name := "arrival/" + t.name + "/" + api
			c.Suite(name, func() {
				c.Explore(name, dev, func(x *eng.Chooser) error {
					src := &chooseReader{data: file, x: x}
					err := dec(src)
					c.State("a/%s/%s/%d", t.name, api, src.calls)
					return err
				})
			})
			name = "arrivalconst/" + t.name + "/" + api
			c.Suite(name, func() {
				c.Par(2*len(file), func(i int) {
					c.Case(func() string { return fmt.Sprintf("%s/piece=%d/dataEOF=%v", name, i/2+1, i%2 == 1) }, func() error {
						var ps []int
						for left := len(file); left > 0; left -= i/2 + 1 {
							ps = append(ps, min(left, i/2+1))
						}
						c.Trans(len(ps))
						return dec(&piecesReader{data: file, pieces: ps, withEOF: i%2 == 1})
					})
				})
			})
			name = "sinkdec/" + t.name + "/" + api
			if api == "decrypt" {
				c.Suite(name, func() {
					c.Explore(name, dev, func(x *eng.Chooser) error {
						d, err := opened(bytes.NewReader(file), rx, t.sender)
						if err != nil {
							return err
						}
						s := &chooseSink{x: x}
						if err := d.Decrypt(s); err != nil {
							return err
						}
						if !bytes.Equal(s.got, pt) {
							return errors.New(diff(s.got, pt))
						}
						return nil
					})
				})
			}
		}
		for _, api := range []string{"encrypt", "write"} {
			name := "sinkenc/" + t.name + "/" + api
			c.Suite(name, func() {
				c.Explore(name, dev, func(x *eng.Chooser) error {
					e, err := newEnc(uint64(t.chunk), t.sender, rx)
					if err != nil {
						return err
					}
					s := &chooseSink{x: x}
					if api == "encrypt" {
						err = e.Encrypt(bytes.NewReader(pt), s)
					} else {
						var w io.WriteCloser
						if w, err = e.NewStreamWriter(s); err == nil {
							for _, p := range [][]byte{pt[:17], pt[17:18], pt[18:]} {
								if n, e2 := w.Write(p); e2 != nil || n != len(p) {
									return fmt.Errorf("Write = %d, %v", n, e2)
								}
							}
							err = w.Close()
						}
					}
					if err != nil {
						return err
					}
					if s.closed != 1 {
						return fmt.Errorf("sink closed %d times", s.closed)
					}
					return checkCT(s.got, pt, rx, t.sender)
				})
			})
		}
		name := "sourcedev/" + t.name
		c.Suite(name, func() {
			c.Explore(name, dev, func(x *eng.Chooser) error {
				e, err := newEnc(uint64(t.chunk), t.sender, rx)
				if err != nil {
					return err
				}
				var s sink
				if err := e.Encrypt(&chooseReader{data: pt, x: x}, &s); err != nil {
					return err
				}
				return checkCT(s.Bytes(), pt, rx, t.sender)
			})
		})
	}
}

// chooseReader lets the explorer pick the size of every read.
type chooseReader struct {
	data  []byte
	x     *eng.Chooser
	calls int
	empty int
}

func (r *chooseReader) Read(p []byte) (int, error) {
	r.calls++
	if len(p) == 0 {
		return 0, nil
	}
	if len(r.data) == 0 {
		return 0, io.EOF
	}
	n := min(len(p), len(r.data))
	switch r.x.Choose(6) {
	case 1:
		n = 1
	case 2:
		n = max(1, n/2)
	case 3:
		n = max(1, n-1)
	case 4:
		n = 0
	case 5:
		copy(p, r.data[:n])
		r.data = r.data[n:]
		if len(r.data) == 0 {
			return n, io.EOF
		}
		return n, nil
	}
	copy(p, r.data[:n])
	r.data = r.data[n:]
	return n, nil
}

// chooseSink lets the explorer pick how much of every write is accepted.
type chooseSink struct {
	got    []byte
	x      *eng.Chooser
	closed int
	zero   int
}

func (s *chooseSink) Write(p []byte) (int, error) {
	n := len(p)
	if n > 0 {
		switch s.x.Choose(4) {
		case 1:
			n = 1
		case 2:
			n = max(1, n/2)
		case 3:
			n = max(1, n-1)
		}
	}
	s.got = append(s.got, p[:n]...)
	return n, nil
}

func (s *chooseSink) Close() error { s.closed++; return nil }
