package checks

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
	"syscall"

	"mc/eng"
	"mc/ref"
)

func init() {
	register(&eng.Prop{ID: "C03", Level: "fault_enumeration",
		Rule: "one execution = one operation (Encrypt, stream writer, Decrypt, stream reader) with failures injected at chosen source reads, sink writes and sink closes; every I/O call is a choice point, alternatives = error kind x partial progress; evaluations = executions, distinct = (operation, fault kinds, call index)",
		Bound: func(c *eng.Ctx) string {
			return fmt.Sprintf("all placements of <= %d faults (sticky or transient) over every I/O call of transfers with 0..4 chunks; error kinds incl. unexpected EOF, closed, short write, ENOSPC, EIO, and (single faults) time-outs, interrupted calls and errors that wrap or look like an end of file; progress 0, half, all", map[bool]int{false: 2, true: 3}[c.Thorough])
		},
		Assume: []string{"io.ErrClosedPipe from the source of Encrypt counts as end of input (the code says so explicitly)", "a source that failed keeps failing unless the case says transient"},
		Run:    runC03})
}

var srcErrs = []error{errInjected, io.ErrUnexpectedEOF, syscall.EIO, os.ErrDeadlineExceeded, io.ErrNoProgress, context.Canceled}
var decErrs = []error{errInjected, io.ErrUnexpectedEOF, syscall.EIO, io.EOF, io.ErrClosedPipe, os.ErrClosed}
var sinkErrs = []error{errInjected, io.ErrShortWrite, syscall.ENOSPC, io.EOF, io.ErrClosedPipe, io.ErrUnexpectedEOF}

// timeoutErr is what a connection with a deadline reports.
type timeoutErr struct{}

func (timeoutErr) Error() string   { return "injected timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

// Errors that look like the end, like something to be tried again, or like nothing.
var lookErrs = []error{
	timeoutErr{}, &os.PathError{Op: "io", Path: "f", Err: os.ErrDeadlineExceeded},
	syscall.EINTR, syscall.EAGAIN, syscall.EPIPE, &os.PathError{Op: "io", Path: "f", Err: syscall.EINTR},
	fmt.Errorf("injected: %w", io.EOF), fmt.Errorf("injected: %w", io.ErrUnexpectedEOF), fmt.Errorf("injected: %w", io.ErrClosedPipe),
	&os.PathError{Op: "io", Path: "f", Err: io.EOF}, errors.New("EOF"), errors.New(""), errors.ErrUnsupported, io.ErrShortBuffer, context.DeadlineExceeded,
}

// faultReader asks the explorer at every Read: 0 = full read, else fail.
type faultReader struct {
	data      []byte
	x         *eng.Chooser
	kinds     []error
	sticky    bool
	failed    error
	faults    int
	transient int
	piece     int
	log       string
}

func (r *faultReader) Read(p []byte) (int, error) {
	if r.failed != nil && r.sticky {
		return 0, r.failed
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := min(len(p), len(r.data))
	if r.piece > 0 {
		n = min(n, r.piece)
	}
	if a := r.x.Choose(1 + 3*len(r.kinds)); a > 0 {
		a--
		r.failed = r.kinds[a/3]
		r.faults++
		r.log += fmt.Sprintf("r%d", a)
		switch a % 3 {
		case 0:
			n = 0
		case 1:
			n = n / 2
		}
		copy(p, r.data[:n])
		r.data = r.data[n:]
		return n, r.failed
	}
	if n == 0 {
		return 0, io.EOF
	}
	copy(p, r.data[:n])
	r.data = r.data[n:]
	return n, nil
}

// faultSink asks at every Write and Close.
type faultSink struct {
	got    []byte
	x      *eng.Chooser
	kinds  []error
	sticky bool
	failed error
	faults int
	closed int
	log    string
}

func (s *faultSink) Write(p []byte) (int, error) {
	if s.failed != nil && s.sticky {
		return 0, s.failed
	}
	if a := s.x.Choose(1 + 3*len(s.kinds)); a > 0 {
		a--
		s.failed = s.kinds[a/3]
		s.faults++
		s.log += fmt.Sprintf("w%d", a)
		n := 0
		switch a % 3 {
		case 1:
			n = len(p) / 2
		case 2:
			n = len(p)
		}
		s.got = append(s.got, p[:n]...)
		return n, s.failed
	}
	s.got = append(s.got, p...)
	return len(p), nil
}

func (s *faultSink) Close() error {
	s.closed++
	if s.failed != nil && s.sticky {
		return s.failed
	}
	if a := s.x.Choose(1 + len(s.kinds)); a > 0 {
		s.failed = s.kinds[a-1]
		s.faults++
		s.log += "c"
		return s.failed
	}
	return nil
}

// leftover: a sink after a failed encryption must not hold a file that decrypts to
// anything but the full input, for the reference and for the implementation.
func leftover(b, pt []byte, rx, snd *pair) error {
	if f, err := ref.Parse(b); err == nil {
		if o, err := f.Open(rx.ref); err == nil && !bytes.Equal(o.Plain, pt) {
			return fmt.Errorf("after a failure the sink holds a valid file of other content (%s)", diff(o.Plain, pt))
		}
	}
	if got, err := decOneShot(b, rx, snd); err == nil && !bytes.Equal(got, pt) {
		return fmt.Errorf("after a failure the sink decrypts successfully to other content (%s)", diff(got, pt))
	}
	return nil
}

func runC03(c *eng.Ctx) {
	dev := 2
	if c.Thorough {
		dev = 3
	}
	rx, snd := key("r1"), key("sender")
	type shape struct {
		chunk, n int
		snd      *pair
	}
	shapes := []shape{{8, 0, nil}, {8, 5, nil}, {8, 8, nil}, {8, 16, snd}, {8, 19, nil}, {8, 27, snd}}
	for _, sh := range shapes {
		pt := pattern(sh.n, 3)
		sname := fmt.Sprintf("chunk=%d,len=%d,signed=%v", sh.chunk, sh.n, sh.snd != nil)
		for _, mode := range []string{"transient", "transient/looks", "sticky", "sticky/looks"} {
			d := dev
			sticky := mode[0] == 's'
			srcErrs, decErrs, sinkErrs := srcErrs, decErrs, sinkErrs
			if strings.HasSuffix(mode, "looks") {
				srcErrs, decErrs, sinkErrs = lookErrs, lookErrs, lookErrs
				d = 1
			}
			if sticky {
				d = 1 // after the first fault there is no other choice on that side
			}
			for _, side := range []string{"source", "sink", "both"} {
				if side == "both" && (sticky || d == 1 || !c.Thorough && sh.n > 16) {
					continue
				}
				name := fmt.Sprintf("encrypt/%s/%s/%s", sname, side, mode)
				c.Suite(name, func() {
					c.Explore(name, d, func(x *eng.Chooser) error {
						e, err := newEnc(uint64(sh.chunk), sh.snd, rx)
						if err != nil {
							return err
						}
						never := &eng.Chooser{}
						xs, xk := x, x
						if side == "source" {
							xk = never
						}
						if side == "sink" {
							xs = never
						}
						// a transient source failure is only meaningful if not retried by us
						src := &faultReader{data: pt, x: xs, kinds: srcErrs, sticky: true}
						snk := &faultSink{kinds: sinkErrs, x: xk, sticky: sticky}
						err = e.Encrypt(src, snk)
						c.State("encrypt/%s/%s%s/%v", side, src.log, snk.log, err == nil)
						if err == nil {
							if src.faults+snk.faults > 0 {
								return fmt.Errorf("Encrypt succeeded although %d source and %d sink calls failed (%v %v)", src.faults, snk.faults, src.failed, snk.failed)
							}
							if snk.closed != 1 {
								return fmt.Errorf("sink closed %d times", snk.closed)
							}
							c.Outcome("complete")
							return checkCT(snk.got, pt, rx, sh.snd)
						}
						c.Outcome("error reported")
						if src.faults+snk.faults == 0 {
							return fmt.Errorf("Encrypt failed without a fault: %w", err)
						}
						return leftover(snk.got, pt, rx, sh.snd)
					})
				})
			}

			name := fmt.Sprintf("writer/%s/%s", sname, mode)
			c.Suite(name, func() {
				c.Explore(name, d, func(x *eng.Chooser) error {
					e, err := newEnc(uint64(sh.chunk), sh.snd, rx)
					if err != nil {
						return err
					}
					snk := &faultSink{kinds: sinkErrs, x: x, sticky: sticky}
					w, err := e.NewStreamWriter(snk)
					if err != nil {
						if snk.faults == 0 {
							return err
						}
						c.Outcome("error at start")
						return leftover(snk.got, pt, rx, sh.snd)
					}
					if snk.faults > 0 {
						return errors.New("NewStreamWriter succeeded although the sink failed")
					}
					failed := false
					for left := pt; len(left) > 0; {
						k := min(5, len(left))
						f0 := snk.faults
						n, err := w.Write(left[:k])
						left = left[k:]
						if failed && err == nil {
							return errors.New("Write succeeded on a failed stream")
						}
						if err != nil {
							failed = true
						} else {
							if snk.faults > f0 {
								return errors.New("Write succeeded although the sink failed")
							}
							if n != k {
								return fmt.Errorf("Write = %d, nil for %d bytes", n, k)
							}
						}
					}
					err = w.Close()
					c.State("writer/%s/%v", snk.log, err == nil)
					if err == nil {
						if failed || snk.faults > 0 {
							return fmt.Errorf("Close succeeded although the sink failed (%v)", snk.failed)
						}
						c.Outcome("complete")
						return checkCT(snk.got, pt, rx, sh.snd)
					}
					if snk.faults == 0 {
						return fmt.Errorf("Close failed without a fault: %w", err)
					}
					c.Outcome("error reported")
					if n, err := w.Write([]byte("more")); err == nil {
						return fmt.Errorf("Write after a failed Close = %d, nil", n)
					}
					return leftover(snk.got, pt, rx, sh.snd)
				})
			})

			// decryption
			for _, one := range []bool{false, true} {
				if one && sh.n%sh.chunk != 0 {
					continue
				}
				file := (&ref.Spec{ChunkSize: uint32(sh.chunk), Rx: []*ref.Key{rx.ref}, Sender: sh.snd.refOrNil(), Pts: ref.Split(pt, sh.chunk, one), Label: "c03" + sname}).Write().Bytes
				for _, side := range []string{"source", "sink", "both"} {
					if side == "both" && (sticky || d == 1) {
						continue
					}
					name := fmt.Sprintf("decrypt/%s,emptylast=%v/%s/%s", sname, one, side, mode)
					c.Suite(name, func() {
						c.Explore(name, d, func(x *eng.Chooser) error {
							never := &eng.Chooser{}
							xs, xk := x, x
							if side == "source" {
								xk = never
							}
							if side == "sink" {
								xs = never
							}
							src := &faultReader{data: file, x: xs, kinds: decErrs, sticky: sticky}
							snk := &faultSink{kinds: sinkErrs, x: xk, sticky: sticky}
							dec, err := opened(src, rx, sh.snd)
							if err != nil {
								if src.faults == 0 {
									return err
								}
								c.Outcome("error in header")
								return nil
							}
							for round := 0; round < 2; round++ {
								before := len(snk.got)
								f0 := snk.faults
								err = dec.Decrypt(snk)
								c.State("decrypt/%s/%s%s/%v", side, src.log, snk.log, err == nil)
								if err == nil {
									if snk.faults > f0 {
										return fmt.Errorf("Decrypt succeeded although the sink failed")
									}
									if !bytes.Equal(snk.got[before:], pt) {
										return fmt.Errorf("Decrypt succeeded with incomplete output (round %d): %s", round, diff(snk.got[before:], pt))
									}
									c.Outcome("complete")
									return nil
								}
								if src.faults+snk.faults == 0 {
									return fmt.Errorf("Decrypt failed without a fault: %w", err)
								}
								c.Outcome("error reported")
								if round == 0 && !isPrefix(snk.got, pt) {
									return fmt.Errorf("released bytes are not a prefix: %s", diff(snk.got, pt))
								}
							}
							return nil
						})
					})
				}
				name := fmt.Sprintf("reader/%s,emptylast=%v/%s", sname, one, mode)
				c.Suite(name, func() {
					c.Explore(name, d, func(x *eng.Chooser) error {
						src := &faultReader{data: file, x: x, kinds: decErrs, sticky: sticky}
						dec, err := opened(src, rx, sh.snd)
						if err != nil {
							if src.faults == 0 {
								return err
							}
							return nil
						}
						r, err := dec.NewStreamReader()
						if err != nil {
							return err
						}
						got, err := readAll(r, 5)
						c.State("reader/%s/%v", src.log, err == nil)
						if err == nil {
							if !bytes.Equal(got, pt) {
								return fmt.Errorf("stream ended cleanly with incomplete data: %s", diff(got, pt))
							}
							c.Outcome("complete")
							return nil
						}
						if src.faults == 0 {
							return err
						}
						c.Outcome("error reported")
						if !isPrefix(got, pt) {
							return fmt.Errorf("released bytes are not a prefix: %s", diff(got, pt))
						}
						for k := 0; k < 3; k++ {
							b := make([]byte, 9)
							n, err := r.Read(b)
							if n != 0 || err == nil || err == io.EOF {
								return fmt.Errorf("Read on a failed stream = %d, %v", n, err)
							}
						}
						return nil
					})
				})
			}
		}
	}
}
