package checks

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"

	"mc/eng"

	"github.com/opencoff/sigtool/sign"
)

// longText is a text in which every 8 bytes say where they are.
type longText struct{ off, n int64 }

func (l *longText) Read(b []byte) (int, error) {
	if l.off >= l.n {
		return 0, io.EOF
	}
	k := int(min(int64(len(b)), l.n-l.off))
	l.fill(b[:k])
	return k, nil
}

func (l *longText) fill(b []byte) {
	var w [8]byte
	for i := 0; i < len(b); {
		binary.LittleEndian.PutUint64(w[:], uint64(l.off>>3)*0x9E3779B97F4A7C15)
		k := copy(b[i:], w[l.off&7:])
		i += k
		l.off += int64(k)
	}
}

// longCheck takes what should be such a text.
type longCheck struct {
	t   longText
	buf []byte
}

func (l *longCheck) Write(b []byte) (int, error) {
	n := len(b)
	for len(b) > 0 {
		k := min(len(b), len(l.buf))
		at := l.t.off
		l.t.fill(l.buf[:k])
		if !bytes.Equal(b[:k], l.buf[:k]) {
			return 0, fmt.Errorf("another text from around byte %d", at)
		}
		b = b[k:]
	}
	return n, nil
}

// c01Full: blocks of huge sizes that are full, encrypted and decrypted at the same
// time.
func c01Full(c *eng.Ctx) {
	type job struct {
		chunk uint64
		n     int64
		e, d  int
		s     bool
	}
	var jobs []job
	mb := uint64(1 << 20)
	for i, ch := range []uint64{1 << 30, 512*mb + 1, 256*mb + 1, 128*mb + 1, 64*mb + 1, 16*mb + 1} {
		for j, n := range []uint64{ch, ch + 1, ch - 1, 2 * ch} {
			for api := 0; api < 4; api++ {
				if !c.Thorough && (j > 1 || ch > 300*mb && (j == 0 || i > 0) || api != (i+j)%2*3) {
					continue
				}
				jobs = append(jobs, job{ch, int64(n), api % 2, api / 2, (i+j+api)%2 == 0})
			}
		}
	}
	c.ParN(2, len(jobs), func(i int) {
		j := jobs[i]
		c.Case(func() string {
			return fmt.Sprintf("full/chunk=%d/len=%d/%s/%d/signed=%v", j.chunk, j.n, encAPIs[j.e].name, j.d, j.s)
		}, func() error {
			c.State("full/%d/%d", j.chunk, j.n)
			c.Trans(int(j.n/int64(j.chunk)) + 1)
			rx, snd := key("r1"), key("sender")
			pr, pw := io.Pipe()
			done := make(chan error, 1)
			go func() {
				done <- func() error {
					sk := snd.sk
					if !j.s {
						sk = nil
					}
					e, err := sign.NewEncryptor(sk, j.chunk)
					if err != nil {
						return err
					}
					if err := e.AddRecipient(rx.pk); err != nil {
						return err
					}
					src := &longText{0, j.n}
					if j.e == 0 {
						return e.Encrypt(src, pw)
					}
					w, err := e.NewStreamWriter(pw)
					if err != nil {
						return err
					}
					if _, err = io.CopyBuffer(w, src, make([]byte, 1<<20)); err != nil {
						return err
					}
					return w.Close()
				}()
				pw.CloseWithError(errors.New("encryption has ended"))
			}()
			out := &longCheck{buf: make([]byte, 1<<16)}
			err := func() error {
				d, err := sign.NewDecryptor(pr)
				if err != nil {
					return err
				}
				from := snd.pk
				if !j.s {
					from = nil
				}
				if err = d.SetPrivateKey(rx.sk, from); err != nil {
					return err
				}
				if j.d == 0 {
					return d.Decrypt(out)
				}
				r, err := d.NewStreamReader()
				if err != nil {
					return err
				}
				_, err = io.CopyBuffer(struct{ io.Writer }{out}, r, make([]byte, 1<<20))
				return err
			}()
			if err != nil {
				pr.CloseWithError(err)
				<-done
				return fmt.Errorf("decryption: %w", err)
			}
			pr.Close()
			// an encryptor that still writes has more to say than its reader takes
			if err := <-done; err != nil {
				return fmt.Errorf("encryption: %w", err)
			}
			if out.t.off != j.n {
				return fmt.Errorf("%d bytes of %d", out.t.off, j.n)
			}
			return nil
		})
	})
}
