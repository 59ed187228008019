// Package checks holds one exploration per property.
package checks

import (
	"bytes"
	"crypto/sha256"
	"errors"
	"fmt"
	"io"
	"sync"

	"mc/eng"
	"mc/ref"

	"github.com/opencoff/sigtool/sign"
)

var props = map[string]*eng.Prop{}

// Helpers are auxiliary process entry points (mc <name> ...).
var Helpers = map[string]func(args []string){}

func register(p *eng.Prop) { props[p.ID] = p }

// Get finds a check.
func Get(id string) *eng.Prop { return props[id] }

// ---- keys

// pair is the same key for the implementation and the reference.
type pair struct {
	name string
	sk   *sign.PrivateKey
	pk   *sign.PublicKey
	ref  *ref.Key
}

var pairMu sync.Mutex
var pairs = map[string]*pair{}

// key returns the named key pair; the implementation's objects are created by
// reading the unencrypted OpenSSH form (exported API, no KDF cost). shared objects.
func key(name string) *pair {
	pairMu.Lock()
	defer pairMu.Unlock()
	if p := pairs[name]; p != nil {
		return p
	}
	p := freshKey(name)
	// the curve form is cached lazily; do it here once, so that parallel workers
	// of the explorer do not depend on that (C22 looks at it).
	p.pk.ToCurve25519PK()
	p.sk.ToCurve25519SK()
	p.sk.PublicKey().ToCurve25519PK()
	pairs[name] = p
	return p
}

// freshKey makes unshared objects for the named key.
func freshKey(name string) *pair {
	k := ref.KeyFor(name)
	sk, err := sign.MakePrivateKey(k.SSHPriv(ref.SSHOpt{Cipher: "none", Comment: name}), nil)
	if err != nil {
		panic(fmt.Sprintf("cannot load key %s: %v", name, err))
	}
	pk, err := sign.MakePublicKey(ref.PkDoc(k, ""))
	if err != nil {
		panic(fmt.Sprintf("cannot load public key %s: %v", name, err))
	}
	return &pair{name, sk, pk, k}
}

func (p *pair) skOrNil() *sign.PrivateKey {
	if p == nil {
		return nil
	}
	return p.sk
}

func (p *pair) pkOrNil() *sign.PublicKey {
	if p == nil {
		return nil
	}
	return p.pk
}

func (p *pair) refOrNil() *ref.Key {
	if p == nil {
		return nil
	}
	return p.ref
}

// ---- data

// pattern makes n position dependent bytes.
func pattern(n int, salt byte) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7+i>>8*3+1) ^ salt
	}
	return b
}

// ---- I/O

type sink struct {
	bytes.Buffer
	closed int
}

func (s *sink) Close() error { s.closed++; return nil }

var errInjected = errors.New("injected failure")

// encOneShot encrypts with Encrypt.
func encOneShot(pt []byte, chunk uint64, sender *pair, rx ...*pair) ([]byte, error) {
	e, err := sign.NewEncryptor(sender.skOrNil(), chunk)
	if err != nil {
		return nil, err
	}
	for _, r := range rx {
		if err := e.AddRecipient(r.pk); err != nil {
			return nil, err
		}
	}
	var s sink
	if err := e.Encrypt(bytes.NewReader(pt), &s); err != nil {
		return nil, err
	}
	if s.closed != 1 {
		return nil, fmt.Errorf("Encrypt closed the sink %d times", s.closed)
	}
	return s.Bytes(), nil
}

// encStream encrypts with NewStreamWriter, one Write (none if empty).
func encStream(pt []byte, chunk uint64, sender *pair, rx ...*pair) ([]byte, error) {
	e, err := sign.NewEncryptor(sender.skOrNil(), chunk)
	if err != nil {
		return nil, err
	}
	for _, r := range rx {
		if err := e.AddRecipient(r.pk); err != nil {
			return nil, err
		}
	}
	var s sink
	w, err := e.NewStreamWriter(&s)
	if err != nil {
		return nil, err
	}
	if len(pt) > 0 {
		n, err := w.Write(pt)
		if err != nil {
			return nil, err
		}
		if n != len(pt) {
			return nil, fmt.Errorf("stream Write = %d, nil for %d bytes", n, len(pt))
		}
	}
	if err := w.Close(); err != nil {
		return nil, err
	}
	if s.closed != 1 {
		return nil, fmt.Errorf("stream Close closed the sink %d times", s.closed)
	}
	return s.Bytes(), nil
}

// opened makes a decryptor with its key set.
func opened(rd io.Reader, rx *pair, sender *pair) (*sign.Decryptor, error) {
	d, err := sign.NewDecryptor(rd)
	if err != nil {
		return nil, err
	}
	if err := d.SetPrivateKey(rx.sk, sender.pkOrNil()); err != nil {
		return nil, err
	}
	return d, nil
}

// decOneShot returns the released plaintext and the error.
func decOneShot(ct []byte, rx *pair, sender *pair) ([]byte, error) {
	d, err := opened(bytes.NewReader(ct), rx, sender)
	if err != nil {
		return nil, err
	}
	var s sink
	err = d.Decrypt(&s)
	return s.Bytes(), err
}

// decStream returns the released plaintext and the error, reading with buffers of size bs.
func decStream(ct []byte, bs int, rx *pair, sender *pair) ([]byte, error) {
	d, err := opened(bytes.NewReader(ct), rx, sender)
	if err != nil {
		return nil, err
	}
	r, err := d.NewStreamReader()
	if err != nil {
		return nil, err
	}
	return readAll(r, bs)
}

const slack = 300

// guarded makes a slice with room behind it that nobody must touch; spilt tells
// whether somebody did.
func guarded(n int) []byte {
	return bytes.Repeat([]byte{0xA7}, n+slack)[:n]
}

func spilt(b []byte) error {
	for _, x := range b[len(b):cap(b)] {
		if x != 0xA7 {
			return fmt.Errorf("wrote behind the %d bytes it was given", len(b))
		}
	}
	return nil
}

// readAll reads to EOF with the io.Reader contract checked; an error that is not
// io.EOF is returned, and so is a contract breach. What is read after an error
// counts like what was read before it.
func readAll(r io.Reader, bs int) ([]byte, error) {
	var out []byte
	var failed error
	zero, more := 0, 0
	for {
		b := guarded(bs)
		n, err := r.Read(b)
		if n < 0 || n > bs {
			return out, fmt.Errorf("Read returned %d for a %d byte buffer", n, bs)
		}
		if err := spilt(b); err != nil {
			return out, fmt.Errorf("Read %w", err)
		}
		out = append(out, b[:n]...)
		if err != nil && err != io.EOF && failed == nil {
			failed = err
		}
		if failed != nil {
			if more++; more > 4 {
				return out, failed
			}
			continue
		}
		if err == io.EOF {
			return out, nil
		}
		if n == 0 {
			if zero++; zero > 100 {
				return out, errors.New("Read makes no progress")
			}
		} else {
			zero = 0
		}
	}
}

func diff(got, want []byte) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	return fmt.Sprintf("got %d bytes, want %d bytes, first difference at %d", len(got), len(want), i)
}

func isPrefix(p, full []byte) bool { return len(p) <= len(full) && bytes.Equal(p, full[:len(p)]) }

func sum256(b []byte) []byte {
	s := sha256.Sum256(b)
	return s[:]
}
