package eng

import (
	"crypto/rand"
	"crypto/sha256"
	"encoding/binary"
	"io"
	"runtime"
	"sync"
)

// All randomness of the code under test comes from crypto/rand.Reader, which is
// replaced by a deterministic generator per goroutine, reseeded for every case:
// a case gives the same bytes in whatever order the workers run.

type drbg struct {
	seed [32]byte
	ctr  uint64
	buf  []byte

	// observation and fault injection (C08)
	Log   func(b []byte)
	Hook  func(n int) (max int, err error)
	Edit  func(call int, b []byte)
	calls int
}

func (d *drbg) Read(p []byte) (int, error) {
	if d.Hook != nil {
		m, err := d.Hook(len(p))
		if err != nil {
			return 0, err
		}
		if m < len(p) {
			p = p[:m]
		}
	}
	d.calls++
	n := len(p)
	for len(p) > 0 {
		if len(d.buf) == 0 {
			var x [40]byte
			copy(x[:], d.seed[:])
			binary.BigEndian.PutUint64(x[32:], d.ctr)
			d.ctr++
			s := sha256.Sum256(x[:])
			d.buf = s[:]
		}
		m := copy(p, d.buf)
		if d.Edit != nil {
			m = len(p)
			for i := 0; i < m; {
				i += copy(p[i:], d.buf)
				x := sha256.Sum256(d.buf)
				d.buf = x[:]
			}
			d.Edit(d.calls-1, p)
		}
		if d.Log != nil {
			d.Log(p[:m])
		}
		if d.Edit != nil {
			return n, nil
		}
		p, d.buf = p[m:], d.buf[m:]
	}
	return n, nil
}

type perG struct {
	m sync.Map // goid -> *drbg
}

func goid() uint64 {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	var id uint64
	for _, ch := range b[10:n] {
		if ch < '0' || ch > '9' {
			break
		}
		id = id*10 + uint64(ch-'0')
	}
	return id
}

// Goid identifies the calling goroutine.
func Goid() uint64 { return goid() }

func (r *perG) get() *drbg {
	id := goid()
	if v, ok := r.m.Load(id); ok {
		return v.(*drbg)
	}
	d := &drbg{}
	binary.BigEndian.PutUint64(d.seed[:], id)
	r.m.Store(id, d)
	return d
}

func (r *perG) Read(p []byte) (int, error) { return r.get().Read(p) }

var det = &perG{}
var sysRand io.Reader

// InstallRand replaces the system random source.
func InstallRand() {
	sysRand = rand.Reader
	rand.Reader = det
}

// Sys is the real random source.
func Sys() io.Reader { return sysRand }

func seedCase(seed int64, id func() string) {
	SeedRand(seed, id())
}

// SeedRand reseeds the generator of this goroutine.
func SeedRand(seed int64, id string) {
	d := det.get()
	var x [8]byte
	binary.BigEndian.PutUint64(x[:], uint64(seed))
	d.seed = sha256.Sum256(append(x[:], id...))
	d.ctr, d.buf, d.Log, d.Hook, d.Edit, d.calls = 0, nil, nil, nil, nil, 0
}

// RandHook installs a fault hook for this goroutine's random source (nil clears it).
func RandHook(h func(n int) (int, error)) { det.get().Hook = h }

// RandEdit alters what this goroutine's random source hands out, call by call
// (until the next reseeding).
func RandEdit(f func(call int, b []byte)) { det.get().Edit = f }

// RandLog observes the bytes handed out to this goroutine.
func RandLog(l func(b []byte)) { det.get().Log = l }

// RandCalls is the number of reads since seeding.
func RandCalls() int { return det.get().calls }

// AdoptRand makes goroutine-local randomness of the caller start at a named stream.
func AdoptRand(seed int64, id string) { SeedRand(seed, id) }

// DropRand forgets the generator of a goroutine that ends.
func DropRand() { det.m.Delete(goid()) }
