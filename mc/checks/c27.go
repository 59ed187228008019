package checks

import (
	"bytes"
	"crypto/sha512"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"mc/eng"
	"mc/ref"

	"github.com/opencoff/sigtool/sign"
)

func init() {
	register(&eng.Prop{ID: "C27", Level: "model_checking",
		Rule: "one execution = one session or command; monitors at every source read and sink write (states = what is held back there, in blocks) and on the live heap, the data segment limit and the result of the whole",
		Bound: func(c *eng.Ctx) string {
			return fmt.Sprintf("held back: 4 APIs x chunk sizes x lengths x I/O sizes; heap: 4 APIs x chunk sizes x streams of %d MB; what sessions leave: all ways to use and abandon a session; commands x ways to pass the data x sizes up to 512 MB in 200 MB; files of 4 GB and 5 bytes more (thorough: around 2, 4 and 8 GB)", pick(c, 16, 256))
		},
		Assume: []string{"two blocks and 64 KB may be held back, 16 blocks and 2 MB be live"},
		Run:    runC27})
}

// flow counts what goes in and comes out; in - out is what is held back.
type flow struct {
	c       *eng.Ctx
	api     string
	chunk   int
	in, out int64
	slack   int64 // what the formats allow to differ
	limit   int64
	err     error
	tick    func()
}

func (f *flow) look() {
	if held := f.in - f.out - f.slack; held > f.limit && f.err == nil {
		f.err = fmt.Errorf("when more input is asked for after %d bytes, only %d have come out (block size %d)", f.in, f.out, f.chunk)
	}
	if f.tick != nil {
		f.tick()
	}
}

// zeros is a source of n bytes in pieces.
type zeros struct {
	n     int64
	piece int
	f     *flow
}

func (z *zeros) Read(b []byte) (int, error) {
	if z.f != nil {
		z.f.look()
	}
	if z.n == 0 {
		return 0, io.EOF
	}
	k := len(b)
	if z.piece > 0 && k > z.piece {
		k = z.piece
	}
	if int64(k) > z.n {
		k = int(z.n)
	}
	clear(b[:k])
	z.n -= int64(k)
	if z.f != nil {
		z.f.in += int64(k)
	}
	return k, nil
}

// drain counts and drops, and checks that all is zero if told.
type drain struct {
	f     *flow
	n     int64
	zero  bool
	wrong int64
}

func (d *drain) Write(b []byte) (int, error) {
	if d.zero {
		for i, x := range b {
			if x != 0 {
				d.wrong = d.n + int64(i) + 1
				break
			}
		}
	}
	d.n += int64(len(b))
	if d.f != nil {
		d.f.out += int64(len(b))
		if d.f.tick != nil {
			d.f.tick()
		}
	}
	return len(b), nil
}

func (d *drain) Close() error { return nil }

// spy counts what is read from a file held in memory.
type spy struct {
	io.Reader
	f *flow
}

func (s spy) Read(b []byte) (int, error) {
	s.f.look()
	n, err := s.Reader.Read(b)
	s.f.in += int64(n)
	return n, err
}

var apis27 = []string{"Encrypt", "NewStreamWriter", "Decrypt", "NewStreamReader"}

// pump runs one session over src.
func pump(api string, chunk int, snd *pair, rx *pair, src io.Reader, dst io.WriteCloser, bs int) error {
	switch api {
	case "Encrypt", "NewStreamWriter":
		e, err := sign.NewEncryptor(snd.skOrNil(), uint64(chunk))
		if err != nil {
			return err
		}
		if err := e.AddRecipient(rx.pk); err != nil {
			return err
		}
		if api == "Encrypt" {
			return e.Encrypt(src, dst)
		}
		w, err := e.NewStreamWriter(dst)
		if err != nil {
			return err
		}
		buf := make([]byte, bs)
		if _, err := io.CopyBuffer(struct{ io.Writer }{w}, struct{ io.Reader }{src}, buf); err != nil {
			return err
		}
		return w.Close()
	}
	d, err := opened(src, rx, snd)
	if err != nil {
		return err
	}
	if api == "Decrypt" {
		return d.Decrypt(dst)
	}
	r, err := d.NewStreamReader()
	if err != nil {
		return err
	}
	buf := make([]byte, bs)
	_, err = io.CopyBuffer(struct{ io.Writer }{dst}, struct{ io.Reader }{r}, buf)
	return err
}

const hdrMax = 4096

func runC27(c *eng.Ctx) {
	c.Suite("held-back", func() { c27Held(c) })
	c.Suite("heap", func() { c27Heap(c) })
	c.Suite("sessions", func() { c27Sessions(c) })
	c.Suite("large", func() { c27Large(c) })
	c.Suite("tool", func() { c27Tool(c) })
}

func c27Held(c *eng.Ctx) {
	rx := key("rx")
	chunks := []int{16, 1000, 4096, 65536}
	if c.Thorough {
		chunks = append(chunks, 1, 33, 32768, 1<<20, 4<<20)
	}
	snds := []*pair{nil, key("sender")}
	pieces := []int{0, 1, 7, 4096}
	c.Par(len(apis27)*len(chunks)*len(pieces)*len(snds), func(i int) {
		api, chunk, pc, snd := apis27[i%4], chunks[i/4%len(chunks)], pieces[i/4/len(chunks)%len(pieces)], snds[i/4/len(chunks)/len(pieces)]
		if pc == 1 && chunk > 4096 {
			return
		}
		for _, d := range []int{-1, 0, 1} {
			n := 6*chunk + d + 256<<10/chunk*chunk
			id := fmt.Sprintf("held-back/%s/%d/%d/%s/%+d", api, chunk, pc, sndName(snd), d)
			c.Case(func() string { return id }, func() error {
				f := &flow{c: c, api: api, chunk: chunk, limit: 2*int64(chunk) + 64<<10}
				bs := chunk
				if pc > 0 {
					bs = pc
				}
				f.tick = func() {
					if chunk >= 4096 {
						c.State("%s %d", api, max(f.in-f.out, 0)/int64(chunk))
					}
				}
				out := &drain{f: f}
				var src io.Reader
				if strings.HasPrefix(api, "Decrypt") || api == "NewStreamReader" {
					ct, err := encOneShot(make([]byte, n), uint64(chunk), snd, rx)
					if err != nil {
						return err
					}
					// per block 20 bytes, and header and trailer, come in but do not go out
					f.slack = int64(n/chunk+2)*20 + hdrMax
					src = spy{pieces27(bytes.NewReader(ct), pc), f}
				} else {
					src = &zeros{int64(n), pc, f}
				}
				if err := pump(api, chunk, snd, rx, src, out, bs); err != nil {
					return err
				}
				c.Trans(n / chunk)
				return f.err
			})
		}
	})
}

func pieces27(r io.Reader, n int) io.Reader {
	if n == 0 {
		return r
	}
	return readerFunc(func(b []byte) (int, error) {
		if len(b) > n {
			b = b[:n]
		}
		return r.Read(b)
	})
}

type readerFunc func(b []byte) (int, error)

func (f readerFunc) Read(b []byte) (int, error) { return f(b) }

// live is the heap in use.
func live() int64 {
	var m runtime.MemStats
	runtime.GC()
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

func c27Heap(c *eng.Ctx) {
	rx := key("rx")
	chunks := []int{64, 65536, 1 << 20}
	total := int64(pick(c, 16<<20, 256<<20))
	// one at a time: the heap is shared
	for _, api := range apis27 {
		for _, chunk := range chunks {
			for _, snd := range []*pair{nil, key("sender")} {
				id := fmt.Sprintf("heap/%s/%d/%s", api, chunk, sndName(snd))
				c.Case(func() string { return id }, func() error {
					n := total
					limit := 16*int64(chunk) + 2<<20
					if api == "Decrypt" || api == "NewStreamReader" {
						limit *= 2 // there is an encryption on the other side
					}
					base := live()
					var peak int64
					next := int64(0)
					f := &flow{c: c, api: api, chunk: chunk, limit: 1 << 40}
					out := &drain{f: f}
					f.tick = func() {
						if f.out >= next {
							next = f.out + n/16
							c.Trans(1)
							if h := live() - base; h > peak {
								peak = h
							}
						}
					}
					var err error
					if api == "Encrypt" || api == "NewStreamWriter" {
						err = pump(api, chunk, snd, rx, &zeros{n, 0, f}, out, 32768)
					} else {
						pr, pw := io.Pipe()
						go func() {
							pw.CloseWithError(pump("Encrypt", chunk, snd, rx, &zeros{n, 0, nil}, struct {
								io.Writer
								io.Closer
							}{pw, io.NopCloser(nil)}, 32768))
						}()
						err = pump(api, chunk, snd, rx, pr, out, 32768)
						pr.CloseWithError(errors.New("done"))
						if err == nil && out.n != n {
							err = fmt.Errorf("%d of %d bytes came out", out.n, n)
						}
					}
					if err != nil {
						return err
					}
					if peak > limit {
						return fmt.Errorf("%d KB are live on the way through %d KB, block size %d", peak>>10, n>>10, chunk)
					}
					c.State("%s %d live %d blocks", api, chunk, peak/int64(max(chunk, 1<<20)))
					return nil
				})
			}
		}
	}
}

// c27Sessions repeats everything that one can do with a session, including leaving
// it half done, and looks at what stays behind.
func c27Sessions(c *eng.Ctx) {
	rx, snd := key("rx"), key("sender")
	pt := pattern(5000, 3)
	ct, err := encOneShot(pt, 1000, snd, rx)
	if err != nil {
		c.Broken(err)
		return
	}
	dir, err := os.MkdirTemp("", "c27")
	if err != nil {
		c.Broken(err)
		return
	}
	defer os.RemoveAll(dir)
	fn := filepath.Join(dir, "f")
	if err := os.WriteFile(fn, pt, 0600); err != nil {
		c.Broken(err)
		return
	}
	sig, err := snd.sk.SignFile(fn)
	if err != nil {
		c.Broken(err)
		return
	}
	enc := func() *sign.Encryptor {
		e, _ := sign.NewEncryptor(snd.sk, 1000)
		e.AddRecipient(rx.pk)
		return e
	}
	acts := map[string]func(){
		"encryptor":      func() { enc() },
		"failed-encrypt": func() { enc().Encrypt(readerFunc(func([]byte) (int, error) { return 0, errInjected }), &sink{}) },
		"encrypt":        func() { enc().Encrypt(bytes.NewReader(pt), &sink{}) },
		"writer":         func() { enc().NewStreamWriter(&sink{}) },
		"half-written":   func() { w, _ := enc().NewStreamWriter(&sink{}); w.Write(pt) },
		"written":        func() { w, _ := enc().NewStreamWriter(&sink{}); w.Write(pt); w.Close() },
		"decryptor":      func() { sign.NewDecryptor(bytes.NewReader(ct)) },
		"opened":         func() { opened(bytes.NewReader(ct), rx, snd) },
		"wrong-key":      func() { opened(bytes.NewReader(ct), snd, snd) },
		"decrypt":        func() { decOneShot(ct, rx, snd) },
		"damaged":        func() { decOneShot(ct[:len(ct)-100], rx, snd) },
		"reader":         func() { d, _ := opened(bytes.NewReader(ct), rx, snd); d.NewStreamReader() },
		"half-read": func() {
			d, _ := opened(bytes.NewReader(ct), rx, snd)
			r, _ := d.NewStreamReader()
			r.Read(make([]byte, 10))
		},
		"read":       func() { decStream(ct, 100, rx, snd) },
		"sign":       func() { snd.sk.SignFile(fn) },
		"sign-none":  func() { snd.sk.SignFile(fn + "-") },
		"sign-dir":   func() { snd.sk.SignFile(dir) },
		"verify":     func() { snd.pk.VerifyFile(fn, sig) },
		"verify-not": func() { rx.pk.VerifyFile(fn, sig) },
		"key":        func() { freshKey("some key") },
	}

	// everything that reads or writes keys and signatures
	files := map[string][]byte{
		"pub":     ref.PkDoc(rx.ref, "comment"),
		"ssh.pub": []byte(rx.ref.SSHPubLine("me@here")),
		"key":     ref.SealSk(rx.ref, "pw", make([]byte, 32), 2, 1, 1).Text(),
		"ssh.key": rx.ref.SSHPriv(ref.SSHOpt{Cipher: "none"}),
		"sig":     ref.SigDoc(rx.ref, ref.FileDigest(pt), ""),
		"junk":    pattern(300, 1),
	}
	for n, b := range files {
		if err := os.WriteFile(filepath.Join(dir, n), b, 0600); err != nil {
			c.Broken(err)
			return
		}
	}
	files["none"] = nil
	pw := func(s string, err error) func() ([]byte, error) {
		return func() ([]byte, error) { return []byte(s), err }
	}
	for n := range files {
		fn := filepath.Join(dir, n)
		acts["read-public/"+n] = func() { sign.ReadPublicKey(fn) }
		acts["read-private/"+n] = func() { sign.ReadPrivateKey(fn, pw("pw", nil)) }
		acts["read-private-wrong/"+n] = func() { sign.ReadPrivateKey(fn, pw("no", nil)) }
		acts["read-private-none/"+n] = func() { sign.ReadPrivateKey(fn, pw("", errInjected)) }
		acts["read-signature/"+n] = func() { sign.ReadSignature(fn) }
	}
	out := filepath.Join(dir, "out")
	acts["write-public"] = func() { rx.pk.Serialize(out, "c", true) }
	acts["write-public-again"] = func() { rx.pk.Serialize(fn, "c", false) }
	acts["write-public-nowhere"] = func() { rx.pk.Serialize(filepath.Join(fn, "x"), "c", true) }
	acts["write-signature"] = func() { sig.Serialize(out, "c", true) }
	acts["write-signature-again"] = func() { sig.Serialize(fn, "c", false) }
	acts["write-signature-nowhere"] = func() { sig.Serialize(filepath.Join(fn, "x"), "c", true) }
	acts["authorized-keys"] = func() { sign.ParseAuthorizedKeys(files["ssh.pub"]) }
	names := make([]string, 0, len(acts))
	for n := range acts {
		names = append(names, n)
	}
	fds := func() int {
		l, _ := os.ReadDir("/proc/self/fd")
		return len(l)
	}
	maps := func() int {
		b, _ := os.ReadFile("/proc/self/maps")
		return bytes.Count(b, []byte(fn))
	}
	sort.Strings(names)
	rep := pick(c, 300, 2000)
	for _, n := range names {
		c.Case(func() string { return "sessions/" + n }, func() error {
			f := acts[n]
			for i := 0; i < 20; i++ {
				f()
			}
			h, g, d := live(), runtime.NumGoroutine(), fds()
			for i := 0; i < rep; i++ {
				f()
			}
			c.Trans(rep)
			// goroutines and finalizers may need a moment
			var err error
			for i := 0; i < 50; i++ {
				err = nil
				if x := live() - h; x > int64(rep)*100+1<<19 {
					err = fmt.Errorf("%d sessions leave %d bytes behind", rep, x)
				}
				if x := runtime.NumGoroutine() - g; x > 20 {
					err = fmt.Errorf("%d sessions leave %d goroutines behind", rep, x)
				}
				if x := fds() - d; x > 20 {
					err = fmt.Errorf("%d sessions leave %d files open", rep, x)
				}
				if x := maps(); x > 20 {
					err = fmt.Errorf("%d sessions leave %d mappings of the file", rep, x)
				}
				if err == nil {
					break
				}
				time.Sleep(20 * time.Millisecond)
			}
			return err
		})
	}
}

// c27Large signs, verifies, encrypts and decrypts more than 32 bits can count.
func c27Large(c *eng.Ctx) {
	dir, err := os.MkdirTemp("", "c27")
	if err != nil {
		c.Broken(err)
		return
	}
	defer os.RemoveAll(dir)
	sizes := []int64{1 << 32, 1<<32 + 5}
	if c.Thorough {
		sizes = []int64{1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<32 + 5, 1<<33 + 5}
	}
	p, rx := key("sender"), key("rx")
	var jobs []func()
	for _, n := range sizes {
		fn := filepath.Join(dir, fmt.Sprint(n))
		short := filepath.Join(dir, fmt.Sprint(n)+"-32")
		if err := errors.Join(os.WriteFile(fn, nil, 0600), os.Truncate(fn, n), os.WriteFile(short, nil, 0600), os.Truncate(short, n&(1<<32-1)&^(1<<31))); err != nil {
			c.Broken(err)
			return
		}
		digest := sync.OnceValue(func() []byte {
			h := sha512.New()
			io.Copy(h, &zeros{n, 0, nil})
			var b [8]byte
			binary.BigEndian.PutUint64(b[:], uint64(n))
			h.Write(b[:])
			return h.Sum(nil)
		})
		jobs = append(jobs, func() {
			id := fmt.Sprintf("large/sign/%d", n)
			c.Case(func() string { return id }, func() error {
				d := make(chan []byte)
				go func() { d <- digest() }()
				s, err := p.sk.SignFile(fn)
				dg := <-d
				if err != nil {
					return err
				}
				if !ref.VerifyMsg(p.ref.Pk, dg, s.Sig) {
					return errors.New("the signature is not for this content")
				}
				return nil
			})
		}, func() {
			id := fmt.Sprintf("large/verify/%d", n)
			c.Case(func() string { return id }, func() error {
				if n < 1<<31 {
					return nil
				}
				s, err := p.sk.SignFile(short)
				if err != nil {
					return err
				}
				if ok, _ := p.pk.VerifyFile(fn, s); ok {
					return errors.New("the signature of a shorter file is accepted")
				}
				return nil
			})
		})
		for _, st := range []bool{false, true} {
			jobs = append(jobs, func() {
				id := fmt.Sprintf("large/encrypt/%d/%v", n, st)
				c.Case(func() string { return id }, func() error {
					enc, dec := "Encrypt", "NewStreamReader"
					if st {
						enc, dec = "NewStreamWriter", "Decrypt"
					}
					pr, pw := io.Pipe()
					go func() {
						pw.CloseWithError(pump(enc, 1<<20, nil, rx, &zeros{n, 0, nil}, struct {
							io.Writer
							io.Closer
						}{pw, io.NopCloser(nil)}, 1<<20))
					}()
					out := &drain{zero: true}
					err := pump(dec, 1<<20, nil, rx, pr, out, 1<<20)
					pr.CloseWithError(errors.New("done"))
					if err != nil {
						return err
					}
					if out.n != n || out.wrong != 0 {
						return fmt.Errorf("%d bytes come out of %d (first wrong: %d)", out.n, n, out.wrong)
					}
					return nil
				})
			})
		}
	}
	c.Par(len(jobs), func(i int) { jobs[i]() })
}

// c27Tool runs commands on files larger than the memory they get.
func c27Tool(c *eng.Ctx) {
	bin, err := cli(c)
	if err != nil {
		c.Broken(err)
		return
	}
	a, s := ref.KeyFor("priv-a"), ref.KeyFor("priv-s")
	sc := &scen{files: map[string]string{"a.pub": string(ref.PkDoc(a, "")), "a.key": skFile(a, ""), "s.pub": string(ref.PkDoc(s, "")), "s.key": skFile(s, "")}}
	dir, err := sc.setup(c)
	if err != nil {
		c.Broken(err)
		return
	}
	defer os.RemoveAll(filepath.Dir(dir))
	sizes := []int64{0, 512 << 20}
	if c.Thorough {
		sizes = []int64{0, 1, 4 << 20, 64 << 20, 512 << 20, 2 << 30}
	}
	const mem = 200 << 10 // KB
	sh := func(f string, args ...any) error {
		cmd := exec.Command("/bin/bash", "-c", fmt.Sprintf("set -e -o pipefail; ulimit -d %d; ", mem)+strings.ReplaceAll(fmt.Sprintf(f, args...), "sigtool", bin))
		cmd.Dir = dir
		out, err := cmd.CombinedOutput()
		if err != nil {
			return fmt.Errorf("%s: %v: %.300s", fmt.Sprintf(f, args...), err, out)
		}
		return nil
	}
	type job struct {
		name string
		f    func(fn string) error
	}
	jobs := []job{
		{"sign-verify", func(fn string) error {
			return sh("sigtool sign --no-password -o %[1]s.sig s.key %[1]s; sigtool verify s.pub %[1]s.sig %[1]s; rm %[1]s.sig", fn)
		}},
	}
	for _, snd := range []string{"", "s"} {
		for _, in := range []string{"", "<", "cat"} {
			jobs = append(jobs, job{"encrypt" + in + snd, func(fn string) error {
				e, d := "sigtool encrypt a.pub", "sigtool decrypt --no-password a.key"
				if snd != "" {
					e, d = "sigtool encrypt --no-password -s s.key a.pub", "sigtool decrypt --no-password -v s.pub a.key"
				}
				switch in {
				case "":
					e += " " + fn
				case "<":
					e += " - < " + fn
				case "cat":
					e = "cat " + fn + " | " + e + " -"
				}
				return sh("%s | %s | cmp - %s", e, d, fn)
			}})
		}
	}
	for _, n := range sizes {
		fn := filepath.Join(dir, fmt.Sprint(n))
		if err := errors.Join(os.WriteFile(fn, nil, 0600), os.Truncate(fn, n)); err != nil {
			c.Broken(err)
			return
		}
	}
	c.Par(len(jobs)*len(sizes), func(i int) {
		j, n := jobs[i%len(jobs)], sizes[i/len(jobs)]
		id := fmt.Sprintf("tool/%s/%d", j.name, n)
		c.Case(func() string { return id }, func() error { return j.f(fmt.Sprint(n)) })
	})
}
