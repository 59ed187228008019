//go:build verifinst

package checks

import (
	"bytes"
	"crypto/rand"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"unsafe"

	"mc/eng"
	"mc/ref"
	"mc/sched"

	"github.com/opencoff/sigtool/sign"
)

func init() {
	Subs["c22"] = runC22Inst
	Subs["c22race"] = runC22Race
}

// rawRand reads the kernel's generator without synchronizing with anything.
type rawRand struct{}

//go:norace
func (rawRand) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	n, _, e := syscall.Syscall(318, uintptr(unsafe.Pointer(&p[0])), uintptr(len(p)), 0) // getrandom
	if e != 0 {
		return 0, e
	}
	return int(n), nil
}

// Sources and sinks are places where other sessions may come in, too.
const ioPoint = 1 << 20

type yieldReader struct{ r io.Reader }

func (y *yieldReader) Read(b []byte) (int, error) {
	sched.Point(ioPoint)
	n, err := y.r.Read(b)
	sched.Point(ioPoint)
	return n, err
}

func source(b []byte) io.Reader { return &yieldReader{bytes.NewReader(b)} }

type yieldSink struct{ sink }

func (y *yieldSink) Write(b []byte) (int, error) {
	sched.Point(ioPoint)
	n, err := y.sink.Write(b)
	sched.Point(ioPoint)
	return n, err
}

// coopPipe connects two sessions; it holds one write at a time.
type coopPipe struct {
	mu     sync.Mutex
	buf    []byte
	closed bool
}

func (p *coopPipe) Write(b []byte) (int, error) {
	p.mu.Lock()
	p.buf = append(p.buf, b...)
	p.mu.Unlock()
	sched.Unblock()
	for {
		p.mu.Lock()
		n := len(p.buf)
		p.mu.Unlock()
		if n == 0 {
			return len(b), nil
		}
		sched.Block()
	}
}

func (p *coopPipe) Close() error {
	p.mu.Lock()
	p.closed = true
	p.mu.Unlock()
	sched.Unblock()
	return nil
}

func (p *coopPipe) Read(b []byte) (int, error) {
	for {
		p.mu.Lock()
		if len(p.buf) > 0 {
			n := copy(b, p.buf)
			p.buf = p.buf[n:]
			p.mu.Unlock()
			sched.Unblock()
			return n, nil
		}
		c := p.closed
		p.mu.Unlock()
		if c {
			return 0, io.EOF
		}
		sched.Block()
	}
}

// shared is what the sessions of one execution have in common.
type shared struct {
	a, b, s *pair
	sig     *sign.Signature // by a over c22Msg
	files   string
	pipe    coopPipe
}

var c22Msg = pattern(40, 0x21)

// session is one activity: do runs under the scheduler, judge afterwards.
type session struct {
	name  string
	do    func()
	judge func() error
	roots *[][]byte // secrets that must be fresh
}

type c22Inputs struct {
	dir      string
	dec      [3][]byte // for B by A
	decs     [3][]byte // for A and B, anonymous
	pts      [3][]byte
	fileSig  [3][]byte
	sigAlone []byte
}

func c22Prepare(c *eng.Ctx) (*c22Inputs, error) {
	in := &c22Inputs{dir: filepath.Join(c.Work, "c22"+os.Getenv("C22_SHARD"))}
	if err := os.MkdirAll(in.dir, 0755); err != nil {
		return nil, err
	}
	a, b := ref.KeyFor("alice"), ref.KeyFor("bob")
	for i := 0; i < 3; i++ {
		in.pts[i] = pattern(20+i, byte(i*50+1))
		l := fmt.Sprint("c22", i)
		in.dec[i] = (&ref.Spec{ChunkSize: 8, Rx: []*ref.Key{b}, Sender: a, Pts: ref.Split(in.pts[i], 8, true), Label: l}).Write().Bytes
		in.decs[i] = (&ref.Spec{ChunkSize: 8, Rx: []*ref.Key{a, b}, Pts: ref.Split(in.pts[i], 8, true), Label: l + "s"}).Write().Bytes
		if err := os.WriteFile(filepath.Join(in.dir, fmt.Sprint("f", i)), in.pts[i], 0644); err != nil {
			return nil, err
		}
	}
	return in, nil
}

func (in *c22Inputs) session(kind string, i int, sh *shared) *session {
	s := &session{name: kind}
	pt := in.pts[i]
	var err error
	var out yieldSink
	mine := func(f func() error) {
		s.do = func() { err = f() }
	}
	checkEnc := func(sender *pair, rx ...*ref.Key) func() error {
		return func() error {
			if err != nil {
				return err
			}
			var sk *ref.Key
			if sender != nil {
				sk = sender.ref
			}
			if e := encOK(out.Bytes(), pt, sk, rx...); e != nil {
				return e
			}
			f, e := ref.Parse(out.Bytes())
			if e != nil {
				return e
			}
			o, e := f.Open(rx[0])
			if e != nil {
				return e
			}
			s.roots = &[][]byte{o.Root, f.Hdr.Pk, f.Hdr.Salt}
			for _, w := range f.Hdr.Keys {
				*s.roots = append(*s.roots, w.Nonce)
			}
			return nil
		}
	}
	plain := func() error {
		if err != nil {
			return err
		}
		if !bytes.Equal(out.Bytes(), pt) {
			return errors.New(diff(out.Bytes(), pt))
		}
		return nil
	}
	switch kind {
	case "enc":
		mine(func() error {
			e, err := sign.NewEncryptor(sh.a.sk, 8)
			if err != nil {
				return err
			}
			if err := e.AddRecipient(sh.b.pk); err != nil {
				return err
			}
			if err := e.AddRecipient(sh.a.pk); err != nil {
				return err
			}
			return e.Encrypt(source(pt), &out)
		})
		s.judge = checkEnc(sh.a, sh.b.ref, sh.a.ref)
	case "encs":
		mine(func() error {
			e, err := sign.NewEncryptor(nil, 8)
			if err != nil {
				return err
			}
			if err := e.AddRecipient(sh.b.pk); err != nil {
				return err
			}
			w, err := e.NewStreamWriter(&out)
			if err != nil {
				return err
			}
			for _, p := range [][]byte{pt[:5], pt[5:17], pt[17:]} {
				if n, err := w.Write(p); err != nil || n != len(p) {
					return fmt.Errorf("Write: %d, %v", n, err)
				}
			}
			return w.Close()
		})
		s.judge = checkEnc(nil, sh.b.ref)
	case "dec":
		auth := false
		mine(func() error {
			d, err := sign.NewDecryptor(source(in.dec[i]))
			if err != nil {
				return err
			}
			if err := d.SetPrivateKey(sh.b.sk, sh.a.pk); err != nil {
				return err
			}
			auth = d.AuthenticatedSender()
			return d.Decrypt(&out)
		})
		s.judge = func() error {
			if err == nil && !auth {
				return errors.New("no authenticated sender")
			}
			return plain()
		}
	case "decs":
		mine(func() error {
			d, err := sign.NewDecryptor(source(in.decs[i]))
			if err != nil {
				return err
			}
			if err := d.SetPrivateKey(sh.b.sk, nil); err != nil {
				return err
			}
			r, err := d.NewStreamReader()
			if err != nil {
				return err
			}
			b := make([]byte, 6)
			for {
				n, err := r.Read(b)
				out.Write(b[:n])
				if err == io.EOF {
					return nil
				}
				if err != nil {
					return err
				}
			}
		})
		s.judge = plain
	case "pipe-enc", "pipe-encs":
		mine(func() error {
			var snd *sign.PrivateKey
			if kind == "pipe-enc" {
				snd = sh.a.sk
			}
			e, err := sign.NewEncryptor(snd, 8)
			if err != nil {
				return err
			}
			if err := e.AddRecipient(sh.b.pk); err != nil {
				return err
			}
			if kind == "pipe-enc" {
				return e.Encrypt(source(pt), &sh.pipe)
			}
			w, err := e.NewStreamWriter(&sh.pipe)
			if err != nil {
				return err
			}
			if _, err := w.Write(pt); err != nil {
				return err
			}
			return w.Close()
		})
		s.judge = func() error { return err }
	case "pipe-dec", "pipe-decs":
		pt = in.pts[1-i]
		mine(func() error {
			d, err := sign.NewDecryptor(&sh.pipe)
			if err != nil {
				return err
			}
			var snd *sign.PublicKey
			if kind == "pipe-dec" {
				snd = sh.a.pk
			}
			if err := d.SetPrivateKey(sh.b.sk, snd); err != nil {
				return err
			}
			if kind == "pipe-dec" {
				return d.Decrypt(&out)
			}
			r, err := d.NewStreamReader()
			if err != nil {
				return err
			}
			b, err := io.ReadAll(r)
			out.sink.Write(b)
			return err
		})
		s.judge = plain
	case "sign":
		var doc []byte
		mine(func() error {
			sg, err := sh.a.sk.SignMessage(pt, "")
			if err == nil {
				doc, err = sg.MarshalBinary("c")
			}
			return err
		})
		s.judge = func() error {
			if err != nil {
				return err
			}
			m := ref.Fields(doc)
			if m["signature"] != ref.B64(sh.a.ref.SignMsg(pt)) || m["pkhash"] != ref.B64(sh.a.ref.Hash()) {
				return errors.New("not the signature of this message")
			}
			return nil
		}
	case "verify":
		var good, bad, match, nomatch bool
		mine(func() error {
			good = sh.a.pk.VerifyMessage(c22Msg, sh.sig)
			match = sh.sig.IsPKMatch(sh.a.pk)
			bad = sh.a.pk.VerifyMessage(pt, sh.sig)
			nomatch = sh.sig.IsPKMatch(sh.b.pk)
			return nil
		})
		s.judge = func() error {
			if !good || bad || !match || nomatch {
				return fmt.Errorf("verified %v, wrong message verified %v, key match %v, wrong key match %v", good, bad, match, nomatch)
			}
			return err
		}
	case "file":
		fn := filepath.Join(in.dir, fmt.Sprint("f", i))
		other := filepath.Join(in.dir, fmt.Sprint("f", (i+1)%3))
		var doc []byte
		var good, bad bool
		mine(func() error {
			sg, err := sh.a.sk.SignFile(fn)
			if err != nil {
				return err
			}
			if doc, err = sg.MarshalBinary(""); err != nil {
				return err
			}
			if good, err = sh.a.pk.VerifyFile(fn, sg); err != nil {
				return err
			}
			bad, err = sh.a.pk.VerifyFile(other, sg)
			return err
		})
		s.judge = func() error {
			if err != nil {
				return err
			}
			if !good || bad {
				return fmt.Errorf("verified %v, other file verified %v", good, bad)
			}
			return sigOK(doc, sh.a.ref, pt)
		}
	case "read":
		k := ref.KeyFor(fmt.Sprint("reader", i))
		priv, pub, auth := k.SSHPriv(ref.SSHOpt{Cipher: "none", Comment: "x"}), ref.PkDoc(k, "c"), k.SSHPubLine("u@h")+"\n"
		str := ref.B64(k.SSHPubBlob())
		var pks [4]*sign.PublicKey
		var doc []byte
		mine(func() error {
			sk, err := sign.MakePrivateKey(priv, nil)
			if err != nil {
				return err
			}
			pks[0] = sk.PublicKey()
			if pks[1], err = sign.MakePublicKey(pub); err != nil {
				return err
			}
			if pks[2], err = sign.MakePublicKeyFromString(str); err != nil {
				return err
			}
			l, err := sign.ParseAuthorizedKeys([]byte(auth))
			if err != nil || len(l) != 1 {
				return fmt.Errorf("authorized_keys: %d, %v", len(l), err)
			}
			pks[3] = l[0]
			doc, err = pks[1].MarshalBinary("c")
			return err
		})
		s.judge = func() error {
			if err != nil {
				return err
			}
			for j, p := range pks {
				if !bytes.Equal(p.Pk, k.Pk) || !bytes.Equal(p.Hash(), k.Hash()) || !bytes.Equal(p.ToCurve25519PK(), k.CurvePK()) {
					return fmt.Errorf("key %d is another one", j)
				}
			}
			pk, err := pkOf(doc)
			if err == nil && !bytes.Equal(pk, k.Pk) {
				err = errNotOurs
			}
			return err
		}
	}
	return s
}

// c22Exec executes one schedule.
func c22Exec(c *eng.Ctx, in *c22Inputs, kinds []string, filter []bool, plan []int8, id string) (*sched.Exec, error) {
	sh := &shared{a: freshKey("alice"), b: freshKey("bob"), files: in.dir}
	var sg sign.Signature
	if err := sg.UnmarshalBinary(ref.SigDoc(sh.a.ref, c22Msg, "")); err != nil {
		return nil, err
	}
	sh.sig = &sg
	var ss []*session
	var fs []func()
	for i, k := range kinds {
		s := in.session(k, i, sh)
		ss = append(ss, s)
		fs = append(fs, func() {
			if !raceBuild {
				eng.AdoptRand(c.Seed, fmt.Sprint(id, "/", i))
				defer eng.DropRand()
			}
			s.do()
		})
	}
	before := raceErrors()
	e, err := sched.Run(plan, filter, fs...)
	if e != nil && e.Deadlock {
		return e, errors.New("deadlock")
	}
	if err != nil {
		return e, err
	}
	if e.Stalled {
		c.Partial("a session waits for another outside of the scheduler's control; the rest of that execution ran freely")
	}
	if raceErrors() > before {
		return e, fmt.Errorf("data race: %s", raceLogs(c))
	}
	seen := map[string]int{}
	for i, s := range ss {
		if err := s.judge(); err != nil {
			return e, fmt.Errorf("session %d (%s): %w", i, s.name, err)
		}
		if s.roots != nil {
			for _, r := range *s.roots {
				if j, ok := seen[string(r)]; ok {
					return e, fmt.Errorf("sessions %d and %d use the same secret %x", j, i, r)
				}
				seen[string(r)] = i
			}
		}
	}
	return e, nil
}

// explore22 executes every schedule with at most bound preemptions.
func explore22(c *eng.Ctx, in *c22Inputs, name string, kinds []string, filter []bool, bound int) {
	c.Explore(name, bound, func(x *eng.Chooser) error {
		pre := x.Plan()
		plan := make([]int8, len(pre))
		for i, p := range pre {
			plan[i] = int8(p.Alt)
		}
		e, err := c22Exec(c, in, kinds, filter, plan, name)
		if e != nil {
			x.Record(e.Points, len(kinds))
			c.Trans(e.Steps - e.Points)
			c.Outcome(fmt.Sprintf("%d switches", len(e.Switches())))
			for _, w := range e.Switches() {
				c.State("%v/%v", kinds, w)
			}
		}
		return err
	})
}

func c22Filter() []bool {
	m := os.Getenv("MC_POINTS")
	f := make([]bool, len(m))
	for i := range m {
		f[i] = m[i] == '1'
	}
	return f
}

func runC22Inst(c *eng.Ctx) {
	sign.VerifHooks(sched.Point, sched.Block, sched.Unblock)
	c22Part(c)
	in, err := c22Prepare(c)
	if err != nil {
		c.Broken(err)
		return
	}
	filter := c22Filter()
	c.Suite("alone", func() {
		each22(1, func(k []string) { explore22(c, in, "alone/"+k[0], k, nil, 0) })
	})
	c.Suite("pairs1", func() {
		each22(2, func(k []string) { explore22(c, in, "pairs1/"+strings.Join(k, "+"), k, nil, 1) })
	})
	pipes := func(name string, f []bool, bound int) {
		for _, k := range [][]string{{"pipe-enc", "pipe-dec"}, {"pipe-dec", "pipe-enc"}, {"pipe-encs", "pipe-decs"}, {"pipe-decs", "pipe-encs"}} {
			explore22(c, in, name+"/"+strings.Join(k, "+"), k, f, bound)
		}
	}
	c.Suite("pipe1", func() { pipes("pipe1", nil, 1) })
	c.Suite("pipe2", func() { pipes("pipe2", filter, pick(c, 2, 3)) })
	c.Suite("shared2", func() {
		each22(2, func(k []string) { explore22(c, in, "shared2/"+strings.Join(k, "+"), k, filter, pick(c, 2, 3)) })
	})
	if c.Thorough {
		c.Suite("triples1", func() {
			each22(3, func(k []string) { explore22(c, in, "triples1/"+strings.Join(k, "+"), k, filter, 1) })
		})
		c.Suite("pairs2", func() {
			each22(1, func(k []string) { explore22(c, in, "pairs2/"+k[0], []string{k[0], k[0]}, nil, 2) })
		})
	}
}

// each22 calls f with all combinations of n sessions.
func each22(n int, f func(kinds []string)) {
	eng.Words(len(c22Names), n, n, func(w []int) {
		var k []string
		for _, x := range w {
			k = append(k, c22Names[x])
		}
		f(k)
	})
}

// c22Part makes this process explore its part of the schedules.
func c22Part(c *eng.Ctx) {
	c.SetWorkers(1)
	shard, _ := strconv.Atoi(os.Getenv("C22_SHARD"))
	shards, _ := strconv.Atoi(os.Getenv("C22_SHARDS"))
	c.SetPart(shard, shards)
}

func runC22Race(c *eng.Ctx) {
	rand.Reader = rawRand{}
	sign.VerifHooks(sched.Point, sched.Block, sched.Unblock)
	c22Part(c)
	in, err := c22Prepare(c)
	if err != nil {
		c.Broken(err)
		return
	}
	var filter []bool
	if !c.Thorough {
		filter = c22Filter()
	}
	c.Suite("race", func() {
		each22(2, func(k []string) { explore22(c, in, "race/"+strings.Join(k, "+"), k, filter, 1) })
	})
}
