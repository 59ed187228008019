package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"mc/eng"
	"mc/ref"

	"github.com/opencoff/sigtool/sign"
)

func init() {
	register(&eng.Prop{ID: "C07", Level: "model_checking",
		Rule: "one execution = one call sequence on a fresh Encryptor or Decryptor and its streams, compared after every call with a reference state machine; states = (session kind, reference state, last call, verdict); transitions = API calls",
		Bound: func(c *eng.Ctx) string {
			return fmt.Sprintf("all sequences of length 1..%d over 9 encryption calls, of length 1..%d over 10 decryption calls (signed and unsigned 3-chunk files), of length 1..%d over the reduced alphabets",
				pick(c, 5, 6), pick(c, 5, 6), pick(c, 7, 8))
		},
		Run: runC07})
}

// limitSink fails once more than n bytes were written.
type limitSink struct {
	sink
	n int
}

func (s *limitSink) Write(p []byte) (int, error) {
	if s.Len()+len(p) > s.n {
		return 0, errInjected
	}
	return s.sink.Write(p)
}

// ---- encryption side

type encModel struct {
	e     *sign.Encryptor
	state string // fresh, streaming, closed, done, shaky (a start failed), dead
	rx    []*pair
	w     io.WriteCloser
	out   *sink // sink of the stream
	data  []byte
	chunk int
	snd   *pair
	nth   int
}

var encOps = []string{"add", "encrypt", "encryptfail", "encryptfail2", "newstream", "newstreamfail", "write3", "write9", "close"}

func (m *encModel) full(b []byte, pt []byte, closed int) error {
	if closed != 1 {
		return fmt.Errorf("sink closed %d times", closed)
	}
	f, err := ref.Parse(b)
	if err != nil {
		return err
	}
	if len(f.Hdr.Keys) != len(m.rx) {
		return fmt.Errorf("%d entries for %d recipients", len(f.Hdr.Keys), len(m.rx))
	}
	for _, r := range m.rx {
		if err := checkCT(b, pt, r, m.snd); err != nil {
			return err
		}
	}
	return nil
}

func (m *encModel) step(op string) error {
	m.nth++
	switch op {
	case "add":
		p := key(fmt.Sprintf("r%d", len(m.rx)%3+1))
		err := m.e.AddRecipient(p.pk)
		switch m.state {
		case "fresh":
			if err != nil {
				return fmt.Errorf("AddRecipient: %w", err)
			}
			m.rx = append(m.rx, p)
		case "shaky":
			if err == nil {
				m.rx = append(m.rx, p)
			}
		default:
			if err == nil {
				return errors.New("AddRecipient succeeded after encryption began")
			}
		}
	case "encrypt", "encryptfail", "encryptfail2":
		pt := pattern(11, byte(m.nth))
		lim := 1 << 30
		if op == "encryptfail" {
			lim = 0
		} else if op == "encryptfail2" {
			// header and first chunk fit, the rest does not
			lim = 12 + 32 + 4096 + 30
			pt = pattern(6000, byte(m.nth))
		}
		s := &limitSink{n: lim}
		err := m.e.Encrypt(bytes.NewReader(pt), s)
		switch m.state {
		case "fresh", "shaky":
			if err == nil {
				if op != "encrypt" {
					return errors.New("Encrypt succeeded although the sink failed")
				}
				if e := m.full(s.Bytes(), pt, s.closed); e != nil {
					return fmt.Errorf("Encrypt: %w", e)
				}
				m.state = "done"
			} else {
				if op == "encrypt" && m.state == "fresh" {
					return fmt.Errorf("Encrypt: %w", err)
				}
				if op == "encryptfail" {
					m.state = "shaky"
				} else if op == "encryptfail2" {
					m.state = "dead"
				}
			}
		default:
			if err == nil {
				return fmt.Errorf("Encrypt succeeded in state %s", m.state)
			}
			if s.Len() > 0 {
				return fmt.Errorf("refused Encrypt wrote %d bytes", s.Len())
			}
		}
	case "newstream", "newstreamfail":
		s := &limitSink{n: 1 << 30}
		if op == "newstreamfail" {
			s.n = 0
		}
		w, err := m.e.NewStreamWriter(s)
		switch m.state {
		case "fresh", "shaky":
			if err == nil {
				if op == "newstreamfail" {
					return errors.New("NewStreamWriter succeeded although the sink failed")
				}
				m.w, m.out, m.data, m.state = w, &s.sink, nil, "streaming"
			} else {
				if op == "newstream" && m.state == "fresh" {
					return fmt.Errorf("NewStreamWriter: %w", err)
				}
				if op == "newstreamfail" {
					m.state = "shaky"
				}
			}
		default:
			if err == nil {
				return fmt.Errorf("NewStreamWriter succeeded in state %s", m.state)
			}
			if s.Len() > 0 {
				return errors.New("refused NewStreamWriter wrote output")
			}
		}
	case "write0", "write3", "write9":
		n := map[string]int{"write0": 0, "write3": 3, "write9": 9}[op]
		p := pattern(n, byte(m.nth*16))
		before := m.out.Len()
		k, err := m.w.Write(p)
		if m.state == "streaming" {
			if err != nil || k != n {
				return fmt.Errorf("Write(%d) = %d, %v", n, k, err)
			}
			m.data = append(m.data, p...)
		} else {
			if err == nil {
				return fmt.Errorf("Write succeeded in state %s", m.state)
			}
			if m.out.Len() != before {
				return errors.New("refused Write produced output")
			}
		}
	case "close":
		before, cb := m.out.Len(), m.out.closed
		err := m.w.Close()
		if m.state == "streaming" {
			if err != nil {
				return fmt.Errorf("Close: %w", err)
			}
			m.state = "closed"
			if e := m.full(m.out.Bytes(), m.data, m.out.closed); e != nil {
				return fmt.Errorf("Close: %w", e)
			}
		} else {
			if err == nil {
				return errors.New("second Close succeeded")
			}
			if m.out.Len() != before || m.out.closed != cb {
				return errors.New("second Close had an effect")
			}
		}
	}
	return nil
}

func (m *encModel) finish() error {
	if m.state == "streaming" {
		if err := m.step("close"); err != nil {
			return fmt.Errorf("final %w", err)
		}
	} else if m.state == "closed" {
		// later calls must not have spoiled the finished output
		if err := m.full(m.out.Bytes(), m.data, m.out.closed); err != nil {
			return fmt.Errorf("finished output changed: %w", err)
		}
	} else if m.state == "fresh" && len(m.rx) > 0 {
		return m.step("encrypt")
	}
	return nil
}

// ---- decryption side

type decModel struct {
	d      *sign.Decryptor
	state  string // nokey, keyed, streaming, done, broken
	pt     []byte
	r      io.Reader
	got    []byte
	signed bool
	loose  bool // a key was set again after the start: errors are acceptable
	eofed  bool
}

var decOps = []string{"keybad", "keygood", "keywrongsender", "keynosender", "decrypt", "decryptfail", "newreader", "read3", "read100", "read0"}

func (m *decModel) step(op string) error {
	rx, s1, s2 := key("r1"), key("s1"), key("s2")
	switch op {
	case "keybad", "keygood", "keywrongsender", "keynosender":
		var err error
		should := false
		switch op {
		case "keybad":
			err = m.d.SetPrivateKey(key("o1").sk, s1.pk)
		case "keygood":
			if m.signed {
				err = m.d.SetPrivateKey(rx.sk, s1.pk)
			} else {
				err = m.d.SetPrivateKey(rx.sk, nil)
			}
			should = true
		case "keywrongsender":
			err = m.d.SetPrivateKey(rx.sk, s2.pk)
		case "keynosender":
			if m.signed {
				err = m.d.SetPrivateKey(rx.sk, nil)
			} else {
				err = m.d.SetPrivateKey(rx.sk, s1.pk)
			}
		}
		if !should && err == nil {
			return fmt.Errorf("%s succeeded", op)
		}
		if should {
			switch m.state {
			case "nokey", "keyed":
				if err != nil {
					return fmt.Errorf("SetPrivateKey: %w", err)
				}
				m.state = "keyed"
			default:
				if err == nil {
					m.loose = true
				}
			}
		}
	case "decrypt", "decryptfail":
		s := &limitSink{n: 1 << 30}
		if op == "decryptfail" {
			s.n = len(m.pt) - 1
		}
		err := m.d.Decrypt(s)
		switch m.state {
		case "nokey":
			if err == nil {
				return errors.New("Decrypt succeeded without a key")
			}
			if s.Len() > 0 {
				return errors.New("Decrypt without a key released data")
			}
		case "keyed":
			if op == "decryptfail" {
				if err == nil {
					return errors.New("Decrypt succeeded although the sink failed")
				}
				if !isPrefix(s.Bytes(), m.pt) {
					return errors.New("released bytes are not a prefix")
				}
				m.state = "broken"
				return nil
			}
			if err != nil {
				return fmt.Errorf("Decrypt: %w", err)
			}
			if !bytes.Equal(s.Bytes(), m.pt) {
				return fmt.Errorf("Decrypt: %s", diff(s.Bytes(), m.pt))
			}
			m.state = "done"
		default:
			if err == nil {
				return fmt.Errorf("Decrypt succeeded in state %s", m.state)
			}
			if s.Len() > 0 {
				return fmt.Errorf("Decrypt in state %s released %d bytes", m.state, s.Len())
			}
		}
	case "newreader":
		r, err := m.d.NewStreamReader()
		switch m.state {
		case "keyed":
			if err != nil {
				return fmt.Errorf("NewStreamReader: %w", err)
			}
			m.r, m.state = r, "streaming"
		case "broken":
			if err == nil {
				b, rerr := io.ReadAll(io.LimitReader(r, 1000))
				if len(b) > 0 || rerr == nil {
					return fmt.Errorf("stream on a broken session: %d bytes, %v", len(b), rerr)
				}
			}
		default:
			if err == nil {
				return fmt.Errorf("NewStreamReader succeeded in state %s", m.state)
			}
		}
	case "read0", "read3", "read100":
		n := map[string]int{"read0": 0, "read3": 3, "read100": 100}[op]
		for try := 0; ; try++ {
			b := guarded(n)
			k, err := m.r.Read(b)
			if err := spilt(b); err != nil {
				return fmt.Errorf("Read %w", err)
			}
			if k < 0 || k > n {
				return fmt.Errorf("Read(%d) = %d", n, k)
			}
			m.got = append(m.got, b[:k]...)
			if !isPrefix(m.got, m.pt) {
				return fmt.Errorf("Read released bytes that are not the next plaintext bytes: %s", diff(m.got, m.pt))
			}
			if m.eofed && (k > 0 || err == nil && n > 0) {
				return fmt.Errorf("Read after EOF = %d, %v", k, err)
			}
			if err == io.EOF {
				if len(m.got) != len(m.pt) {
					return fmt.Errorf("EOF after %d of %d bytes", len(m.got), len(m.pt))
				}
				m.eofed = true
				m.state = "done"
				return nil
			}
			if err != nil {
				if m.loose {
					return nil
				}
				return fmt.Errorf("Read: %w", err)
			}
			if k > 0 || n == 0 {
				return nil
			}
			if try > 3 {
				return errors.New("Read makes no progress")
			}
		}
	}
	return nil
}

func (m *decModel) finish() error {
	switch m.state {
	case "streaming":
		for i := 0; i < 1000 && !m.eofed; i++ {
			l := len(m.got)
			if err := m.step("read100"); err != nil {
				return fmt.Errorf("final %w", err)
			}
			if m.loose && len(m.got) == l {
				return nil
			}
		}
		if !m.eofed {
			return errors.New("stream does not end")
		}
	case "nokey":
		if err := m.step("keygood"); err != nil {
			return fmt.Errorf("after failed calls: %w", err)
		}
		return m.step("decrypt")
	case "keyed":
		return m.step("decrypt")
	}
	return nil
}

func runC07(c *eng.Ctx) {
	for _, k := range []string{"r1", "r2", "r3", "s1", "s2", "o1"} {
		key(k)
	}
	words := func(suite string, ops []string, lo, hi int, exec func(w []string) error) {
		c.Suite(suite, func() {
			for n := lo; n <= hi; n++ {
				c.Par(eng.CountWords(len(ops), n), func(i int) {
					ix := eng.Word(len(ops), n, i)
					w := make([]string, n)
					needStream := false
					for j, x := range ix {
						w[j] = ops[x]
						// calls on a stream that does not exist yet are not expressible
						switch w[j] {
						case "newstream", "newreader":
							needStream = true
						case "write0", "write3", "write9", "close", "read0", "read3", "read100":
							if !needStream {
								return
							}
						}
					}
					c.Case(func() string { return suite + "/" + strings.Join(w, ".") }, func() error { return exec(w) })
				})
			}
		})
	}
	enc := func(snd *pair) func(w []string) error {
		return func(w []string) error {
			e, err := sign.NewEncryptor(snd.skOrNil(), 4)
			if err != nil {
				return err
			}
			m := &encModel{e: e, state: "fresh", chunk: 4, snd: snd}
			for i, op := range w {
				if m.w == nil && (op == "close" || strings.HasPrefix(op, "write")) {
					return nil
				}
				if err := m.step(op); err != nil {
					return fmt.Errorf("call %d (%s): %w", i+1, op, err)
				}
				c.Trans(1)
				c.State("enc/%s/%s/%d/%v", m.state, op, min(len(m.data), 12), snd != nil)
			}
			return m.finish()
		}
	}
	words("enc", encOps, 1, pick(c, 5, 6), enc(nil))
	words("encempty", []string{"add", "newstream", "newstreamfail", "write0", "write3", "close"}, 1, pick(c, 5, 6), enc(nil))
	words("encdeep", []string{"add", "encrypt", "newstream", "write9", "close"}, pick(c, 6, 7), pick(c, 7, 8), enc(key("s1")))

	pt := pattern(11, 5)
	for _, signed := range []bool{false, true} {
		var s *ref.Key
		if signed {
			s = key("s1").ref
		}
		for _, shape := range []string{"three", "emptylast"} {
			pts := ref.Split(pt, 4, false)
			p := pt
			if shape == "emptylast" {
				p = pt[:8]
				pts = ref.Split(p, 4, true)
			}
			file := (&ref.Spec{ChunkSize: 4, Rx: []*ref.Key{key("r2").ref, key("r1").ref}, Sender: s, Pts: pts, Label: "c07"}).Write().Bytes
			dec := func(w []string) error {
				d, err := sign.NewDecryptor(bytes.NewReader(file))
				if err != nil {
					return err
				}
				m := &decModel{d: d, state: "nokey", pt: p, signed: signed}
				for i, op := range w {
					if m.r == nil && strings.HasPrefix(op, "read") {
						return nil
					}
					if err := m.step(op); err != nil {
						return fmt.Errorf("call %d (%s): %w", i+1, op, err)
					}
					c.Trans(1)
					c.State("dec/%s/%s/%d/%v", m.state, op, len(m.got), signed)
				}
				return m.finish()
			}
			name := fmt.Sprintf("dec,signed=%v,%s", signed, shape)
			if shape == "three" || c.Thorough {
				words(name, decOps, 1, pick(c, 5, 6), dec)
			}
			words(name+",deep", []string{"keygood", "keywrongsender", "decrypt", "newreader", "read3"}, pick(c, 6, 7), pick(c, 7, 8), dec)
		}
	}
}
