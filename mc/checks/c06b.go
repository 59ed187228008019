package checks

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"

	"github.com/opencoff/sigtool/sign"

	"mc/eng"
	"mc/ref"
)

// A program that keeps one PublicKey object and reads one recipient after the other
// into it: who was added is who the object was at that moment, whatever is read into
// it (or written over its bytes) afterwards.
func c06Reused(c *eng.Ctx) {
	uni := []*pair{key("r1"), key("r2"), key("o1")}
	docs := [][]byte{
		ref.PkDoc(uni[0].ref, "x"),
		ref.PkDoc(uni[1].ref, ""),
		[]byte(uni[0].ref.SSHPubLine("b@host") + "\n"),
		[]byte(uni[1].ref.SSHPubLine("")),
		[]byte("pk: " + ref.B64(uni[1].ref.Pk[:31]) + "\n"), // can't be read
	}
	who := []*pair{uni[0], uni[1], uni[0], uni[1], nil}
	add, point := len(docs), len(docs)+1
	snd := key("sender")
	var seqs [][]int
	eng.Words(len(docs)+2, 2, pick(c, 5, 6), func(ix []int) {
		for _, x := range ix {
			if x == add {
				seqs = append(seqs, ix)
				return
			}
		}
	})
	c.Par(len(seqs)*2, func(i int) {
		ix, api := seqs[i/2], i%2
		c.Case(func() string { return fmt.Sprint("reused/", ix, "/", encAPIs[api].name) }, func() error {
			var sk *sign.PrivateKey
			if len(ix)%2 == 0 {
				sk = snd.sk
			}
			e, err := sign.NewEncryptor(sk, 5)
			if err != nil {
				return err
			}
			var pk sign.PublicKey
			var cur *pair
			set := map[*pair]bool{}
			for _, x := range ix {
				switch x {
				case add:
					if cur == nil {
						continue // not a key yet
					}
					if err := e.AddRecipient(&pk); err != nil {
						return err
					}
					set[cur] = true
				case point:
					if cur != nil {
						pk.ToCurve25519PK()
					}
				default:
					text := bytes.Clone(docs[x])
					err := pk.UnmarshalBinary(text)
					clobber(text)
					if (err == nil) != (who[x] != nil) {
						return fmt.Errorf("document %d: %v", x, err)
					}
					if err == nil {
						cur = who[x]
					}
				}
			}
			c.Trans(len(ix))
			if len(set) == 0 {
				return nil
			}
			c.State("reused/%v/%v/%s", set[uni[0]], set[uni[1]], cur.name)
			pt := pattern(7, 1)
			var s sink
			if api == 0 {
				err = e.Encrypt(bytes.NewReader(pt), &s)
			} else {
				w, err1 := e.NewStreamWriter(&s)
				if err1 != nil {
					return err1
				}
				// nor does it matter once data flows
				if err := pk.UnmarshalBinary(docs[len(ix)%4]); err != nil {
					return err
				}
				clobber(pk.Pk)
				_, err = w.Write(pt)
				err = errors.Join(err, w.Close())
			}
			if err != nil {
				return err
			}
			for _, k := range uni {
				var from *pair
				if sk != nil {
					from = snd
				}
				got, err := decOneShot(s.Bytes(), k, from)
				if set[k] && (err != nil || !bytes.Equal(got, pt)) {
					return fmt.Errorf("recipient %s cannot decrypt: %v", k.name, err)
				}
				if !set[k] && err == nil {
					return fmt.Errorf("%s is not a recipient but can decrypt", k.name)
				}
			}
			return nil
		})
	})
}

// c06Most: as many recipients as a header can take, and a few more or less. Either
// all of them can decrypt or no file is made.
func c06Most(c *eng.Ctx) {
	first, fill, last, snd := key("r1"), key("r2"), key("r3"), key("sender")
	pt := pattern(40, 4)
	// what one more recipient adds
	var size [2]int
	for i := range size {
		b, err := encOneShot(pt, 16, nil, []*pair{first, last, last}[:i+1]...)
		if err != nil {
			c.Case(func() string { return "most/size" }, func() error { return err })
			return
		}
		size[i] = int(binary.BigEndian.Uint32(b[8:]))
	}
	per := size[1] - size[0]
	if per <= 0 {
		c.Case(func() string { return "most/size" }, func() error {
			return fmt.Errorf("the header has %d bytes for one recipient and %d for two", size[0], size[1])
		})
		return
	}
	const limit = 1 << 20
	max := (limit-size[0])/per + 1
	ns := []int{4095, 4096, 4097, 8192, max - 1, max, max + 1, 2 * max}
	if c.Thorough {
		ns = append(ns, max-2, max-10, max-100, max-1000, max+2, max+100, 16*max)
	}
	c.Par(len(ns)*2, func(i int) {
		n, stream := ns[i/2], i%2 == 1
		c.Case(func() string { return fmt.Sprintf("most/%d/stream=%v", n, stream) }, func() error {
			all := []*pair{first}
			for len(all) < n-1 {
				all = append(all, fill)
			}
			all = append(all, last)
			var b []byte
			var err error
			if stream {
				b, err = encStream(pt, 16, snd, all...)
			} else {
				b, err = encOneShot(pt, 16, snd, all...)
			}
			c.Trans(n)
			c.State("most/%d/%v", n, err == nil)
			if err != nil {
				if size[0]+(n-1)*per > limit {
					return nil
				}
				return fmt.Errorf("%d recipients: %w", n, err)
			}
			for _, k := range []*pair{first, last, fill} {
				got, err := decOneShot(b, k, snd)
				if err != nil || !bytes.Equal(got, pt) {
					return fmt.Errorf("one of %d recipients: %v", n, err)
				}
			}
			if _, err := decOneShot(b, key("o1"), snd); err == nil {
				return errors.New("an outsider decrypts")
			}
			return nil
		})
	})
}
