// Package ref is an independent implementation of the formats sigtool reads and
// writes. It shares no code with /repo.
package ref

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/ecdh"
	"crypto/ed25519"
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"errors"
	"fmt"
)

// Key is an Ed25519 key pair.
type Key struct {
	Sk ed25519.PrivateKey // 64 bytes
	Pk ed25519.PublicKey  // 32 bytes
}

// KeyFor makes a deterministic key pair from a name.
func KeyFor(name string) *Key {
	s := sha256.Sum256([]byte("verif key " + name))
	sk := ed25519.NewKeyFromSeed(s[:])
	return &Key{Sk: sk, Pk: sk.Public().(ed25519.PublicKey)}
}

// KeyFromSk wraps a 64 byte Ed25519 private key.
func KeyFromSk(b []byte) *Key {
	sk := ed25519.NewKeyFromSeed(b[:32])
	return &Key{Sk: sk, Pk: sk.Public().(ed25519.PublicKey)}
}

// CurveSK is the X25519 private key.
func (k *Key) CurveSK() []byte {
	h := sha512.Sum512(k.Sk[:32])
	x := append([]byte{}, h[:32]...)
	x[0] &= 248
	x[31] &= 127
	x[31] |= 64
	return x
}

// CurvePK is the X25519 public key (computed from the private one).
func (k *Key) CurvePK() []byte {
	p, err := ecdh.X25519().NewPrivateKey(k.CurveSK())
	if err != nil {
		panic(err)
	}
	return p.PublicKey().Bytes()
}

// X25519Base is sk * base point.
func X25519Base(sk []byte) []byte {
	p, err := ecdh.X25519().NewPrivateKey(sk)
	if err != nil {
		panic(err)
	}
	return p.PublicKey().Bytes()
}

func x25519(sk, pk []byte) ([]byte, error) {
	s, err := ecdh.X25519().NewPrivateKey(sk)
	if err != nil {
		return nil, err
	}
	p, err := ecdh.X25519().NewPublicKey(pk)
	if err != nil {
		return nil, err
	}
	return s.ECDH(p)
}

// Hash is the 16 byte key id.
func (k *Key) Hash() []byte {
	h := sha256.Sum256(k.Pk)
	return h[:16]
}

// SignMsg is sigtool's domain separated signature of a digest.
func (k *Key) SignMsg(ck []byte) []byte {
	return ed25519.Sign(k.Sk, msgDigest(ck))
}

// VerifyMsg checks SignMsg.
func VerifyMsg(pk, ck, sig []byte) bool {
	if len(sig) != 64 || len(pk) != 32 {
		return false
	}
	return ed25519.Verify(pk, msgDigest(ck), sig)
}

func msgDigest(ck []byte) []byte {
	h := sha512.New()
	h.Write([]byte("sigtool signed message"))
	h.Write(ck)
	return h.Sum(nil)
}

// FileDigest is the digest of a file's content that gets signed.
func FileDigest(content []byte) []byte {
	h := sha512.New()
	h.Write(content)
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], uint64(len(content)))
	h.Write(b[:])
	return h.Sum(nil)
}

// hkdf-sha512 (RFC 5869)
func expand(n int, secret, salt []byte, info string) []byte {
	if len(salt) == 0 {
		salt = make([]byte, 64)
	}
	e := hmac.New(sha512.New, salt)
	e.Write(secret)
	prk := e.Sum(nil)
	var out, t []byte
	for i := byte(1); len(out) < n; i++ {
		m := hmac.New(sha512.New, prk)
		m.Write(t)
		m.Write([]byte(info))
		m.Write([]byte{i})
		t = m.Sum(nil)
		out = append(out, t...)
	}
	return out[:n]
}

func gcm(key []byte) cipher.AEAD {
	b, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	a, err := cipher.NewGCM(b)
	if err != nil {
		panic(err)
	}
	return a
}

// Wrapped is one recipient entry.
type Wrapped struct {
	DKey, Nonce []byte
}

// Header is the variable part of the file header.
type Header struct {
	ChunkSize uint32
	Salt      []byte
	Pk        []byte
	Sender    []byte
	Keys      []Wrapped
}

// Pb writer helpers.
func Varint(v uint64) []byte {
	var out []byte
	for v >= 0x80 {
		out = append(out, byte(v)|0x80)
		v >>= 7
	}
	return append(out, byte(v))
}

// PbUint encodes a varint field.
func PbUint(f int, v uint64) []byte {
	return append(Varint(uint64(f)<<3), Varint(v)...)
}

// PbBytes encodes a length-delimited field.
func PbBytes(f int, b []byte) []byte {
	out := append(Varint(uint64(f)<<3|2), Varint(uint64(len(b)))...)
	return append(out, b...)
}

// Encode is the protobuf form, zero values omitted (proto3).
func (h *Header) Encode() []byte {
	var out []byte
	if h.ChunkSize != 0 {
		out = append(out, PbUint(1, uint64(h.ChunkSize))...)
	}
	if len(h.Salt) > 0 {
		out = append(out, PbBytes(2, h.Salt)...)
	}
	if len(h.Pk) > 0 {
		out = append(out, PbBytes(3, h.Pk)...)
	}
	if len(h.Sender) > 0 {
		out = append(out, PbBytes(4, h.Sender)...)
	}
	for _, w := range h.Keys {
		out = append(out, PbBytes(5, w.Encode())...)
	}
	return out
}

// Encode is the protobuf form of a recipient entry.
func (w *Wrapped) Encode() []byte {
	var b []byte
	if len(w.DKey) > 0 {
		b = append(b, PbBytes(1, w.DKey)...)
	}
	if len(w.Nonce) > 0 {
		b = append(b, PbBytes(2, w.Nonce)...)
	}
	return b
}

func uvarint(b []byte) (uint64, int) {
	v, n := binary.Uvarint(b)
	return v, n
}

type pbField struct {
	num  int
	typ  int
	u    uint64
	data []byte
}

func pbParse(b []byte) ([]pbField, error) {
	var out []pbField
	for len(b) > 0 {
		k, n := uvarint(b)
		if n <= 0 {
			return nil, errors.New("pb: bad key")
		}
		b = b[n:]
		f := pbField{num: int(k >> 3), typ: int(k & 7)}
		switch f.typ {
		case 0:
			f.u, n = uvarint(b)
			if n <= 0 {
				return nil, errors.New("pb: bad varint")
			}
			b = b[n:]
		case 2:
			l, n := uvarint(b)
			if n <= 0 || l > uint64(len(b)-n) {
				return nil, errors.New("pb: bad length")
			}
			f.data = b[n : n+int(l)]
			b = b[n+int(l):]
		default:
			return nil, fmt.Errorf("pb: wire type %d", f.typ)
		}
		out = append(out, f)
	}
	return out, nil
}

// ParseHeader decodes the variable part.
func ParseHeader(b []byte) (*Header, error) {
	fs, err := pbParse(b)
	if err != nil {
		return nil, err
	}
	h := &Header{}
	for _, f := range fs {
		switch {
		case f.num == 1 && f.typ == 0:
			h.ChunkSize = uint32(f.u)
		case f.num == 2 && f.typ == 2:
			h.Salt = f.data
		case f.num == 3 && f.typ == 2:
			h.Pk = f.data
		case f.num == 4 && f.typ == 2:
			h.Sender = f.data
		case f.num == 5 && f.typ == 2:
			ws, err := pbParse(f.data)
			if err != nil {
				return nil, err
			}
			var w Wrapped
			for _, x := range ws {
				switch {
				case x.num == 1 && x.typ == 2:
					w.DKey = x.data
				case x.num == 2 && x.typ == 2:
					w.Nonce = x.data
				default:
					return nil, fmt.Errorf("pb: unexpected wrapped field %d/%d", x.num, x.typ)
				}
			}
			h.Keys = append(h.Keys, w)
		default:
			return nil, fmt.Errorf("pb: unexpected field %d/%d", f.num, f.typ)
		}
	}
	return h, nil
}

// Chunk is one raw chunk record.
type Chunk struct {
	Len uint32 // with EOF bit
	CT  []byte
}

// Raw is the encoded record.
func (c Chunk) Raw() []byte {
	var b [4]byte
	binary.BigEndian.PutUint32(b[:], c.Len)
	return append(b[:], c.CT...)
}

// EOFBit marks the last chunk.
const EOFBit = 1 << 31

// File is a parsed (not decrypted) file.
type File struct {
	Var     []byte
	Hdr     *Header
	Sum     []byte
	HdrLen  int
	Chunks  []Chunk
	Trailer []byte
	Rest    []byte
}

// Preamble is fixed header + variable part + checksum.
func Preamble(magic string, ver byte, v []byte) []byte {
	var b []byte
	b = append(b, magic...)
	b = append(b, ver)
	b = binary.BigEndian.AppendUint32(b, uint32(len(v)))
	b = append(b, v...)
	s := sha256.Sum256(b)
	return append(b, s[:]...)
}

// Parse splits a complete v3 file, strictly.
func Parse(b []byte) (*File, error) {
	f, rest, err := parsePre(b)
	if err != nil {
		return nil, err
	}
	for {
		if len(rest) < 4 {
			return nil, errors.New("short chunk header")
		}
		l := binary.BigEndian.Uint32(rest)
		n := int(l &^ EOFBit)
		if uint32(n) > f.Hdr.ChunkSize {
			return nil, errors.New("chunk larger than the chunk size")
		}
		if l&EOFBit == 0 && n == 0 {
			return nil, errors.New("empty inner chunk")
		}
		if len(rest) < 4+n+16 {
			return nil, errors.New("short chunk")
		}
		f.Chunks = append(f.Chunks, Chunk{l, rest[4 : 4+n+16]})
		rest = rest[4+n+16:]
		if l&EOFBit != 0 {
			break
		}
	}
	if len(rest) < 64 {
		return nil, errors.New("short trailer")
	}
	f.Trailer, f.Rest = rest[:64], rest[64:]
	return f, nil
}

// ParsePre parses the header only and returns the remaining bytes.
func ParsePre(b []byte) (*File, []byte, error) { return parsePre(b) }

func parsePre(b []byte) (*File, []byte, error) {
	if len(b) < 12 || string(b[:7]) != "SigTool" {
		return nil, nil, errors.New("bad magic")
	}
	if b[7] != 3 {
		return nil, nil, fmt.Errorf("version %d", b[7])
	}
	vl := int(binary.BigEndian.Uint32(b[8:]))
	if vl < 32 || vl > 1048576 {
		return nil, nil, fmt.Errorf("header size %d", vl)
	}
	if len(b) < 12+vl+32 {
		return nil, nil, errors.New("short header")
	}
	sum := sha256.Sum256(b[:12+vl])
	if !bytes.Equal(sum[:], b[12+vl:12+vl+32]) {
		return nil, nil, errors.New("header checksum")
	}
	h, err := ParseHeader(b[12 : 12+vl])
	if err != nil {
		return nil, nil, err
	}
	f := &File{Var: b[12 : 12+vl], Hdr: h, Sum: sum[:], HdrLen: 12 + vl + 32}
	return f, b[f.HdrLen:], nil
}

// DataKeys are the expanded keys of a file.
type DataKeys struct {
	Nonce, Aes, Hmac []byte
	Root             []byte
}

// Expand derives the data keys.
func Expand(root, hdrsum []byte) *DataKeys {
	b := expand(76, root, hdrsum, "Data Key Expansion")
	return &DataKeys{b[:12], b[12:44], b[44:], root}
}

// NonceOf is the AEAD nonce of chunk i.
func (d *DataKeys) NonceOf(i uint32) []byte {
	n := append([]byte{}, d.Nonce...)
	binary.BigEndian.PutUint32(n, i)
	return n
}

// Seal makes chunk record i.
func (d *DataKeys) Seal(i uint32, pt []byte, eof bool) Chunk {
	l := uint32(len(pt))
	if eof {
		l |= EOFBit
	}
	var b [4]byte
	binary.BigEndian.PutUint32(b[:], l)
	return Chunk{l, gcm(d.Aes).Seal(nil, d.NonceOf(i), pt, b[:])}
}

// Open opens chunk record i.
func (d *DataKeys) Open(i uint32, c Chunk) ([]byte, error) {
	var b [4]byte
	binary.BigEndian.PutUint32(b[:], c.Len)
	return gcm(d.Aes).Open(nil, d.NonceOf(i), c.CT, b[:])
}

// Mac is the running HMAC over length words and plaintext.
func (d *DataKeys) Mac(lens []uint32, pts [][]byte) []byte {
	m := hmac.New(sha256.New, d.Hmac)
	for i := range lens {
		var b [4]byte
		binary.BigEndian.PutUint32(b[:], lens[i])
		m.Write(b[:])
		m.Write(pts[i])
	}
	return m.Sum(nil)
}

// Wrap wraps root for a recipient (who is known in full, the writer side needs only pk).
func Wrap(root, ephSK, salt, wnonce, rxEdPk, rxCurvePk []byte) Wrapped {
	s, err := x25519(ephSK, rxCurvePk)
	if err != nil {
		panic(err)
	}
	kek, nonce := wrapKeys(s, salt, wnonce)
	return Wrapped{DKey: gcm(kek).Seal(nil, nonce, root, rxEdPk), Nonce: wnonce}
}

func wrapKeys(secret, salt, wnonce []byte) (kek, nonce []byte) {
	h := sha256.New()
	h.Write(salt)
	h.Write(wnonce)
	b := expand(44, secret, h.Sum(nil), "Receiver Key")
	return b[:32], b[32:]
}

// WrapSecrets recovers key and nonce under which entry w was sealed for k.
func (h *Header) WrapSecrets(k *Key, w Wrapped) (kek, nonce []byte, err error) {
	s, err := x25519(k.CurveSK(), h.Pk)
	if err != nil {
		return nil, nil, err
	}
	kek, nonce = wrapKeys(s, h.Salt, w.Nonce)
	return
}

// Unwrap tries entry w with key k.
func (h *Header) Unwrap(k *Key, w Wrapped) ([]byte, error) {
	kek, nonce, err := h.WrapSecrets(k, w)
	if err != nil {
		return nil, err
	}
	if len(w.DKey) != 48 {
		return nil, errors.New("wrapped key size")
	}
	return gcm(kek).Open(nil, nonce, w.DKey, k.Pk)
}

// SenderDigest is what a sender signs.
func (h *Header) SenderDigest(root []byte) []byte {
	s := sha256.New()
	s.Write([]byte("SigTool"))
	s.Write([]byte{3})
	s.Write(h.Pk)
	s.Write(h.Salt)
	s.Write(root)
	return s.Sum(nil)
}

// SenderSecrets are key and nonce of the sender blob.
func (h *Header) SenderSecrets(root []byte) (key, nonce []byte) {
	b := expand(44, root, h.Salt, "Sender Sig")
	return b[:32], b[32:]
}

// SealSender makes the sender blob for a 64 byte signature.
func (h *Header) SealSender(root, sig []byte) []byte {
	k, n := h.SenderSecrets(root)
	return gcm(k).Seal(nil, n, sig, nil)
}

// OpenSender recovers the signature of the sender blob.
func (h *Header) OpenSender(root []byte) ([]byte, error) {
	k, n := h.SenderSecrets(root)
	return gcm(k).Open(nil, n, h.Sender, nil)
}

// Opened is a fully decrypted file.
type Opened struct {
	Root   []byte
	Keys   *DataKeys
	Plain  []byte
	Pts    [][]byte
	Signed bool
	Sig    []byte
	Mac    []byte
	Idx    int // recipient entry that opened
}

// Open decrypts and checks everything except signatures.
func (f *File) Open(k *Key) (*Opened, error) {
	o := &Opened{Idx: -1}
	for i, w := range f.Hdr.Keys {
		r, err := f.Hdr.Unwrap(k, w)
		if err == nil {
			o.Root, o.Idx = r, i
			break
		}
	}
	if o.Root == nil {
		return nil, errors.New("not a recipient")
	}
	sig, err := f.Hdr.OpenSender(o.Root)
	if err != nil {
		return nil, fmt.Errorf("sender blob: %w", err)
	}
	if len(sig) != 64 {
		return nil, errors.New("sender signature size")
	}
	o.Sig = sig
	o.Signed = !bytes.Equal(sig, make([]byte, 64))
	o.Keys = Expand(o.Root, f.Sum)
	var lens []uint32
	for i, c := range f.Chunks {
		pt, err := o.Keys.Open(uint32(i), c)
		if err != nil {
			return nil, fmt.Errorf("chunk %d: %w", i, err)
		}
		o.Pts = append(o.Pts, pt)
		o.Plain = append(o.Plain, pt...)
		lens = append(lens, c.Len)
	}
	o.Mac = o.Keys.Mac(lens, o.Pts)
	return o, nil
}

// SenderOK checks both signatures against pk.
func (f *File) SenderOK(o *Opened, pk []byte) error {
	if !o.Signed {
		return errors.New("not signed")
	}
	if !VerifyMsg(pk, f.Hdr.SenderDigest(o.Root), o.Sig) {
		return errors.New("sender signature")
	}
	if !VerifyMsg(pk, o.Mac, f.Trailer) {
		return errors.New("trailer signature")
	}
	return nil
}

// Spec describes a file to write.
type Spec struct {
	ChunkSize uint32
	Rx        []*Key
	Sender    *Key
	Pts       [][]byte // chunk contents; the last one gets the EOF mark
	Label     string   // diversifies the secrets
	VarExtra  []byte   // appended to the protobuf part

	Root, Salt, Eph []byte // nil: derived from Label
}

func derive(label, what string, n int) []byte {
	return expand(n, []byte(label), []byte("verif"), what)
}

// Written keeps all secrets of a file produced by Write.
type Written struct {
	Bytes []byte
	Hdr   *Header
	Root  []byte
	Keys  *DataKeys
	File  *File
}

// Write is a conforming v3 writer.
func (s *Spec) Write() *Written {
	root, salt, eph := s.Root, s.Salt, s.Eph
	if root == nil {
		root = derive(s.Label, "root", 32)
	}
	if salt == nil {
		salt = derive(s.Label, "salt", 32)
	}
	if eph == nil {
		eph = derive(s.Label, "eph", 32)
	}
	eph[0] &= 248
	eph[31] &= 127
	eph[31] |= 64
	h := &Header{ChunkSize: s.ChunkSize, Salt: salt, Pk: X25519Base(eph)}
	sig := make([]byte, 64)
	if s.Sender != nil {
		sig = s.Sender.SignMsg(h.SenderDigest(root))
	}
	h.Sender = h.SealSender(root, sig)
	for i, k := range s.Rx {
		h.Keys = append(h.Keys, Wrap(root, eph, salt, derive(s.Label, fmt.Sprint("wn", i), 12), k.Pk, k.CurvePK()))
	}
	pre := Preamble("SigTool", 3, append(h.Encode(), s.VarExtra...))
	sum := pre[len(pre)-32:]
	dk := Expand(root, sum)
	out := append([]byte{}, pre...)
	f := &File{Hdr: h, Sum: sum, HdrLen: len(pre)}
	var lens []uint32
	pts := s.Pts
	if len(pts) == 0 {
		pts = [][]byte{nil}
	}
	for i, p := range pts {
		c := dk.Seal(uint32(i), p, i == len(pts)-1)
		f.Chunks = append(f.Chunks, c)
		out = append(out, c.Raw()...)
		lens = append(lens, c.Len)
	}
	if s.Sender != nil {
		f.Trailer = s.Sender.SignMsg(dk.Mac(lens, pts))
	} else {
		f.Trailer = derive(s.Label, "trailer", 64)
	}
	out = append(out, f.Trailer...)
	return &Written{Bytes: out, Hdr: h, Root: root, Keys: dk, File: f}
}

// Split cuts plaintext in chunks the way sigtool does (n==0: one empty chunk);
// oneShot mimics Encrypt, which ends an exact multiple with an empty EOF chunk.
func Split(pt []byte, chunk int, oneShot bool) [][]byte {
	var out [][]byte
	for len(pt) > chunk || (oneShot && len(pt) == chunk) {
		out = append(out, pt[:chunk])
		pt = pt[chunk:]
	}
	return append(out, pt)
}

// EphFor is the ephemeral secret of a Spec with this label.
func EphFor(label string) []byte {
	e := derive(label, "eph", 32)
	e[0] &= 248
	e[31] &= 127
	e[31] |= 64
	return e
}
