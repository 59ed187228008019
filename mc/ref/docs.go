package ref

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/ed25519"
	"crypto/sha512"
	"encoding/base64"
	"encoding/binary"
	"encoding/pem"
	"errors"
	"fmt"
	"strings"

	"github.com/dchest/bcrypt_pbkdf"
	"golang.org/x/crypto/scrypt"
)

var b64 = base64.StdEncoding

// B64 encodes.
func B64(b []byte) string { return b64.EncodeToString(b) }

// SkDoc is a native private key document.
type SkDoc struct {
	Comment string // raw YAML scalar text ("" = no field)
	Esk     []byte
	Salt    []byte
	Algo    string
	N, R, P int
}

// SealSk encrypts the 64 byte key under a passphrase.
func SealSk(k *Key, pw string, salt []byte, n, r, p int) *SkDoc {
	pass := sha512.Sum512([]byte(pw))
	key, err := scrypt.Key(pass[:], salt, n, r, p, 32)
	if err != nil {
		panic(err)
	}
	return &SkDoc{
		Esk: gcm(key).Seal(nil, salt[:12], k.Sk, nil), Salt: salt,
		Algo: "scrypt-sha256", N: n, R: r, P: p,
	}
}

// OpenSk decrypts the document.
func (d *SkDoc) OpenSk(pw string) ([]byte, error) {
	pass := sha512.Sum512([]byte(pw))
	key, err := scrypt.Key(pass[:], d.Salt, d.N, d.R, d.P, 32)
	if err != nil {
		return nil, err
	}
	return gcm(key).Open(nil, d.Salt[:12], d.Esk, nil)
}

// Text is the YAML document.
func (d *SkDoc) Text() []byte {
	var sb strings.Builder
	if d.Comment != "" {
		fmt.Fprintf(&sb, "comment: %s\n", d.Comment)
	}
	fmt.Fprintf(&sb, "esk: %s\nsalt: %s\nalgo: %s\nZ: %d\nr: %d\np: %d\n", B64(d.Esk), B64(d.Salt), d.Algo, d.N, d.R, d.P)
	return []byte(sb.String())
}

// Fields reads the top-level plain "name: value" lines (not the comment).
func Fields(doc []byte) map[string]string {
	m := map[string]string{}
	for _, l := range strings.Split(string(doc), "\n") {
		if strings.HasPrefix(l, " ") {
			continue
		}
		k, v, ok := strings.Cut(l, ": ")
		if ok {
			if _, dup := m[k]; dup {
				m["dup!"] = k
			}
			m[k] = strings.Trim(v, "\"")
		}
	}
	return m
}

// ParseSk reads a document sigtool wrote.
func ParseSk(doc []byte) (*SkDoc, error) {
	m := Fields(doc)
	d := &SkDoc{Algo: m["algo"]}
	var err error
	if d.Esk, err = b64.DecodeString(m["esk"]); err != nil {
		return nil, err
	}
	if d.Salt, err = b64.DecodeString(m["salt"]); err != nil {
		return nil, err
	}
	if len(d.Salt) < 12 || len(d.Esk) == 0 {
		return nil, errors.New("missing esk or salt")
	}
	for _, x := range []struct {
		k string
		p *int
	}{{"Z", &d.N}, {"r", &d.R}, {"p", &d.P}} {
		if _, err := fmt.Sscanf(m[x.k], "%d", x.p); err != nil {
			return nil, fmt.Errorf("field %s: %w", x.k, err)
		}
	}
	return d, nil
}

// PkDoc is a native public key document.
func PkDoc(k *Key, comment string) []byte {
	c := ""
	if comment != "" {
		c = "comment: " + comment + "\n"
	}
	return []byte(c + "pk: " + B64(k.Pk) + "\nhash: " + B64(k.Hash()) + "\n")
}

// SigDoc is a native signature document.
func SigDoc(k *Key, ck []byte, comment string) []byte {
	c := ""
	if comment != "" {
		c = "comment: " + comment + "\n"
	}
	return []byte(c + "pkhash: " + B64(k.Hash()) + "\nsignature: " + B64(k.SignMsg(ck)) + "\n")
}

// WireStr is an SSH string.
func WireStr(b []byte) []byte {
	return append(binary.BigEndian.AppendUint32(nil, uint32(len(b))), b...)
}

func cat(bs ...[]byte) []byte { return bytes.Join(bs, nil) }

// SSHPubBlob is the wire form of the public key.
func (k *Key) SSHPubBlob() []byte {
	return cat(WireStr([]byte("ssh-ed25519")), WireStr(k.Pk))
}

// SSHPubLine is the .pub line without newline; comment may be empty.
func (k *Key) SSHPubLine(comment string) string {
	s := "ssh-ed25519 " + B64(k.SSHPubBlob())
	if comment != "" {
		s += " " + comment
	}
	return s
}

// SSHOpt configures an OpenSSH private key container.
type SSHOpt struct {
	Cipher   string // none, aes256-ctr, aes256-cbc
	Pass     string
	Rounds   int
	Comment  string
	ExtraPad int // additional blocks of padding
	KeyType  string
	Salt     []byte
}

// SSHPriv encodes a private key in openssh-key-v1 form.
func (k *Key) SSHPriv(o SSHOpt) []byte {
	return PEM(k.SSHPrivRaw(o))
}

// PEM armours an openssh-key-v1 body.
func PEM(body []byte) []byte {
	return pem.EncodeToMemory(&pem.Block{Type: "OPENSSH PRIVATE KEY", Bytes: body})
}

// SSHPrivRaw is the body of SSHPriv.
func (k *Key) SSHPrivRaw(o SSHOpt) []byte {
	if o.KeyType == "" {
		o.KeyType = "ssh-ed25519"
	}
	chk := []byte{0x12, 0x34, 0x56, 0x78}
	inner := cat(chk, chk, WireStr([]byte(o.KeyType)), WireStr(k.Pk), WireStr(k.Sk), WireStr([]byte(o.Comment)))
	bs := 8
	if o.Cipher != "none" {
		bs = 16
	}
	for i, n := byte(1), len(inner); (n+int(i)-1)%bs != 0 || int(i)-1 < o.ExtraPad*bs; i++ {
		inner = append(inner, i)
	}
	return k.SSHContainer(o, inner)
}

// SSHContainer wraps (and encrypts) the private section.
func (k *Key) SSHContainer(o SSHOpt, inner []byte) []byte {
	kdf, kdfopts := "none", []byte{}
	if o.Cipher != "none" {
		salt := o.Salt
		if salt == nil {
			salt = []byte("0123456789abcdef")
		}
		kdf = "bcrypt"
		kdfopts = cat(WireStr(salt), binary.BigEndian.AppendUint32(nil, uint32(o.Rounds)))
		m, err := bcrypt_pbkdf.Key([]byte(o.Pass), salt, o.Rounds, 48)
		if err != nil {
			panic(err)
		}
		b, _ := aes.NewCipher(m[:32])
		inner = append([]byte{}, inner...)
		if o.Cipher == "aes256-ctr" {
			cipher.NewCTR(b, m[32:]).XORKeyStream(inner, inner)
		} else {
			cipher.NewCBCEncrypter(b, m[32:]).CryptBlocks(inner, inner)
		}
	}
	return cat([]byte("openssh-key-v1\x00"), WireStr([]byte(o.Cipher)), WireStr([]byte(kdf)), WireStr(kdfopts),
		[]byte{0, 0, 0, 1}, WireStr(k.SSHPubBlob()), WireStr(inner))
}

// RSABlob is a plausible ssh-rsa public key blob.
func RSABlob() []byte {
	return cat(WireStr([]byte("ssh-rsa")), WireStr([]byte{1, 0, 1}), WireStr(bytes.Repeat([]byte{0x5a}, 128)))
}

// ECBlob is a plausible ecdsa public key blob.
func ECBlob() []byte {
	return cat(WireStr([]byte("ecdsa-sha2-nistp256")), WireStr([]byte("nistp256")), WireStr(bytes.Repeat([]byte{4}, 65)))
}

// IsKey tells if a 64 byte private key has the given public half.
func IsKey(sk, pk []byte) bool {
	return len(sk) == 64 && bytes.Equal(ed25519.NewKeyFromSeed(sk[:32]).Public().(ed25519.PublicKey), pk)
}
