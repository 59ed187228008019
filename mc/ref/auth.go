package ref

import (
	"bytes"
	"encoding/base64"
	"strings"
)

// AuthKey is one usable line of an authorized_keys file.
type AuthKey struct {
	Pk      []byte
	Comment string
}

const blanks = " \t"

// word splits the first blank separated word off.
func word(s string) (w, rest string) {
	s = strings.TrimLeft(s, blanks)
	i := strings.IndexAny(s, blanks)
	if i < 0 {
		return s, ""
	}
	return s[:i], s[i:]
}

// keyOf reads "ssh-ed25519 blob [comment]".
func keyOf(s string) *AuthKey {
	t, s := word(s)
	b, s := word(s)
	if t != "ssh-ed25519" {
		return nil
	}
	raw, err := base64.StdEncoding.DecodeString(b)
	if err != nil {
		return nil
	}
	pre := append(WireStr([]byte("ssh-ed25519")), 0, 0, 0, 32)
	if len(raw) != len(pre)+32 || !bytes.HasPrefix(raw, pre) {
		return nil
	}
	return &AuthKey{raw[len(pre):], strings.Trim(s, blanks)}
}

// ParseAuthorized is the meaning of an authorized_keys file (sshd(8)), restricted to
// Ed25519 keys: [options] keytype key [comment]; options have no blanks except in quotes.
func ParseAuthorized(text string) []AuthKey {
	var out []AuthKey
	for _, l := range strings.Split(text, "\n") {
		l = strings.Trim(strings.TrimSuffix(l, "\r"), blanks)
		if l == "" || l[0] == '#' {
			continue
		}
		k := keyOf(l)
		if k == nil {
			// skip the options
			i, quoted := 0, false
			for i < len(l) && (quoted || !strings.ContainsRune(blanks, rune(l[i]))) {
				if l[i] == '\\' && i+1 < len(l) && l[i+1] == '"' {
					i++
				} else if l[i] == '"' {
					quoted = !quoted
				}
				i++
			}
			if i < len(l) {
				k = keyOf(l[i:])
			}
		}
		if k != nil {
			out = append(out, *k)
		}
	}
	return out
}
