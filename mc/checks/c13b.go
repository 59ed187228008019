package checks

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"mc/eng"
	"mc/ref"
)

// c13Tool: the passphrase in the environment is the one that counts, byte for byte,
// for the command that makes a key and for all that use one.
func c13Tool(c *eng.Ctx, bin string) {
	var pws []string
	for _, pw := range c13Pass(c) {
		// what an environment can hold
		if !strings.Contains(pw, "\x00") && len(pw) <= 4096 {
			pws = append(pws, pw)
		}
	}
	for _, s := range []string{" ", "\t", "\r", " a", "a ", "a\t", "\ta", "a\r\n", "\n\n", "a\u00a0", "\u2003", "$P", "${P}", "a$", "%s", "~", "*", "-", "--", "P=a", "a=", "=a", "\\", "a\\n", "`a`", "\xff\xfe"} {
		pws = append(pws, s)
	}
	other := ref.KeyFor("other")
	near := func(pw string) []string {
		out := []string{pw, "", pw + " ", " " + pw, pw + "\n", pw + "\r", "\t" + pw, strings.TrimSpace(pw), strings.TrimRight(pw, "\r\n"), strings.ToLower(pw), strings.ToUpper(pw), pw + pw, os.Expand(pw, func(string) string { return "" }), strings.ToValidUTF8(pw, "")}
		if len(pw) > 0 {
			out = append(out, pw[1:], pw[:len(pw)-1])
		}
		seen := map[string]bool{}
		u := out[:0]
		for _, s := range out {
			if !seen[s] {
				seen[s] = true
				u = append(u, s)
			}
		}
		return u
	}
	c.Suite("tool", func() {
		c.Par(len(pws), func(i int) {
			c.Case(func() string { return fmt.Sprintf("tool/%d/%.20q", i, pws[i]) }, func() error {
				dir, err := os.MkdirTemp(c.Work, "tool")
				if err != nil {
					c.Broken(err)
					return nil
				}
				defer os.RemoveAll(dir)
				run := func(pw string, args ...string) (result, error) {
					return runTool(bin, dir, nil, []string{"HOME=" + dir, "GOMAXPROCS=2", "P=" + pw}, args...)
				}
				if err := os.WriteFile(filepath.Join(dir, "f"), []byte("some text"), 0600); err != nil {
					c.Broken(err)
					return nil
				}
				pw := pws[i]
				r, err := run(pw, "generate", "-E", "P", "k")
				if err != nil {
					return err
				}
				if r.code != 0 {
					return fmt.Errorf("generate: exit %d: %.200s", r.code, r.err)
				}
				doc, err1 := os.ReadFile(filepath.Join(dir, "k.key"))
				pkb, err2 := os.ReadFile(filepath.Join(dir, "k.pub"))
				if err := errors.Join(err1, err2); err != nil {
					return err
				}
				sk, err := skOf(doc, pw)
				if err != nil {
					return fmt.Errorf("the new key does not open with its passphrase: %w", err)
				}
				if pk, err := pkOf(pkb); err != nil || !bytes.Equal(pk, sk.Pk) {
					return fmt.Errorf("the new public key is another one: %v", err)
				}
				if err := leaks(doc, sk); err != nil {
					return err
				}
				if r, err = run(pw, "encrypt", "-o", "e", "k.pub", "f"); err != nil || r.code != 0 {
					return fmt.Errorf("encrypt: %v, exit %d: %.200s", err, r.code, r.err)
				}
				if err := os.WriteFile(filepath.Join(dir, "o.pub"), ref.PkDoc(other, ""), 0600); err != nil {
					c.Broken(err)
					return nil
				}
				for j, q := range near(pw) {
					if err := c13Open(doc, q, sk, q == pw); err != nil {
						return err
					}
					cmds := [][]string{
						{"sign", "-E", "P", "-o", "-", "k.key", "f"},
						{"decrypt", "-E", "P", "k.key", "e"},
						{"encrypt", "-E", "P", "-s", "k.key", "o.pub", "f"},
					}
					if !c.Thorough && q != pw {
						cmds = cmds[(i+j)%3:][:1]
					}
					for _, a := range cmds {
						r, err := run(q, a...)
						if err != nil {
							return err
						}
						c.Trans(1)
						c.State("tool/%d/%s/%v", len(pw), a[0], q == pw)
						if (r.code == 0) != (q == pw) {
							return fmt.Errorf("%s with passphrase %.40q for a key made with %.40q: exit %d: %.200s", a[0], q, pw, r.code, r.err)
						}
						if q != pw && r.out != "" {
							return fmt.Errorf("%s with a wrong passphrase has output", a[0])
						}
					}
				}
				return nil
			})
		})
	})
}
