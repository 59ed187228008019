package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"mc/eng"
	"mc/ref"
)

// runTo runs sigtool with standard input and output connected to files or pipes.
func runTo(bin, dir string, stdin io.Reader, stdout io.Writer, env []string, args ...string) (int, string, error) {
	cmd := exec.Command(bin, args...)
	cmd.Dir, cmd.Env, cmd.Stdin, cmd.Stdout = dir, env, stdin, stdout
	var e bytes.Buffer
	cmd.Stderr = &e
	err := cmd.Run()
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		if ee.ExitCode() < 0 || strings.Contains(e.String(), "[running]") {
			return 0, "", fmt.Errorf("killed or crashed: %v: %.500s", ee, e.String())
		}
		return ee.ExitCode(), e.String(), nil
	}
	return 0, e.String(), err
}

// c21Contents: every kind of content goes through the commands unchanged,
// whatever standard input and output are.
func c21Contents(c *eng.Ctx, bin string, fixed map[string]string, keys map[string]*ref.Key) {
	a := keys["A"]
	cs := contents()
	c.Par(len(cs), func(i int) {
		ct := cs[i]
		c.Case(func() string { return "contents/" + ct.name }, func() error {
			files := map[string]string{"f": string(ct.data)}
			for n, s := range fixed {
				files[n] = s
			}
			dir, err := (&dir21{files: files}).make(c, nil)
			if err != nil {
				c.Broken(err)
				return nil
			}
			defer os.RemoveAll(dir)
			env := append(append([]string{}, c21Env...), "HOME="+dir)
			run := func(what string, want bool, args ...string) ([]byte, error) {
				r, err := runTool(bin, dir, nil, env, args...)
				c.Trans(1)
				c.State("contents/%s/%s", ct.name, what)
				if err != nil {
					return nil, err
				}
				if (r.code == 0) != want {
					return nil, fmt.Errorf("%q: exit %d, expected success: %v: %.200s", args, r.code, want, r.err)
				}
				return []byte(r.out), nil
			}
			file := func(n string) []byte {
				b, _ := os.ReadFile(filepath.Join(dir, n))
				return b
			}
			// files
			if _, err := run("enc", true, "encrypt", "-B", "8k", "-o", "e", "a.pub", "f"); err != nil {
				return err
			}
			if err := encOK(file("e"), ct.data, nil, a); err != nil {
				return fmt.Errorf("encrypted file: %w", err)
			}
			if _, err := run("dec", true, "decrypt", "-E", "PWA", "-o", "p", "a.key", "e"); err != nil {
				return err
			}
			if !bytes.Equal(file("p"), ct.data) {
				return fmt.Errorf("decrypted file: %s", diff(file("p"), ct.data))
			}
			if _, err := run("encsigned", true, "encrypt", "-o", "es", "-s", "a.key", "-E", "PWA", "b.pub", "f"); err != nil {
				return err
			}
			out, err := run("decsigned", true, "decrypt", "-v", "a.pub", "b.key", "es")
			if err != nil {
				return err
			}
			if !bytes.Equal(out, ct.data) {
				return fmt.Errorf("decrypted to stdout: %s", diff(out, ct.data))
			}
			// standard input and output: pipes, files, files that are appended to,
			// input that begins in the middle of a file
			for in := 0; in < 3; in++ {
				for o := 0; o < 3; o++ {
					for _, enc := range []bool{true, false} {
						src := ct.data
						args := []string{"encrypt", "-B", "8k", "a.pub", "-"}
						if !enc {
							src = file("e")
							args = []string{"decrypt", "-E", "PWA", "a.key"}
						}
						var r io.Reader = bytes.NewReader(src)
						what := fmt.Sprintf("%s/in=%d/out=%d", args[0], in, o)
						if in > 0 {
							head := ""
							if in == 2 {
								head = "a line before\n"
							}
							fn := filepath.Join(dir, "in")
							if err := os.WriteFile(fn, append([]byte(head), src...), 0600); err != nil {
								return nil
							}
							fd, err := os.Open(fn)
							if err != nil {
								return nil
							}
							defer fd.Close()
							fd.Seek(int64(len(head)), 0)
							r = fd
						}
						head := ""
						var buf bytes.Buffer
						var w io.Writer = &buf
						if o > 0 {
							fl := os.O_CREATE | os.O_WRONLY | os.O_TRUNC
							fn := filepath.Join(dir, "out")
							if o == 2 {
								head = "written before\n"
								if err := os.WriteFile(fn, []byte(head), 0600); err != nil {
									return nil
								}
								fl = os.O_WRONLY | os.O_APPEND
							}
							fd, err := os.OpenFile(fn, fl, 0600)
							if err != nil {
								return nil
							}
							defer fd.Close()
							w = fd
						}
						code, msg, err := runTo(bin, dir, r, w, env, args...)
						c.Trans(1)
						c.State("contents/%s/%s", ct.name, what)
						if err != nil {
							return fmt.Errorf("%s: %w", what, err)
						}
						if code != 0 {
							return fmt.Errorf("%s: exit %d: %.200s", what, code, msg)
						}
						got := buf.Bytes()
						if o > 0 {
							got = file("out")
						}
						if !bytes.HasPrefix(got, []byte(head)) {
							return fmt.Errorf("%s: what was in the file before is gone", what)
						}
						got = got[len(head):]
						if enc {
							err = encOK(got, ct.data, nil, a)
						} else if !bytes.Equal(got, ct.data) {
							err = errors.New(diff(got, ct.data))
						}
						if err != nil {
							return fmt.Errorf("%s: %w", what, err)
						}
						os.Remove(filepath.Join(dir, "in"))
						os.Remove(filepath.Join(dir, "out"))
					}
				}
			}
			// signatures
			if _, err := run("sign", true, "sign", "-E", "PWA", "a.key", "f"); err != nil {
				return err
			}
			if err := sigOK(file("f.sig"), a, ct.data); err != nil {
				return err
			}
			if _, err := run("verify", true, "verify", "-q", "a.pub", "f.sig", "f"); err != nil {
				return err
			}
			vs := contentVariants(ct.data)
			names := make([]string, 0, len(vs))
			for n := range vs {
				names = append(names, n)
			}
			sort.Strings(names)
			for _, n := range names {
				if err := os.WriteFile(filepath.Join(dir, "v"), vs[n], 0600); err != nil {
					return nil
				}
				if _, err := run("verify/"+n, false, "verify", "-q", "a.pub", "f.sig", "v"); err != nil {
					return fmt.Errorf("content changed by %s: %w", n, err)
				}
			}
			return nil
		})
	})
}

// c21Names: commands work for files of any name.
func c21Names(c *eng.Ctx, bin string, fixed map[string]string, keys map[string]*ref.Key) {
	a := keys["A"]
	names := []string{"with space", " lead", "trail ", "new\nline", "tab\tname", "cr\r", "caf\u00e9", "bad\xff\xfe", "%s%d%n", "%", "a=b", "$HOME", "*", "?", "[a]", "..x", ".hidden", "dot.", "...", "#x", "!x", "it's", "say\"x\"", "back\\slash", "`id`", ";ls", "a&b", "a|b", "<x>", "~", "x~", "a:b", "a,b", "\x01\x1b[1m", "f.sig", "x.key", "x.pub", "u@h", "e.tmp", ".tmp.1", "0", "true", "null", "+x", "@x",
		"./-dash", "./--", "./-", "sub/x", "sub/../x", "./sub//x", "sub/./y", strings.Repeat("n", 100), strings.Repeat("n", 200), strings.Repeat("\u00e9", 100),
		strings.Repeat("n", 240), strings.Repeat("n", 251), strings.Repeat("n", 255), strings.Repeat("sub/../", 400) + "x"}
	// inputs can be symbolic links; what they point to
	links := map[string]map[string]string{
		"link":  {"link": "target"},
		"link2": {"link2": "./link3", "link3": "sub/../target"},
		"link4": {"link4": "/"},
	}
	for _, n := range []string{"link", "link2", "link4"} {
		names = append(names, n)
	}
	msg := string(pattern(300, 0x61))
	enc := (&ref.Spec{ChunkSize: 64, Rx: []*ref.Key{a}, Pts: ref.Split([]byte(msg), 64, true), Label: "names"}).Write().Bytes
	c.Par(len(names), func(i int) {
		name := names[i]
		long := len(filepath.Base(name)) > 220
		mk := func(extra map[string]string) (string, error) {
			files := map[string]string{}
			for n, s := range fixed {
				files[n] = s
			}
			for n, s := range extra {
				files[n] = s
			}
			link := links[name]
			if _, has := extra[name]; !has {
				link = nil
			} else if link != nil {
				delete(files, name)
				files["target"] = extra[name]
			}
			d, err := (&dir21{files: files}).make(c, nil)
			if err == nil {
				err = os.MkdirAll(filepath.Join(d, "sub"), 0755)
			}
			for n, to := range link {
				if to == "/" {
					to = filepath.Join(d, "target")
				}
				if err == nil {
					err = os.Symlink(to, filepath.Join(d, n))
				}
			}
			return d, err
		}
		for _, op := range []string{"enc-in", "enc-out", "dec-in", "dec-out", "sign-default", "sign-out", "sign-file", "verify-file", "verify-sig", "verify-pub", "enc-pub", "dec-key", "enc-sender", "dec-sender", "generate"} {
			c.Case(func() string { return fmt.Sprintf("names/%s/%q", op, shorten(name)) }, func() error {
				extra := map[string]string{}
				clean := filepath.Clean(name)
				put := func(data string) {
					extra[clean] = data
				}
				outs := map[string]func([]byte) error{}
				isEnc := func(b []byte) error { return encOK(b, []byte(msg), nil, a) }
				isSig := func(b []byte) error { return sigOK(b, a, []byte(msg)) }
				ok := true
				maybe := long // the name of the output may be too long
				var args []string
				var onOut func([]byte) error
				switch op {
				case "enc-in":
					put(msg)
					args, onOut, maybe = []string{"encrypt", "a.pub", name}, isEnc, false
				case "enc-out":
					extra["in"] = msg
					args = []string{"encrypt", "-o", name, "a.pub", "in"}
					outs[clean] = isEnc
				case "dec-in":
					put(string(enc))
					args, onOut, maybe = []string{"decrypt", "-E", "PWA", "a.key", name}, equals(msg), false
				case "dec-out":
					extra["in"] = string(enc)
					args = []string{"decrypt", "-E", "PWA", "-o", name, "a.key", "in"}
					outs[clean] = equals(msg)
				case "sign-default":
					put(msg)
					args = []string{"sign", "-E", "PWA", "a.key", name}
					outs[clean+".sig"] = isSig
				case "sign-out":
					extra["in"] = msg
					args = []string{"sign", "-E", "PWA", "-o", name, "a.key", "in"}
					outs[clean] = isSig
				case "sign-file":
					put(msg)
					args, onOut, maybe = []string{"sign", "-E", "PWA", "-o", "-", "a.key", name}, isSig, false
				case "verify-file":
					put(msg)
					extra["s"] = string(ref.SigDoc(a, ref.FileDigest([]byte(msg)), ""))
					args, onOut, maybe = []string{"verify", "-q", "a.pub", "s", name}, equals(""), false
				case "verify-sig":
					extra["in"] = msg
					put(string(ref.SigDoc(a, ref.FileDigest([]byte(msg)), "")))
					args, onOut, maybe = []string{"verify", "-q", "a.pub", name, "in"}, equals(""), false
				case "verify-pub":
					extra["in"] = msg
					extra["s"] = string(ref.SigDoc(a, ref.FileDigest([]byte(msg)), ""))
					put(string(ref.PkDoc(a, "")))
					args, onOut, maybe = []string{"verify", "-q", name, "s", "in"}, equals(""), false
				case "enc-pub":
					if strings.Index(name, "@") > 0 {
						return nil // that is a user name
					}
					extra["in"] = msg
					put(string(ref.PkDoc(a, "")))
					args, onOut, maybe = []string{"encrypt", name, "in"}, isEnc, false
				case "dec-key":
					extra["in"] = string(enc)
					put(fixed["a.key"])
					args, onOut, maybe = []string{"decrypt", "-E", "PWA", name, "in"}, equals(msg), false
				case "enc-sender":
					extra["in"] = msg
					put(fixed["a.key"])
					args, maybe = []string{"encrypt", "-E", "PWA", "-s", name, "a.pub", "in"}, false
					onOut = func(b []byte) error { return encOK(b, []byte(msg), a, a) }
				case "dec-sender":
					signed := (&ref.Spec{ChunkSize: 64, Rx: []*ref.Key{a}, Sender: a, Pts: ref.Split([]byte(msg), 64, true), Label: "names"}).Write().Bytes
					extra["in"] = string(signed)
					put(string(ref.PkDoc(a, "")))
					args, onOut, maybe = []string{"decrypt", "-E", "PWA", "-v", name, "a.key", "in"}, equals(msg), false
				case "generate":
					args = []string{"generate", "--no-password", name}
					keyOK := func(b []byte) error {
						if len(b) == 0 {
							return errors.New("empty key file")
						}
						return nil
					}
					outs[clean+".key"], outs[clean+".pub"] = keyOK, keyOK
				}
				for n := range outs {
					if _, has := extra[n]; has {
						return nil
					}
					if _, has := fixed[n]; has {
						return nil
					}
				}
				dir, err := mk(extra)
				if err != nil {
					c.Broken(err)
					return nil
				}
				defer os.RemoveAll(dir)
				before, err := readTree(dir)
				if err != nil {
					c.Broken(err)
					return nil
				}
				env := append(append([]string{}, c21Env...), "HOME="+dir)
				r, err := runTool(bin, dir, nil, env, args...)
				c.Trans(1)
				c.State("names/%s/%d/%v", op, i, r.code == 0)
				if err != nil {
					return err
				}
				after, err := readTree(dir)
				if err != nil {
					c.Broken(err)
					return nil
				}
				show := fmt.Sprintf("%.300q: exit %d: %.200s", args, r.code, r.err)
				if r.code != 0 {
					if ok && !maybe {
						return errors.New(show)
					}
					outs = map[string]func([]byte) error{}
				}
				if err := untouched(before, after, outs, func(string) bool { return false }); err != nil {
					return fmt.Errorf("%s: %w", show, err)
				}
				if r.code != 0 {
					if len(r.out) > 0 {
						return fmt.Errorf("%s: output %.100q", show, r.out)
					}
					return nil
				}
				for n, j := range outs {
					x, has := after[n]
					if !has {
						return fmt.Errorf("%s: %.100q is missing", show, n)
					}
					if err := j([]byte(x.data)); err != nil {
						return fmt.Errorf("%s: %.100q: %w", show, n, err)
					}
				}
				if onOut != nil {
					if err := onOut([]byte(r.out)); err != nil {
						return fmt.Errorf("%s: standard output: %w", show, err)
					}
				}
				return nil
			})
		}
	})
}

func shorten(s string) string {
	if len(s) > 40 {
		return fmt.Sprintf("%s...%d", s[:40], len(s))
	}
	return s
}
