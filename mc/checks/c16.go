package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"mc/eng"
	"mc/ref"

	"github.com/opencoff/sigtool/sign"
)

func init() {
	register(&eng.Prop{ID: "C16", Level: "model_checking",
		Rule: "one execution = one block of authorized_keys files given to the parser and to the reference parser (keys, order and comments must agree), or one encrypt command with user@domain names, its output opened with the reference; states = (suite, number of keys, comment class / recipient situation); transitions = files parsed and commands run",
		Bound: func(c *eng.Ctx) string {
			return fmt.Sprintf("all single lines from the product of %d option prefixes x %d keywords x %d keys x %d comments x blanks; all lines of 1..%d words over %d tokens; all files of 0..%d lines over %d lines, x line endings; 12 kinds of long lines of 2^8..2^%d bytes (and one less, one more) at 4 places; files of thousands of different keys, pairs of keys that agree in 5 bytes; command line: every pair of %d files x %d requested names, and lists of up to 3 recipients",
				len(c16Opts()), len(c16Types), len(c16Blobs()), len(c16Comments()), pick(c, 5, 6), len(c16Tokens()), pick(c, 3, 4), len(c16Lines()), pick(c, 20, 23), len(c16CliFiles()), len(c16Names))
		},
		Run: runC16})
}

var c16Types = []string{"ssh-ed25519", "ssh-rsa", "ecdsa-sha2-nistp256", "SSH-ED25519", "ssh-ed25519-cert-v01@openssh.com", "garbage", "sk-ssh-ed25519@openssh.com"}

func c16Opts() []string {
	e := ref.B64(ref.KeyFor("evil").SSHPubBlob())
	return []string{"", "no-pty", "no-pty,no-x11-forwarding", "command=\"/bin/echo hi\"", "command=\"a \\\"b c\\\" d\",no-pty", "from=\"*.example.com,!x\"", "environment=\"A=b c\",command=\"x\"",
		"command=\"echo " + e + " x\"", "command=\"ssh-ed25519 " + e + " evil@host\"", "command=\"x ssh-ed25519 " + e + " evil@host\",no-pty", "a=\"#\"", "a=\",\"", "a=\"\t\"", "a=\"\"", "a=\"\\\\ \"", "cert-authority", "principals=\"a,b\"", "ssh-ed25519", "ssh-rsa"}
}

func c16Blobs() []string {
	k := ref.KeyFor("k1")
	s := ref.B64(k.SSHPubBlob())
	return []string{s, ref.B64(ref.RSABlob()), ref.B64(ref.ECBlob()), s[:len(s)-4], s + "AAAA", "AAAA", "!!!!", s[:40] + "=" + s[41:], strings.ToLower(s)}
}

func c16Comments() []string {
	e := ref.B64(ref.KeyFor("evil").SSHPubBlob())
	return []string{"", "user@host", "a b  c", "a\tb", "# x", "\"quoted\"", "\"open", "x,y=z", "ssh-ed25519 " + e + " evil@host", "=", "caf\u00e9", "\\", "a@b c@d"}
}

func c16Tokens() []string {
	return []string{"ssh-ed25519", "ssh-rsa", ref.B64(ref.KeyFor("k1").SSHPubBlob()), ref.B64(ref.KeyFor("k2").SSHPubBlob()), ref.B64(ref.RSABlob()), "no-pty", "a=\"b", "c\"", "x=\"\\\"", "\"", "#", "AAAA", "u@h", ",", "a=\"b\",c", "\\\""}
}

func c16Lines() []string {
	k1, k2, k3 := ref.KeyFor("k1"), ref.KeyFor("k2"), ref.KeyFor("k3")
	e := ref.B64(ref.KeyFor("evil").SSHPubBlob())
	return []string{k1.SSHPubLine("one@host"), k2.SSHPubLine(""), k3.SSHPubLine("three spaced words"), "no-pty,command=\"a b\" " + k1.SSHPubLine("opt@host"), "  \t" + k2.SSHPubLine("indented@host") + "  \t",
		"", "   ", "# comment", "#" + k3.SSHPubLine("off@host"), " # " + k3.SSHPubLine("off2@host"), "ssh-rsa " + ref.B64(ref.RSABlob()) + " rsa@host", "ecdsa-sha2-nistp256 " + ref.B64(ref.ECBlob()) + " ec@host",
		"ssh-ed25519", "ssh-ed25519 AAAA bad@host", "ssh-ed25519 " + e[:40] + " cut@host", "command=\"open " + k3.SSHPubLine("quote@host"), "garbage", "garbage " + e + " g@host", "command=\"echo " + e + " x\" " + k3.SSHPubLine("real@host"), "ssh-rsa " + e + " lie@host",
		strings.Replace(k1.SSHPubLine("tab@host"), " ", "\t", -1), "=== \x00\xff", k1.SSHPubLine("one@host") + " tail", strings.Repeat("x", 5000)}
}

func sameAuth(text string) error {
	want := ref.ParseAuthorized(text)
	got, err := sign.ParseAuthorizedKeys([]byte(text))
	if err != nil {
		return fmt.Errorf("%q: %w", text, err)
	}
	show := func() string {
		if len(text) > 900 {
			return fmt.Sprintf("%.900q...", text)
		}
		return fmt.Sprintf("%q", text)
	}
	if len(got) != len(want) {
		return fmt.Errorf("%s: %d keys, should be %d", show(), len(got), len(want))
	}
	for i, w := range want {
		if got[i] == nil || !bytes.Equal(got[i].Pk, w.Pk) {
			return fmt.Errorf("%s: key %d is not the one on its line", show(), i)
		}
		if got[i].Comment != w.Comment {
			return fmt.Errorf("%s: key %d has comment %q, should be %q", show(), i, got[i].Comment, w.Comment)
		}
	}
	return nil
}

func c16All(c *eng.Ctx, suite, name string, n int, text func(i int) string) {
	const blk = 128
	c.Par((n+blk-1)/blk, func(b int) {
		c.Case(func() string { return fmt.Sprintf("%s/%s/%d", suite, name, b*blk) }, func() error {
			for i := b * blk; i < min(n, b*blk+blk); i++ {
				t := text(i)
				c.Trans(1)
				if err := eng.Protect(func() error { return sameAuth(t) }); err != nil {
					return err
				}
				c.State("%s/%d", suite, len(ref.ParseAuthorized(t)))
			}
			return nil
		})
	})
}

func runC16(c *eng.Ctx) {
	opts, blobs, cms := c16Opts(), c16Blobs(), c16Comments()
	blank := []string{" ", "\t", "  ", " \t "}
	ends := []string{"", "\n", "\r\n", " \n", "\t\r\n", "\n\n"}
	c.Suite("lines", func() {
		dims := []int{len(opts), len(c16Types), len(blobs), len(cms), len(blank), len(ends)}
		n := 1
		for _, d := range dims {
			n *= d
		}
		c16All(c, "lines", "product", n, func(i int) string {
			x := make([]int, len(dims))
			for j, d := range dims {
				x[j] = i % d
				i /= d
			}
			b := blank[x[4]]
			s := ""
			if opts[x[0]] != "" {
				s = opts[x[0]] + b
			}
			s += c16Types[x[1]] + b + blobs[x[2]]
			if cms[x[3]] != "" {
				s += b + cms[x[3]]
			}
			return s + ends[x[5]]
		})
	})
	tk := c16Tokens()
	c.Suite("words", func() {
		for n := 1; n <= pick(c, 5, 6); n++ {
			c16All(c, "words", fmt.Sprint(n), eng.CountWords(len(tk), n), func(i int) string {
				var w []string
				for _, x := range eng.Word(len(tk), n, i) {
					w = append(w, tk[x])
				}
				return strings.Join(w, " ")
			})
		}
	})
	ls := c16Lines()
	c.Suite("files", func() {
		for n := 0; n <= pick(c, 3, 4); n++ {
			for ei, e := range []string{"\n", "\r\n", "\n\n"} {
				if ei == 2 && n == 3 && !c.Thorough {
					continue
				}
				for _, final := range []string{"", e} {
					c16All(c, "files", fmt.Sprintf("%d/%d/%v", n, ei, final == ""), eng.CountWords(len(ls), n), func(i int) string {
						var w []string
						for _, x := range eng.Word(len(ls), n, i) {
							w = append(w, ls[x])
						}
						return strings.Join(w, e) + final
					})
				}
			}
		}
		// many lines
		c16All(c, "files", "long", 8, func(i int) string {
			var sb strings.Builder
			for j := 0; j < 2000; j++ {
				if (j+i)%3 == 0 {
					sb.WriteString(ls[(j*7+i)%len(ls)] + "\n")
				}
				sb.WriteString(ref.KeyFor(fmt.Sprint("n", j%50)).SSHPubLine(fmt.Sprintf("u%d@h", j)) + "\n")
			}
			return sb.String()
		})
	})
	// long lines, around powers of two, before a key and after one
	c.Suite("width", func() {
		k1, k2 := ref.KeyFor("k1"), ref.KeyFor("k2")
		var sizes []int
		for b := 8; b <= pick(c, 20, 23); b++ {
			sizes = append(sizes, 1<<b-1, 1<<b, 1<<b+1)
		}
		kinds := []func(n int) string{
			func(n int) string { return "#" + strings.Repeat("x", n-1) },
			func(n int) string { return strings.Repeat(" ", n) },
			func(n int) string { return strings.Repeat("garbage ", n/8+1)[:n] },
			func(n int) string { return k2.SSHPubLine("c" + strings.Repeat("x", n)) },
			func(n int) string { return k2.SSHPubLine(strings.Repeat("c ", n/2) + "e") },
			func(n int) string { return "command=\"" + strings.Repeat("x", n) + "\" " + k2.SSHPubLine("long@host") },
			func(n int) string {
				return strings.Repeat("a=\"b c\",", n/8+1) + "no-pty " + k2.SSHPubLine("long@host")
			},
			func(n int) string { return strings.Repeat("\t", n) + k2.SSHPubLine("long@host") },
			func(n int) string { return k2.SSHPubLine("long@host") + strings.Repeat(" ", n) },
			func(n int) string { return "ssh-ed25519 " + strings.Repeat("A", n) + " junk@host" },
			func(n int) string { return "ssh-rsa " + strings.Repeat("A", n) + " junk@host" },
			func(n int) string { return strings.Repeat("\n", n) },
		}
		c.Par(len(sizes)*len(kinds), func(i int) {
			n, k := sizes[i/len(kinds)], i%len(kinds)
			c.Case(func() string { return fmt.Sprintf("width/%d/%d", k, n) }, func() error {
				l := kinds[k](n)
				for _, t := range []string{l, l + "\n" + k1.SSHPubLine("one@host") + "\n", k1.SSHPubLine("one@host") + "\n" + l, k1.SSHPubLine("one@host") + "\n" + l + "\n" + k2.SSHPubLine("two@host")} {
					c.Trans(1)
					if err := sameAuth(t); err != nil {
						return err
					}
				}
				c.State("width/%d", k)
				return nil
			})
		})
	})
	c.Suite("keys", func() { c16Keys(c) })
	c.Suite("cli", func() { c16Cli(c) })
}

var c16Names = []string{"one@host", "two@host", "opt@host", "real@host", "evil@host", "off@host", "rsa@host", "lie@host", "g@host", "One@host", "one@host ", " one@host", "one@hos", "one@host.com", "x one@host", "one@", "three@spaced words", "quote@host", "@host", "one@host tail"}

func c16CliFiles() map[string]string {
	k1, k2, k3 := ref.KeyFor("k1"), ref.KeyFor("k2"), ref.KeyFor("k3")
	ev := ref.KeyFor("evil")
	return map[string]string{
		"empty":   "",
		"one":     k1.SSHPubLine("one@host"),
		"two":     k1.SSHPubLine("one@host") + "\n" + k2.SSHPubLine("two@host") + "\n",
		"crlf":    k1.SSHPubLine("one@host") + "\r\n" + k2.SSHPubLine("two@host") + "\r\n",
		"mixed":   "# one@host\n\nssh-rsa " + ref.B64(ref.RSABlob()) + " rsa@host\nssh-ed25519 AAAA one@host\nno-pty,command=\"a b\" " + k2.SSHPubLine("opt@host") + "\n  " + k1.SSHPubLine("one@host") + "  \n#" + ev.SSHPubLine("off@host") + "\n",
		"options": "command=\"echo " + ref.B64(ev.SSHPubBlob()) + " evil@host\" " + k3.SSHPubLine("real@host") + "\n" + "garbage " + ref.B64(ev.SSHPubBlob()) + " g@host\nssh-rsa " + ref.B64(ev.SSHPubBlob()) + " lie@host\n" + k1.SSHPubLine("one@host"),
		"near":    k1.SSHPubLine("x one@host") + "\n" + k2.SSHPubLine("One@host") + "\n" + k3.SSHPubLine("one@host.com") + "\n" + ev.SSHPubLine("one@hos") + "\n",
		"nocom":   k1.SSHPubLine("") + "\n" + k2.SSHPubLine("two@host"),
		"same":    k1.SSHPubLine("one@host") + "\n" + k1.SSHPubLine("one@host") + "\n" + k1.SSHPubLine("two@host") + "\n",
		"tail":    k2.SSHPubLine("one@host tail") + "\n" + k1.SSHPubLine("one@host") + "\n",
		"spaces":  k2.SSHPubLine("three@spaced words") + "\n",
		"long": strings.Repeat(ev.SSHPubLine("evil@host")+"\n# one@host\n"+"ssh-rsa "+ref.B64(ref.RSABlob())+" rsa@host\n", 6000) +
			k1.SSHPubLine("one@host") + "\n" + k2.SSHPubLine("two@host"),
	}
}

// result of a command
type result struct {
	code     int
	out, err string
}

// runTool runs a program in dir with a minimal environment.
func runTool(bin, dir string, stdin []byte, env []string, args ...string) (result, error) {
	return runIn(bin, dir, bytes.NewReader(stdin), env, args...)
}

// runToolFile is runTool with standard input redirected from a file.
func runToolFile(bin, dir, stdin string, env []string, args ...string) (result, error) {
	fd, err := os.Open(stdin)
	if err != nil {
		// nothing to read
		return runTool(bin, dir, nil, env, args...)
	}
	defer fd.Close()
	return runIn(bin, dir, fd, env, args...)
}

func runIn(bin, dir string, stdin io.Reader, env []string, args ...string) (result, error) {
	cmd := exec.Command(bin, args...)
	cmd.Dir = dir
	cmd.Env = env
	cmd.Stdin = stdin
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	r := result{0, o.String(), e.String()}
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		r.code = ee.ExitCode()
		if r.code < 0 {
			return r, fmt.Errorf("killed: %v", ee)
		}
		if strings.Contains(r.err, "goroutine ") && strings.Contains(r.err, "[running]") {
			return r, fmt.Errorf("crashed: %.600s", r.err)
		}
		return r, nil
	}
	return r, err
}

func c16Cli(c *eng.Ctx) {
	bin, err := cli(c)
	if err != nil {
		c.Broken(err)
		return
	}
	dir, err := os.MkdirTemp(c.Work, "c16")
	if err != nil {
		c.Broken(err)
		return
	}
	defer os.RemoveAll(dir)
	pt := pattern(100, 1)
	in := filepath.Join(dir, "in")
	os.WriteFile(in, pt, 0644)
	r1 := ref.KeyFor("r1")
	pub := filepath.Join(dir, "r1.pub")
	os.WriteFile(pub, ref.PkDoc(r1, ""), 0644)
	// names that are not of the form a@b
	odd := map[string]bool{pub: true}
	for _, n := range []string{"@", "@r1.pub", "@one@host", "one"} {
		odd[n] = true
		os.WriteFile(filepath.Join(dir, n), ref.PkDoc(r1, ""), 0644)
	}
	files := c16CliFiles()
	homes := map[string]string{}
	for n, t := range files {
		h := filepath.Join(dir, "home-"+n)
		os.MkdirAll(filepath.Join(h, ".ssh"), 0700)
		os.WriteFile(filepath.Join(h, ".ssh", "authorized_keys"), []byte(t), 0600)
		homes[n] = h
	}
	homes["missing"] = filepath.Join(dir, "home-missing")
	os.Mkdir(homes["missing"], 0700)
	type job struct {
		home string
		rx   []string
	}
	var jobs []job
	for h := range homes {
		for _, n := range c16Names {
			if strings.Index(n, "@") > 0 {
				jobs = append(jobs, job{h, []string{n}})
			}
		}
		for _, rx := range [][]string{{"one@host", "two@host"}, {"two@host", "one@host"}, {pub, "one@host"}, {"one@host", pub}, {"one@host", pub, "nobody@host"}, {"nobody@host", pub}, {"one@host", "one@host"}, {pub, "two@host", "opt@host"}, {"@"}, {"@r1.pub"}, {"@one@host"}, {"one"}, {"@r1.pub", "one@host"}, {"nobody@host", "@r1.pub"}} {
			jobs = append(jobs, job{h, rx})
		}
	}
	all := map[string]*ref.Key{}
	for _, n := range []string{"k1", "k2", "k3", "evil", "r1"} {
		all[n] = ref.KeyFor(n)
	}
	c.Par(len(jobs), func(i int) {
		j := jobs[i]
		c.Case(func() string {
			return fmt.Sprintf("cli/%s/%s", j.home, strings.ReplaceAll(strings.Join(j.rx, "+"), dir, ""))
		}, func() error {
			// expectation
			var want [][]byte
			ok := true
			for _, n := range j.rx {
				if odd[n] {
					want = append(want, r1.Pk)
					continue
				}
				var m []byte
				amb := false
				for _, k := range ref.ParseAuthorized(files[j.home]) {
					if k.Comment == n {
						amb = amb || m != nil && !bytes.Equal(m, k.Pk)
						m = k.Pk
					}
				}
				if amb {
					return nil
				}
				if m == nil {
					ok = false
				}
				want = append(want, m)
			}
			for mode := 0; mode < 2; mode++ {
				out := filepath.Join(dir, fmt.Sprintf("out%d.%d", i, mode))
				args := []string{"encrypt"}
				if mode == 0 {
					args = append(args, "-o", out)
				}
				args = append(append(args, j.rx...), in)
				c.Trans(1)
				r, err := runTool(bin, dir, nil, []string{"HOME=" + homes[j.home]}, args...)
				if err != nil {
					return err
				}
				b := []byte(r.out)
				_, serr := os.Lstat(out)
				if mode == 0 {
					b, _ = os.ReadFile(out)
					os.Remove(out)
				}
				if !ok {
					if r.code == 0 || len(b) > 0 || mode == 0 && serr == nil {
						return fmt.Errorf("unknown recipient: exit %d, %d bytes of output", r.code, len(b))
					}
					c.State("cli/%v/none", len(j.rx))
					continue
				}
				if r.code != 0 {
					return fmt.Errorf("exit %d: %s", r.code, r.err)
				}
				f, err := ref.Parse(b)
				if err != nil {
					return err
				}
				if len(f.Hdr.Keys) != len(want) {
					return fmt.Errorf("%d recipients instead of %d", len(f.Hdr.Keys), len(want))
				}
				for wi, w := range f.Hdr.Keys {
					for n, k := range all {
						_, err := f.Hdr.Unwrap(k, w)
						if (err == nil) != bytes.Equal(k.Pk, want[wi]) {
							return fmt.Errorf("recipient %d and key %s: opens=%v", wi, n, err == nil)
						}
					}
				}
				o, err := f.Open(keyWithPk(all, want[0]))
				if err != nil || !bytes.Equal(o.Plain, pt) {
					return fmt.Errorf("content: %v", err)
				}
				c.State("cli/%v/ok", len(j.rx))
			}
			return nil
		})
	})
}

func keyWithPk(m map[string]*ref.Key, pk []byte) *ref.Key {
	for _, k := range m {
		if bytes.Equal(k.Pk, pk) {
			return k
		}
	}
	return nil
}
