package checks

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"

	"mc/eng"
)

// Subs are the parts of checks that run in another build of this program.
var Subs = map[string]func(c *eng.Ctx){}

const repo = "/repo"

func mcDir(c *eng.Ctx) string { return filepath.Join(c.VerifDir, "mc") }

// variant is another build: of this program, or of sigtool.
type variant struct {
	name    string
	dir     string // module the build runs in
	pkg     string
	overlay map[string][]byte // file name to new content
	cheap   bool              // scrypt costs next to nothing
	flags   []string
	env     []string
}

var buildMu sync.Mutex

// build makes the variant, once per run.
func build(c *eng.Ctx, v variant) (string, error) {
	buildMu.Lock()
	defer buildMu.Unlock()
	bin := filepath.Join(c.Work, v.name)
	if _, err := os.Stat(bin); err == nil {
		return bin, nil
	}
	args := []string{"build", "-buildvcs=false", "-o", bin}
	if len(v.overlay) > 0 {
		dir, err := os.MkdirTemp(c.Work, "ov")
		if err != nil {
			return "", err
		}
		rep := map[string]string{}
		for f, b := range v.overlay {
			n := filepath.Join(dir, fmt.Sprintf("%d_%s", len(rep), filepath.Base(f)))
			if err := os.WriteFile(n, b, 0644); err != nil {
				return "", err
			}
			rep[f] = n
		}
		j, _ := json.Marshal(map[string]any{"Replace": rep})
		ov := filepath.Join(dir, "overlay.json")
		if err := os.WriteFile(ov, j, 0644); err != nil {
			return "", err
		}
		args = append(args, "-overlay", ov)
	}
	if v.cheap {
		mod, err := cheapScrypt(c, v.dir)
		if err != nil {
			return "", err
		}
		args = append(args, "-modfile", mod)
	}
	cmd := exec.Command("go", append(append(args, v.flags...), v.pkg)...)
	cmd.Dir = v.dir
	cmd.Env = append(os.Environ(), v.env...)
	if out, err := cmd.CombinedOutput(); err != nil {
		return "", fmt.Errorf("building %s: %v\n%s", v.name, err, out)
	}
	return bin, nil
}

// cheapScrypt makes a go.mod under which scrypt costs next to nothing (N is
// clamped, but still makes a difference); documents keep their nominal parameters.
func cheapScrypt(c *eng.Ctx, modDir string) (string, error) {
	cmd := exec.Command("go", "list", "-m", "-f", "{{.Dir}}", "golang.org/x/crypto")
	cmd.Dir = modDir
	out, err := cmd.Output()
	if err != nil {
		return "", err
	}
	work, err := os.MkdirTemp(c.Work, "mod")
	if err != nil {
		return "", err
	}
	cr := filepath.Join(work, "crypto")
	if err := os.CopyFS(cr, os.DirFS(strings.TrimSpace(string(out)))); err != nil {
		return "", err
	}
	fn := filepath.Join(cr, "scrypt", "scrypt.go")
	b, err := os.ReadFile(fn)
	if err != nil {
		return "", err
	}
	s := string(b)
	const anchor = "\txy := make([]uint32"
	if strings.Count(s, anchor) != 1 {
		return "", fmt.Errorf("unexpected scrypt source")
	}
	// after the parameter checks of Key
	s = strings.Replace(s, anchor, "\tif N > 16 {\n\t\tpassword = append(append([]byte{}, password...), byte(N), byte(N>>8), byte(N>>16), byte(N>>24))\n\t\tN = 16\n\t}\n"+anchor, 1)
	os.Chmod(fn, 0644)
	if err := os.WriteFile(fn, []byte(s), 0644); err != nil {
		return "", err
	}
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(modDir, f))
		if err != nil {
			return "", err
		}
		if f == "go.mod" {
			b = append(b, []byte("\nreplace golang.org/x/crypto => "+cr+"\n")...)
		}
		if err := os.WriteFile(filepath.Join(work, f), b, 0644); err != nil {
			return "", err
		}
	}
	return filepath.Join(work, "go.mod"), nil
}

// fastSelf is this program with cheap scrypt.
func fastSelf(c *eng.Ctx) (string, error) {
	return build(c, variant{name: "mc-fast", dir: mcDir(c), pkg: ".", cheap: true})
}

// cli is sigtool, with cheap scrypt unless that cannot be built.
func cli(c *eng.Ctx) (string, error) {
	return build(c, variant{name: "sigtool", dir: repo, pkg: "./src", cheap: true})
}
