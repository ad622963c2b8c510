package main

import (
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
)

// builder makes the simulation workers from the current working tree.
type builder struct {
	repo, verif, dir string
	goroot           string
	overlay          string
	Instr            *instrStats
	NoWrapper        bool
}

func newBuilder(repo, verif, dir string) (*builder, error) {
	out, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return nil, fmt.Errorf("go env: %v", err)
	}
	b := &builder{repo: repo, verif: verif, dir: dir, goroot: strings.TrimSpace(string(out))}
	b.overlay, b.Instr, err = buildOverlay(b.goroot, repo, verif, filepath.Join(dir, "ov"))
	if err != nil {
		return nil, err
	}
	mod := filepath.Join(dir, "vsim")
	for _, d := range []string{"core", "simnet", "cfake", "worlds", "worker"} {
		if err := copyTree(filepath.Join(verif, "sim", d), filepath.Join(mod, d)); err != nil {
			return nil, err
		}
	}
	if err := b.wrapper(true); err != nil {
		return nil, err
	}
	gm, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return nil, err
	}
	var reqs []string
	in := false
	for _, l := range strings.Split(string(gm), "\n") {
		t := strings.TrimSpace(l)
		switch {
		case strings.HasPrefix(t, "require ("), strings.HasPrefix(t, "replace ("):
			in = true
			reqs = append(reqs, l)
		case in:
			reqs = append(reqs, l)
			if t == ")" {
				in = false
			}
		case strings.HasPrefix(t, "require "), strings.HasPrefix(t, "replace "):
			reqs = append(reqs, l)
		}
	}
	txt := "module vsim\n\ngo 1.27\n\nrequire github.com/SKAARHOJ/rawpanel-lib v0.0.0\n\nreplace github.com/SKAARHOJ/rawpanel-lib => " + repo + "\n\n" + strings.Join(reqs, "\n") + "\n"
	if err := os.WriteFile(filepath.Join(mod, "go.mod"), []byte(txt), 0o644); err != nil {
		return nil, err
	}
	gs, err := os.ReadFile(filepath.Join(repo, "go.sum"))
	if err != nil {
		return nil, err
	}
	return b, os.WriteFile(filepath.Join(mod, "go.sum"), gs, 0o644)
}

// wrapper puts the C wrapper (or a stub) into the simulation: the same source,
// with a stand-in for cgo's allocation functions.
func (b *builder) wrapper(real bool) error {
	dst := filepath.Join(b.dir, "vsim", "rplc")
	if err := os.RemoveAll(dst); err != nil {
		return err
	}
	src, err := os.ReadFile(filepath.Join(b.repo, "rawpanel-lib-c", "main.go"))
	if err != nil || !real {
		b.NoWrapper = true
		return copyTree(filepath.Join(b.verif, "sim", "rplcstub"), dst)
	}
	if err := copyTree(filepath.Join(b.verif, "sim", "rplcglue"), dst); err != nil {
		return err
	}
	t := string(src)
	t = regexp.MustCompile(`(?m)^package main\b`).ReplaceAllString(t, "package rplc")
	t = regexp.MustCompile(`(?m)^import "C"`).ReplaceAllString(t, `import C "vsim/cfake"`)
	t = regexp.MustCompile(`(?m)^(\s+)"C"\s*$`).ReplaceAllString(t, `${1}C "vsim/cfake"`)
	t = regexp.MustCompile(`\bC\.(char|int|size_t|free)\b`).ReplaceAllStringFunc(t, func(m string) string { return "C." + strings.ToUpper(m[2:3]) + m[3:] })
	return os.WriteFile(filepath.Join(dst, "main.go"), []byte(t), 0o644)
}

// build compiles one worker.
func (b *builder) build(race bool) (string, error) {
	bin, err := b.build1(race)
	if err != nil && !b.NoWrapper {
		if e := b.wrapper(false); e != nil {
			return "", e
		}
		if bin, e := b.build1(race); e == nil {
			fmt.Println("vsim: the C wrapper does not compile into the simulation, left out")
			return bin, nil
		}
	}
	return bin, err
}

func (b *builder) build1(race bool) (string, error) {
	bin := filepath.Join(b.dir, "worker")
	args := []string{"build", "-overlay", b.overlay}
	if race {
		bin += "-race"
		// the harness runs one goroutine at a time and is not what is watched; nothing
		// of the library may be inlined into it
		args = append(args, "-race", "-gcflags=vsim/...=-race=false -l")
	}
	args = append(args, "-o", bin, "./worker")
	cmd := exec.Command("go", args...)
	cmd.Dir = filepath.Join(b.dir, "vsim")
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod -buildvcs=false", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("go %s: %v\n%s", strings.Join(args, " "), err, tail(string(out), 4000))
	}
	return bin, nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

func copyTree(src, dst string) error {
	return filepath.WalkDir(src, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if d.IsDir() {
			return os.MkdirAll(filepath.Join(dst, rel), 0o755)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(dst, rel), b, 0o644)
	})
}
