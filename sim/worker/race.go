//go:build race

package main

import (
	"fmt"
	"os"
	"runtime"
	"strings"
)

const raceBuild = true

func raceErrors() int { return runtime.RaceErrors() }

var raceOff int64

// raceText returns the new race reports that concern the library: at least one
// of the two accesses must be made by code of the repository itself (the
// harness is single-threaded by construction and has races of its own).
func raceText() string {
	path := fmt.Sprintf("%s.%d", os.Getenv("VSIM_RACELOG"), os.Getpid())
	f, err := os.Open(path)
	if err != nil {
		return ""
	}
	defer f.Close()
	f.Seek(raceOff, 0)
	buf := make([]byte, 1<<20)
	n, _ := f.Read(buf)
	raceOff += int64(n)
	var keep []string
	for _, rep := range strings.Split(string(buf[:n]), "==================\n") {
		if strings.Contains(rep, "DATA RACE") && libRace(rep) {
			keep = append(keep, rep)
		}
	}
	s := strings.Join(keep, "\n")
	if len(s) > 6000 {
		s = s[:6000]
	}
	return s
}

// libRace: both accesses happen with the library on the stack, and at least
// one of them directly in it.
func libRace(rep string) bool {
	lines := strings.Split(rep, "\n")
	type acc struct {
		frames []string
	}
	var accs []acc
	in := false
	for i := 0; i < len(lines); i++ {
		l := lines[i]
		if strings.Contains(l, " at 0x") && strings.Contains(l, "by ") {
			accs = append(accs, acc{})
			in = true
			continue
		}
		if strings.TrimSpace(l) == "" || strings.HasPrefix(l, "Goroutine") {
			in = false
			continue
		}
		if in && strings.HasPrefix(l, "      ") {
			accs[len(accs)-1].frames = append(accs[len(accs)-1].frames, strings.TrimSpace(l))
		}
	}
	if len(accs) < 2 {
		return false
	}
	direct := 0
	for _, a := range accs[:2] {
		// the first frame that belongs to the library or to the harness decides
		// who makes the access
		repo := os.Getenv("VSIM_REPO") + "/"
		for _, f := range a.frames {
			if strings.HasPrefix(f, repo) {
				direct++
				break
			}
			if strings.Contains(f, "/vsim/") {
				break
			}
		}
	}
	return direct == 2
}
