package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"verif.local/vsim"
)

// The race detector writes its reports to a file.  A report counts if both accesses
// were made by code of takenoco or by the standard library on its behalf; accesses
// the harness makes through the runtime (maps, append) do not.

var raceLogOff int64

var raceErrs int

var frameRe = regexp.MustCompile(`^  ([^ ].*)\(\)$`)

func raceLog() string {
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if strings.HasPrefix(f, "log_path=") {
			return f[len("log_path="):] + fmt.Sprintf(".%d", os.Getpid())
		}
	}
	return ""
}

// owner returns the first frame of a stack that is neither runtime nor standard library.
func owner(frames []string) string {
	for _, f := range frames {
		if strings.HasPrefix(f, "github.com/shellyln/takenoco") {
			return f
		}
		if strings.HasPrefix(f, "verif.local/") || strings.HasPrefix(f, "main.") {
			return ""
		}
	}
	return ""
}

// newRaces returns the distinct reports since the last call.
func newRaces() []string {
	n := vsim.RaceErrors()
	if n == raceErrs {
		return nil
	}
	raceErrs = n
	b, err := os.ReadFile(raceLog())
	if err != nil {
		panic("race log: " + err.Error())
	}
	if int64(len(b)) < raceLogOff {
		raceLogOff = 0
	}
	text := string(b[raceLogOff:])
	raceLogOff = int64(len(b))
	seen := map[string]bool{}
	for _, rep := range strings.Split(text, "==================") {
		if !strings.Contains(rep, "WARNING: DATA RACE") {
			continue
		}
		var stacks [][]string
		var locs []string
		var cur []string
		in := false
		flush := func() {
			if in {
				stacks = append(stacks, cur)
			}
			cur = nil
		}
		for _, l := range strings.Split(rep, "\n") {
			switch {
			case strings.Contains(l, " at 0x") && strings.Contains(l, " by "):
				flush()
				in = true
				locs = append(locs, strings.ToLower(strings.Fields(strings.TrimPrefix(strings.TrimSpace(l), "Previous "))[0]))
			case strings.HasPrefix(l, "Goroutine "):
				flush()
				in = false
			default:
				if m := frameRe.FindStringSubmatch(l); m != nil && in {
					cur = append(cur, m[1])
				}
			}
		}
		flush()
		if len(stacks) < 2 {
			continue
		}
		a, c := owner(stacks[0]), owner(stacks[1])
		if a == "" || c == "" {
			continue
		}
		x, y := locs[0]+" in "+filepath.Base(a), locs[1]+" in "+filepath.Base(c)
		if x > y {
			x, y = y, x
		}
		seen[x+" / "+y] = true
	}
	var out []string
	for s := range seen {
		out = append(out, s)
	}
	sort.Strings(out)
	return out
}
