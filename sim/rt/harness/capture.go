package harness

import (
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
)

// capturer holds what the process prints to its standard streams, and the
// reports of the race detector.
type capturer struct {
	f       *os.File
	racePfx string
	raceOff map[string]int64
}

// newCapturer redirects descriptors 1 and 2 into a file.
func newCapturer(path, racePfx string) (*capturer, error) {
	f, err := os.OpenFile(path, os.O_CREATE|os.O_RDWR|os.O_APPEND|os.O_TRUNC, 0o644)
	if err != nil {
		return nil, err
	}
	if err := syscall.Dup2(int(f.Fd()), 1); err != nil {
		return nil, err
	}
	if err := syscall.Dup2(int(f.Fd()), 2); err != nil {
		return nil, err
	}
	return &capturer{f: f, racePfx: racePfx, raceOff: map[string]int64{}}, nil
}

func (c *capturer) mark() int64 {
	st, err := c.f.Stat()
	if err != nil {
		return 0
	}
	return st.Size()
}

func (c *capturer) since(m int64) string {
	n := c.mark() - m
	if n <= 0 {
		return ""
	}
	if n > 4096 {
		n = 4096
	}
	b := make([]byte, n)
	k, _ := c.f.ReadAt(b, m)
	return string(b[:k])
}

// newRaces returns the reports written since the last call.
func (c *capturer) newRaces() []string {
	if c.racePfx == "" {
		return nil
	}
	files, _ := filepath.Glob(c.racePfx + ".*")
	sort.Strings(files)
	var out []string
	for _, fn := range files {
		b, err := os.ReadFile(fn)
		if err != nil {
			continue
		}
		off := c.raceOff[fn]
		if int64(len(b)) <= off {
			continue
		}
		c.raceOff[fn] = int64(len(b))
		for _, blk := range strings.Split(string(b[off:]), "==================") {
			blk = strings.TrimSpace(blk)
			if strings.Contains(blk, "DATA RACE") {
				out = append(out, blk)
			}
		}
	}
	return out
}

// raceSides finds the source lines of the two accesses of a race report.
func raceSides(blk string) []string {
	var sides []string
	take := false
	var frames []string
	flush := func() {
		if !take {
			return
		}
		for _, f := range frames {
			if strings.HasPrefix(f, "runtime/") || strings.HasPrefix(f, "internal/") || strings.Contains(f, "/src/runtime/") || strings.Contains(f, "internal/race") {
				continue
			}
			sides = append(sides, f)
			break
		}
		frames, take = nil, false
	}
	for _, l := range strings.Split(blk, "\n") {
		t := strings.TrimSpace(l)
		if strings.Contains(t, " at 0x") && strings.Contains(t, " by ") {
			flush()
			take = true
			continue
		}
		if strings.HasPrefix(t, "Goroutine ") || t == "" {
			flush()
			continue
		}
		if take && strings.Contains(t, ".go:") {
			frames = append(frames, strings.Fields(t)[0])
		}
	}
	flush()
	return sides
}

// realRace tells whether a report concerns the code under test: accesses of
// the ANTLR runtime are invisible to the detector here (see DESIGN.md), and
// so is the simulator's own bookkeeping.
func realRace(blk string) bool {
	s := raceSides(blk)
	if len(s) < 2 {
		return len(s) == 1 && !own(s[0])
	}
	if strings.Contains(s[0], "simrt/") || strings.Contains(s[1], "simrt/") || strings.Contains(s[0], "sync/ssync.go") || strings.Contains(s[1], "sync/ssync.go") {
		return false
	}
	// What the ANTLR runtime touches is its own, whatever the detector says
	// about the other side: it misses the calling function of a map read.
	if strings.Contains(s[0], "antlr/") || strings.Contains(s[1], "antlr/") {
		return false
	}
	return !own(s[0]) || !own(s[1])
}

func own(f string) bool {
	return strings.Contains(f, "antlr/") || strings.Contains(f, "verifsim/") || strings.Contains(f, "simrt/")
}
