package harness

import (
	"crypto/rand"
	"fmt"
	"log"
	"mime"
	"os"
	"os/signal"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"testing/synctest"
	"time"
	"unsafe"

	"verifsim/simrt"

	rfc5322 "github.com/ProtonMail/go-rfc5322"
)

// host is the state of the process that belongs to the host program. No call
// may change any of it, not even for a while.
type host struct {
	loc    *time.Location
	reader unsafe.Pointer
	rest   []string // everything else, as text: settings, then files
	nth    int
	bad    []string
	told   map[string]bool
}

// readerWord is the installed handler as a word.
func readerWord() unsafe.Pointer {
	return *(*unsafe.Pointer)(unsafe.Pointer(&rfc5322.CharsetReader))
}

// newHost takes the state as the host has set it up.
func newHost() *host {
	h := &host{told: map[string]bool{}, rest: surroundings()}
	h.installed()
	return h
}

// installed notes what the host itself has just set.
func (h *host) installed() {
	h.loc, h.reader = time.Local, readerWord()
}

func (h *host) tell(when, what string) bool {
	if h.told[what] {
		return false
	}
	h.told[what] = true
	h.bad = append(h.bad, what+" "+when)
	return true
}

// glance looks, in the middle of whatever goes on, at what another part of
// the host may read at that moment.
func (h *host) glance(when string) bool {
	new := false
	if time.Local != h.loc {
		new = h.tell(when, "the host's time zone is another one") || new
	}
	if readerWord() != h.reader {
		new = h.tell(when, "CharsetReader is another one than the host has installed") || new
	}
	if h.nth++; h.nth%8 == 0 {
		for i, now := range settings() {
			if now != h.rest[i] {
				new = h.tell(when, fmt.Sprintf("what belongs to the host has changed: %s, now %s", clip(h.rest[i]), clip(now))) || new
			}
		}
	}
	return new
}

// look compares everything.
func (h *host) look(when string) {
	h.glance(when)
	now := surroundings()
	for i := range now {
		if now[i] != h.rest[i] {
			h.tell(when, fmt.Sprintf("what belongs to the host has changed: %s, now %s", clip(h.rest[i]), clip(now[i])))
		}
	}
}

// surroundings describes the parts of a process that its packages share.
func surroundings() []string {
	return append(settings(),
		"open files "+listed("/proc/self/fd"),
		"files in the working directory "+listed("."),
		"files in the temporary directory "+listed(os.TempDir()))
}

// settings are those that are not files.
func settings() []string {
	var out []string
	add := func(k string, v interface{}) { out = append(out, fmt.Sprintf("%s %v", k, v)) }
	add("environment", os.Environ())
	wd, _ := os.Getwd()
	add("working directory", wd)
	add("arguments", os.Args)
	add("standard streams", fmt.Sprintf("%p %p %p", os.Stdin, os.Stdout, os.Stderr))
	add("log settings", fmt.Sprintf("%d %q %p", log.Flags(), log.Prefix(), log.Writer()))
	add("GOMAXPROCS", runtime.GOMAXPROCS(0))
	gc := debug.SetGCPercent(gcPercent)
	add("GC percentage", gc)
	ms := debug.SetMaxStack(maxStack)
	add("stack limit", ms)
	pf := debug.SetPanicOnFault(false)
	add("panic on fault", pf)
	add("memory limit", debug.SetMemoryLimit(-1))
	add("types of files", fmt.Sprintf("%s %s %s", mime.TypeByExtension(".eml"), mime.TypeByExtension(".txt"), mime.TypeByExtension(".ics")))
	sig := ""
	for n := syscall.Signal(1); n < 32; n++ {
		if signal.Ignored(n) {
			sig += " " + n.String()
		}
	}
	add("ignored signals", sig)
	var lim syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_NOFILE, &lim)
	add("limit of open files", fmt.Sprint(lim))
	add("random reader", fmt.Sprintf("%p", rand.Reader))
	return out
}

const (
	gcPercent = 400
	maxStack  = 1 << 30
)

// listed names the entries of a directory, race reports apart.
func listed(dir string) string {
	es, err := os.ReadDir(dir)
	if err != nil {
		return err.Error()
	}
	var out []string
	for _, e := range es {
		if !strings.HasPrefix(e.Name(), "race.") {
			out = append(out, e.Name())
		}
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

// timersLeft lets time pass after the last call: what a call has left set
// fires now.
func timersLeft(rec *record) {
	if simrt.Timers() == 0 {
		return
	}
	before := len(simrt.Threads())
	time.Sleep(2000 * time.Hour)
	synctest.Wait()
	for _, th := range simrt.Threads()[before:] {
		rec.leaks = append(rec.leaks, "a timer is left behind: "+th.Name)
	}
	if len(simrt.Threads()) > before {
		rec.out = simrt.Loop()
	}
}
