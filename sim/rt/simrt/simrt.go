// Package simrt is the runtime of the simulator: it owns the choice of which
// thread runs, the clock, and every other source of nondeterminism that the
// instrumented code meets.
//
// One thread holds the token at any time. Instrumented code calls C, G or R
// before its statements; when the countdown of that class runs out the thread
// asks the scheduler, which may hand the token to another thread. Hand-offs
// are hidden from the race detector, so that the only happens-before edges it
// sees are those of the code under test.
package simrt

import (
	"fmt"
	"runtime"
	"sort"
	"testing/synctest"
	"time"
	"unsafe"
)

// Classes of scheduling points.
const (
	ClassC = 0 // generated parser and ANTLR runtime
	ClassG = 1 // statements touching package state, synchronisation, clock
	ClassR = 2 // every other statement of the library
	ClassF = 3 // forced: the running thread blocked or ended
)

const huge = int64(1) << 60

var bC, bG, bR int64 = huge, huge, huge

// C is a scheduling point of class C.
//
//go:norace
func C(site uint32) {
	bC--
	if bC < 0 {
		slow(ClassC, site)
	}
}

// G is a scheduling point of class G.
//
//go:norace
func G(site uint32) {
	bG--
	if bG < 0 {
		slow(ClassG, site)
	}
}

// R is a scheduling point of class R.
//
//go:norace
func R(site uint32) {
	bR--
	if bR < 0 {
		slow(ClassR, site)
	}
}

// Thread states.
const (
	stReady = iota
	stRunning
	stWaiting // on a simulated primitive
	stSleeping
	stStalled // until nothing else can run
	stExt     // on something the simulator does not own (a channel)
	stDone
)

var stateNames = [...]string{"ready", "running", "waiting", "sleeping", "stalled", "channel", "done"}

// Waiter is the condition of a waiting thread.
type Waiter interface{ SimReady() bool }

// Thread is one simulated thread.
type Thread struct {
	ID      int
	Name    string
	Harness bool        // belongs to the workload, not started by the library
	Op      interface{} // the call in progress, inherited by started threads
	wake    chan struct{}
	state   int
	wakeAt  int64
	wait    Waiter
	what    string
	cnt     [3]int64
	start   [3]int64
	fcnt    int64
	pClass  int
	pAt     int64
	pTo     int
	prio    uint64
	goid    uint64
	next    int // index into the replay list
	fnext   int
	Crash   string // panic that escaped a library-started thread
}

// State names the thread's state.
//
//go:norace
func (t *Thread) State() string {
	s := stateNames[t.state]
	if t.what != "" && (t.state == stWaiting) {
		s += " on " + t.what
	}
	return s
}

// Steps is the number of scheduling points the thread has passed.
//
//go:norace
func (t *Thread) Steps() int64 {
	n := t.cnt[0] + t.cnt[1] + t.cnt[2]
	if t == cur {
		n += t.start[0] - bC + t.start[1] - bG + t.start[2] - bR
	}
	return n
}

// LibSteps is the part of Steps passed outside the ANTLR runtime and the
// generated parser.
//
//go:norace
func (t *Thread) LibSteps() int64 {
	n := t.cnt[1] + t.cnt[2]
	if t == cur {
		n += t.start[1] - bG + t.start[2] - bR
	}
	return n
}

// Done tells whether the thread has ended.
//
//go:norace
func (t *Thread) Done() bool { return t.state == stDone }

// Entry is one scheduling decision: when thread T reaches its Nth point of
// class C (or its Nth forced switch), the token goes to thread To.
type Entry struct {
	T  int   `json:"t"`
	C  int   `json:"c"`
	N  int64 `json:"n"`
	To int   `json:"to"`
}

// Policies.
const (
	PolUniform = iota
	PolPCT
	PolBursty
	PolSerial
	NumPolicies
)

// PolicyNames names the policies.
var PolicyNames = [...]string{"uniform", "pct", "bursty", "serial"}

// Config of one run.
type Config struct {
	Seed     uint64
	Policy   int
	Mean     [3]int64 // mean gap between preemptions, by class
	Weight   [3]int   // how often each class is the preempted one
	Changes  int      // PCT: number of priority changes
	Replay   []Entry
	Explicit bool // follow Replay, take no random scheduling decision
	MaxSteps int64
	Wall     int64 // initial clock reading, unix nanoseconds
	Tick     int64 // nanoseconds that pass per scheduling point
}

// Stats of one run.
type Stats struct {
	Steps        int64
	Switches     int64
	Preempts     [3]int64
	Forced       int64
	Blocks       int64
	Sleeps       int64
	Stalls       int64
	Stalled      int64 // stalls released
	SimNanos     int64
	Jumps        int64
	ClockReads   int64
	PoolGets     int64
	PoolDrops    int64
	Spawned      int64
	SchedHash    uint64
	EventHash    uint64
	StallBlocked string // threads that could not finish while a stall lasted
	Linger       string // started by calls, still there when all had returned
	Glances      int64  // looks at the host's state from inside calls
}

const maxThreads = 4096
const maxRec = 1 << 17

var (
	active   bool
	cfg      Config
	rng      *Rand
	aux      *Rand
	cur      *Thread
	root     bool
	threads  [maxThreads]*Thread
	nThreads int
	nLive    int
	nSleep   int
	nWait    int
	nStall   int
	nExt     int
	stats    Stats
	rec      []Entry
	nRec     int
	rootF    int64
	rootNext int
	mono     int64
	wallOff  int64 // wall = mono + wallOff
	changes  int
	lowPrio  uint64
	limitHit bool
	extTry   int
	timers   int
	nap      int64
	napLeft  int64
	napFor   int64
	walls    []WallStep
	nWalls   int
	seq      int64
	sinceW   [256]int64
	sinceM   [256]int64
	nSince   int
)

// watch is asked at every scheduling decision; it tells whether it has seen
// something new.
var watch func() bool

// Watch sets a function that looks at the state of the host whenever a thread
// reaches a scheduling decision, also if it is the only thread.
//
//go:norace
func Watch(f func() bool) { watch = f }

// WallStep is a clock setting: from event Seq on, wall = mono + Off.
type WallStep struct {
	Seq, Mono, Off int64
}

// Begin prepares a run. It must be called inside the bubble.
//
//go:norace
func Begin(c Config) {
	cfg = c
	rng = NewRand(c.Seed)
	aux = NewRand(c.Seed ^ 0xA5A5A5A5)
	diceState = Rand{s: c.Seed ^ 0x3C3C3C3C}
	cur = nil
	for i := 0; i < nThreads; i++ {
		threads[i] = nil
	}
	nThreads, nLive, nSleep, nWait, nStall, nExt = 0, 0, 0, 0, 0, 0
	stats = Stats{SchedHash: 14695981039346656037, EventHash: 14695981039346656037}
	if rec == nil {
		rec = make([]Entry, maxRec)
	}
	nRec, rootF, rootNext = 0, 0, 0
	mono, wallOff = 0, c.Wall
	changes = c.Changes
	lowPrio = 1 << 32
	limitHit = false
	extTry = 0
	timers, nap, napLeft, napFor = 0, 0, 0, 0
	if walls == nil {
		walls = make([]WallStep, 1<<14)
	}
	nWalls = 1
	seq = 0
	walls[0] = WallStep{0, 0, wallOff}
	nSince = 0
	for i := 0; i < nPool; i++ {
		pools[i] = nil
	}
	nPool = 0
	runNo++
	bC, bG, bR = huge, huge, huge
	active = true
}

// End finishes a run.
//
//go:norace
func End() {
	active = false
	cur = nil
	watch = nil
	bC, bG, bR = huge, huge, huge
}

// Result returns the statistics of the run.
//
//go:norace
func Result() Stats {
	s := stats
	s.SimNanos = mono
	return s
}

// Recorded returns the scheduling decisions of the run and whether all fitted.
//
//go:norace
func Recorded() ([]Entry, bool) {
	n := nRec
	if n > maxRec {
		n = maxRec
	}
	out := make([]Entry, n)
	for i := 0; i < n; i++ {
		out[i] = rec[i]
	}
	return out, nRec <= maxRec
}

// Seq is the number of the current event; it never repeats.
//
//go:norace
func Seq() int64 {
	seq++
	return seq
}

// Note mixes an event of the workload into the event hash.
//
//go:norace
func Note(v uint64) {
	stats.EventHash = (stats.EventHash ^ v) * 1099511628211
	stats.EventHash ^= stats.EventHash >> 29
}

//go:norace
func noteSched(a, b, c uint64) {
	h := stats.SchedHash
	h = (h ^ a) * 1099511628211
	h = (h ^ b) * 1099511628211
	h = (h ^ c) * 1099511628211
	h ^= h >> 31
	stats.SchedHash = h
	Note(h)
}

// Current returns the thread holding the token.
//
//go:norace
func Current() *Thread {
	if !active {
		return nil
	}
	return ident()
}

// Active tells whether a simulation is running.
//
//go:norace
func Active() bool { return active }

// Threads returns every thread of the run.
//
//go:norace
func Threads() []*Thread {
	out := make([]*Thread, nThreads)
	for i := 0; i < nThreads; i++ {
		out[i] = threads[i]
	}
	return out
}

//go:norace
func goid() uint64 {
	var buf [40]byte
	n := runtime.Stack(buf[:], false)
	// "goroutine N ["
	var id uint64
	for i := 10; i < n && buf[i] >= '0' && buf[i] <= '9'; i++ {
		id = id*10 + uint64(buf[i]-'0')
	}
	return id
}

// ident finds the calling thread. Without threads blocked outside the
// simulator the caller is always the token holder.
//
//go:norace
func ident() *Thread {
	if nExt == 0 {
		return cur
	}
	if t := known(); t != nil {
		return t
	}
	return cur
}

// known finds the thread the calling goroutine carries.
//
//go:norace
func known() *Thread {
	id := goid()
	for i := 0; i < nThreads; i++ {
		if threads[i].goid == id && threads[i].state != stDone {
			return threads[i]
		}
	}
	return nil
}

// Adopt makes the calling goroutine carry the given thread.
//
//go:norace
func (t *Thread) Adopt() { t.goid = goid() }

//go:norace
func newThread(name string, harness bool) *Thread {
	if nThreads >= maxThreads {
		panic("simrt: too many threads")
	}
	t := &Thread{ID: nThreads, Name: name, Harness: harness, wake: make(chan struct{}, 1), state: stReady}
	t.prio = rng.Uint64()>>1 | 1<<40
	threads[nThreads] = t
	nThreads++
	nLive++
	stats.Spawned++
	return t
}

// Spawn starts a workload thread. It runs once the scheduler picks it.
func Spawn(name string, f func()) *Thread {
	t := newThread(name, true)
	go threadMain(t, f)
	return t
}

// Go starts a thread on behalf of the library.
func Go(f func()) {
	if !Active() {
		go f()
		return
	}
	p := Current()
	t := newThread("library goroutine", false)
	if p != nil {
		t.Op = p.Op
		t.Name = fmt.Sprintf("goroutine started by thread %d", p.ID)
	}
	go threadMain(t, f)
	rearm(p)
	G(0)
}

// AfterFunc replaces time.AfterFunc: f runs as a thread of the simulation.
func AfterFunc(d time.Duration, f func()) *time.Timer {
	if !Active() {
		return time.AfterFunc(d, f)
	}
	p := Current()
	name, op := "timer", interface{}(nil)
	if p != nil {
		name, op = fmt.Sprintf("timer set by thread %d", p.ID), p.Op
	}
	countTimer()
	return time.AfterFunc(d, func() {
		if !Active() {
			return
		}
		t := newThread(name, false)
		t.Op = op
		threadMain(t, f)
	})
}

//go:norace
func countTimer() { timers++ }

// Timers is the number of timers the library has set.
//
//go:norace
func Timers() int { return timers }

//go:norace
func rearm(t *Thread) {
	if t != nil && t == cur {
		account(t)
		arm(t)
	}
}

func threadMain(t *Thread, f func()) {
	t.Adopt()
	t.await()
	normal := false
	defer func() {
		if !normal {
			if r := recover(); r != nil {
				t.crashed(fmt.Sprintf("panic: %v", r))
			}
		}
		if RaceBuild {
			RaceReleaseMerge(unsafe.Pointer(&endSync))
		}
		t.finish()
	}()
	f()
	normal = true
}

var endSync byte

//go:norace
func (t *Thread) crashed(s string) { t.Crash = s }

//go:norace
func (t *Thread) await() {
	raceOff()
	<-t.wake
	raceOn()
}

//go:norace
func (t *Thread) finish() {
	if t != cur {
		// Ended while not holding the token (it came back from a channel).
		if t.state == stExt {
			nExt--
		}
		t.state = stDone
		nLive--
		return
	}
	account(t)
	t.state = stDone
	nLive--
	handOff(t)
}

// account adds the points passed since the last arming.
//
//go:norace
func account(t *Thread) {
	a, b, c := t.start[0]-bC, t.start[1]-bG, t.start[2]-bR
	t.cnt[0] += a
	t.cnt[1] += b
	t.cnt[2] += c
	n := a + b + c
	stats.Steps += n
	mono += n * cfg.Tick
	t.start[0], t.start[1], t.start[2] = bC, bG, bR
	if stats.Steps > cfg.MaxSteps && cfg.MaxSteps > 0 {
		limitHit = true
	}
}

const capSteps = 100000

// arm sets the countdowns for the thread that is about to run.
//
//go:norace
func arm(t *Thread) {
	if t.pClass < 0 || t.pAt <= t.cnt[t.pClass] || t.pTo == -2 {
		draw(t)
	}
	s := [3]int64{capSteps, capSteps, capSteps}
	if t.pClass >= 0 && (nLive > 1 || nExt > 0 || watch != nil) {
		g := t.pAt - t.cnt[t.pClass] - 1
		if g < 0 {
			g = 0
		}
		if g < s[t.pClass] {
			s[t.pClass] = g
		}
	}
	t.start = s
	bC, bG, bR = s[0], s[1], s[2]
}

// draw decides where the thread is preempted next.
//
//go:norace
func draw(t *Thread) {
	t.pClass, t.pAt, t.pTo = -1, 0, -1
	if cfg.MaxSteps > 0 && stats.Steps > cfg.MaxSteps/2 {
		// Late in the run every thread gets its turn, so that code that waits
		// for another thread by polling is not mistaken for a hang.
		t.pClass = rng.Intn(3)
		t.pAt = t.cnt[t.pClass] + rng.Geo(50)
		return
	}
	if cfg.Explicit {
		for t.next < len(cfg.Replay) {
			e := &cfg.Replay[t.next]
			t.next++
			if e.T == t.ID && e.C != ClassF && e.N > t.cnt[e.C] {
				t.pClass, t.pAt, t.pTo = e.C, e.N, e.To
				return
			}
		}
		return
	}
	if cfg.Policy == PolSerial {
		return
	}
	k := ClassC
	w := rng.Intn(cfg.Weight[0] + cfg.Weight[1] + cfg.Weight[2])
	if w >= cfg.Weight[0] {
		k = ClassG
		if w >= cfg.Weight[0]+cfg.Weight[1] {
			k = ClassR
		}
	}
	m := cfg.Mean[k]
	if cfg.Policy == PolBursty {
		if rng.Chance(7, 8) {
			m = 1 + m/64
		} else {
			m *= 4
		}
	}
	t.pClass, t.pAt = k, t.cnt[k]+rng.Geo(m)
}

//go:norace
func runnable(t *Thread) bool {
	switch t.state {
	case stReady:
		return true
	case stWaiting:
		if t.wait.SimReady() {
			nWait--
			t.state = stReady
			t.wait = nil
			return true
		}
	case stSleeping:
		if t.wakeAt <= mono {
			nSleep--
			t.state = stReady
			return true
		}
	}
	return false
}

// choose picks the next thread among the runnable ones. self is the thread
// giving up the token, nil when it cannot go on.
//
//go:norace
func choose(from, self *Thread, to int) *Thread {
	var cand [64]*Thread
	n := 0
	for i := 0; i < nThreads; i++ {
		t := threads[i]
		if t.state == stDone || t == self {
			continue
		}
		if t.state == stRunning {
			continue
		}
		if runnable(t) && n < len(cand) {
			cand[n] = t
			n++
		}
	}
	late := cfg.MaxSteps > 0 && stats.Steps > cfg.MaxSteps/2
	if cfg.Explicit && !late {
		for i := 0; i < n; i++ {
			if cand[i].ID == to {
				return cand[i]
			}
		}
		if self != nil {
			return self
		}
		if n > 0 {
			return cand[0]
		}
		return nil
	}
	if self != nil && n < len(cand) {
		if cfg.Policy == PolPCT && !late {
			if changes > 0 {
				changes--
				lowPrio--
				self.prio = lowPrio
			}
			cand[n] = self
			n++
		} else if n == 0 {
			return self
		}
	}
	if n == 0 {
		return nil
	}
	if cfg.Policy == PolPCT && !late && !cfg.Explicit {
		best := cand[0]
		for i := 1; i < n; i++ {
			if cand[i].prio > best.prio {
				best = cand[i]
			}
		}
		return best
	}
	return cand[rng.Intn(n)]
}

//go:norace
func record(e Entry) {
	if nRec < maxRec {
		rec[nRec] = e
	}
	nRec++
}

// slow is entered when a countdown has run out.
//
//go:norace
func slow(class int, site uint32) {
	if active && cur == nil && nExt > 0 {
		// A thread that came back from outside while nothing else runs.
		if me := known(); me != nil {
			me.comeBack()
			return
		}
	}
	if !active || cur == nil {
		if class == ClassC {
			bC = huge
		} else if class == ClassG {
			bG = huge
		} else {
			bR = huge
		}
		return
	}
	t := cur
	if nExt > 0 {
		if me := ident(); me != t {
			// A thread that came back from outside without a hook.
			me.comeBack()
			return
		}
	}
	account(t)
	if limitHit {
		t.state = stWaiting
		nWait++
		t.wait = never{}
		t.what = "step limit"
		cur = nil
		t.await()
		return
	}
	if t.pClass < 0 || t.cnt[t.pClass] < t.pAt || nLive <= 1 && watch == nil {
		arm(t)
		return
	}
	seen := false
	if watch != nil {
		stats.Glances++
		seen = watch()
	}
	to := choose(t, t, t.pTo)
	if to == nil {
		to = t
	}
	t.pTo = -2
	if to != t {
		stats.Preempts[class]++
		record(Entry{t.ID, t.pClass, t.pAt, to.ID})
		noteSched(uint64(t.ID)<<8|uint64(class), uint64(site), uint64(to.ID))
		t.state = stReady
		give(to)
		t.await()
	} else if seen {
		// A replay has to look here as well.
		record(Entry{t.ID, t.pClass, t.pAt, t.ID})
	}
	arm(t)
}

type never struct{}

//go:norace
func (never) SimReady() bool { return false }

//go:norace
func give(to *Thread) {
	stats.Switches++
	to.state = stRunning
	cur = to
	arm(to)
	raceOff()
	to.wake <- struct{}{}
	raceOn()
}

// handOff passes the token on because from cannot run.
//
//go:norace
func handOff(from *Thread) {
	if limitHit {
		cur = nil
		return
	}
	n := from.fcnt
	from.fcnt++
	to := forced(from.ID, n, &from.fnext)
	if to == nil {
		cur = nil // the root goroutine takes over
		return
	}
	give(to)
}

//go:norace
func forced(fid int, n int64, next *int) *Thread {
	want := -1
	if cfg.Explicit {
		for *next < len(cfg.Replay) {
			e := &cfg.Replay[*next]
			if e.T == fid && e.C == ClassF {
				if e.N > n {
					break
				}
				if e.N == n {
					want = e.To
					*next++
					break
				}
			}
			*next++
		}
	}
	to := choose(nil, nil, want)
	if to == nil {
		return nil
	}
	stats.Forced++
	record(Entry{fid, ClassF, n, to.ID})
	noteSched(uint64(fid+1)<<8|ClassF, uint64(n), uint64(to.ID))
	return to
}

// Await blocks the calling thread until w is ready.
//
//go:norace
func Await(w Waiter, what string) {
	if w.SimReady() {
		return
	}
	if !active {
		panic("simrt: would block for ever outside a simulation: " + what)
	}
	for !w.SimReady() {
		t := ident()
		if t == nil {
			panic("simrt: would block for ever: " + what)
		}
		if t != cur {
			t.comeBack()
			continue
		}
		account(t)
		stats.Blocks++
		t.state = stWaiting
		nWait++
		t.wait = w
		t.what = what
		handOff(t)
		t.await()
		t.what = ""
		arm(t)
	}
}

// Pause lets the calling thread sleep on the simulated clock.
//
//go:norace
func Pause(d int64) {
	t := Current()
	if t == nil || d <= 0 {
		return
	}
	if t != cur {
		t.comeBack()
	}
	account(t)
	stats.Sleeps++
	t.state = stSleeping
	t.wakeAt = mono + d
	nSleep++
	handOff(t)
	t.await()
	arm(t)
}

// Stall blocks the calling thread until nothing else can run.
//
//go:norace
func Stall() {
	t := Current()
	if t == nil {
		return
	}
	if t != cur {
		t.comeBack()
	}
	account(t)
	stats.Stalls++
	t.state = stStalled
	nStall++
	handOff(t)
	t.await()
	arm(t)
}

// Gosched replaces runtime.Gosched: it lets another thread run.
//
//go:norace
func Gosched() {
	if !active {
		return
	}
	t := ident()
	if t == nil {
		return
	}
	if t != cur {
		t.comeBack()
		return
	}
	account(t)
	if limitHit {
		Await(never{}, "step limit")
	}
	stats.Steps += 10
	t.state = stReady
	n := t.fcnt
	t.fcnt++
	to := forced(t.ID, n, &t.fnext)
	if to == nil || to == t {
		t.state = stRunning
		arm(t)
		return
	}
	give(to)
	t.await()
	arm(t)
}

// Isolate runs f on a goroutine of its own that carries the calling thread,
// so that f may end its goroutine.
func Isolate(f func()) {
	t := Current()
	done := make(chan struct{})
	go func() {
		defer close(done)
		t.Adopt()
		f()
	}()
	<-done
	t.Adopt()
}

// comeBack parks a thread that returned from outside the simulator.
//
//go:norace
func (t *Thread) comeBack() {
	if t.state == stExt {
		nExt--
	}
	t.state = stReady
	t.await()
	arm(t)
}

// AC follows every channel operation of the library.
//
//go:norace
func AC() {
	if !active {
		return
	}
	t := known()
	if t == nil {
		return
	}
	if t != cur {
		t.comeBack()
		return
	}
	// Let every thread this operation woke reach its own hook.
	account(t)
	t.state = stReady
	cur = nil
	t.await()
	arm(t)
}

// Recv replaces a receive operation of the library.
func Recv[T any](c <-chan T) T {
	v := <-c
	AC()
	return v
}

// Recv2 replaces a receive operation that yields two values.
func Recv2[T any](c <-chan T) (T, bool) {
	v, ok := <-c
	AC()
	return v, ok
}

// Close replaces close.
func Close[T any](c chan<- T) {
	close(c)
	AC()
}

// Outcome of Loop.
type Outcome struct {
	Kind     string // "", "deadlock", "steps"
	Detail   string
	Leftover []*Thread
}

// Loop drives the run from the root goroutine of the bubble until every
// thread has ended or none can go on.
//
//go:norace
func Loop() Outcome {
	for {
		raceOff()
		synctest.Wait()
		raceOn()
		if cur != nil {
			t := cur
			if t.state == stRunning {
				account(t)
				t.state = stExt
				nExt++
				// Its next point, whenever that is, leads back here.
				bC, bG, bR = 0, 0, 0
			}
			cur = nil
		}
		if nLive == 0 {
			if RaceBuild {
				RaceAcquire(unsafe.Pointer(&endSync))
			}
			return Outcome{}
		}
		if limitHit {
			return Outcome{Kind: "steps", Detail: fmt.Sprintf("no end after %d steps: %s", stats.Steps, describe())}
		}
		t := forced(-1, rootF, &rootNext)
		rootF++
		if t != nil {
			extTry = 0
			give(t)
			continue
		}
		if stats.Linger == "" && (nSleep > 0 || nExt > 0 || nWait > 0) && !harnessLives() {
			stats.Linger = describe()
		}
		if nSleep > 0 {
			min := int64(-1)
			for i := 0; i < nThreads; i++ {
				if threads[i].state == stSleeping && (min < 0 || threads[i].wakeAt < min) {
					min = threads[i].wakeAt
				}
			}
			if nExt > 0 || timers > 0 {
				// Timers of the library live on the bubble's clock. It goes
				// along in steps, so that what expires first runs first.
				if left := min - mono; napLeft <= 0 || napFor != min {
					napFor, napLeft, nap = min, left, left/32
					if nap < int64(time.Millisecond) {
						nap = int64(time.Millisecond)
					}
				}
				d := nap
				if d > napLeft {
					d = napLeft
				}
				napLeft -= d
				mono += d
				if mono > min || napLeft <= 0 {
					mono = min
				}
				raceOff()
				time.Sleep(time.Duration(d))
				raceOn()
				continue
			}
			mono = min
			continue
		}
		if nExt > 0 && extTry < 4 {
			d := [...]time.Duration{time.Millisecond, time.Second, time.Hour, 100 * time.Hour}[extTry]
			extTry++
			mono += int64(d)
			raceOff()
			time.Sleep(d)
			raceOn()
			continue
		}
		extTry = 0
		if nStall > 0 {
			if (nWait > 0 || nExt > 0) && stats.StallBlocked == "" {
				if b := blockedHarness(); b != "" {
					stats.StallBlocked = b
				}
			}
			k := 0
			if !cfg.Explicit {
				k = rng.Intn(nStall)
			}
			for i := 0; i < nThreads; i++ {
				if threads[i].state == stStalled {
					if k == 0 {
						threads[i].state = stReady
						nStall--
						stats.Stalled++
						mono += int64(time.Hour)
						break
					}
					k--
				}
			}
			continue
		}
		var o Outcome
		for i := 0; i < nThreads; i++ {
			if threads[i].state != stDone {
				o.Leftover = append(o.Leftover, threads[i])
			}
		}
		if RaceBuild {
			RaceAcquire(unsafe.Pointer(&endSync))
		}
		o.Kind = "idle"
		for i := 0; i < len(o.Leftover); i++ {
			if o.Leftover[i].Harness {
				o.Kind = "deadlock"
			}
		}
		o.Detail = describe()
		return o
	}
}

//go:norace
func harnessLives() bool {
	for i := 0; i < nThreads; i++ {
		if threads[i].Harness && threads[i].state != stDone {
			return true
		}
	}
	return false
}

//go:norace
func blockedHarness() string {
	s := ""
	for i := 0; i < nThreads; i++ {
		t := threads[i]
		if t.state == stWaiting || t.state == stExt {
			if s != "" {
				s += "; "
			}
			s += fmt.Sprintf("thread %d (%s) %s", t.ID, t.Name, t.State())
		}
	}
	return s
}

//go:norace
func describe() string {
	s := ""
	for i := 0; i < nThreads; i++ {
		t := threads[i]
		if t.state == stDone {
			continue
		}
		if s != "" {
			s += "; "
		}
		s += fmt.Sprintf("thread %d (%s) %s", t.ID, t.Name, t.State())
	}
	return s
}

// Shuffle permutes n items with the simulator's generator.
//
//go:norace
func Shuffle(n int, swap func(i, j int)) {
	if !active {
		return
	}
	for i := n - 1; i > 0; i-- {
		swap(i, aux.Intn(i+1))
	}
}

// Coin draws from the simulator's generator.
//
//go:norace
func Coin(n int) int {
	if !active {
		return 0
	}
	return aux.Intn(n)
}

// CountPool counts pool traffic.
//
//go:norace
func CountPool(drop bool) {
	stats.PoolGets++
	if drop {
		stats.PoolDrops++
	}
}

// pools empty the pools in use, as a collection does.
var (
	pools [256]func()
	nPool int
	runNo int64
)

// NewPool tells whether the pool that keeps *known is new to this run.
//
//go:norace
func NewPool(known *int64) bool {
	if *known == runNo {
		return false
	}
	*known = runNo
	return true
}

// AddPool registers a pool.
//
//go:norace
func AddPool(drain func()) {
	if nPool < len(pools) {
		pools[nPool] = drain
		nPool++
	}
}

var ended = &Thread{Name: "ended", Harness: true, state: stDone}

// Forget drops what the simulator keeps of threads that have ended, and
// empties all pools, so that what is left in memory is the library's doing.
//
//go:norace
func Forget() {
	for i := 0; i < nPool; i++ {
		pools[i]()
	}
	for i := 0; i < nThreads; i++ {
		if threads[i].state == stDone && threads[i].Crash == "" {
			threads[i] = ended
		}
	}
}

type resetFn struct {
	path string
	fn   func()
}

var resets []resetFn

// RegisterReset is called by the init function of every instrumented package,
// which is in dependency order.
func RegisterReset(path string, fn func()) { resets = append(resets, resetFn{path, fn}) }

// ResetAll puts all package state back to what it is when a process starts.
func ResetAll() {
	for _, r := range resets {
		r.fn()
	}
}

// ResetPackages lists what ResetAll covers.
func ResetPackages() []string {
	var out []string
	for _, r := range resets {
		out = append(out, r.path)
	}
	sort.Strings(out)
	return out
}
