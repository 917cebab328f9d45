package harness

import (
	"encoding/json"
	"fmt"
	"io"
	"net/mail"
	"strings"
	"testing"
	"testing/synctest"
	"time"
	_ "time/tzdata" // zones for the simulated hosts

	"verifsim/simreset"
	"verifsim/simrt"

	rfc5322 "github.com/ProtonMail/go-rfc5322"
)

// outcome is what one operation did.
type outcome struct {
	op       *Op
	input    string
	handler  int
	kind     string // value, error, panic, exit, none (never finished)
	list     []*mail.Address
	snap     []Mailbox // the list as returned (updated by the owner's own changes)
	t        time.Time
	err      error
	errText  string
	panicVal interface{}
	start    int64
	end      int64
	steps    int64
	lib      int64
	ctx      *callCtx
	isDate   bool
	nilList  bool
	phase    int
	thread   int
	index    int
	monoLo   int64
	monoHi   int64
	changed  bool      // the input is no longer what was passed
	asRet    []Mailbox // the list as the call returned it
	orig     []*mail.Address
	origList []*mail.Address
}

// first is the outcome as the call returned it, before its owner's changes.
func (o *outcome) first() *outcome {
	c := *o
	c.snap = o.asRet
	return &c
}

func snapshot(l []*mail.Address) []Mailbox {
	out := make([]Mailbox, len(l))
	for i, a := range l {
		if a == nil {
			out[i] = Mailbox{"<nil>", "<nil>"}
		} else {
			out[i] = Mailbox{strings.Clone(a.Name), strings.Clone(a.Address)}
		}
	}
	return out
}

func same(a, b []Mailbox) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// runCall performs one parser call on the current thread.
func runCall(op *Op, handler int, rs *runStats) *outcome {
	o := &outcome{op: op, input: strings.Clone(op.Input()), handler: handler, kind: "none", isDate: op.Kind == KDate}
	o.ctx = &callCtx{op: op, handler: handler, fired: rs}
	t := simrt.Current()
	t.Op = o.ctx
	before, lib := t.Steps(), t.LibSteps()
	o.start = simrt.Seq()
	o.monoLo = simrt.Mono()
	body := func() {
		normal := false
		defer func() {
			if normal {
				return
			}
			if r := recover(); r != nil {
				o.kind = "panic"
				o.panicVal = r
			} else {
				o.kind = "exit"
			}
		}()
		if o.isDate {
			v, err := rfc5322.ParseDateTime(o.input)
			o.t = v
			o.kind = "value"
			if err != nil {
				o.kind, o.err, o.errText = "error", err, strings.Clone(err.Error())
			}
		} else {
			l, err := rfc5322.ParseAddressList(o.input)
			o.list = l
			o.nilList = l == nil
			o.kind = "value"
			if err != nil {
				o.kind, o.err, o.errText = "error", err, strings.Clone(err.Error())
			}
			o.snap = snapshot(l)
			o.asRet = o.snap
			o.origList = l
			o.orig = append([]*mail.Address(nil), l...)
		}
		normal = true
	}
	exits := false
	for _, c := range op.Plan {
		if c.Abort == "exit" || (c.Nested != nil && c.Nested.aborts()) {
			exits = true
		}
	}
	if exits {
		simrt.Isolate(body)
	} else {
		body()
	}
	o.ctx.returned = true
	o.changed = o.input != op.Input()
	o.end = simrt.Seq()
	o.monoHi = simrt.Mono()
	o.steps = simrt.Current().Steps() - before
	o.lib = simrt.Current().LibSteps() - lib
	h := uint64(len(o.kind))
	for _, m := range o.snap {
		for i := 0; i < len(m.Name); i++ {
			h = h*31 + uint64(m.Name[i])
		}
		for i := 0; i < len(m.Addr); i++ {
			h = h*37 + uint64(m.Addr[i])
		}
	}
	simrt.Note(h)
	if o.isDate {
		simrt.Note(uint64(o.t.Unix()))
	}
	return o
}

// record of one run.
type record struct {
	sc       *Scenario
	ops      []*outcome // in order of phase, thread, index; never reached ones are absent
	out      simrt.Outcome
	outs     []simrt.Outcome
	stats    simrt.Stats
	sched    []simrt.Entry
	complete bool // whole schedule recorded
	walls    []simrt.WallStep
	rs       runStats
	stdout   string
	races    []string
	crashes  []string
	leftover bool
	leaks    []string
	host     *host
	rounds   []round
	early    int // calls of rounds whose outcomes were not kept
}

func setHandler(h int) {
	if h == 0 {
		rfc5322.CharsetReader = nil
		return
	}
	rfc5322.CharsetReader = func(charset string, input io.Reader) (io.Reader, error) {
		return handle(h, charset, input)
	}
}

func location(tz string) *time.Location {
	if tz == "" || tz == "UTC" {
		return time.UTC
	}
	if strings.HasPrefix(tz, "fixed:") {
		var h, m int
		var sign byte
		fmt.Sscanf(tz[6:], "%c%2d%2d", &sign, &h, &m)
		s := h*3600 + m*60
		if sign == '-' {
			s = -s
		}
		return time.FixedZone("SIM", s)
	}
	l, err := time.LoadLocation(tz)
	if err != nil {
		panic(err)
	}
	return l
}

// mutate changes a result the way its owner may.
func mutate(o *outcome, how int, tag string) {
	l := o.list
	switch how % 5 {
	case 0: // overwrite every entry
		for i, a := range l {
			if a != nil {
				a.Name = fmt.Sprintf("changed %s %d", tag, i)
				a.Address = fmt.Sprintf("%s-%d@changed.invalid", tag, i)
			}
			simrt.R(0)
		}
	case 1: // reverse the list
		for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
			l[i], l[j] = l[j], l[i]
			simrt.R(0)
		}
	case 2: // extend the list
		for k := 0; k < 3; k++ {
			l = append(l, &mail.Address{Name: fmt.Sprintf("added %s %d", tag, k), Address: tag + "@added.invalid"})
			simrt.R(0)
		}
		o.list = l
	case 3: // replace the entries
		for i := range l {
			l[i] = &mail.Address{Name: "replaced " + tag, Address: fmt.Sprintf("%s-%d@replaced.invalid", tag, i)}
			simrt.R(0)
		}
	case 4: // empty the list, fill it again
		n := len(l)
		l = l[:0]
		for k := 0; k < n; k++ {
			l = append(l, &mail.Address{Name: "filled " + tag, Address: fmt.Sprintf("%s-%d@filled.invalid", tag, k)})
			simrt.R(0)
		}
		o.list = l
	}
	o.snap = snapshot(o.list)
}

// execute runs a scenario in a bubble of its own.
func execute(t *testing.T, sc *Scenario, capture *capturer) *record {
	rec := &record{sc: sc}
	abortSeq = 0
	time.Local = location(sc.TZ)
	simrt.SetOutside(sc.Wall)
	mark := capture.mark()
	races := simrt.RaceErrors()
	bubble(t, func(t *testing.T) {
		simreset.All()
		simrt.Begin(simrt.Config{Seed: sc.Seed, Policy: sc.Policy, Mean: sc.Mean, Weight: sc.Weight, Changes: sc.Changes,
			Replay: sc.Schedule, Explicit: sc.Explicit, MaxSteps: maxSteps(sc), Wall: sc.Wall, Tick: sc.Tick})
		for pi := range sc.Phases {
			ph := &sc.Phases[pi]
			if ph.Restart && pi > 0 {
				simreset.All()
				rec.rs.hit("process restart")
			}
			setHandler(ph.Handler)
			if sc.Prop == "C19" {
				if rec.host == nil {
					rec.host = newHost()
					simrt.Watch(func() bool { return rec.host.glance("while calls were going on") })
				}
				rec.host.installed()
			}
			results := make([][]*outcome, len(ph.Threads))
			for ti := range ph.Threads {
				ti := ti
				caller := &ph.Threads[ti]
				results[ti] = make([]*outcome, len(caller.Ops))
				simrt.Spawn(fmt.Sprintf("caller %d.%d", pi, ti), func() {
					for oi, op := range caller.Ops {
						switch op.Kind {
						case KWall:
							simrt.G(0)
							simrt.SetWall(op.Wall)
							rec.rs.hit("clock step")
							simrt.G(0)
						case KSleep:
							simrt.Pause(op.Dur)
						case KMutate:
							if op.Target < oi && results[ti][op.Target] != nil && results[ti][op.Target].kind == "value" {
								mutate(results[ti][op.Target], op.How, fmt.Sprintf("p%dt%do%d", pi, ti, oi))
								rec.rs.hit("result modified by its owner")
							}
						default:
							o := runCall(op, ph.Handler, &rec.rs)
							o.phase, o.thread, o.index = pi, ti, oi
							results[ti][oi] = o
							if rec.host != nil {
								rec.host.look("after " + o.where())
							}
						}
					}
				})
			}
			rec.out = simrt.Loop()
			if sc.Prop == "C20" && rec.out.Kind == "" {
				rec.closeRound(results)
			}
			for _, r := range results {
				for _, o := range r {
					if o != nil {
						rec.ops = append(rec.ops, o)
					}
				}
			}
			if rec.out.Kind == "deadlock" || rec.out.Kind == "steps" {
				break
			}
		}
		if rec.host != nil && rec.out.Kind == "" {
			timersLeft(rec)
		}
		if rec.host != nil {
			rec.host.look("at the end")
		}
		for _, th := range simrt.Threads() {
			if th.Crash != "" {
				rec.crashes = append(rec.crashes, fmt.Sprintf("%s died: %s", th.Name, th.Crash))
			}
		}
		rec.leftover = rec.out.Kind != ""
		rec.stats = simrt.Result()
		rec.sched, rec.complete = simrt.Recorded()
		rec.walls = simrt.Walls()
		simrt.End()
		if rec.leftover {
			// Blocked goroutines would make the bubble panic: the caller
			// reports from here and ends the process.
			rec.stdout = capture.since(mark)
			if n := simrt.RaceErrors() - races; n > 0 {
				rec.races = capture.newRaces()
			}
			finalReport(rec)
		}
	})
	rec.stdout = capture.since(mark)
	if n := simrt.RaceErrors() - races; n > 0 {
		rec.races = capture.newRaces()
	}
	return rec
}

// bubble runs f in a synctest bubble. The testing package ends the goroutine
// of a test in which the race detector reported something, so it gets one.
func bubble(t *testing.T, f func(t *testing.T)) {
	done := make(chan struct{})
	go func() {
		defer close(done)
		synctest.Test(t, f)
	}()
	<-done
}

// finalReport is set by the worker: it reports a run after which the process
// cannot go on, and does not return.
var finalReport func(rec *record)

// noSolo is set once the process is about to end.
var noSolo bool

// soloCache remembers what calls return on their own.
var soloCache = map[string]*outcome{}

// solo runs the call alone in a freshly started process.
func solo(t *testing.T, sc *Scenario, op *Op, handler int, wall int64, capture *capturer) *outcome {
	key := func() string {
		b, _ := json.Marshal(op)
		y := ""
		if op.Kind == KDate {
			y = fmt.Sprint(sc.TZ, wall)
		}
		return fmt.Sprint(string(b), handler, y)
	}()
	if o, ok := soloCache[key]; ok {
		return o
	}
	s := &Scenario{Prop: sc.Prop, Seed: 1, Policy: simrt.PolSerial, Mean: [3]int64{1, 1, 1}, Weight: [3]int{1, 1, 1},
		TZ: sc.TZ, Wall: wall, Tick: 0,
		Phases: []Phase{{Handler: handler, Threads: []Caller{{Ops: []*Op{op}}}}}}
	if noSolo {
		o := soloApart(s, op)
		if o != nil {
			soloCache[key] = o
		}
		return o
	}
	saved := finalReport
	finalReport = func(rec *record) {
		rec.sc = s
		saved(rec)
	}
	rec := execute(t, s, capture)
	finalReport = saved
	var o *outcome
	if len(rec.ops) == 1 {
		o = rec.ops[0]
	} else {
		o = &outcome{op: op, kind: "none"}
	}
	if len(soloCache) > 3000 {
		soloCache = map[string]*outcome{}
	}
	soloCache[key] = o
	return o
}

// maxSteps is the number of scheduling points a run may pass: every call its
// bound, and as much again for waiting.
func maxSteps(sc *Scenario) int64 {
	if sc.MaxSteps > 0 {
		return sc.MaxSteps
	}
	n := int64(100_000_000)
	var add func(op *Op)
	add = func(op *Op) {
		if op.Kind == KAddr || op.Kind == KDate {
			n += 2 * stepBound(len(op.Input()))
		}
		for _, c := range op.Plan {
			if c.Nested != nil {
				add(c.Nested)
			}
		}
	}
	for _, ph := range sc.Phases {
		for _, c := range ph.Threads {
			for _, op := range c.Ops {
				add(op)
			}
		}
	}
	if n > runSteps {
		n = runSteps
	}
	return n
}

const runSteps = 4_000_000_000
