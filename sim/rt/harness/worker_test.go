package harness

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"testing"
	"time"

	"verifsim/simrt"
)

// job is what the driver asks of one worker process.
type job struct {
	Mode     string    `json:"mode"` // batch, replay, solo
	Prop     string    `json:"prop"`
	Seed     uint64    `json:"seed"`
	From     int       `json:"from"` // runs [From,To)
	To       int       `json:"to"`
	Deadline int64     `json:"deadline"` // unix seconds
	Scenario *Scenario `json:"scenario"`
	Out      string    `json:"out"`
	Capture  string    `json:"capture"`
	RacePfx  string    `json:"race_prefix"`
	Trace    bool      `json:"trace"` // report every run's hashes
}

// line is one report of a worker.
type line struct {
	Kind       string       `json:"kind"` // begin, run, done, replay
	Run        int          `json:"run"`
	Violations []violation  `json:"violations,omitempty"`
	Scenario   *Scenario    `json:"scenario,omitempty"`
	SchedHash  string       `json:"sched_hash,omitempty"`
	EventHash  string       `json:"event_hash,omitempty"`
	Stats      *simrt.Stats `json:"stats,omitempty"`
	Agg        *aggregate   `json:"agg,omitempty"`
	Leftover   bool         `json:"leftover,omitempty"`
	Note       string       `json:"note,omitempty"`
	Told       *told        `json:"told,omitempty"`
}

// aggregate sums up many runs.
type aggregate struct {
	Runs       int64            `json:"runs"`
	Evals      int64            `json:"evals"`
	Calls      int64            `json:"calls"`
	Kinds      map[string]int64 `json:"kinds"`  // outcomes of calls
	Faults     map[string]int64 `json:"faults"` // faults that fired
	Policies   map[string]int64 `json:"policies"`
	Steps      int64            `json:"steps"`
	Switches   int64            `json:"switches"`
	Preempts   [3]int64         `json:"preempts"`
	Forced     int64            `json:"forced"`
	Blocks     int64            `json:"blocks"`
	Sleeps     int64            `json:"sleeps"`
	Stalls     int64            `json:"stalls"`
	Jumps      int64            `json:"jumps"`
	ClockReads int64            `json:"clock_reads"`
	PoolGets   int64            `json:"pool_gets"`
	SimNanos   int64            `json:"sim_nanos"`
	MaxSteps   int64            `json:"max_call_steps"`
	Loose      int64            `json:"calls_not_under_control"`
	MaxPerByte int64            `json:"max_steps_per_byte"`
	Hashes     []string         `json:"hashes"` // distinct schedules
	Inputs     []string         `json:"inputs"` // hashes of distinct non-trivial inputs
	Samples    []string         `json:"samples"`
	Solo       int64            `json:"solo"`
}

func newAgg() *aggregate {
	return &aggregate{Kinds: map[string]int64{}, Faults: map[string]int64{}, Policies: map[string]int64{}}
}

func (a *aggregate) add(rec *record, evals int64) {
	a.Runs++
	a.Evals += evals
	st := rec.stats
	a.Steps += st.Steps
	a.Switches += st.Switches
	for i := range st.Preempts {
		a.Preempts[i] += st.Preempts[i]
	}
	a.Forced += st.Forced
	a.Blocks += st.Blocks
	a.Sleeps += st.Sleeps
	a.Stalls += st.Stalled
	a.Jumps += st.Jumps
	a.ClockReads += st.ClockReads
	a.PoolGets += st.PoolGets
	a.SimNanos += st.SimNanos
	a.Policies[simrt.PolicyNames[rec.sc.Policy]]++
	for i := 0; i < rec.rs.n; i++ {
		a.Faults[rec.rs.kinds[i].name] += rec.rs.kinds[i].n
	}
	a.Hashes = append(a.Hashes, fmt.Sprintf("%016x", st.SchedHash^st.EventHash))
	for _, rd := range rec.rounds {
		a.Calls += int64(rd.calls)
		a.Kinds["in rounds"] += int64(rd.calls)
	}
	for _, o := range rec.ops {
		a.Calls++
		a.Kinds[o.op.Kind+" "+o.kind]++
		if o.op.Hop != "" {
			a.Faults["relay: "+o.op.Hop]++
		}
		for _, e := range o.op.Edits {
			a.Faults["damage: "+e.How]++
		}
		if o.steps > a.MaxSteps {
			a.MaxSteps = o.steps
		}
		if o.steps == 0 && o.kind == "value" {
			a.Loose++
		}
		if n := int64(len(o.input)); n > 0 && o.steps/n > a.MaxPerByte {
			a.MaxPerByte = o.steps / n
		}
		h := uint64(14695981039346656037)
		for i := 0; i < len(o.input); i++ {
			h = (h ^ uint64(o.input[i])) * 1099511628211
		}
		if len(o.input) > 0 {
			a.Inputs = append(a.Inputs, fmt.Sprintf("%x", h>>16))
		}
		if len(a.Samples) < 3 && len(o.input) < 300 {
			a.Samples = append(a.Samples, fmt.Sprintf("%s -> %s (%d threads, %d switches in the run)", o.where(), o.first().ret(), len(rec.sc.Phases[o.phase].Threads), rec.stats.Switches))
		}
	}
	if len(a.Samples) < 1 && a.Runs > 20 {
		a.Samples = append(a.Samples, "-")
	}
}

func TestSim(t *testing.T) {
	path := os.Getenv("VSIM_JOB")
	if path == "" {
		t.Skip("not under the driver")
	}
	raw, err := os.ReadFile(path)
	if err != nil {
		t.Fatal(err)
	}
	var jb job
	if err := json.Unmarshal(raw, &jb); err != nil {
		t.Fatal(err)
	}
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(gcPercent)
	debug.SetMaxStack(maxStack)
	capt, err := newCapturer(jb.Capture, jb.RacePfx)
	if err != nil {
		t.Fatal(err)
	}
	of, err := os.OpenFile(jb.Out, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	if err != nil {
		t.Fatal(err)
	}
	w := bufio.NewWriter(of)
	emit := func(l line) {
		b, err := json.Marshal(l)
		if err != nil {
			panic(err)
		}
		w.Write(b)
		w.WriteByte('\n')
		w.Flush()
	}
	agg := newAgg()
	finish := func(code int) {
		agg.Solo = int64(len(soloCache))
		emit(line{Kind: "done", Agg: agg})
		of.Close()
		os.Exit(code)
	}
	cur := 0
	report := func(rec *record) {
		v := check(t, rec, capt)
		agg.add(rec, v.evals)
		l := line{Kind: "run", Run: cur, Violations: v.v}
		if jb.Trace || jb.Mode == "replay" || len(v.v) > 0 || rec.leftover {
			l.SchedHash = fmt.Sprintf("%016x", rec.stats.SchedHash)
			l.EventHash = fmt.Sprintf("%016x", rec.stats.EventHash)
			st := rec.stats
			l.Stats = &st
			l.Leftover = rec.leftover
		}
		if len(v.v) > 0 {
			sc := clone(rec.sc)
			if rec.complete {
				sc.Explicit = true
				sc.Schedule = rec.sched
			}
			l.Scenario = sc
		}
		if agg.Runs%25 == 0 {
			agg.Solo = int64(len(soloCache))
			l.Agg = agg
		}
		emit(l)
	}
	one := func(rec *record) {
		if len(rec.ops) == 1 {
			emit(line{Kind: "solo", Told: tell(rec.ops[0])})
		}
	}
	finalReport = func(rec *record) {
		// Some threads never ended. What the others returned still counts.
		defer finish(0)
		for _, th := range rec.out.Leftover {
			if th.Harness {
				continue
			}
			if c, ok := th.Op.(*callCtx); ok && c.aborted > 0 {
				rec.leaks = append(rec.leaks, "a goroutine of an aborted call is left behind: "+th.Name)
			}
		}
		// The oracle may not start another bubble inside this one: calls are
		// compared with calls alone only if those are already known.
		noSolo = true
		if jb.Mode == "solo" {
			one(rec)
			return
		}
		report(rec)
	}
	apart.job, apart.path, apart.left = jb, path, 12
	switch jb.Mode {
	case "solo":
		one(execute(t, jb.Scenario, capt))
	case "replay":
		sc := jb.Scenario
		emit(line{Kind: "begin"})
		report(execute(t, sc, capt))
	case "batch":
		for i := jb.From; i < jb.To; i++ {
			if jb.Deadline > 0 && time.Now().Unix() > jb.Deadline {
				emit(line{Kind: "late", Run: i})
				break
			}
			cur = i
			sc := build(jb.Prop, jb.Seed, i)
			emit(line{Kind: "begin", Run: i})
			report(execute(t, sc, capt))
		}
	}
	finish(0)
}
