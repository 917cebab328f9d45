package harness

import (
	"fmt"
	"strings"
	"testing"
	"time"
	"unsafe"

	"net/mail"

	"verifsim/simrt"
)

// violation is one broken promise.
type violation struct {
	Class  string `json:"class"`
	Detail string `json:"detail"`
}

type verdict struct {
	v     []violation
	evals int64 // conditions evaluated
}

func (v *verdict) fail(class, format string, args ...interface{}) {
	if len(v.v) < 8 {
		v.v = append(v.v, violation{class, fmt.Sprintf(format, args...)})
	}
}

func (o *outcome) where() string {
	return fmt.Sprintf("phase %d thread %d op %d (%s %q, handler %d)", o.phase, o.thread, o.index, o.op.Kind, clip(o.input), o.handler)
}

func clip(s string) string {
	if len(s) > 400 {
		return s[:400] + "..."
	}
	return s
}

func showList(l []Mailbox) string {
	var b strings.Builder
	b.WriteString("[")
	for i, m := range l {
		if i > 0 {
			b.WriteString(", ")
		}
		if i == 12 {
			fmt.Fprintf(&b, "... %d in all", len(l))
			break
		}
		fmt.Fprintf(&b, "%q <%q>", clip(m.Name), clip(m.Addr))
	}
	return b.String() + "]"
}

// ret describes what a call returned.
func (o *outcome) ret() string {
	switch o.kind {
	case "value":
		if o.isDate {
			return o.t.Format(time.RFC3339Nano)
		}
		return showList(o.snap)
	case "error":
		return "error: " + clip(o.errText)
	case "panic":
		return fmt.Sprintf("panic: %v", o.panicVal)
	case "exit":
		return "ended its goroutine"
	}
	return "no return"
}

// sameResult compares two returns of the same call.
func sameResult(a, b *outcome) bool {
	if a.kind != b.kind {
		return false
	}
	switch a.kind {
	case "value":
		if a.isDate {
			_, x := a.t.Zone()
			_, y := b.t.Zone()
			return a.t.Equal(b.t) && x == y && a.t.IsZero() == b.t.IsZero()
		}
		return same(a.snap, b.snap)
	case "error":
		return a.errText == b.errText
	case "panic":
		x, y := isAbort(a.panicVal), isAbort(b.panicVal)
		if x && y {
			return true
		}
		return x == y && fmt.Sprint(a.panicVal) == fmt.Sprint(b.panicVal)
	}
	return true
}

// wallsOf lists the clock readings that were current at some moment of a call.
func (rec *record) wallsOf(o *outcome) []time.Time {
	// A step of the clock is ordered by event number; between steps the wall
	// clock runs with the monotonic one, so the year can also change by
	// itself: take the readings at both ends of every stretch.
	loc := location(rec.sc.TZ)
	var out []time.Time
	for i, w := range rec.walls {
		end := int64(1) << 62
		if i+1 < len(rec.walls) {
			end = rec.walls[i+1].Seq
		}
		if end < o.start || w.Seq > o.end {
			continue
		}
		lo, hi := o.monoLo, o.monoHi
		if w.Seq > o.start {
			lo = w.Mono
		}
		if end < o.end {
			hi = rec.walls[i+1].Mono
		}
		out = append(out, time.Unix(0, lo+w.Off).In(loc), time.Unix(0, hi+w.Off).In(loc))
	}
	return out
}

// wantTimes lists what a date may resolve to.
func (rec *record) wantTimes(o *outcome) []time.Time {
	d := o.op.Date
	zone := time.FixedZone("", d.Offset)
	at := func(y int) time.Time {
		return time.Date(y, time.Month(d.Month), d.Day, d.Hour, d.Min, d.Sec, 0, zone)
	}
	if !d.Short {
		return []time.Time{at(d.Year)}
	}
	var out []time.Time
	seen := map[int]bool{}
	ws := rec.wallsOf(o)
	for i := 0; i+1 < len(ws); i += 2 {
		for now := ws[i].Year(); now <= ws[i+1].Year(); now++ {
			y := now - ((now-d.Year)%100+100)%100
			if !seen[y] {
				seen[y] = true
				out = append(out, at(y))
			}
		}
	}
	return out
}

// runnable context for oracles.
type judge struct {
	t   *testing.T
	rec *record
	cap *capturer
	v   *verdict
}

// check evaluates the property of the scenario.
func check(t *testing.T, rec *record, capt *capturer) *verdict {
	j := &judge{t, rec, capt, &verdict{}}
	p := rec.sc.Prop
	j.progress()
	switch p {
	case "C01":
		j.races()
		j.alone(func(o *outcome) bool { return true })
	case "C02":
		j.alone(func(o *outcome) bool { return true })
	case "C03":
		j.model(func(o *outcome) bool { return o.op.clean() })
	case "C04":
		j.races()
		j.held()
		j.aliasing()
		j.alone(func(o *outcome) bool { return true })
	case "C05", "C06":
		j.model(func(o *outcome) bool { return o.op.clean() })
	case "C07":
		j.consults()
	case "C08":
		j.aborts()
	case "C09":
		j.stalls()
		j.model(func(o *outcome) bool { return o.op.clean() })
		j.dates(func(o *outcome) bool { return o.op.Date != nil })
		j.nested()
	case "C10":
		j.dates(func(o *outcome) bool { return o.op.Date != nil && o.op.Date.Short && len(o.op.Edits) == 0 })
	case "C11":
		j.dates(func(o *outcome) bool { return o.op.Date != nil && !o.op.Date.Short && len(o.op.Edits) == 0 })
	case "C12":
		j.cleanAnswers()
	case "C13":
		j.contained()
	case "C16":
		j.model(func(o *outcome) bool { return o.op.clean() })
		j.dates(func(o *outcome) bool { return o.op.Date != nil })
	case "C17":
		j.model(func(o *outcome) bool { return o.op.clean() })
	case "C19":
		j.traceless()
	case "C20":
		j.wear()
	}
	return j.v
}

// progress: no deadlock, no endless run, no crash outside a call.
func (j *judge) progress() {
	rec := j.rec
	j.v.evals++
	p := rec.sc.Prop
	switch rec.out.Kind {
	case "deadlock":
		j.v.fail("deadlock", "no thread can go on: %s", rec.out.Detail)
	case "steps":
		j.v.fail("no-progress", "%s", rec.out.Detail)
	}
	for _, c := range rec.crashes {
		j.v.fail("crash", "the process would have died: %s", c)
	}
	for _, o := range rec.ops {
		if o.kind == "panic" {
			if isAbort(o.panicVal) && o.ctx.aborted > 0 {
				continue
			}
			if isAbort(o.panicVal) {
				j.v.fail("stray-abort", "%s received the abort of another call", o.where())
				continue
			}
			if p == "C02" {
				continue // compared with the call on its own
			}
			j.v.fail("panic", "%s panicked: %v", o.where(), o.panicVal)
		}
		if o.kind == "exit" && o.ctx.aborted == 0 {
			j.v.fail("stray-abort", "%s lost its goroutine", o.where())
		}
	}
}

func (j *judge) races() {
	j.v.evals++
	for _, r := range j.rec.races {
		if realRace(r) {
			j.v.fail("race", "data race\n%s", r)
		}
	}
}

// alone compares every call with the same call alone in a fresh process.
func (j *judge) alone(f func(*outcome) bool) {
	for _, o := range j.rec.ops {
		if o.kind == "none" || !f(o) {
			continue
		}
		walls := []int64{j.rec.sc.Wall}
		if o.isDate {
			walls = nil
			years := map[int]bool{}
			for _, w := range j.rec.wallsOf(o) {
				if !years[w.Year()] {
					years[w.Year()] = true
					walls = append(walls, w.UnixNano())
				}
			}
		}
		j.v.evals++
		ok := false
		var exp string
		for _, w := range walls {
			s := solo(j.t, j.rec.sc, o.op, o.handler, w, j.cap)
			if s == nil {
				ok = true
				break
			}
			if sameResult(o.first(), s.first()) {
				ok = true
				break
			}
			exp = s.first().ret()
		}
		if !ok {
			j.v.fail("differs-from-alone", "%s returned %s; alone in a fresh process it returns %s", o.where(), o.first().ret(), exp)
		}
	}
}

// model compares every well-formed list with the reference model.
func (j *judge) model(f func(*outcome) bool) {
	for _, o := range j.rec.ops {
		if o.kind == "none" || !f(o) {
			continue
		}
		j.v.evals++
		want := o.op.want(o.handler)
		if o.kind == "panic" || o.kind == "exit" {
			continue // judged by progress
		}
		if o.kind != "value" || !same(o.first().snap, want) {
			j.v.fail("wrong-result", "%s returned %s; it stands for %s", o.where(), o.first().ret(), showList(want))
		}
	}
}

func (j *judge) dates(f func(*outcome) bool) {
	for _, o := range j.rec.ops {
		if o.kind == "none" || !f(o) || len(o.op.Edits) > 0 {
			continue
		}
		j.v.evals++
		want := j.rec.wantTimes(o)
		ok := false
		if o.op.Date.Short {
			for _, w := range j.rec.wallsOf(o) {
				ok = ok || w.Year() < 2000 || w.Year() > 2099 // outside the property's domain
			}
		}
		for _, w := range want {
			_, a := w.Zone()
			_, b := o.t.Zone()
			if o.kind == "value" && o.t.Equal(w) && a == b {
				ok = true
			}
		}
		if !ok {
			var now []string
			for _, w := range j.rec.wallsOf(o) {
				now = append(now, w.Format(time.RFC3339))
			}
			j.v.fail("wrong-time", "%s returned %s; it stands for %v (clock during the call: %v, zone %s)", o.where(), o.ret(), want, now, j.rec.sc.TZ)
		}
	}
}

// held re-reads every result at the end of the run.
func (j *judge) held() {
	for _, o := range j.rec.ops {
		if o.kind == "error" {
			j.v.evals++
			if now := o.err.Error(); now != o.errText {
				j.v.fail("result-changed", "the error of %s was %q and has become %q", o.where(), clip(o.errText), clip(now))
			}
			continue
		}
		if o.isDate || o.kind != "value" {
			continue
		}
		j.v.evals++
		if now := snapshot(o.list); !same(now, o.snap) {
			j.v.fail("result-changed", "the result of %s was %s and has become %s without its owner's doing", o.where(), showList(o.snap), showList(now))
		}
	}
}

// aliasing looks for memory that two results share.
func (j *judge) aliasing() {
	type ref struct {
		o *outcome
		i int
	}
	entries := map[*mail.Address]ref{}
	backing := map[unsafe.Pointer]*outcome{}
	for _, o := range j.rec.ops {
		if o.isDate || o.kind != "value" {
			continue
		}
		j.v.evals++
		for i, a := range o.orig {
			if a == nil {
				continue
			}
			if r, ok := entries[a]; ok {
				j.v.fail("shared-entry", "entry %d of %s is entry %d of %s", i, o.where(), r.i, r.o.where())
			}
			entries[a] = ref{o, i}
		}
		if cap(o.origList) > 0 {
			full := o.origList[:cap(o.origList)]
			for i := range full {
				p := unsafe.Pointer(&full[i])
				if other, ok := backing[p]; ok && other != o {
					j.v.fail("shared-list", "the lists of %s and %s share memory", o.where(), other.where())
					break
				}
				backing[p] = o
			}
		}
	}
}

// expectConsults checks the questions put to the handler during one call.
func (j *judge) expectConsults(o *outcome) {
	var want []*Conv
	if o.kind == "value" && o.op.clean() && o.handler != 0 {
		want = o.op.foreign()
	} else if o.kind == "value" && !o.op.clean() {
		return // accepted in spite of the damage: what it contains is not modelled
	}
	j.v.evals++
	got := o.ctx.consults
	if len(got) != len(want) {
		var g, w []string
		for _, c := range got {
			g = append(g, fmt.Sprintf("%s %q", c.charset, c.payload))
		}
		for _, c := range want {
			w = append(w, fmt.Sprintf("%s %q", c.Charset, string(c.Payload)))
		}
		j.v.fail("consult-count", "%s (%s): the handler was asked for %v, expected %v", o.where(), o.ret(), g, w)
		return
	}
	for i, c := range got {
		w := want[i]
		if c.charset != w.Charset || c.payload != string(w.Payload) {
			j.v.fail("consult-args", "%s: question %d was (%q, %q), expected (%q, %q)", o.where(), i, c.charset, c.payload, w.Charset, string(w.Payload))
		}
		if c.badInput != "" {
			j.v.fail("consult-payload", "%s: question %d: %s", o.where(), i, c.badInput)
		}
		if c.opened && !c.ended {
			j.v.fail("not-read-to-end", "%s: the reader of question %d was not read to its end", o.where(), i)
		}
		if c.afterEnd > 0 {
			j.v.fail("read-after-end", "%s: the reader of question %d was read again after its end or error", o.where(), i)
		}
		if c.afterCall > 0 {
			j.v.fail("read-after-call", "%s: the handler or reader of question %d was used after the call had returned", o.where(), i)
		}
	}
}

func (j *judge) consults() {
	for _, o := range j.rec.ops {
		if o.isDate || o.kind == "none" || o.kind == "panic" || o.kind == "exit" {
			continue
		}
		if len(o.op.Edits) > 0 && o.kind == "value" {
			continue
		}
		j.expectConsults(o)
	}
}

// aborts: the abort stays with its call.
func (j *judge) aborts() {
	for _, o := range j.rec.ops {
		if o.kind == "none" {
			continue
		}
		if o.isDate {
			continue
		}
		j.v.evals++
		if o.ctx.aborted > 0 {
			// What the handler did to the call is what its caller sees.
			exit := len(o.ctx.aborts) == 0
			switch {
			case exit && o.kind != "exit":
				j.v.fail("abort-lost", "the handler of %s ended the goroutine, yet the call returned %s", o.where(), o.ret())
			case !exit && (o.kind != "panic" || !isAbort(o.panicVal) || o.panicVal != o.ctx.aborts[len(o.ctx.aborts)-1]):
				j.v.fail("abort-lost", "the handler of %s panicked with %v, yet the call ended with %s", o.where(), o.ctx.aborts, o.ret())
			}
			continue
		}
		// No abort fired, even if one was set.
		op := cloneOp(o.op)
		for _, c := range op.Plan {
			c.Abort = ""
		}
		if want := op.want(o.handler); o.op.clean() && (o.kind == "value" && !same(o.first().snap, want) || o.kind == "error") {
			j.v.fail("abort-spread", "%s returned %s; it stands for %s", o.where(), o.ret(), showList(want))
		}
	}
	j.dates(func(o *outcome) bool { return o.op.Date != nil && !o.op.Date.Short })
	j.nested()
	for _, l := range j.rec.leaks {
		j.v.fail("leak", "%s", l)
	}
}

func (j *judge) stalls() {
	j.v.evals++
	if s := j.rec.stats.StallBlocked; s != "" {
		j.v.fail("stall-spread", "while only stalled handlers were outstanding, others could not finish: %s", s)
	}
}

// nested checks the calls made from inside handlers.
func (j *judge) nested() {
	var walk func(o *outcome)
	walk = func(o *outcome) {
		if o.ctx == nil {
			return
		}
		for _, n := range o.ctx.nested {
			n.phase, n.thread, n.index = o.phase, o.thread, o.index
			j.v.evals++
			switch {
			case n.ctx.aborted > 0:
				if exit := len(n.ctx.aborts) == 0; exit && n.kind != "exit" || !exit && (n.kind != "panic" || n.panicVal != n.ctx.aborts[len(n.ctx.aborts)-1]) {
					j.v.fail("abort-lost", "the call made inside the handler of %s, on %q, was aborted by its own handler (%v), yet ended with %s", o.where(), clip(n.input), n.ctx.aborts, n.ret())
				}
			case n.op.clean():
				if want := n.op.want(n.handler); n.kind != "value" || !same(n.snap, want) {
					j.v.fail("nested-result", "the call made inside the handler of %s, on %q, returned %s; it stands for %s", o.where(), clip(n.input), n.ret(), showList(want))
				}
			case n.op.Date != nil && !n.op.Date.Short:
				want := j.rec.wantTimes(n)[0]
				if n.kind != "value" || !n.t.Equal(want) {
					j.v.fail("nested-result", "the date read inside the handler of %s, %q, gave %s; it stands for %s", o.where(), n.input, n.ret(), want)
				}
			}
			walk(n)
		}
	}
	for _, o := range j.rec.ops {
		walk(o)
	}
}

// stepBound is the number of scheduling points a call on n bytes may pass.
// The prediction of the real parser takes some three million for each, and
// more on long mixed lists.
func stepBound(n int) int64 { return 200_000_000 + int64(n)*4_000_000 + int64(n)*int64(n)*1_000 }

// cleanAnswers: a value or an error, nothing else.
func (j *judge) cleanAnswers() {
	for _, o := range j.rec.ops {
		if o.kind == "none" {
			continue
		}
		j.v.evals++
		switch o.kind {
		case "error":
			if o.isDate && !o.t.IsZero() {
				j.v.fail("value-and-error", "%s returned both %s and error %s", o.where(), o.t, o.errText)
			}
			if !o.isDate && len(o.snap) > 0 {
				j.v.fail("value-and-error", "%s returned both %s and error %s", o.where(), showList(o.snap), o.errText)
			}
		case "value":
			for _, m := range o.snap {
				if m.Addr == "<nil>" && m.Name == "<nil>" {
					j.v.fail("nil-entry", "%s returned a nil entry", o.where())
				}
			}
		}
		if o.op.clean() {
			if want := o.op.want(o.handler); o.kind == "value" && !same(o.first().snap, want) || o.kind == "error" {
				j.v.fail("disturbed", "undamaged %s returned %s; it stands for %s", o.where(), o.ret(), showList(want))
			}
		}
		if b := stepBound(len(o.input)); o.steps > b {
			j.v.fail("steps", "%s took %d steps, more than the %d allowed", o.where(), o.steps, b)
		}
	}
	if j.rec.stdout != "" {
		j.v.fail("output", "the process printed %q", clip(j.rec.stdout))
	}
}

// traceless: nothing but its result comes of a call.
func (j *judge) traceless() {
	rec := j.rec
	var walk func(o *outcome)
	walk = func(o *outcome) {
		j.v.evals++
		if o.changed {
			j.v.fail("input-changed", "%s: its input has become %q", o.where(), clip(o.input))
		}
		for i, c := range o.ctx.consults {
			if c.afterCall > 0 {
				j.v.fail("used-after-call", "%s: the handler or reader of question %d was used after the call had returned", o.where(), i)
			}
		}
		for _, n := range o.ctx.nested {
			n.phase, n.thread, n.index = o.phase, o.thread, o.index
			walk(n)
		}
	}
	for _, o := range rec.ops {
		if o.ctx != nil {
			walk(o)
		}
	}
	j.v.evals++
	if s := rec.stats.Linger; s != "" {
		j.v.fail("left-running", "all calls had returned, yet there was still: %s", s)
	}
	for _, th := range rec.out.Leftover {
		if !th.Harness && rec.stats.Linger == "" {
			j.v.fail("left-running", "all calls had returned, yet there was still: %s %s", th.Name, th.State())
		}
	}
	for _, l := range rec.leaks {
		j.v.fail("left-set", "%s", l)
	}
	if rec.host != nil {
		for _, b := range rec.host.bad {
			j.v.fail("host-changed", "%s", b)
		}
	}
	if rec.stdout != "" {
		j.v.fail("output", "the process printed %q", clip(rec.stdout))
	}
}

// holdsMailbox tells whether text between top-level commas, if well-formed,
// can only be a list with at least one mailbox: there is something in it, and
// it is no comment and no empty group.
func holdsMailbox(s string) bool {
	return !strings.ContainsAny(s, ":()") && strings.Trim(s, ",; \t\r\n") != ""
}

// countMailboxes counts the mailboxes of text that, if well-formed, holds
// nothing but plain ones: no groups, routes, comments, quotes or encoded words.
func countMailboxes(s string) (int, bool) {
	if strings.ContainsAny(s, ":()\"\\[]?") {
		return 0, false
	}
	n := 0
	for _, e := range strings.FieldsFunc(s, func(r rune) bool { return r == ',' || r == ';' }) {
		if strings.Trim(e, " \t\r\n") != "" {
			n++
		}
	}
	return n, true
}

// contained: what came before the damage survives, or the list is refused.
func (j *judge) contained() {
	for _, o := range j.rec.ops {
		if o.kind == "none" || o.isDate || len(o.op.List) == 0 {
			continue
		}
		j.v.evals++
		if o.kind == "error" {
			if len(o.snap) > 0 {
				j.v.fail("entries-with-error", "%s was refused but returned %s", o.where(), showList(o.snap))
			}
			continue
		}
		if o.kind != "value" {
			continue
		}
		d := o.op.firstDamage()
		off, from := 0, 0
		var must []Mailbox
		for i, e := range o.op.List {
			off += len(e.Text)
			k := strings.IndexByte(string(e.Sep), ',')
			if i == len(o.op.List)-1 || k < 0 || off+k >= d {
				break
			}
			from = off + k + 1
			off += len(e.Sep)
			must = append(must, o.op.wantElem(i, o.handler)...)
		}
		got := o.first().snap
		if len(got) == len(must) && same(got, must) && holdsMailbox(o.input[from:]) {
			j.v.fail("shortened", "%s returned %s only; %q follows and is not among them", o.where(), showList(got), clip(o.input[from:]))
		}
		if n, ok := countMailboxes(o.input[from:]); ok && len(got) != len(must)+n {
			j.v.fail("shortened", "%s returned %s: %d after the %d before the damage, but %q holds %d", o.where(), showList(got), len(got)-len(must), len(must), clip(o.input[from:]), n)
		}
		if len(got) < len(must) || !same(got[:len(must)], must) {
			j.v.fail("earlier-mailbox-lost", "%s returned %s; the mailboxes before the damage at byte %d are %s", o.where(), showList(got), d, showList(must))
		}
	}
}

var _ = simrt.ClassC
