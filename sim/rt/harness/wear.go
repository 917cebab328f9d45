package harness

import (
	"fmt"
	"runtime"
	"strings"

	"verifsim/simrt"
)

// round is what one round of calls has cost.
type round struct {
	calls   int
	threads int
	lib     int64 // scheduling points passed in the library
	all     int64 // and in the ANTLR runtime
	heap    uint64
	objs    uint64
	result  uint64 // hash over what kinds of outcomes there were
}

// closeRound measures a finished round and forgets its outcomes.
func (rec *record) closeRound(results [][]*outcome) {
	var rd round
	rd.threads = len(results)
	for _, r := range results {
		for i, o := range r {
			if o != nil {
				rd.calls++
				rd.lib += o.lib
				rd.all += o.steps
				for _, c := range o.kind {
					rd.result = rd.result*131 + uint64(c)
				}
			}
			r[i] = nil
		}
	}
	simrt.Forget()
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	rd.heap, rd.objs = m.HeapAlloc, m.HeapObjects
	rec.rounds = append(rec.rounds, rd)
}

// wear: what calls cost, and what the process keeps, does not grow with the
// number of calls it has served.
func (j *judge) wear() {
	rs := j.rec.rounds
	if len(rs) < 4 {
		return
	}
	for _, r := range rs {
		if r.calls == 0 || r.calls != rs[0].calls || r.result != rs[0].result {
			return // not rounds of the same calls
		}
	}
	// The first rounds fill the prediction tables of the parser.
	half := 2
	if len(rs) < 6 {
		half = 1
	}
	a, z := rs[half], rs[len(rs)-1]
	n := 0
	for i := half + 1; i < len(rs); i++ {
		n += rs[i].calls
	}
	j.v.evals += int64(n)
	show := func() string {
		var b strings.Builder
		for _, r := range rs {
			fmt.Fprintf(&b, " [%d calls: %d points in the library, %d in all, then %d bytes in %d objects]", r.calls, r.lib, r.all, r.heap, r.objs)
		}
		return b.String()
	}
	if z.lib > a.lib+a.lib/4+int64(20*z.calls) || z.all > a.all+a.all/4+int64(1000*z.calls) {
		j.v.fail("slower", "the same calls take more and more:%s", show())
	}
	bytes, objs := int64(z.heap)-int64(a.heap), int64(z.objs)-int64(a.objs)
	per, some := int64(16), int64(40)
	if rs[0].calls >= 60 && rs[0].threads == 1 {
		per, some = 4, 60 // little else happens in such rounds
		if rs[0].calls >= 1000 {
			per = 2
		}
	}
	if bytes > per*int64(n)+6144 || objs > per*int64(n)/64+some {
		j.v.fail("grows", "the process keeps %d bytes in %d objects more after %d more calls of the same kinds:%s", bytes, objs, n, show())
	}
}
