package harness

import (
	"fmt"
	"strings"
	"time"

	"verifsim/simrt"
)

// Props are the properties with a check.
var Props = []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C16", "C17", "C19", "C20"}

// build derives the scenario of run i from the base seed; nothing else enters.
func build(prop string, base uint64, i int) *Scenario {
	ph := uint64(0)
	for _, c := range prop {
		ph = ph*31 + uint64(c)
	}
	seed := simrt.Mix(base, ph, uint64(i))
	r := simrt.NewRand(seed)
	sc := &Scenario{Prop: prop, Seed: r.Uint64(), TZ: hostZones[r.Intn(len(hostZones))]}
	switch v := r.Intn(20); {
	case v < 8:
		sc.Policy = simrt.PolUniform
	case v < 13:
		sc.Policy = simrt.PolPCT
	case v < 18:
		sc.Policy = simrt.PolBursty
	default:
		sc.Policy = simrt.PolSerial
	}
	logU := func(lo, hi int64) int64 {
		v := lo
		for v < hi && r.Chance(4, 5) {
			v = v*2 + int64(r.Intn(2))
		}
		if v > hi {
			v = hi
		}
		return v
	}
	sc.Mean = [3]int64{logU(40, 60000), logU(1, 40), logU(2, 300)}
	sc.Weight = [3]int{1 + r.Intn(4), 1 + r.Intn(5), 1 + r.Intn(6)}
	if r.Chance(1, 4) {
		sc.Weight[r.Intn(3)] = 12
	}
	sc.Changes = 1 + r.Intn(12)
	sc.Wall = wallAt(r)
	sc.Tick = []int64{0, 1, 100, 1000}[r.Intn(4)]
	pool := &pool{r: r, block: simrt.Mix(base, ph, uint64(i/64), 99)}
	builders[prop](sc, r, pool)
	return sc
}

// wallAt is a clock reading between 2000 and 2099, often close to a boundary.
func wallAt(r *simrt.Rand) int64 {
	y := 2000 + r.Intn(100)
	switch r.Intn(8) {
	case 0:
		y = 2000
	case 1:
		y = 2099
	}
	t := time.Date(y, time.Month(1+r.Intn(12)), 1+r.Intn(28), r.Intn(24), r.Intn(60), r.Intn(60), 0, time.UTC)
	switch r.Intn(6) {
	case 0:
		t = time.Date(y, 12, 31, 23, 59, 59, 999_000_000-r.Intn(500_000), time.UTC)
	case 1:
		t = time.Date(y, 1, 1, 0, 0, 0, 0, time.UTC)
	case 2:
		t = time.Date(y, 12, 31, r.Intn(24), 0, 0, 0, time.UTC)
	case 3:
		t = time.Date(y, 1, 1, r.Intn(24), 0, 0, 0, time.UTC)
	}
	return t.UnixNano()
}

// pool hands out generators of which some repeat within a block of runs, so
// that what a call returns on its own need not be computed anew every time.
type pool struct {
	r     *simrt.Rand
	block uint64
}

// gen returns a generator for input k of the block, twin t.
func (p *pool) gen(k, t int) *gen {
	return &gen{simrt.NewRand(simrt.Mix(p.block, uint64(k))), simrt.NewRand(simrt.Mix(p.block, uint64(k), uint64(t)+1))}
}

// fresh returns a generator of this run's own.
func (p *pool) fresh() *gen { return newGen(p.r.Uint64()) }

func plainProfile() *profile {
	return &profile{encoded: 35, foreignP: 60, broken: 8, comments: true, groups: 15, chunky: 30, dup: 20, writerTo: true}
}

// anyOp is a call on some input of the pool: mostly well-formed lists.
func anyOp(p *pool, k, twin int, pr *profile) *Op {
	g := p.gen(k, twin)
	switch k % 8 {
	case 0:
		return g.date(false)
	case 1:
		return g.date(g.s.Chance(1, 2))
	case 2:
		return g.rejected()
	case 3:
		op := g.listOp(pr, 1+g.s.Intn(2))
		return damage(g, op, 1)
	}
	n := 1
	if g.s.Chance(1, 2) {
		n += g.s.Intn(3)
	}
	return g.listOp(pr, n)
}

// anyHandler is mostly the first handler, sometimes none.
func anyHandler(r *simrt.Rand) int {
	if r.Chance(1, 4) {
		return 0
	}
	return 1
}

var builders = map[string]func(sc *Scenario, r *simrt.Rand, p *pool){
	"C01": buildC01, "C02": buildC02, "C03": buildC03, "C04": buildC04, "C05": buildC05, "C06": buildC06, "C07": buildC07,
	"C08": buildC08, "C09": buildC09, "C10": buildC10, "C11": buildC11, "C12": buildC12, "C13": buildC13,
	"C16": buildC16, "C17": buildC17, "C19": buildC19, "C20": buildC20,
}

func buildC01(sc *Scenario, r *simrt.Rand, p *pool) {
	if r.Chance(1, 5) {
		relatives(sc, r, p, 1, 2+r.Intn(3), false, 0, 0, 1, 2)
		return
	}
	if r.Chance(1, 16) {
		longHistory(sc, r, p, 0, 0, 1, 1, 2, 3, 3)
		return
	}
	if r.Chance(1, 25) {
		directory(sc, r, p, 2+r.Intn(2), 10)
		return
	}
	if r.Chance(1, 12) {
		// One long call, and many short ones while it lasts.
		pr := plainProfile()
		pr.foreignP = 90
		ph := Phase{Handler: 1}
		long := p.gen(r.Intn(8), 0).listOp(pr, 2+r.Intn(3))
		ph.Threads = append(ph.Threads, Caller{Ops: []*Op{long}})
		for t := 0; t < 1+r.Intn(2); t++ {
			var c Caller
			for o := 0; o < 8+r.Intn(40); o++ {
				c.Ops = append(c.Ops, p.gen(100+r.Intn(12), 0).tiny([]int{0, 0, 1, 2, 3}[r.Intn(5)], handlerProfile()))
			}
			ph.Threads = append(ph.Threads, c)
		}
		sc.Phases = []Phase{ph}
		return
	}
	pr := plainProfile()
	n := 2 + r.Intn(3)
	if r.Chance(1, 20) {
		n = 5 + r.Intn(4)
	}
	phases := 1
	if r.Chance(1, 4) {
		phases = 2
	}
	for k := 0; k < phases; k++ {
		ph := Phase{Handler: anyHandler(r)}
		base := r.Intn(40)
		share := r.Intn(4) // 0: all the same input, 1: twins, 2: few inputs, 3: any
		for t := 0; t < n; t++ {
			var c Caller
			ops := 1 + r.Intn(2)
			if n > 4 {
				ops = 1
			}
			for o := 0; o < ops; o++ {
				k, tw := base, 0
				switch share {
				case 1:
					tw = r.Intn(3)
				case 2:
					k = (base + r.Intn(3)) % 40
					tw = r.Intn(2)
				case 3:
					k = r.Intn(40)
					tw = r.Intn(2)
				}
				c.Ops = append(c.Ops, anyOp(p, k, tw, pr))
			}
			ph.Threads = append(ph.Threads, c)
		}
		sc.Phases = append(sc.Phases, ph)
	}
}

// fewCharsets makes a run use two charsets only, at times.
func fewCharsets(r *simrt.Rand) int {
	if r.Chance(1, 2) {
		return 1 + r.Intn(4)
	}
	return 0
}

// longHistory is a process that has been busy for long: many short calls.
func longHistory(sc *Scenario, r *simrt.Rand, p *pool, kinds ...int) {
	var ops []*Op
	pr := handlerProfile()
	pr.chunky = 20
	pr.few = fewCharsets(r)
	n := 40 + r.Intn(100)
	if r.Chance(1, 4) {
		// Hardly any two alike.
		for k := 0; k < n; k++ {
			in := r.Intn(250)
			ops = append(ops, p.gen(700+in, 0).tiny(kinds[in%len(kinds)], pr))
		}
	}
	for k := 0; k < 3+r.Intn(8); k++ {
		ops = append(ops, p.gen(100+r.Intn(12), 0).tiny(kinds[r.Intn(len(kinds))], pr))
	}
	if r.Chance(1, 4) {
		n += 200
	}
	threads := 1
	if r.Chance(1, 4) {
		threads = 2 + r.Intn(3)
	}
	ph := Phase{Handler: 1, Threads: make([]Caller, threads)}
	for k := 0; k < n; k++ {
		c := &ph.Threads[r.Intn(threads)]
		op := cloneOp(ops[r.Intn(len(ops))])
		if len(op.Plan) > 0 && r.Chance(1, 6) {
			op.Plan[0].Abort = []string{"panic", "panic error", "exit"}[r.Intn(3)]
		} else if len(op.Plan) > 0 && r.Chance(1, 6) {
			x := op.Plan[0]
			x.Fail, x.FailAt, x.Err = []string{"open", "read", "read+data"}[r.Intn(3)], 1+r.Intn(2), []string{"", "eof", "temporary", "unsupported"}[r.Intn(4)]
		}
		c.Ops = append(c.Ops, op)
	}
	sc.Phases = []Phase{ph}
}

// spells makes a history of spells: many calls of one kind in a row (refused,
// failed, aborted, empty, all good), then calls of other kinds.
func spells(sc *Scenario, r *simrt.Rand, p *pool) {
	pr := plainProfile()
	pr.short, pr.slow = true, 0
	ph := Phase{Handler: 1 + r.Intn(2)}
	var c Caller
	for n := 1 + r.Intn(2); n > 0; n-- {
		kinds := [][]int{{6, 15}, {10}, {6, 10, 14, 15}, {2, 16}, {0}, {8, 9}, {17}, {7}, {3}}[r.Intn(9)]
		how := r.Uint64() >> 1
		k := 4 + r.Intn(40)
		if r.Chance(1, 3) {
			k += r.Intn(110)
		}
		if r.Chance(1, 4) {
			k = []int{5, 8, 10, 16, 20, 32, 50, 64, 100, 128}[r.Intn(10)]
		}
		var few []*Op
		for i := 1 + r.Intn(4); i > 0; i-- {
			few = append(few, numeric(r, kinds[r.Intn(len(kinds))], how))
		}
		for ; k > 0; k-- {
			c.Ops = append(c.Ops, cloneOp(few[r.Intn(len(few))]))
		}
		for k := 1 + r.Intn(4); k > 0; k-- {
			if r.Chance(1, 2) {
				c.Ops = append(c.Ops, anyOp(p, r.Intn(40), 0, pr))
			} else {
				c.Ops = append(c.Ops, numeric(r, []int{0, 1, 2, 3, 4, 7, 8, 9, 16}[r.Intn(9)], 7))
			}
		}
	}
	ph.Threads = []Caller{c}
	sc.Phases = append(sc.Phases, ph)
}

func buildC02(sc *Scenario, r *simrt.Rand, p *pool) {
	if r.Chance(2, 5) {
		relatives(sc, r, p, 1+r.Intn(3), 1, true, 0, 0, 1, 2)
		return
	}
	if r.Chance(1, 12) {
		longHistory(sc, r, p, 0, 1, 2, 3, 3)
		return
	}
	if r.Chance(1, 10) {
		directory(sc, r, p, 1, []int{0, 0, 20, 60}[r.Intn(4)])
		return
	}
	if r.Chance(1, 8) {
		spells(sc, r, p)
		return
	}
	pr := plainProfile()
	phases := 1 + r.Intn(3)
	base := r.Intn(40)
	if r.Chance(1, 3) {
		// Words that are converted in some calls and not in others.
		pr = handlerProfile()
		pr.few = 1 + r.Intn(3)
		base = 4 + 8*r.Intn(4)
	}
	for k := 0; k < phases; k++ {
		ph := Phase{Handler: r.Intn(3), Restart: r.Chance(1, 3)}
		var c Caller
		n := 2 + r.Intn(5)
		for o := 0; o < n; o++ {
			in, tw := r.Intn(40), r.Intn(2)
			if r.Chance(1, 2) {
				in, tw = (base+r.Intn(3))%40, r.Intn(3)
			}
			op := anyOp(p, in, tw, pr)
			if r.Chance(1, 5) && len(op.Plan) > 0 {
				// An aborted call as part of the history.
				c := op.Plan[r.Intn(len(op.Plan))]
				c.Abort, c.AbortAt = []string{"panic", "panic error", "exit"}[r.Intn(3)], r.Intn(3)
			} else if r.Chance(1, 3) && len(op.Plan) > 0 {
				c := op.Plan[r.Intn(len(op.Plan))]
				c.Fail, c.FailAt = []string{"open", "read", "read+data"}[r.Intn(3)], 1+r.Intn(3)
			}
			if r.Chance(1, 10) {
				c.Ops = append(c.Ops, &Op{Kind: KWall, Wall: wallAt(r)})
			}
			c.Ops = append(c.Ops, op)
		}
		ph.Threads = []Caller{c}
		sc.Phases = append(sc.Phases, ph)
	}
}

func buildC03(sc *Scenario, r *simrt.Rand, p *pool) {
	if r.Chance(1, 8) {
		relatives(sc, r, p, 1, 1+r.Intn(4), false, 1, 1, 2)
		return
	}
	pr := plainProfile()
	pr.encoded = 20 + r.Intn(50)
	pr.groups = r.Intn(40)
	ph := Phase{Handler: r.Intn(3)}
	if r.Chance(1, 20) {
		// Many recipients, one caller or two.
		pr.simple = true
		pr.groups = r.Intn(10)
		pr.encoded = r.Intn(15)
		pr.comments = false
		n := 15 + r.Intn(30)
		if r.Chance(1, 6) {
			n += r.Intn(90)
		}
		many := r.Chance(1, 8)
		if many {
			n = 250 + r.Intn(60) // more than a byte can count
		}
		for t := 0; t <= r.Intn(2); t++ {
			g := p.fresh()
			op := g.listOp(pr, n)
			if many && t == 0 {
				op = g.crowd(n)
			}
			ph.Threads = append(ph.Threads, Caller{Ops: []*Op{op}})
			n = 2 + n/4
		}
	} else {
		n := 1 + r.Intn(4)
		seed := r.Uint64()
		for t := 0; t < n; t++ {
			var c Caller
			for o := 0; o <= r.Intn(2); o++ {
				g := p.fresh()
				if r.Chance(1, 3) {
					g.s = simrt.NewRand(seed) // same shape as the neighbour's list
				}
				k := 1 + g.s.Intn(3)
				if g.s.Chance(1, 5) {
					k += g.s.Intn(7)
				}
				op := g.listOp(pr, k)
				if r.Chance(1, 6) {
					op = kin(g, 1+r.Intn(2), pr)
				}
				if r.Chance(1, 8) && len(op.List) > 1 {
					// The same mailbox written twice.
					op.List[len(op.List)-1].Sep = ", "
					last := op.List[r.Intn(len(op.List)-1)]
					last.Sep = ""
					op.List = append(op.List, last)
				}
				c.Ops = append(c.Ops, op)
			}
			ph.Threads = append(ph.Threads, c)
		}
	}
	sc.Phases = []Phase{ph}
}

func buildC04(sc *Scenario, r *simrt.Rand, p *pool) {
	if r.Chance(1, 5) {
		relatives(sc, r, p, 1, 1+r.Intn(3), false, 1, 1, 2)
		for i := range sc.Phases[0].Threads {
			c := &sc.Phases[0].Threads[i]
			var ops []*Op
			var calls []int
			for _, op := range c.Ops {
				calls = append(calls, len(ops))
				ops = append(ops, op)
				if r.Chance(1, 3) {
					ops = append(ops, &Op{Kind: KMutate, Target: calls[r.Intn(len(calls))], How: r.Intn(5)})
				}
			}
			c.Ops = ops
		}
		return
	}
	if r.Chance(1, 30) {
		directory(sc, r, p, 1+r.Intn(2), 5)
		for i := range sc.Phases[0].Threads {
			c := &sc.Phases[0].Threads[i]
			var ops []*Op
			for _, op := range c.Ops {
				ops = append(ops, op)
				if r.Chance(1, 4) {
					ops = append(ops, &Op{Kind: KMutate, Target: len(ops) - 1, How: r.Intn(5)})
				}
			}
			c.Ops = ops
		}
		return
	}
	pr := plainProfile()
	h := r.Intn(2)
	if r.Chance(1, 12) {
		// Many small results, extended by their owners.
		var c Caller
		empty := r.Chance(1, 2)
		for o := 0; o < 20+r.Intn(60); o++ {
			g := p.gen(200+r.Intn(6), 0)
			op := g.tiny(0, pr)
			if empty && r.Chance(1, 3) {
				op = &Op{Kind: KAddr}
			} else if r.Chance(1, 4) {
				op.List = append(op.List, p.gen(210+r.Intn(4), 0).tiny(0, pr).List...)
				op.List[0].Sep = ","
			}
			c.Ops = append(c.Ops, op, &Op{Kind: KMutate, Target: len(c.Ops), How: []int{2, 2, 0, 4}[r.Intn(4)]})
		}
		sc.Phases = []Phase{{Handler: h, Threads: []Caller{c}}}
		return
	}
	n := 1 + r.Intn(3)
	base := r.Intn(40)
	ph := Phase{Handler: h}
	for t := 0; t < n; t++ {
		var c Caller
		var calls []int
		for o := 0; o < 2+r.Intn(3); o++ {
			in := base
			tw := 0
			if r.Chance(1, 3) {
				in, tw = (base+r.Intn(2))%40, r.Intn(2)
			}
			if in%8 < 3 && r.Chance(2, 3) {
				in += 4
			}
			calls = append(calls, len(c.Ops))
			c.Ops = append(c.Ops, anyOp(p, in, tw, pr))
			if r.Chance(2, 3) {
				c.Ops = append(c.Ops, &Op{Kind: KMutate, Target: calls[r.Intn(len(calls))], How: r.Intn(5)})
			}
		}
		ph.Threads = append(ph.Threads, c)
	}
	sc.Phases = []Phase{ph}
	if r.Chance(1, 3) {
		sc.Phases = append(sc.Phases, Phase{Handler: h, Threads: []Caller{{Ops: []*Op{anyOp(p, base, 0, pr), anyOp(p, base, 1, pr)}}}})
	}
}

// handlerProfile is for lists whose names come through the handler.
func handlerProfile() *profile {
	return &profile{encoded: 90, foreignP: 80, broken: 5, groups: 5, simple: true, chunky: 50, dup: 15, writerTo: true}
}

func buildC05(sc *Scenario, r *simrt.Rand, p *pool) {
	pr := handlerProfile()
	pr.chunky = 90
	pr.long = []int{0, 0, 10, 40}[r.Intn(4)]
	pr.slow = r.Intn(30)
	pr.stall = r.Intn(15)
	ph := Phase{Handler: 1}
	g := p.fresh()
	op := g.listOp(pr, 1+r.Intn(2))
	n := 1 + r.Intn(3)
	for t := 0; t < n; t++ {
		var c Caller
		for o := 0; o < 1+r.Intn(2); o++ {
			if r.Chance(1, 3) {
				c.Ops = append(c.Ops, p.fresh().listOp(pr, 1+r.Intn(2)))
				continue
			}
			// The same text, delivered in another way.
			v := cloneOp(op)
			for _, x := range v.Plan {
				x.Chunks, x.EOFData, x.Lazy, x.WriteTo, x.Sleep, x.Stall, x.Scratch, x.Dress = nil, false, false, false, 0, false, false, ""
				g.delivery(x, pr)
			}
			c.Ops = append(c.Ops, v)
		}
		ph.Threads = append(ph.Threads, c)
	}
	sc.Phases = []Phase{ph}
}

func buildC06(sc *Scenario, r *simrt.Rand, p *pool) {
	if r.Chance(1, 8) {
		relatives(sc, r, p, 1, 1+r.Intn(3), false, 2)
		return
	}
	pr := handlerProfile()
	pr.few = fewCharsets(r)
	pr.fail = 20 + r.Intn(60)
	pr.broken = 30
	pr.foreignP = 75
	pr.slow = r.Intn(10)
	if r.Chance(1, 3) {
		pr.long = 15
	}
	n := 1 + r.Intn(3)
	phases := 1
	if r.Chance(1, 3) {
		phases = 2
	}
	for k := 0; k < phases; k++ {
		ph := Phase{Handler: 1}
		if r.Chance(1, 6) {
			ph.Handler = 0
		}
		for t := 0; t < n; t++ {
			var c Caller
			for o := 0; o < 1+r.Intn(2); o++ {
				op := p.fresh().listOp(pr, 1+r.Intn(3))
				if r.Chance(1, 8) {
					op = kin(p.fresh(), 2, pr)
				}
				c.Ops = append(c.Ops, op)
				if r.Chance(1, 4) {
					// The same words again, now converting.
					v := cloneOp(op)
					for _, x := range v.Plan {
						x.Fail = ""
					}
					c.Ops = append(c.Ops, v)
				}
			}
			ph.Threads = append(ph.Threads, c)
		}
		sc.Phases = append(sc.Phases, ph)
	}
}

func buildC07(sc *Scenario, r *simrt.Rand, p *pool) {
	if r.Chance(1, 8) {
		relatives(sc, r, p, 1, 1+r.Intn(3), false, 2)
		return
	}
	if r.Chance(1, 25) {
		directory(sc, r, p, 1+r.Intn(2), 80)
		return
	}
	pr := handlerProfile()
	pr.few = fewCharsets(r)
	pr.fail = r.Intn(50)
	pr.broken = 25
	pr.dup = 40
	pr.simple = r.Chance(1, 2)
	pr.comments = true
	pr.slow = r.Intn(10)
	n := 1 + r.Intn(3)
	phases := 1 + r.Intn(2)
	for k := 0; k < phases; k++ {
		ph := Phase{Handler: 1 + r.Intn(2)}
		for t := 0; t < n; t++ {
			var c Caller
			for o := 0; o < 1+r.Intn(2); o++ {
				g := p.fresh()
				op := g.listOp(pr, 1+r.Intn(3))
				if r.Chance(1, 8) {
					op = kin(g, 2, pr)
				}
				switch r.Intn(8) {
				case 0:
					// The whole list is refused: the handler must stay out of it.
					op.Edits = []Edit{{Off: len(op.rendered()), Ins: Str([]string{" x", ", <", ", (", " \"", "@@"}[r.Intn(5)]), How: "refused"}}
					if r.Chance(1, 3) {
						// Refused for its quotes only.
						op.Edits = []Edit{{Off: len(op.rendered()), Ins: ";", How: "refused"}, {Off: 0, Ins: "\"J\" <j@x>, \"Team: ", How: "refused"}}
					}
				case 1:
					op = g.rejected()
				}
				c.Ops = append(c.Ops, op)
				if r.Chance(1, 4) {
					c.Ops = append(c.Ops, cloneOp(op))
				}
			}
			ph.Threads = append(ph.Threads, c)
		}
		sc.Phases = append(sc.Phases, ph)
	}
}

func buildC08(sc *Scenario, r *simrt.Rand, p *pool) {
	if r.Chance(1, 8) {
		relatives(sc, r, p, 1, 1+r.Intn(3), false, 2)
		return
	}
	pr := handlerProfile()
	pr.few = fewCharsets(r)
	pr.abort = 40 + r.Intn(50)
	if r.Chance(1, 10) {
		// Abort after abort, then ordinary calls.
		q := *pr
		q.abort = 100
		ph := Phase{Handler: 1}
		n := 16 + r.Intn(60)
		if r.Chance(1, 4) {
			n += 100 + r.Intn(100)
		}
		threads := 1 + r.Intn(2)
		for t := 0; t < threads; t++ {
			var c Caller
			op := p.gen(300+r.Intn(4), 0).tiny(3, &q)
			for o := 0; o < n/threads; o++ {
				c.Ops = append(c.Ops, op)
			}
			v := cloneOp(op)
			v.Plan[0].Abort = ""
			c.Ops = append(c.Ops, v, p.fresh().date(false), p.fresh().tiny(0, pr))
			if r.Chance(1, 2) {
				// What an abort leaves behind may come back much later.
				for o := 0; o < 30+r.Intn(120); o++ {
					c.Ops = append(c.Ops, v)
				}
			}
			ph.Threads = append(ph.Threads, c)
		}
		sc.Phases = []Phase{ph}
		return
	}
	pr.slow = r.Intn(20)
	n := 1 + r.Intn(3)
	phases := 1 + r.Intn(2)
	for k := 0; k < phases; k++ {
		ph := Phase{Handler: 1}
		for t := 0; t < n; t++ {
			var c Caller
			for o := 0; o < 1+r.Intn(2); o++ {
				op := p.fresh().listOp(pr, 1+r.Intn(2))
				c.Ops = append(c.Ops, op)
				if r.Chance(2, 3) {
					// Retry of the same input.
					v := cloneOp(op)
					for _, x := range v.Plan {
						x.Abort = ""
					}
					c.Ops = append(c.Ops, v)
				}
				if r.Chance(1, 4) {
					c.Ops = append(c.Ops, p.fresh().date(false))
				}
			}
			ph.Threads = append(ph.Threads, c)
		}
		if r.Chance(1, 2) {
			q := *pr
			q.abort = 0
			ph.Threads = append(ph.Threads, Caller{Ops: []*Op{p.fresh().listOp(&q, 1+r.Intn(2))}})
		}
		if r.Chance(1, 5) {
			// A handler that makes a call, survives its abort, and goes on.
			q := *pr
			q.abort = 0
			c := Caller{Ops: []*Op{p.fresh().listOp(&q, 1+r.Intn(2))}}
			if pl := c.Ops[0].Plan; len(pl) > 0 {
				q.abort = 100
				x := pl[r.Intn(len(pl))]
				x.Nested, x.NestAt = p.fresh().tiny(3, &q), r.Intn(3)
				if r.Chance(1, 3) {
					x.Abort = []string{"panic", "exit"}[r.Intn(2)]
					x.AbortAt = r.Intn(3)
				}
			}
			ph.Threads = append(ph.Threads, c)
		}
		sc.Phases = append(sc.Phases, ph)
	}
}

// busy is a process that has served many calls, some of them stalled or with
// calls inside them.
func busy(sc *Scenario, r *simrt.Rand, p *pool, pr *profile) {
	ph := Phase{Handler: 1}
	var ops []*Op
	for k := 0; k < 3+r.Intn(6); k++ {
		ops = append(ops, p.gen(440+r.Intn(12), 0).tiny([]int{0, 1, 2, 3, 3, 3}[r.Intn(6)], pr))
	}
	threads := 2 + r.Intn(4)
	per := 8 + r.Intn(30)
	if r.Chance(1, 5) {
		per += 60
	}
	for t := 0; t < threads; t++ {
		var c Caller
		for o := 0; o < per; o++ {
			op := cloneOp(ops[r.Intn(len(ops))])
			if len(op.Plan) > 0 {
				x := op.Plan[0]
				switch r.Intn(12) {
				case 0:
					x.Stall, x.WaitAt = true, r.Intn(3)
				case 1:
					x.Sleep, x.WaitAt = int64(time.Millisecond)<<uint(r.Intn(22)), r.Intn(3)
				case 2, 3:
					x.Nested, x.NestAt = cloneOp(ops[r.Intn(len(ops))]), r.Intn(3)
				}
			}
			c.Ops = append(c.Ops, op)
		}
		ph.Threads = append(ph.Threads, c)
	}
	sc.Phases = []Phase{ph}
}

func buildC09(sc *Scenario, r *simrt.Rand, p *pool) {
	pr := handlerProfile()
	pr.stall = 30 + r.Intn(50)
	pr.slow = r.Intn(30)
	n := 2 + r.Intn(2)
	ph := Phase{Handler: 1}
	q := *pr
	q.stall, q.slow = 0, 0
	if r.Chance(1, 9) {
		// A crowd of stalled calls, and a few others.
		n = 6 + r.Intn(24)
		switch r.Intn(6) {
		case 0, 1:
			n += 40
		case 2:
			n += 60 + r.Intn(80)
		}
		z := *pr
		z.stall = 100
		op := p.gen(400+r.Intn(4), 0).tiny(3, &z)
		for t := 0; t < n; t++ {
			ph.Threads = append(ph.Threads, Caller{Ops: []*Op{op}})
		}
		for t := 0; t < 2; t++ {
			ph.Threads = append(ph.Threads, Caller{Ops: []*Op{p.fresh().tiny([]int{0, 1, 3}[r.Intn(3)], &q), p.fresh().tiny(3, &q)}})
		}
		sc.Phases = []Phase{ph}
		return
	}
	if r.Chance(1, 9) {
		// Calls within calls within calls.
		op := p.fresh().tiny(r.Intn(2), &q)
		depth := 4 + r.Intn(24)
		switch r.Intn(6) {
		case 0:
			depth += 40
		case 1:
			depth += 60 + r.Intn(80)
		}
		for d := 0; d < depth; d++ {
			o := p.gen(420+r.Intn(6), 0).tiny(3, &q)
			o.Plan[0].Nested, o.Plan[0].NestAt = op, r.Intn(3)
			op = o
		}
		ph.Threads = []Caller{{Ops: []*Op{op}}, {Ops: []*Op{p.fresh().tiny(3, &q)}}}
		sc.Phases = []Phase{ph}
		return
	}
	if r.Chance(1, 9) {
		busy(sc, r, p, &q)
		return
	}
	shared := p.fresh().listOp(pr, 1)
	var nest func(op *Op, depth int)
	nest = func(op *Op, depth int) {
		for _, x := range op.Plan {
			if r.Chance(1, 3) {
				switch r.Intn(4) {
				case 0:
					x.Nested = p.fresh().date(false)
				case 1:
					x.Nested = p.fresh().rejected()
				case 2:
					// The call calls itself: the same input inside.
					v := cloneOp(op)
					for _, y := range v.Plan {
						y.Nested, y.Stall = nil, false
					}
					x.Nested = v
				default:
					v := p.fresh().listOp(&q, 1)
					if depth < 2 {
						nest(v, depth+1)
					}
					x.Nested = v
				}
				x.NestAt = r.Intn(3)
				return
			}
		}
	}
	for t := 0; t < n; t++ {
		var c Caller
		for o := 0; o < 1+r.Intn(2); o++ {
			var op *Op
			switch r.Intn(5) {
			case 0:
				op = p.fresh().listOp(pr, 1)
			case 1:
				op = p.fresh().listOp(&q, 1)
			case 2:
				op = p.fresh().date(false)
			default:
				op = cloneOp(shared)
				if r.Chance(1, 2) {
					for _, x := range op.Plan {
						x.Stall, x.Sleep = false, 0
					}
				}
			}
			if r.Chance(1, 3) {
				nest(op, 0)
			}
			c.Ops = append(c.Ops, op)
		}
		ph.Threads = append(ph.Threads, c)
	}
	sc.Phases = []Phase{ph}
}

func buildC10(sc *Scenario, r *simrt.Rand, p *pool) {
	if r.Chance(1, 4) {
		relatives(sc, r, p, 1+r.Intn(2), 1+r.Intn(3), true, 0)
		return
	}
	phases := 1 + r.Intn(2)
	pr := plainProfile()
	for k := 0; k < phases; k++ {
		ph := Phase{Handler: 1, Restart: r.Chance(1, 3)}
		n := 1 + r.Intn(3)
		for t := 0; t < n; t++ {
			var c Caller
			for o := 0; o < 2+r.Intn(5); o++ {
				switch r.Intn(8) {
				case 0, 1:
					c.Ops = append(c.Ops, &Op{Kind: KWall, Wall: wallAt(r)})
				case 2:
					c.Ops = append(c.Ops, &Op{Kind: KSleep, Dur: int64(time.Second) << uint(r.Intn(26))})
				case 3:
					if r.Chance(1, 4) {
						pr.slow = 50
						c.Ops = append(c.Ops, p.fresh().listOp(pr, 1))
					}
				case 4:
					c.Ops = append(c.Ops, p.fresh().date(false))
				}
				// Often a year next to the one the clock shows.
				y := -1
				if r.Chance(1, 2) {
					y = (time.Unix(0, sc.Wall).UTC().Year()%100 + r.Intn(3) + 99) % 100
				}
				op := p.fresh().dateIn(true, y)
				c.Ops = append(c.Ops, op)
			}
			ph.Threads = append(ph.Threads, c)
		}
		sc.Phases = append(sc.Phases, ph)
	}
	trimSleep(sc)
}

// trimSleep keeps the clock within the years the property speaks of.
func trimSleep(sc *Scenario) {
	if time.Unix(0, sc.Wall).UTC().Year() >= 2095 {
		for _, ph := range sc.Phases {
			for _, c := range ph.Threads {
				for _, op := range c.Ops {
					if op.Kind == KSleep {
						op.Dur = int64(time.Second)
					}
				}
			}
		}
	}
}

func buildC11(sc *Scenario, r *simrt.Rand, p *pool) {
	if r.Chance(1, 4) {
		relatives(sc, r, p, 1+r.Intn(2), 1+r.Intn(3), true, 0)
		return
	}
	if r.Chance(1, 14) {
		longHistory(sc, r, p, 1, 1, 1, 1, 0, 3)
		return
	}
	phases := 1 + r.Intn(2)
	pr := plainProfile()
	if r.Chance(1, 4) {
		// The clock of a badly set host.
		sc.Wall = time.Date([]int{1970, 1901, 1999, 2100, 2150, 2200}[r.Intn(6)], time.Month(1+r.Intn(12)), 1+r.Intn(28), r.Intn(24), 0, 0, 0, time.UTC).UnixNano()
	}
	g0 := p.fresh()
	again := g0.date(false)
	for k := 0; k < phases; k++ {
		ph := Phase{Handler: 1, Restart: r.Chance(1, 3)}
		n := 1 + r.Intn(3)
		for t := 0; t < n; t++ {
			var c Caller
			for o := 0; o < 2+r.Intn(4); o++ {
				switch r.Intn(8) {
				case 0, 1:
					c.Ops = append(c.Ops, &Op{Kind: KWall, Wall: wallAt(r)})
				case 2:
					c.Ops = append(c.Ops, p.fresh().date(true))
				case 3:
					c.Ops = append(c.Ops, damageDate(p.fresh(), p.fresh().date(false)))
				case 4:
					if r.Chance(1, 4) {
						c.Ops = append(c.Ops, p.fresh().listOp(pr, 1))
					}
				}
				if r.Chance(1, 3) {
					c.Ops = append(c.Ops, cloneOp(again))
				} else {
					c.Ops = append(c.Ops, p.fresh().date(false))
				}
			}
			ph.Threads = append(ph.Threads, c)
		}
		sc.Phases = append(sc.Phases, ph)
	}
}

func buildC12(sc *Scenario, r *simrt.Rand, p *pool) {
	pr := plainProfile()
	ph := Phase{Handler: anyHandler(r)}
	n := 1 + r.Intn(3)
	for t := 0; t < n; t++ {
		var c Caller
		for o := 0; o < 1+r.Intn(3); o++ {
			switch r.Intn(5) {
			case 0:
				c.Ops = append(c.Ops, damageDate(p.fresh(), p.fresh().date(r.Chance(1, 3))))
			default:
				g := p.fresh()
				op := g.listOp(pr, 1+r.Intn(3))
				c.Ops = append(c.Ops, damage(g, op, 1+r.Intn(3)))
			}
			if r.Chance(1, 3) {
				c.Ops = append(c.Ops, p.fresh().listOp(pr, 1))
			}
		}
		ph.Threads = append(ph.Threads, c)
	}
	sc.Phases = []Phase{ph}
}

func buildC13(sc *Scenario, r *simrt.Rand, p *pool) {
	pr := plainProfile()
	pr.comments = r.Chance(1, 2)
	ph := Phase{Handler: anyHandler(r)}
	n := 1 + r.Intn(2)
	for t := 0; t < n; t++ {
		var c Caller
		for o := 0; o < 1+r.Intn(2); o++ {
			g := p.fresh()
			op := g.listOp(pr, 2+r.Intn(4))
			c.Ops = append(c.Ops, damage(g, op, 1+r.Intn(2)))
		}
		ph.Threads = append(ph.Threads, c)
	}
	sc.Phases = []Phase{ph}
}

// buildC19 mixes everything that calls meet: what matters is not what they
// return.
func buildC19(sc *Scenario, r *simrt.Rand, p *pool) {
	switch r.Intn(10) {
	case 0, 1:
		buildC08(sc, r, p)
	case 2, 3:
		buildC09(sc, r, p)
	case 4:
		buildC07(sc, r, p)
	case 5:
		buildC12(sc, r, p)
	case 6:
		buildC10(sc, r, p)
	case 7:
		longHistory(sc, r, p, 0, 1, 2, 3, 3)
	default:
		buildC02(sc, r, p)
		for i := range sc.Phases {
			for _, op := range sc.Phases[i].Threads[0].Ops {
				for _, c := range op.Plan {
					if r.Chance(1, 5) {
						c.Sleep, c.WaitAt = int64(time.Millisecond)<<uint(r.Intn(22)), r.Intn(3)
					}
				}
			}
		}
	}
	for i := range sc.Phases {
		if r.Chance(1, 4) {
			sc.Phases[i].Handler = r.Intn(3)
		}
	}
}

// digits is n random digits, the first not zero.
func digits(r *simrt.Rand, n int) string {
	b := []byte{byte('1' + r.Intn(9))}
	for len(b) < n {
		b = append(b, byte('0'+r.Intn(10)))
	}
	return string(b)
}

// numeric is a call of shape k: only digits differ between calls of a shape.
func numeric(r *simrt.Rand, k int, how uint64) *Op {
	d := func(n int) string { return digits(r, n) }
	op := &Op{Kind: KAddr}
	word := func(cs string) string {
		if cs == "" {
			cs = "x-" + d(5)
		}
		c := &Conv{Charset: cs, Payload: Str(d(6)), Out: Str("ä" + d(6))}
		switch how % 8 {
		case 0:
			c.Fail, c.FailAt, c.Err = "open", 1, []string{"", "eof", "temporary"}[how/8%3]
		case 1:
			c.Fail, c.FailAt = "read", 1
		case 2:
			c.Abort, c.AbortAt = []string{"panic", "panic error", "exit"}[how/8%3], int(how/32%3)
		case 3:
			c.Chunks, c.EOFData = []int{1, 0, 2, 0, 0, 1}, how/8%2 == 0
		case 4:
			c.Out = Str(strings.Repeat("ß"+d(5), 150))
		case 5:
			c.Sleep, c.WaitAt = int64(time.Millisecond)<<uint(how/8%20), int(how/256%3)
		case 6:
			c.Nested, c.NestAt = numeric(r, []int{0, 6, 8, 3}[how/8%4], 7), int(how/256%3)
		}
		op.Plan = append(op.Plan, c)
		return "=?" + cs + "?q?" + string(c.Payload) + "?="
	}
	switch k {
	case 0:
		op.Raw = Str(d(4) + "@" + d(4))
	case 1:
		op.Raw = Str(d(4) + " <" + d(2) + "@" + d(2) + ">")
	case 2:
		op.Raw = Str(word("koi8-r") + " <" + d(2) + "@" + d(2) + ">")
	case 3:
		op.Raw = Str("\"" + d(3) + " " + d(3) + "\" <" + d(2) + "@" + d(2) + ">")
	case 4:
		op.Raw = Str(d(2) + ":" + d(1) + "@" + d(2) + "," + d(2) + "@" + d(1) + ";")
	case 5:
		op.Raw = Str(d(2) + "@" + d(2) + "(" + d(4) + ")")
	case 6:
		op.Raw = Str(d(3) + "@@" + d(3)) // refused
	case 7:
		op.Raw = Str("=?utf-8?q?" + d(6) + "?= <" + d(2) + "@" + d(2) + ">")
	case 8:
		op.Kind, op.Raw = KDate, Str(fmt.Sprintf("%d Jan 20%d %d:%d:%d +0%d%d", 10+r.Intn(19), 10+r.Intn(80), 10+r.Intn(10), 10+r.Intn(50), 10+r.Intn(50), r.Intn(10), 10+r.Intn(50)))
	case 9:
		op.Kind, op.Raw = KDate, Str(fmt.Sprintf("%d Mar %d %d:%d GMT", 10+r.Intn(19), 10+r.Intn(80), 10+r.Intn(10), 10+r.Intn(50)))
	case 10:
		op.Kind, op.Raw = KDate, Str(fmt.Sprintf("%d Mar %d", 10+r.Intn(19), 10+r.Intn(80))) // refused
	case 11:
		op.Raw = Str(word("cp1250") + " " + word("koi8-r") + " <" + d(1) + "@" + d(1) + ">")
	case 16:
		op.Raw = Str(word("") + " <" + d(1) + "@" + d(2) + ">")
	case 12:
		op.Raw = Str("<" + d(2) + "@[" + d(2) + "." + d(2) + "]>")
	case 14:
		op.Raw = Str("\"" + d(2) + "\" <" + d(1) + "@" + d(1) + ">, \"" + d(2) + ": " + d(2) + "@" + d(1) + ";") // refused
	case 15:
		op.Raw = Str(d(2) + " <" + d(6) + ">") // refused
	case 17:
		op.Raw = Str("") // the empty input
		if how%2 == 0 {
			op.Kind = KDate
		}
	case 19:
		op.Kind, op.Raw = KDate, Str(d(1)) // refused at once
	case 21:
		op.Raw = Str(d(1)) // refused at once
	case 18:
		op.Raw = Str(word("koi8-r") + "<" + d(1) + "@" + d(1) + ">")
	case 13:
		op.Raw = Str(d(1) + "@" + d(1) + "," + d(1) + "@" + d(1) + "," + d(2) + " <" + d(1) + "@" + d(1) + ">")
	}
	return op
}

// buildC20 makes rounds of calls: each round repeats the first one, with other
// digits or with the very same ones.
func buildC20(sc *Scenario, r *simrt.Rand, p *pool) {
	type slot struct {
		k    int
		how  uint64
		same bool
		op   *Op
	}
	n := 8 + r.Intn(30)
	shapes := 1 + r.Intn(3)
	steady, drip := r.Chance(1, 8), false
	if steady {
		// A great many short calls of one shape, to see small leaks.
		n, shapes = 150+r.Intn(100), 1
		drip = r.Chance(1, 3)
	}
	same := r.Chance(1, 5)
	one, how := r.Chance(1, 2), r.Uint64()>>1 // every handler behaves alike
	from := []int{0, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 16, 16}
	switch r.Intn(8) {
	case 0:
		from = []int{6, 10, 14, 15} // refused
	case 1:
		from, one, how = []int{2, 16, 11}, true, 2+8*(r.Uint64()>>5) // aborted
	case 2:
		from, one, how = []int{2, 16, 11}, true, r.Uint64()>>5*8+uint64(r.Intn(2)) // not converted
	case 3:
		from = []int{8, 9}
	case 4:
		from = []int{7, 2, 16}
	}
	if steady {
		if from = []int{0, 6, 10, 15, 17}; r.Chance(1, 2) {
			from, n = []int{8, 9, 7, 18}, 70+r.Intn(50)
		}
		if drip {
			from, n = []int{17, 19, 19, 21}, 1200+r.Intn(400)
		}
	}
	var ks []int
	for i := 0; i < shapes; i++ {
		ks = append(ks, from[r.Intn(len(from))])
	}
	threads := 1
	if r.Chance(1, 3) && !steady {
		threads = 2 + r.Intn(2)
	}
	var slots []slot
	for i := 0; i < n; i++ {
		s := slot{k: ks[r.Intn(shapes)], how: r.Uint64() >> 1, same: same || r.Chance(1, 6)}
		if one {
			s.how = how
		}
		s.op = numeric(r, s.k, s.how)
		slots = append(slots, s)
	}
	handler := 1
	if r.Chance(1, 10) {
		handler = 0
	}
	rounds := 6 + r.Intn(5)
	if steady {
		rounds = 5
	}
	if n < 14 && r.Chance(1, 2) {
		rounds += 20
	}
	for k := 0; k < rounds; k++ {
		ph := Phase{Handler: handler, Threads: make([]Caller, threads)}
		for i, s := range slots {
			op := s.op
			if !s.same && k > 0 {
				op = numeric(r, s.k, s.how)
			}
			c := &ph.Threads[i%threads]
			c.Ops = append(c.Ops, op)
		}
		sc.Phases = append(sc.Phases, ph)
	}
}
