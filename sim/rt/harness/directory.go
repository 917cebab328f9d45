package harness

import (
	"fmt"
	"strings"

	"verifsim/simrt"
)

// members are n short calls on one mailbox each, no two of them alike in any
// word. At most conv of them have a name that the handler converts.
func members(g *gen, n, conv int, p *profile) []*Op {
	q := *p
	q.short, q.long = true, 0
	q.slow, q.stall, q.abort, q.fail = 0, 0, 0, 0
	form := g.s.Intn(4)
	pre := g.letters(1, 2)
	var out []*Op
	for k := 0; k < n; k++ {
		l, d, m := fmt.Sprintf("%s%d", pre, k), fmt.Sprintf("d%d", k), fmt.Sprintf("N%d", k)
		at := l + "@" + d
		f := form
		if f == 3 {
			f = g.l.Intn(3)
		}
		if conv > 0 && g.l.Chance(2*conv, n) {
			conv--
			c := g.foreign(&q)
			out = append(out, &Op{Kind: KAddr, List: []Elem{{Text: Str(c.raw + " <" + at + ">"), Boxes: []Box{{Name: []Piece{{Lit: Str(c.raw), Conv: 1}}, Addr: Str(at)}}}}, Plan: []*Conv{c.conv}})
			continue
		}
		switch f {
		case 1:
			out = append(out, addrOp(m+" <"+at+">", m, at))
		case 2:
			out = append(out, addrOp("\""+m+"\" <\""+l+" \"@"+d+">", m, l+" @"+d))
		default:
			out = append(out, addrOp(at, "", at))
		}
	}
	return out
}

// joined is one call on the list of all of them, some within groups.
func joined(g *gen, ops []*Op, groups bool) *Op {
	out := &Op{Kind: KAddr}
	sep := g.pick(",", ", ", ",\r\n ", " ,")
	for i := 0; i < len(ops); {
		k := 1
		if groups && !strings.Contains(string(ops[i].List[0].Text), ":") && g.l.Chance(1, 6) {
			k = 1 + g.l.Intn(8)
		}
		if i+k > len(ops) {
			k = len(ops) - i
		}
		for j := i + 1; j < i+k; j++ {
			if strings.Contains(string(ops[j].List[0].Text), ":") {
				k = j - i // no groups within groups
			}
		}
		var e Elem
		var text []string
		for _, op := range ops[i : i+k] {
			// The handler knows words by their charset and payload.
			at := make([]int, len(op.Plan))
			for n, c := range cloneOp(op).Plan {
				for m, d := range out.Plan {
					if c.Charset == d.Charset && c.Payload == d.Payload {
						at[n] = m + 1
					}
				}
				if at[n] == 0 {
					out.Plan = append(out.Plan, c)
					at[n] = len(out.Plan)
				}
			}
			for _, el := range op.List {
				text = append(text, string(el.Text))
				for _, b := range el.Boxes {
					nb := Box{Addr: b.Addr}
					for _, pc := range b.Name {
						if pc.Conv > 0 {
							pc.Conv = at[pc.Conv-1]
						}
						nb.Name = append(nb.Name, pc)
					}
					e.Boxes = append(e.Boxes, nb)
				}
			}
		}
		e.Text = Str(strings.Join(text, ","))
		if k > 1 {
			e.Text = Str(fmt.Sprintf("G%d:", i)) + e.Text + ";"
		}
		i += k
		if i < len(ops) {
			e.Sep = Str(sep)
		}
		out.List = append(out.List, e)
	}
	return out
}

// directory is a history in which a process comes to see very many different
// words, and then some of the first ones again.
func directory(sc *Scenario, r *simrt.Rand, p *pool, threads, conv int) {
	pr := handlerProfile()
	pr.chunky = 20
	n := 40 + r.Intn(60)
	switch r.Intn(6) {
	case 0, 1:
		n += 80
	case 2:
		n += 120 + r.Intn(100)
	case 3:
		if conv == 0 {
			n += 400
		}
	}
	g := p.gen(900+r.Intn(3), n)
	ms := members(g, n, conv, pr)
	ph := Phase{Handler: 1, Threads: make([]Caller, threads)}
	add := func(op *Op) {
		c := &ph.Threads[r.Intn(threads)]
		c.Ops = append(c.Ops, cloneOp(op))
	}
	few := func() {
		for k := 0; k < 1+r.Intn(6); k++ {
			add(ms[r.Intn(len(ms))])
		}
		add(ms[r.Intn(4)])
	}
	few()
	// The cost of a call can grow with the square of its length.
	size := 0
	for _, m := range ms {
		size += len(m.List[0].Text) + 2
	}
	parts := 1 + r.Intn(3) + size/1500
	for k := 0; k < parts; k++ {
		add(joined(g, ms[k*n/parts:(k+1)*n/parts], r.Chance(1, 3)))
		if r.Chance(1, 2) {
			few()
		}
	}
	few()
	few()
	sc.Phases = []Phase{ph}
}
