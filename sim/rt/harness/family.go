package harness

import (
	"fmt"
	"strings"
	"time"

	"verifsim/simrt"
)

// family is a set of short inputs that are related: each differs from some
// other one in a single respect. Whatever is remembered from one call and
// mistaken for another shows between relatives.
func family(g *gen, kind int, p *profile) []*Op {
	switch kind {
	case 0:
		return dateFamily(g)
	case 1:
		return addressFamily(g)
	}
	return wordFamily(g, p)
}

func addrOp(text, name, addr string) *Op {
	b := Box{Addr: Str(addr)}
	if name != "" {
		b.Name = []Piece{{Lit: Str(name)}}
	}
	return &Op{Kind: KAddr, List: []Elem{{Text: Str(text), Boxes: []Box{b}}}}
}

func addressFamily(g *gen) []*Op {
	low := func(n int) string { return strings.ToLower(g.letters(1, n)) }
	l, d, n := low(3), low(3), "n"+low(2)
	cap := strings.ToUpper
	at := l + "@" + d
	out := []*Op{
		addrOp(at, "", at),
		addrOp(at, "", at),
		addrOp(d+"@"+l, "", d+"@"+l),
		addrOp(l+"@"+cap(d), "", l+"@"+cap(d)),
		addrOp(cap(l)+"@"+d, "", cap(l)+"@"+d),
		addrOp("<"+at+">", "", at),
		addrOp(n+" <"+at+">", n, at),
		addrOp(n+"<"+at+">", n, at),
		addrOp(cap(n)+" <"+at+">", cap(n), at),
		addrOp(l+" <"+n+"@"+d+">", l, n+"@"+d),
		addrOp("\""+n+"\" <"+at+">", n, at),
		addrOp("\""+n+" \" <"+at+">", n+" ", at),
		addrOp(n+" "+l+" <"+at+">", n+" "+l, at),
		addrOp("\""+n+"  "+l+"\" <"+at+">", n+"  "+l, at),
		addrOp("\""+l+"\"@"+d, "", at),
		addrOp("\""+l+" \"@"+d, "", l+" @"+d),
		addrOp(l+"."+n+"@"+d, "", l+"."+n+"@"+d),
		addrOp(l+n+"@"+d, "", l+n+"@"+d),
		addrOp(at+" ("+n+")", "", at),
		addrOp("("+l+") "+at, "", at),
		addrOp(l+"@["+d+"]", "", l+"@["+d+"]"),
		addrOp("<@"+n+":"+at+">", "", at),
		addrOp("é"+at, "", "é"+at),
		addrOp("è"+at, "", "è"+at),
		{Kind: KAddr},
		{Kind: KAddr, Raw: Str(l + "@")},
		{Kind: KAddr, Raw: Str(at + ">")},
		{Kind: KAddr, Raw: Str("<" + at)},
		{Kind: KAddr, List: []Elem{{Text: Str(at), Sep: ", ", Boxes: []Box{{Addr: Str(at)}}}, {Text: Str(at), Boxes: []Box{{Addr: Str(at)}}}}},
		{Kind: KAddr, List: []Elem{{Text: Str(at), Sep: ", ", Boxes: []Box{{Addr: Str(at)}}}, {Text: Str(n + "@" + d), Boxes: []Box{{Addr: Str(n + "@" + d)}}}}},
		{Kind: KAddr, List: []Elem{{Text: Str(n + "@" + d), Sep: ", ", Boxes: []Box{{Addr: Str(n + "@" + d)}}}, {Text: Str(at), Boxes: []Box{{Addr: Str(at)}}}}},
		{Kind: KAddr, List: []Elem{{Text: Str(n + ":" + at + ";"), Boxes: []Box{{Addr: Str(at)}}}}},
		{Kind: KAddr, List: []Elem{{Text: Str(n + ":" + at + "," + at + ";"), Boxes: []Box{{Addr: Str(at)}, {Addr: Str(at)}}}}},
		{Kind: KAddr, List: []Elem{{Text: Str(n + ":;"), Sep: ",", Boxes: nil}, {Text: Str(at), Boxes: []Box{{Addr: Str(at)}}}}},
	}
	if p := g.s.Intn(3); p > 0 {
		raw := "=?utf-8?" + []string{"Q", "B"}[p-1] + "?" + "abcd" + "?="
		mean := []string{"abcd", "i\xb7\x1d"}[p-1]
		if p == 2 {
			mean = raw // three bytes that are no UTF-8: as written or replaced, ask the model nothing
		}
		if p == 1 {
			out = append(out, addrOp(raw+" <"+at+">", mean, at), addrOp("=?iso-8859-1?Q?=E9?= <"+at+">", "é", at), addrOp("=?iso-8859-1?Q?=E8?= <"+at+">", "è", at))
		}
	}
	return out
}

func wordFamily(g *gen, p *profile) []*Op {
	q := *p
	q.short, q.long, q.few, q.broken = true, 0, 1+g.s.Intn(4), 0
	var out []*Op
	cs := []string{foreignCharsets[q.few%len(foreignCharsets)], foreignCharsets[(q.few+1)%len(foreignCharsets)]}
	w := g.letters(2, 4)
	at := g.letters(1, 2) + "@" + g.letters(1, 2)
	style := g.s.Intn(5)
	word := func(raw, charset, payload string) {
		c := &Conv{Charset: charset, Payload: Str(payload), Out: Str(convert(charset, payload, style))}
		g.delivery(c, &q)
		out = append(out, &Op{Kind: KAddr, List: []Elem{{Text: Str(raw + " <" + at + ">"), Boxes: []Box{{Name: []Piece{{Lit: Str(raw), Conv: 1}}, Addr: Str(at)}}}}, Plan: []*Conv{c}})
	}
	for _, c := range cs {
		word("=?"+c+"?Q?"+w+"?=", c, w)
		word("=?"+strings.ToUpper(c)+"?Q?"+w+"?=", c, w)
		word("=?"+c+"?q?"+strings.ToUpper(w)+"x?=", c, strings.ToUpper(w)+"x")
		word("=?"+c+"?q?"+strings.ToLower(w)+"x?=", c, strings.ToLower(w)+"x")
		word("=?"+c+"?B?YWJj?=", c, "abc")
		word("=?"+c+"?Q?abc?=", c, "abc")
		word("=?"+c+"?Q?YWJj?=", c, "YWJj")
		word("=?"+c+"?B?YWJk?=", c, "abd")
		word("=?"+c+"?Q?a=62c?=", c, "abc")
		word("=?"+c+"?Q?ab_?=", c, "ab ")
		word("=?"+c+"?Q?ab=5F?=", c, "ab_")
	}
	out = append(out,
		addrOp("=?utf-8?Q?"+w+"?= <"+at+">", w, at),
		addrOp("=?utf-8?B?YWJj?= <"+at+">", "abc", at),
		addrOp("=?us-ascii?Q?YWJj?= <"+at+">", "YWJj", at),
		addrOp("\"=?"+cs[0]+"?Q?abc?=\" <"+at+">", "=?"+cs[0]+"?Q?abc?=", at),
		addrOp("=?"+cs[0]+"?Q?a=ZZ?= <"+at+">", "=?"+cs[0]+"?Q?a=ZZ?=", at),
		addrOp("=?"+cs[0]+"?X?abc?= <"+at+">", "=?"+cs[0]+"?X?abc?=", at),
	)
	return out
}

func dateFamily(g *gen) []*Op {
	type v struct {
		day, month, year, hour, min, sec int
		zone                             string
		offset                           int
		short, noSec                     bool
		pre, ws, post                    string
		upper                            bool
	}
	base := v{day: 1 + g.l.Intn(28), month: 1 + g.l.Intn(12), year: 1930 + g.l.Intn(130), hour: g.l.Intn(24), min: g.l.Intn(60), sec: g.l.Intn(60), ws: " "}
	h, m := 1+g.l.Intn(12), []int{0, 30, 45}[g.l.Intn(3)]
	base.zone, base.offset = fmt.Sprintf("+%02d%02d", h, m), h*3600+m*60
	var out []*Op
	add := func(f func(*v)) {
		x := base
		f(&x)
		var b strings.Builder
		b.WriteString(x.pre)
		mon := monthNames[x.month-1]
		if x.upper {
			mon = strings.ToUpper(mon)
		}
		d := &DateSpec{Month: x.month, Day: x.day, Year: x.year, Short: x.short, Hour: x.hour, Min: x.min, Sec: x.sec, Offset: x.offset}
		y := fmt.Sprintf("%04d", x.year)
		if x.short {
			d.Year = x.year % 100
			y = fmt.Sprintf("%02d", d.Year)
		}
		fmt.Fprintf(&b, "%d%s%s%s%s%s%02d:%02d", x.day, x.ws, mon, x.ws, y, x.ws, x.hour, x.min)
		if x.noSec {
			d.Sec = 0
		} else {
			fmt.Fprintf(&b, ":%02d", x.sec)
		}
		if x.zone != "" {
			b.WriteString(" " + x.zone)
		}
		b.WriteString(x.post)
		d.Text = Str(b.String())
		out = append(out, &Op{Kind: KDate, Date: d})
	}
	add(func(x *v) {})
	add(func(x *v) {})
	add(func(x *v) { x.zone, x.offset = "-"+x.zone[1:], -x.offset })
	add(func(x *v) { x.zone, x.offset = "-"+x.zone[1:], -x.offset; x.noSec = true })
	add(func(x *v) { x.zone = fmt.Sprintf("+%02d%02d", h, (m+15)%60); x.offset = h*3600 + (m+15)%60*60 })
	add(func(x *v) { x.zone = fmt.Sprintf("+%02d%02d", (h+1)%13, m); x.offset = (h+1)%13*3600 + m*60 })
	add(func(x *v) { x.zone, x.offset = "", 0 })
	add(func(x *v) { x.zone, x.offset = "GMT", 0 })
	add(func(x *v) { x.zone, x.offset = "-0000", 0 })
	z := zoneNames[g.l.Intn(len(zoneNames))]
	add(func(x *v) { x.zone, x.offset = z.n, z.o*3600 })
	add(func(x *v) { x.zone, x.offset = strings.ToLower(z.n), z.o*3600 })
	z2 := zoneNames[g.l.Intn(len(zoneNames))]
	add(func(x *v) { x.zone, x.offset = z2.n, z2.o*3600 })
	add(func(x *v) { x.noSec = true })
	add(func(x *v) { x.sec = (x.sec + 1) % 60 })
	add(func(x *v) { x.hour, x.min = x.min%24, x.hour })
	add(func(x *v) { x.month = x.month%12 + 1 })
	add(func(x *v) { x.month = (x.month+5)%12 + 1; x.upper = true })
	add(func(x *v) { x.upper = true })
	add(func(x *v) { x.year++ })
	add(func(x *v) { x.year += 100 })
	add(func(x *v) { x.year -= 1000 })
	add(func(x *v) { x.short = true })
	add(func(x *v) { x.short = true; x.noSec = true })
	add(func(x *v) { x.year++; x.short = true })
	add(func(x *v) { x.day = x.day%28 + 1 })
	add(func(x *v) { x.day, x.month = 1+(x.month-1), 1+(x.day-1)%12 })
	add(func(x *v) { x.day, x.month = 31, 12; x.hour, x.min, x.sec = 23, 59, 59 })
	add(func(x *v) { x.day, x.month = 1, 1; x.hour, x.min, x.sec = 0, 0, 0 })
	add(func(x *v) { x.pre = "Mon, " })
	add(func(x *v) { x.post = " (GMT)" })
	add(func(x *v) { x.ws = "  " })
	w := g.letters(1, 3)
	out = append(out, &Op{Kind: KDate, Raw: Str("1 Jan 2006 10:00 " + w)}, &Op{Kind: KDate, Raw: Str("1 Jan")}, &Op{Kind: KDate})
	return out
}

// within makes the members of a family parts of longer inputs, all with the
// same beginning or end.
func within(g *gen, fam []*Op) []*Op {
	n := []int{1, 2, 3, 4, 10}[g.s.Intn(5)]
	var head, tail []*Op
	side := g.s.Intn(3)
	pad := g.letters(1, 1+g.s.Intn(20))
	for k := 0; k < n; k++ {
		op := addrOp(fmt.Sprintf("%s%d@z", pad, k), "", fmt.Sprintf("%s%d@z", pad, k))
		if g.s.Chance(1, 4) {
			op = addrOp(fmt.Sprintf("%s%d <y@z>", pad, k), fmt.Sprintf("%s%d", pad, k), "y@z")
		}
		if side == 0 || side == 2 && k%2 == 0 {
			head = append(head, op)
		} else {
			tail = append(tail, op)
		}
	}
	seed := g.s.Uint64()
	var out []*Op
	for _, op := range fam {
		if op.Kind != KAddr || op.Raw != "" || len(op.List) == 0 || len(op.Edits) > 0 {
			out = append(out, op)
			continue
		}
		all := append(append(append([]*Op{}, head...), op), tail...)
		out = append(out, joined(newGen(seed), all, false))
	}
	return out
}

// kin is one list of mailboxes that are related.
func kin(g *gen, kind int, p *profile) *Op {
	var fam []*Op
	for _, op := range family(g, kind, p) {
		if op.Kind == KAddr && op.Raw == "" && len(op.List) > 0 {
			if p.fail > 0 {
				for _, x := range op.Plan {
					if g.s.Chance(1, 3) {
						x.Fail, x.FailAt = g.pick("open", "read", "read+data"), 1+g.s.Intn(2)
					}
				}
			}
			fam = append(fam, op)
		}
	}
	g.s.Shuffle(len(fam), func(i, j int) { fam[i], fam[j] = fam[j], fam[i] })
	return joined(g, fam[:2+g.s.Intn(7)], g.s.Chance(1, 3))
}

// relatives is a history of calls on related inputs.
func relatives(sc *Scenario, r *simrt.Rand, p *pool, phases, threads int, clock bool, kinds ...int) {
	pr := handlerProfile()
	pr.chunky = 30
	kind := kinds[r.Intn(len(kinds))]
	fam := family(p.gen(500+r.Intn(16), kind), kind, pr)
	if r.Chance(1, 4) {
		kind := kinds[r.Intn(len(kinds))]
		fam = append(fam, family(p.gen(500+r.Intn(16), kind), kind, pr)...)
	}
	if r.Chance(1, 3) {
		fam = within(p.gen(530+r.Intn(8), 0), fam)
	}
	// A few of them come again and again.
	few := 2 + r.Intn(len(fam)-1)
	r.Shuffle(len(fam), func(i, j int) { fam[i], fam[j] = fam[j], fam[i] })
	fam = fam[:few]
	for k := 0; k < phases; k++ {
		ph := Phase{Handler: anyHandler(r), Restart: k > 0 && r.Chance(1, 3), Threads: make([]Caller, threads)}
		if phases > 1 {
			ph.Handler = r.Intn(3)
		}
		if kind == 2 && phases == 1 {
			ph.Handler = 1
		}
		n := 4 + r.Intn(24)
		if kind == 0 {
			n *= 2
		}
		for i := 0; i < n; i++ {
			c := &ph.Threads[r.Intn(threads)]
			op := cloneOp(fam[r.Intn(len(fam))])
			if len(op.Plan) > 0 {
				x := op.Plan[0]
				switch r.Intn(10) {
				case 0:
					x.Abort, x.AbortAt = []string{"panic", "panic error", "exit"}[r.Intn(3)], r.Intn(3)
				case 1, 2:
					x.Fail, x.FailAt, x.Err = []string{"open", "read", "read+data"}[r.Intn(3)], 1+r.Intn(2), []string{"", "eof", "temporary", "unsupported"}[r.Intn(4)]
				}
			}
			if clock && r.Chance(1, 12) {
				if r.Chance(1, 2) {
					c.Ops = append(c.Ops, &Op{Kind: KWall, Wall: wallAt(r)})
				} else {
					c.Ops = append(c.Ops, &Op{Kind: KSleep, Dur: int64(time.Second) << uint(r.Intn(24))})
				}
			}
			c.Ops = append(c.Ops, op)
		}
		sc.Phases = append(sc.Phases, ph)
	}
	trimSleep(sc)
}
