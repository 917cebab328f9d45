package harness

import (
	"fmt"
	"net/mail"
	"strings"
	"time"

	"verifsim/simrt"
)

// What may stand between two parts of a header.
const (
	gNone  = iota // nothing
	gOpt          // comments and white space, or nothing
	gReq          // comments or white space
	gWSP          // white space
	gQuote        // the space of a quoted string, which may be a fold
	gAfter        // white space, then possibly comments
	gUntil        // possibly comments, then white space
	gLast         // the end of a date
)

// part is a piece of a header that relays do not touch, and what they may
// write after it.
type part struct {
	text string
	gap  int
	sp   string // the space of gQuote, if not one blank
}

// header is a list or a date as relays see it.
type header struct {
	elems [][]part
	boxes [][]Box
	plan  []*Conv
	date  *DateSpec
	parts []part
}

func (h *header) size() int {
	n := 0
	for _, e := range append(h.elems, h.parts) {
		for _, p := range e {
			n += len(p.text) + 1
		}
	}
	return n
}

// quotedParts is a quoted string whose spaces may be folded.
func (g *gen) quotedParts(next int) ([]part, string) {
	n := 1 + g.s.Intn(3)
	var ps []part
	var mean strings.Builder
	for i := 0; i < n; i++ {
		w := g.letters(1, 5)
		switch g.s.Intn(10) {
		case 0:
			w += g.pick(",", "@", ";", "(", ")", ":", "<", "()", "=?x-sim?Q?x?=")
		case 1:
			w += g.pick("\"", "\\")
		case 2:
			w += string(nonASCII[g.l.Intn(len(nonASCII))])
		case 3:
			w += string(astralRunes[g.l.Intn(len(astralRunes))])
		}
		mean.WriteString(w)
		w = g.escapeQuoted(w)
		if i == 0 {
			w = "\"" + w
		}
		if i == n-1 {
			ps = append(ps, part{text: w + "\"", gap: next})
			break
		}
		sp := g.pick(" ", " ", " ", "  ", "\t", " \t ")
		mean.WriteString(sp)
		ps = append(ps, part{text: w, gap: gQuote, sp: sp})
	}
	return ps, mean.String()
}

// localParts is a local part; next is what may follow it.
func (g *gen) localParts(next int) ([]part, string) {
	switch g.s.Intn(8) {
	case 0, 1:
		return g.quotedParts(next)
	case 2:
		// The obsolete form: words between dots.
		a, b := g.letters(1, 4), g.letters(1, 4)
		return []part{{text: a, gap: gOpt}, {text: ".", gap: gOpt}, {text: b, gap: next}}, a + "." + b
	case 3:
		a := g.atom() + "." + g.atom()
		return []part{{text: a, gap: next}}, a
	}
	a := g.atom()
	return []part{{text: a, gap: next}}, a
}

// mailboxParts is one mailbox, with what may stand before and after it.
func (b *lister) mailboxParts() ([]part, Box) {
	g := b.g
	ps := []part{{gap: gOpt}}
	spec := func() string {
		l, lm := g.localParts(gOpt)
		ps = append(ps, l...)
		ps = append(ps, part{text: "@", gap: gOpt})
		d := g.domain()
		switch g.s.Intn(16) {
		case 0:
			d = fmt.Sprintf("[10.%d.%d.1]", g.l.Intn(256), g.l.Intn(256))
		case 1:
			// A literal with a space, where it may be folded.
			d = "[x:" + g.letters(1, 4)
			ps = append(ps, part{text: d, gap: gQuote})
			e := g.letters(1, 4) + "]"
			ps = append(ps, part{text: e, gap: gOpt})
			return lm + "@" + d + " " + e
		}
		ps = append(ps, part{text: d, gap: gOpt})
		return lm + "@" + d
	}
	if g.s.Chance(1, 3) {
		return ps, Box{Addr: Str(spec())}
	}
	var box Box
	if g.s.Chance(5, 6) {
		pre := ""
		n := 1 + g.s.Intn(3)
		for i := 0; i < n; i++ {
			next := gReq
			if i == n-1 {
				next = gOpt
			}
			if g.s.Chance(b.p.encoded, 100) {
				for k, m := 0, 1+g.s.Intn(3); k < m; k++ {
					p := b.encodedWord()
					raw := string(p.Lit)
					if strings.HasPrefix(string(p.Pre), "\x00") {
						raw = string(p.Pre)[1:]
					}
					p.Pre = ""
					if k == 0 {
						p.Pre = Str(pre)
					}
					gap := gWSP
					if k == m-1 {
						gap = gReq
					}
					ps = append(ps, part{text: raw, gap: gap})
					box.Name = append(box.Name, p)
				}
				pre = " "
				if i < n-1 {
					// No two runs of encoded words in a row: they would be one.
					a := g.letters(1, 5)
					ps = append(ps, part{text: a, gap: next})
					box.Name = append(box.Name, Piece{Pre: " ", Lit: Str(a)})
				}
				continue
			}
			if g.s.Chance(1, 3) {
				q, m := g.quotedParts(next)
				ps = append(ps, q...)
				box.Name = append(box.Name, Piece{Pre: Str(pre), Lit: Str(m)})
			} else {
				a := g.atom()
				ps = append(ps, part{text: a, gap: next})
				box.Name = append(box.Name, Piece{Pre: Str(pre), Lit: Str(a)})
			}
			pre = " "
		}
	}
	ps = append(ps, part{text: "<", gap: gOpt})
	if g.s.Chance(1, 20) {
		ps[len(ps)-1].gap = gNone
		ps = append(ps, part{text: "@", gap: gOpt}, part{text: g.domain(), gap: gOpt}, part{text: ",", gap: gNone}, part{text: "@", gap: gOpt}, part{text: g.domain(), gap: gOpt}, part{text: ":", gap: gOpt})
	}
	box.Addr = Str(spec())
	ps = append(ps, part{text: ">", gap: gOpt})
	return ps, box
}

// listHeader is a list of n elements.
func (g *gen) listHeader(pr *profile, n int) *header {
	b := &lister{g: g, p: pr}
	h := &header{}
	for i := 0; i < n; i++ {
		if g.s.Chance(pr.groups, 100) {
			ps := []part{{gap: gOpt}, {text: g.letters(1, 5), gap: gOpt}}
			if g.s.Chance(1, 3) {
				ps[1].gap = gReq
				ps = append(ps, part{text: g.letters(1, 5), gap: gOpt})
			}
			ps = append(ps, part{text: ":", gap: gNone})
			m := g.s.Intn(3)
			boxes := []Box{}
			for k := 0; k < m; k++ {
				mp, box := b.mailboxParts()
				ps = append(ps, mp...)
				if k < m-1 {
					ps = append(ps, part{text: ",", gap: gNone})
				}
				boxes = append(boxes, box)
			}
			if m == 0 {
				ps[len(ps)-1].gap = gOpt
			}
			ps = append(ps, part{text: ";", gap: gOpt})
			h.elems, h.boxes = append(h.elems, ps), append(h.boxes, boxes)
			continue
		}
		ps, box := b.mailboxParts()
		h.elems, h.boxes = append(h.elems, ps), append(h.boxes, []Box{box})
	}
	h.plan = b.plan
	return h
}

// dateHeader is a date-time.
func (g *gen) dateHeader() *header {
	d := &DateSpec{Year: 1971 + g.l.Intn(100), Month: 1 + g.l.Intn(12), Day: 1 + g.l.Intn(28), Hour: g.l.Intn(24), Min: g.l.Intn(60)}
	var ps []part
	if g.s.Chance(1, 2) {
		ps = append(ps, part{gap: gOpt}, part{text: dayNames[g.l.Intn(7)], gap: gOpt}, part{text: ",", gap: gNone})
	}
	y := part{text: fmt.Sprintf("%04d", d.Year), gap: gAfter}
	if g.s.Chance(1, 3) {
		d.Short, d.Year = true, d.Year%100
		y = part{text: fmt.Sprintf("%02d", d.Year), gap: gReq}
	}
	ps = append(ps, part{gap: gOpt}, part{text: fmt.Sprintf("%d", d.Day), gap: gReq})
	mon := part{text: monthNames[d.Month-1], gap: gWSP}
	if d.Short {
		mon.gap = gReq
	}
	ps = append(ps, mon, y)
	ps = append(ps, part{text: fmt.Sprintf("%02d", d.Hour), gap: gOpt}, part{text: ":", gap: gOpt}, part{text: fmt.Sprintf("%02d", d.Min), gap: gOpt})
	if g.s.Chance(3, 4) {
		d.Sec = g.l.Intn(60)
		ps = append(ps, part{text: ":", gap: gOpt}, part{text: fmt.Sprintf("%02d", d.Sec), gap: gOpt})
	}
	switch g.s.Intn(3) {
	case 0:
		z := zoneNames[g.l.Intn(len(zoneNames))]
		d.Offset = z.o * 3600
		ps[len(ps)-1].gap = gReq
		ps = append(ps, part{text: z.n, gap: gOpt})
	case 1:
		hh, mm := g.l.Intn(13), []int{0, 30, 45}[g.l.Intn(3)]
		d.Offset = hh*3600 + mm*60
		sign := "+"
		if g.l.Intn(2) == 0 {
			sign, d.Offset = "-", -d.Offset
		}
		ps[len(ps)-1].gap = gUntil
		ps = append(ps, part{text: fmt.Sprintf("%s%02d%02d", sign, hh, mm), gap: gOpt})
	}
	ps[len(ps)-1].gap = gLast
	return &header{date: d, parts: ps}
}

// How a relay writes a header.
var relayHow = []string{"as it was", "unfolded", "folded everywhere", "annotated", "widened", "folded and annotated", "folded at a width"}

// relay writes what stands between the parts anew.
type relay struct {
	g   *gen
	how int
	col int

	date bool // it is a date
}

func (r *relay) fws() string {
	g := r.g
	switch r.how {
	case 0:
		return g.pick(" ", " ", " ", "\t", "\r\n ")
	case 1:
		return " "
	case 2:
		return g.pick("\r\n ", "\r\n ", "\r\n\t", " \r\n ", "\t\r\n  ")
	case 4:
		return g.pick("  ", " \t ", "\t\t", "     ")
	case 6:
		if r.col > 30 {
			r.col = 0
			return "\r\n "
		}
		return " "
	}
	return g.pick(" ", "\r\n ", "  ", "\t")
}

// remark is what a relay writes into a header that it annotates.
func (r *relay) remark() string {
	g := r.g
	w := g.letters(1, 5)
	if r.date && g.s.Chance(2, 5) {
		// Mailers tell the name of the zone, and other things, in this way.
		z := g.pick(zoneNames[g.l.Intn(len(zoneNames))].n, "UTC", "CEST", "+0000", "-0800", "Z", "A", "12", "69", "1999", ":30", "Mon", "Jun", "EDT "+w, "GMT+02:00")
		return g.pick("("+z+")", "("+z+")", "( "+z+" )", "(("+z+"))", "("+strings.ToLower(z)+")", "()("+z+")")
	}
	switch g.s.Intn(21) {
	case 18, 19, 20:
		// What would mean something outside.
		return "(" + g.pick("", w) + g.pick(";", ";", ",", ":", "<", ">", "@", "\"", "[", "]", ".", "=?", "?=", "<"+w+"@"+w+">", ", "+w+"@"+w, w+":;") + g.pick("", w) + ")"
	case 7:
		return "(" + g.pick("+0200", "10:00", "Fri, 1 Jan 99", "2001", "13", "0", w+" 7", "EST", "Dec") + ")"
	case 8:
		// Anything that may stand in a comment.
		b := []byte{'('}
		for n := 1 + g.s.Intn(8); n > 0; n-- {
			c := byte(' ' + g.l.Intn(95))
			if c == '(' || c == ')' || c == '\\' || g.s.Chance(1, 5) {
				b = append(b, '\\')
			}
			b = append(b, c)
		}
		return string(append(b, ')'))
	case 9:
		return "(" + strings.Repeat("("+w+")", 1+g.s.Intn(4)) + ")"
	case 12:
		n := 2 + g.s.Intn(5)
		if g.s.Chance(1, 6) {
			n += g.s.Intn(20)
		}
		return strings.Repeat("(", n) + w + strings.Repeat(")", n)
	case 13:
		return "(" + strings.Repeat(w, 1+g.s.Intn(12)) + ")"
	case 0:
		return "(" + w + "\r\n " + w + ")"
	case 1:
		return "(" + w + "(" + w + "(" + w + "\\)) ) " + w + ")"
	case 2:
		return "(\\(" + w + "\\\\)"
	case 3:
		return "( " + w + " )"
	case 4:
		return "(" + string(nonASCII[g.l.Intn(len(nonASCII))]) + string(astralRunes[g.l.Intn(len(astralRunes))]) + ")"
	case 5:
		return "(" + w + ")(" + w + ")"
	case 6:
		return "(" + w + ")" + r.fws() + "(" + w + ")"
	}
	return g.comment()
}

func (r *relay) gap(p part) string {
	g := r.g
	k := p.gap
	remarks := 0
	switch r.how {
	case 0:
		remarks = 10
	case 3, 5:
		remarks = 60
	}
	space := 50
	switch r.how {
	case 0:
		space = 25
	case 1, 6:
		space = 0
	}
	opt := func(pct int) string {
		if g.s.Chance(pct, 100) {
			return r.fws()
		}
		return ""
	}
	switch k {
	case gOpt:
		if g.s.Chance(remarks, 100) {
			return opt(40) + r.remark() + opt(40)
		}
		return opt(space)
	case gLast:
		if remarks > 0 && g.s.Chance(1, 3) {
			return " (" + g.pick(zoneNames[g.l.Intn(len(zoneNames))].n, zoneNames[g.l.Intn(len(zoneNames))].n, "UTC", "CET", "PST") + ")"
		}
		if g.s.Chance(remarks, 100) {
			return opt(40) + r.remark() + opt(40)
		}
		return opt(space)
	case gReq:
		if g.s.Chance(remarks, 100) {
			return opt(50) + r.remark() + opt(50)
		}
		return r.fws()
	case gWSP:
		return r.fws()
	case gAfter:
		s := r.fws()
		if g.s.Chance(remarks, 100) {
			s += r.remark() + opt(50)
		}
		return s
	case gUntil:
		if g.s.Chance(remarks, 100) {
			return opt(50) + r.remark() + r.fws()
		}
		return r.fws()
	case gQuote:
		sp := p.sp
		if sp == "" {
			sp = " "
		}
		fold := false
		switch r.how {
		case 2, 5:
			fold = g.s.Chance(2, 3)
		case 6:
			fold = r.col > 30
		case 0:
			fold = g.s.Chance(1, 6)
		}
		if fold {
			i := g.s.Intn(len(sp))
			r.col = 0
			return sp[:i] + "\r\n" + sp[i:]
		}
		return sp
	}
	return ""
}

func (r *relay) write(ps []part) string {
	var b strings.Builder
	for _, p := range ps {
		b.WriteString(p.text)
		r.col += len(p.text)
		b.WriteString(r.gap(p))
	}
	return b.String()
}

// pass is the call of a relay on the header as the relay before wrote it.
func (h *header) pass(g *gen, how int) *Op {
	r := &relay{g: g, how: how, date: h.date != nil}
	op := &Op{Hop: relayHow[how]}
	if h.date != nil {
		d := *h.date
		d.Text = Str(r.write(h.parts))
		op.Kind, op.Date = KDate, &d
		return op
	}
	op.Kind = KAddr
	for i, e := range h.elems {
		el := Elem{Text: Str(r.write(e)), Boxes: h.boxes[i]}
		if i < len(h.elems)-1 {
			el.Sep = ","
		}
		op.List = append(op.List, el)
	}
	op.Plan = h.plan
	return cloneOp(op)
}

// journey lets copies of some headers travel over relays, which handle them
// concurrently and may restart.
func journey(sc *Scenario, r *simrt.Rand, hops int, next func(hop int) *Op) {
	for k := 0; k < hops; k++ {
		ph := Phase{Restart: k > 0 && r.Chance(1, 3), Handler: 1}
		threads := 1 + r.Intn(2)
		if r.Chance(1, 8) {
			threads += 2
		}
		for t := 0; t < threads; t++ {
			var c Caller
			if r.Chance(1, 6) {
				c.Ops = append(c.Ops, &Op{Kind: KSleep, Dur: int64(time.Second) << uint(r.Intn(12))})
			}
			for n := 1 + r.Intn(4)/3; n > 0; n-- {
				op := next(k)
				c.Ops = append(c.Ops, op)
				if r.Chance(1, 8) {
					c.Ops = append(c.Ops, cloneOp(op)) // delivered twice
				}
			}
			ph.Threads = append(ph.Threads, c)
		}
		sc.Phases = append(sc.Phases, ph)
	}
}

// buildC16 lets relays fold, unfold, annotate and strip headers.
func buildC16(sc *Scenario, r *simrt.Rand, p *pool) {
	pr := plainProfile()
	pr.encoded, pr.short, pr.slow, pr.groups = 30, true, 15, 25
	var hs []*header
	if r.Chance(1, 40) {
		buildLine(sc, r, p)
		return
	}
	for n := 1 + r.Intn(3); n > 0; n-- {
		g := p.fresh()
		if r.Chance(1, 3) {
			hs = append(hs, g.dateHeader())
		} else {
			hs = append(hs, g.listHeader(pr, 1+[]int{0, 0, 1, 1, 2}[g.s.Intn(5)]))
		}
	}
	journey(sc, r, 2+r.Intn(2), func(hop int) *Op {
		h := hs[r.Intn(len(hs))]
		how := r.Intn(len(relayHow))
		if h.size() > 110 && (how == 3 || how == 5) {
			how = 2 // the cost of a call can grow with the square of its length
		}
		return h.pass(p.fresh(), how)
	})
}

// buildLine sends a header that is longer than a line over a relay that folds
// it and one that puts it all in one line.
func buildLine(sc *Scenario, r *simrt.Rand, p *pool) {
	g := p.fresh()
	h := &header{elems: [][]part{{{gap: gNone}}}, boxes: [][]Box{{{Addr: "a@b"}}}}
	long := 80 + r.Intn(60)
	if r.Chance(1, 2) {
		long = 990 + r.Intn(60)
	}
	name := ""
	ps := h.elems[0]
	quoted := r.Chance(1, 2)
	for n := 0; n < long; {
		w := g.letters(4, 24)
		n += len(w) + 1
		if name != "" {
			name += " "
		}
		name += w
		t := part{text: w, gap: gReq}
		if quoted {
			t.gap = gQuote
		}
		ps = append(ps, t)
	}
	if quoted {
		ps[1].text = "\"" + ps[1].text
		ps[len(ps)-1] = part{text: ps[len(ps)-1].text + "\"", gap: gReq}
	}
	h.elems[0] = append(ps, part{text: "<a@b>", gap: gNone})
	h.boxes[0][0].Name = []Piece{{Lit: Str(name)}}
	first := 1 + 5*r.Intn(2)
	for k := 0; k < 2; k++ {
		ph := Phase{Handler: 1, Restart: k > 0 && r.Chance(1, 2)}
		ph.Threads = []Caller{{Ops: []*Op{h.pass(p.fresh(), first)}}}
		first = 7 - first
		sc.Phases = append(sc.Phases, ph)
	}
}

// oddName is a name of any characters.
func (g *gen) oddName() string {
	var b strings.Builder
	n := 1 + g.s.Intn(4)
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteString(g.pick(" ", " ", "", "  ", "\t", ",", ", ", "-", ".", "@", " <", "> ", ":", ";", " (", ") "))
		}
		switch g.s.Intn(12) {
		case 0:
			b.WriteString(g.pick("\"", "\\", "\\\"", "''", "`", "\\\\"))
		case 1:
			b.WriteString(g.pick("=?utf-8?Q?x?=", "=?", "?=", "=", "_", "=20", "=?x-sim?B?eA==?="))
		case 2:
			b.WriteString(g.pick("\x00", "\r\n", "\n", "\x1b[m", "\x7f", "\r", "\x0b"))
		case 3:
			for k := 1 + g.s.Intn(30); k > 0; k-- {
				b.WriteRune(nonASCII[g.l.Intn(len(nonASCII))])
			}
		case 4:
			b.WriteString(g.pick("e\u0301", "\u00a0", "\u200b", "\ufeff", "\u2028", "\ufffd", "\u202e", "👩‍👧"))
		case 5:
			b.WriteRune(astralRunes[g.l.Intn(len(astralRunes))])
		case 6:
			b.WriteString(g.atom() + " ")
		case 7:
			b.WriteString(" " + g.atom())
		default:
			b.WriteString(g.atom())
		}
	}
	return b.String()
}

// oddAddr is an address of any characters.
func (g *gen) oddAddr() string {
	l := g.atom()
	switch g.s.Intn(6) {
	case 0:
		l += "." + g.atom()
	case 1:
		l += g.pick(" ", ",", "@", "\"", "\\", "..", ".", "(", ")", "<", ">", ":", ";", "[", "]", "  ", "\t") + g.letters(0, 3)
	case 2:
		l = g.pick(".", " ", "\"", "@", "\\", "=?utf-8?Q?", "=?utf-8?Q?x?=", "=") + l
	}
	d := g.domain()
	switch g.s.Intn(12) {
	case 0:
		d = g.pick("[10.0.0.1]", "[IPv6:::1]")
	}
	return l + "@" + d
}

// faithful tells whether the standard library's rendering stands for m.
func faithful(m Mailbox) bool {
	a := mail.Address{Name: m.Name, Address: m.Addr}
	b, err := mail.ParseAddress(a.String())
	return err == nil && *b == a
}

// rendered is the call of a relay on mailboxes as the standard library of the
// relay before wrote them.
func rendered(g *gen, ms []Mailbox) *Op {
	op := &Op{Kind: KAddr, Hop: "rendered anew"}
	sep := g.pick(", ", ", ", ",", ",\r\n ", " , ")
	for i, m := range ms {
		e := Elem{Text: Str((&mail.Address{Name: m.Name, Address: m.Addr}).String()), Boxes: []Box{{Addr: Str(m.Addr)}}}
		if m.Name != "" {
			e.Boxes[0].Name = []Piece{{Lit: Str(m.Name)}}
		}
		if i < len(ms)-1 {
			e.Sep = Str(sep)
		}
		op.List = append(op.List, e)
	}
	return op
}

// buildC17 lets relays pass on what they parsed, as rendered by the standard
// library.
func buildC17(sc *Scenario, r *simrt.Rand, p *pool) {
	pr := plainProfile()
	pr.short, pr.slow, pr.long = true, 15, 0
	var first []*Op
	var known []Mailbox
	for n := 1 + r.Intn(2); n > 0; n-- {
		g := p.fresh()
		if r.Chance(1, 2) {
			op := g.listOp(pr, 1+g.s.Intn(2))
			first = append(first, op)
			for _, m := range op.want(1) {
				if faithful(m) {
					known = append(known, m)
				}
			}
			continue
		}
		for k := 1 + g.s.Intn(3); k > 0; k-- {
			m := Mailbox{Addr: g.oddAddr()}
			if g.s.Chance(5, 6) {
				m.Name = g.oddName()
			}
			if g.s.Chance(1, 30) {
				// Longer than anyone's name is.
				for k := 10 + g.s.Intn(60); k > 0; k-- {
					m.Name += " " + g.letters(1, 9)
				}
			}
			if g.s.Chance(1, 12) {
				// Some programs put the address in the name.
				i := strings.LastIndexByte(m.Addr, '@')
				m.Name = g.pick(m.Addr, m.Addr[:i], m.Addr[i:], "<"+m.Addr+">")
			}
			if faithful(m) {
				known = append(known, m)
			}
		}
	}
	if len(known) == 0 {
		known = append(known, Mailbox{"x", "a@b"})
	}
	journey(sc, r, 2+r.Intn(3), func(hop int) *Op {
		if hop == 0 && len(first) > 0 && r.Chance(2, 3) {
			return cloneOp(first[r.Intn(len(first))])
		}
		g := p.fresh()
		var ms []Mailbox
		size := 0
		for n := 1 + r.Intn(3); n > 0 && size < 200; n-- {
			m := known[r.Intn(len(known))]
			size += len(m.Name)*3 + len(m.Addr)
			ms = append(ms, m)
		}
		return rendered(g, ms)
	})
}
