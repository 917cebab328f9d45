package harness

import (
	"encoding/base64"
	"fmt"
	"strings"
	"time"
	"unicode/utf8"

	"verifsim/simrt"
)

// gen builds workloads. Structure and letters come from separate streams, so
// that two inputs can share their shape and differ in their letters only.
type gen struct {
	s *simrt.Rand // structure
	l *simrt.Rand // letters
}

func newGen(seed uint64) *gen {
	return &gen{simrt.NewRand(seed), simrt.NewRand(seed ^ 0xC0FFEE)}
}

func (g *gen) pick(xs ...string) string { return xs[g.s.Intn(len(xs))] }

const letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
const atextSafe = letters + "!#$%&'*+-/^_`{|}~"

var nonASCII = []rune("éüßøñçåдяжшλπ漢字日本語한글שלום")

// astral is set once the tree is known to carry such characters.
var astralRunes = []rune("🌙🎉𝒳😀")

// word is a short run of letters.
func (g *gen) letters(min, max int) string {
	n := min + g.s.Intn(max-min+1)
	b := make([]byte, n)
	for i := range b {
		b[i] = letters[g.l.Intn(len(letters))]
	}
	return string(b)
}

// long is the length of something unusually long, or 0.
func (g *gen) long(p *profile) int {
	if p.short || p.simple || !g.s.Chance(1, 60) {
		return 0
	}
	n := 64 + g.s.Intn(200)
	if g.s.Chance(1, 4) {
		n += g.s.Intn(900)
	}
	return n
}

func (g *gen) atom() string {
	n := 1 + g.s.Intn(7)
	var b strings.Builder
	kind := g.s.Intn(8)
	for i := 0; i < n; i++ {
		switch {
		case kind == 0:
			b.WriteByte(atextSafe[g.l.Intn(len(atextSafe))])
		case kind == 1:
			b.WriteRune(nonASCII[g.l.Intn(len(nonASCII))])
		case kind == 2 && i == n/2:
			b.WriteRune(astralRunes[g.l.Intn(len(astralRunes))])
		default:
			b.WriteByte(letters[g.l.Intn(len(letters))])
		}
	}
	s := b.String()
	if strings.Contains(s, "=?") || strings.HasPrefix(s, "=") {
		s = "x" + strings.ReplaceAll(s, "=", "-")
	}
	return s
}

func (g *gen) domain() string {
	n := 1 + g.s.Intn(3)
	parts := make([]string, n)
	for i := range parts {
		parts[i] = g.letters(1, 6)
		if g.s.Chance(1, 12) {
			parts[i] = string(nonASCII[g.l.Intn(len(nonASCII))]) + parts[i]
		}
	}
	return strings.Join(parts, ".")
}

// fold is optional white space.
func (g *gen) fold() string {
	switch g.s.Intn(8) {
	case 0:
		return ""
	case 1:
		return "\t"
	case 2:
		return "\r\n "
	case 3:
		return " \r\n\t"
	case 4:
		return "  "
	}
	return " "
}

// comment is a comment whose content looks like things that matter elsewhere.
func (g *gen) comment() string {
	w := g.letters(1, 4)
	switch g.s.Intn(9) {
	case 0:
		return "(" + w + "@" + w + ".com, " + w + " <" + w + "@y>)"
	case 1:
		return "(" + w + " (" + w + "))"
	case 2:
		return "(=?x-sim?Q?" + w + "?=)"
	case 3:
		return "(\\" + w[:1] + "\\))"
	case 4:
		return "(" + w + "; \"" + w + "\" : " + w + ")"
	case 5:
		return "()"
	}
	return "(" + w + ")"
}

// cfws is optional comments and white space; heavy makes comments likely.
func (g *gen) cfws(heavy bool) string {
	n := 10
	if heavy {
		n = 3
	}
	switch g.s.Intn(n) {
	case 0:
		return g.fold() + g.comment() + g.fold()
	case 1:
		return g.fold()
	case 2:
		if heavy {
			return g.comment()
		}
	}
	return ""
}

// escapeQuoted writes s for a quoted string; more characters may be escaped
// than need to be.
func (g *gen) escapeQuoted(s string) string {
	var b strings.Builder
	more := g.s.Chance(1, 12)
	for i := 0; i < len(s); i++ {
		if s[i] == '"' || s[i] == '\\' || s[i] == '\x02' || more && s[i] < 0x7f && g.s.Chance(1, 3) {
			b.WriteByte('\\')
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

// quotedText is text for a quoted string: what it means and how it is written.
func (g *gen) quotedText() (mean, text string) {
	n := 1 + g.s.Intn(3)
	var m, w strings.Builder
	for i := 0; i < n; i++ {
		if i > 0 {
			sp := g.pick(" ", " ", "  ", "\t")
			m.WriteString(sp)
			w.WriteString(sp)
			if g.s.Chance(1, 10) {
				w.WriteString("\r\n ") // a folded line: the break is not part of the text
				m.WriteString(" ")
			}
		}
		s := g.letters(1, 6)
		switch g.s.Intn(14) {
		case 9:
			s += g.pick("\x01", "\x02", "\x7f", "\x02")
		case 10:
			s += g.pick("=?utf-8?Q?x?=", "=?x-sim?Q?x?=", ",", "'", "@", " ,")
		case 7:
			s += ":"
		case 8:
			s += ": " + g.letters(1, 3) + "@" + g.letters(1, 3)
		case 0:
			s += ", " + g.letters(1, 3)
		case 1:
			s += "<" + g.letters(1, 2) + "@" + g.letters(1, 2) + ">"
		case 2:
			s += "\""
		case 3:
			s += "\\"
		case 4:
			s += string(nonASCII[g.l.Intn(len(nonASCII))])
		case 5:
			s += ";:()"
		case 6:
			s += string(astralRunes[g.l.Intn(len(astralRunes))])
		}
		m.WriteString(s)
		w.WriteString(g.escapeQuoted(s))
	}
	switch g.s.Intn(14) {
	case 0:
		m.WriteString(" ")
		w.WriteString(" ")
	case 1:
		return " " + m.String(), " " + w.String()
	}
	return m.String(), w.String()
}

var foreignCharsets = []string{"koi8-r", "windows-1251", "iso-2022-jp", "gb2312", "iso-8859-15", "shift_jis", "x-sim", "utf8", "utf-7", "latin1", "big5", "utf-16", "iso-8859-2", "ascii", "iso-8859-10", "iso8859-1", "windows-1252", "iso_8859-1", "gbk", "x-unknown-charset-with-a-long-name", "utf-8*en", "iso-8859-1*de", "us-ascii-1", "unicode-1-1-utf-8", "646", "cp437", "utf-16le", "utf-8-strict", "iso-8859-11"}

func (g *gen) mixCase(s string) string {
	switch g.s.Intn(3) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		b := []byte(s)
		for i := range b {
			if g.s.Chance(1, 2) {
				b[i] = []byte(strings.ToUpper(string(b[i])))[0]
			}
		}
		return string(b)
	}
	return s
}

func qEncode(g *gen, p string) string {
	var b strings.Builder
	for i := 0; i < len(p); i++ {
		c := p[i]
		switch {
		case c == ' ':
			b.WriteString(g.pick("_", "=20"))
		case strings.IndexByte(letters, c) >= 0:
			b.WriteByte(c)
		default:
			if g.s.Chance(1, 2) {
				fmt.Fprintf(&b, "=%02X", c)
			} else {
				fmt.Fprintf(&b, "=%02x", c)
			}
		}
	}
	return b.String()
}

// encode writes payload as an encoded word.
func (g *gen) encode(charset, payload string) string {
	if g.s.Chance(1, 2) {
		return "=?" + charset + "?" + g.pick("Q", "q") + "?" + qEncode(g, payload) + "?="
	}
	return "=?" + charset + "?" + g.pick("B", "b") + "?" + base64.StdEncoding.EncodeToString([]byte(payload)) + "?="
}

// convert is the conversion that the simulated handlers stand for: a
// different text for each charset and payload, of varied width.
func convert(charset, payload string, style int) string {
	h := uint64(0)
	for i := 0; i < len(charset); i++ {
		h = h*131 + uint64(charset[i])
	}
	var b strings.Builder
	for i := 0; i < len(payload); i++ {
		c := payload[i]
		switch style {
		case 0:
			b.WriteByte("abcdefghijklmnopqrstuvwxyz012345"[(uint64(c)+h)%32])
			b.WriteByte("ABCDEFGHIJKLMNOPQRSTUVWXYZ6789-+"[(uint64(c)>>3+h)%32])
		case 1:
			b.WriteRune(rune(0x400 + (uint64(c)+h)%0x100))
		case 2:
			b.WriteRune(rune(0x4E00 + (uint64(c)+h)%0x1000))
		case 3:
			b.WriteRune(rune(0x1F300 + (uint64(c)+h)%0x200))
		default:
			b.WriteRune(rune(0x61 + c%26))
			b.WriteRune(rune(0x3B1 + (uint64(c)+h)%20))
			b.WriteRune(rune(0x1F600 + uint64(c)%0x40))
		}
	}
	return b.String()
}

// ew is an encoded word under construction.
type ew struct {
	raw  string
	mean string // for built-in charsets
	conv *Conv
}

// builtin is a word in one of the built-in charsets.
func (g *gen) builtin() ew {
	var text string
	n := 1 + g.s.Intn(3)
	cs := g.s.Intn(3)
	for i := 0; i < n; i++ {
		if i > 0 {
			text += " "
		}
		text += g.letters(1, 5)
		if cs < 2 && g.s.Chance(1, 2) {
			text += string([]rune("éüßøñçå")[g.l.Intn(7)])
		}
		if cs == 0 && g.s.Chance(1, 4) {
			text += string(astralRunes[g.l.Intn(len(astralRunes))])
		}
	}
	switch cs {
	case 0:
		return ew{raw: g.encode(g.mixCase("utf-8"), text), mean: text}
	case 1:
		var p []byte
		for _, r := range text {
			p = append(p, byte(r))
		}
		return ew{raw: g.encode(g.mixCase("iso-8859-1"), string(p)), mean: text}
	}
	return ew{raw: g.encode(g.mixCase("us-ascii"), text), mean: text}
}

// undecodable is a word whose payload or encoding is broken.
func (g *gen) undecodable() ew {
	cs := g.pick("utf-8", "koi8-r", "x-sim", "iso-8859-1")
	w := g.letters(1, 4)
	raw := g.pick(
		"=?"+cs+"?Q?"+w+"=ZZ?=",
		"=?"+cs+"?B?"+w+"!!?=",
		"=?"+cs+"?B?AAA?=",
		"=?"+cs+"?X?"+w+"?=",
		"=?"+cs+"?Q?"+w+"=4?=",
		"=?"+cs+"?QQ?"+w+"?=",
	)
	return ew{raw: raw, mean: raw}
}

// foreign is a word for the handler.
func (g *gen) foreign(p *profile) ew {
	cs := foreignCharsets[g.s.Intn(len(foreignCharsets))]
	if p.few > 0 {
		cs = foreignCharsets[(p.few+g.s.Intn(2))%len(foreignCharsets)]
	}
	n := 1 + g.s.Intn(8)
	if !p.short && g.s.Chance(1, 30) {
		n = 40 + g.s.Intn(80)
	}
	payload := make([]byte, n)
	for i := range payload {
		switch g.s.Intn(3) {
		case 0:
			payload[i] = byte(0x80 + g.l.Intn(0x80))
		case 1:
			payload[i] = byte(1 + g.l.Intn(0xFE))
		default:
			payload[i] = letters[g.l.Intn(len(letters))]
		}
	}
	c := &Conv{Charset: cs, Payload: Str(payload)}
	c.Out = Str(convert(cs, string(payload), g.s.Intn(5)))
	if g.s.Chance(1, 6) {
		c.Out = g.odd(c.Out)
	}
	if g.s.Chance(1, 40) {
		c.Out = ""
	}
	if p.long > 0 && c.Out != "" && g.s.Chance(p.long, 100) {
		want := []int{600, 5000, 33000, 66000, 140000}[g.s.Intn(5)]
		if g.s.Chance(1, 25) {
			want = 1_100_000
		}
		u := string(c.Out)
		c.Out = Str(strings.Repeat(u, want/len(u)+1))
	}
	if p.chunky >= 90 && c.Out != "" && g.s.Chance(1, 6) {
		// Text that fills a buffer to the brim, or just not, or just over.
		want := []int{64, 128, 256, 512, 512, 1024, 2048, 4096, 8192, 32768, 65536}[g.s.Intn(11)]
		if g.s.Chance(1, 4) {
			want += g.s.Intn(3) - 1
		}
		u := strings.ToValidUTF8(string(c.Out), "?")
		for len(u) < want {
			u += u
		}
		for len(u) > want || !utf8.ValidString(u) {
			u = u[:len(u)-1]
			if len(u) > want {
				u = u[:want]
			}
		}
		c.Out = Str(u + strings.Repeat("x", want-len(u)))
		c.EOFData = g.s.Chance(2, 3)
		if g.s.Chance(1, 2) {
			q := *p
			q.chunky = 0
			g.delivery(c, &q)
			return ew{raw: g.encode(g.mixCase(cs), string(payload)), conv: c}
		}
	}
	g.delivery(c, p)
	return ew{raw: g.encode(g.mixCase(cs), string(payload)), conv: c}
}

// odd is converted text that means something elsewhere; in a name it is text.
func (g *gen) odd(s Str) Str {
	switch g.s.Intn(14) {
	case 0:
		return " " + s
	case 1:
		return s + " "
	case 2:
		return "\t" + s + "\r\n "
	case 3:
		return s + "\x00" + s
	case 4:
		return "\uFEFF" + s
	case 5:
		return "=?utf-8?Q?" + s + "?="
	case 6:
		return "\"" + s + "\""
	case 7:
		return s + ", <x@y>; (" + s
	case 8:
		return s + "\\"
	case 9:
		return s + "\uFFFD"
	case 10:
		return Str(strings.Repeat(" ", 1+g.s.Intn(4)))
	case 11:
		return "e\u0301" + s + "\u00a0"
	case 12:
		return s + "  " + s
	}
	return "\n" + s
}

// delivery decides how the converted text arrives.
func (g *gen) delivery(c *Conv, p *profile) {
	if p.chunky > 0 && g.s.Chance(p.chunky, 100) {
		total := len(c.Out)
		mode := g.s.Intn(5)
		left := total
		if g.s.Chance(1, 25) {
			// A source that has nothing for long.
			for k := 90 + g.s.Intn(60); k > 0; k-- {
				c.Chunks = append(c.Chunks, 0)
			}
		}
		for i := 0; i < 60 && left > 0; i++ {
			n := 0
			switch mode {
			case 0:
				n = 1
			case 1:
				n = 1 + g.s.Intn(3)
			case 2:
				n = 1 + g.s.Intn(1+total/2)
			case 3:
				n = 1 + g.s.Intn(7)
			default:
				n = []int{1, 2, 511, 512, 513, 4095, 4096, 4097, 32767, 32768, 32769}[g.s.Intn(11)]
			}
			if g.s.Chance(1, 6) {
				for k := 1 + g.s.Intn(3); k > 0; k-- {
					c.Chunks = append(c.Chunks, 0)
				}
			}
			c.Chunks = append(c.Chunks, n)
			left -= n
		}
		if g.s.Chance(1, 4) {
			c.Chunks = append(c.Chunks, 0)
		}
		c.EOFData = g.s.Chance(1, 2)
	}
	c.Lazy = g.s.Chance(1, 3)
	c.WriteTo = p.writerTo && g.s.Chance(1, 10)
	c.Scratch = g.s.Chance(1, 5)
	if g.s.Chance(1, 8) {
		c.Dress = g.pick("source", "bytes")
	}
	if p.slow > 0 && g.s.Chance(p.slow, 100) {
		c.Sleep = int64(time.Millisecond) << uint(g.s.Intn(22))
		c.WaitAt = g.s.Intn(4)
	}
	if p.stall > 0 && g.s.Chance(p.stall, 100) {
		c.Stall, c.Sleep = true, 0
		c.WaitAt = g.s.Intn(4)
	}
	if p.fail > 0 && g.s.Chance(p.fail, 100) {
		c.Fail = g.pick("open", "read", "read", "read+data")
		c.Err = g.pick("", "", "", "unexpected eof", "wrapped eof", "temporary", "no progress", "short write", "eof", "unsupported")
		c.FailAt = 1 + g.s.Intn(4)
		if c.Fail != "open" && len(c.Chunks) == 0 && g.s.Chance(2, 3) {
			for i := 0; i < 4; i++ {
				c.Chunks = append(c.Chunks, 1+g.s.Intn(1+len(c.Out)/3))
			}
		}
	}
	if p.abort > 0 && g.s.Chance(p.abort, 100) {
		c.Abort = g.pick("panic", "panic error", "panic string", "panic runtime error", "exit", "exit")
		c.AbortAt = g.s.Intn(4)
		c.Fail = ""
		if c.AbortAt > 1 && len(c.Chunks) == 0 {
			for i := 0; i < 4; i++ {
				c.Chunks = append(c.Chunks, 1+g.s.Intn(1+len(c.Out)/3))
			}
		}
	}
}

// profile weighs what lists contain.
type profile struct {
	encoded  int // chance (of 100) that a name uses encoded words
	foreignP int // chance that such a word is foreign
	broken   int // chance that a word is undecodable
	comments bool
	groups   int
	long     int
	chunky   int
	slow     int
	stall    int
	fail     int
	abort    int
	writerTo bool
	dup      int // chance that a foreign word repeats an earlier one
	simple   bool
	short    bool // short texts only
	few      int  // when not zero, use two charsets only
}

// lister builds one list and its plan.
type lister struct {
	g    *gen
	p    *profile
	plan []*Conv
	raws []ew
}

func (b *lister) addConv(c *Conv) int {
	for i, x := range b.plan {
		if x.Charset == c.Charset && x.Payload == c.Payload {
			return i + 1
		}
	}
	b.plan = append(b.plan, c)
	return len(b.plan)
}

// encodedWord returns the next encoded word as a piece.
func (b *lister) encodedWord() Piece {
	g := b.g
	var w ew
	switch {
	case g.s.Chance(b.p.foreignP, 100):
		if len(b.raws) > 0 && g.s.Chance(b.p.dup, 100) {
			w = b.raws[g.s.Intn(len(b.raws))]
		} else {
			w = g.foreign(b.p)
			b.raws = append(b.raws, w)
		}
		return Piece{Lit: Str(w.raw), Conv: b.addConv(w.conv)}
	case g.s.Chance(b.p.broken, 100):
		w = g.undecodable()
	default:
		w = g.builtin()
	}
	return Piece{Pre: "\x00" + Str(w.raw), Lit: Str(w.mean)} // the text travels in Pre until placed
}

// name builds a display name: its text and its pieces.
func (b *lister) name() (string, []Piece) {
	g := b.g
	n := 1 + g.s.Intn(3)
	if g.s.Chance(1, 25) {
		n = 4 + g.s.Intn(10)
	}
	if g.s.Chance(b.p.encoded, 100) {
		// Encoded words, possibly with atoms before them.
		var text strings.Builder
		var ps []Piece
		if g.s.Chance(1, 4) {
			a := g.letters(1, 5)
			text.WriteString(a + " ")
			ps = append(ps, Piece{Lit: Str(a)})
		}
		first := true
		for i := 0; i < n; i++ {
			p := b.encodedWord()
			raw := string(p.Lit)
			if strings.HasPrefix(string(p.Pre), "\x00") {
				raw = string(p.Pre)[1:]
			}
			p.Pre = ""
			if first && len(ps) > 0 {
				p.Pre = " "
			}
			if !first {
				text.WriteString(g.pick(" ", " ", "\r\n ", "  ", ""))
			}
			first = false
			text.WriteString(raw)
			ps = append(ps, p)
		}
		if g.s.Chance(1, 5) {
			a := g.letters(1, 5)
			text.WriteString(" " + a)
			ps = append(ps, Piece{Pre: " ", Lit: Str(a)})
		}
		return text.String(), ps
	}
	if k := g.long(b.p); k > 0 {
		a := g.letters(k, k)
		if g.s.Chance(2, 3) {
			m, t := g.quotedText()
			return "\"" + t + a + "\"", []Piece{{Lit: Str(m + a)}}
		}
		return a, []Piece{{Lit: Str(a)}}
	}
	switch g.s.Intn(4) {
	case 0:
		m, t := g.quotedText()
		return "\"" + t + "\"", []Piece{{Lit: Str(m)}}
	case 1:
		m, t := g.quotedText()
		a := g.letters(1, 4)
		return a + " \"" + t + "\"", []Piece{{Lit: Str(a)}, {Pre: " ", Lit: Str(m)}}
	}
	var text strings.Builder
	var ps []Piece
	for i := 0; i < n; i++ {
		a := g.atom()
		p := Piece{Lit: Str(a)}
		if i > 0 {
			if b.p.comments && g.s.Chance(1, 8) {
				text.WriteString(" " + g.comment() + " ")
			} else {
				text.WriteString(g.pick(" ", " ", "  ", "\t", "\r\n "))
			}
			p.Pre = " "
		}
		if !b.p.simple && g.s.Chance(1, 16) {
			// The obsolete phrase: a dot or an at sign sticks to its neighbours.
			c := g.letters(1, 4)
			a += g.pick(".", ".", "@") + c
			p.Lit = Str(a)
			if g.s.Chance(1, 4) {
				text.WriteString(strings.ReplaceAll(a, "@", " @ "))
				ps = append(ps, p)
				continue
			}
		}
		text.WriteString(a)
		ps = append(ps, p)
	}
	return text.String(), ps
}

// addrSpec builds an address: text and meaning.
func (b *lister) addrSpec() (text, mean string) {
	g := b.g
	d := g.domain()
	dt := d
	if b.p.simple {
		l := g.letters(1, 8)
		return l + "@" + d, l + "@" + d
	}
	if g.s.Chance(1, 14) {
		d = fmt.Sprintf("[%d.%d.%d.%d]", g.l.Intn(256), g.l.Intn(256), g.l.Intn(256), g.l.Intn(256))
		if g.s.Chance(1, 4) {
			d = g.pick("[IPv6:2001:db8::1]", "[x]", "[ 10.0.0.1 ]", "[a  b]", "[]")
		}
		dt = d
		if g.s.Chance(1, 5) && len(d) > 2 {
			i := 1 + g.l.Intn(len(d)-2)
			d = dt[:i] + " " + dt[i:]
			dt = dt[:i] + "\r\n " + dt[i:]
			if strings.Contains(d, "  ") {
				d = "[1.2]"
				dt = d
			}
		}
	}
	if k := g.long(b.p); k > 0 {
		a := g.letters(k, k)
		switch g.s.Intn(4) {
		case 0:
			return "\"" + a + "\"@" + dt, a + "@" + d
		case 1:
			a = a[:1] + "." + strings.Join(strings.SplitAfter(a[:len(a)/8], ""), ".") + "x"
			a = strings.ReplaceAll(a, "..", ".")
			return "x@" + a, "x@" + a
		case 2:
			z := g.letters(1, 3)
			return "x@" + a + "." + z, "x@" + a + "." + z
		}
		return a + "@" + dt, a + "@" + d
	}
	switch g.s.Intn(13) {
	case 12:
		m, t := g.quotedText()
		a := g.atom()
		if g.s.Chance(1, 2) {
			return a + ".\"" + t + "\"@" + dt, a + "." + m + "@" + d
		}
		return "\"" + t + "\"." + a + "@" + dt, m + "." + a + "@" + d
	case 0:
		m, t := g.quotedText()
		return "\"" + t + "\"@" + dt, m + "@" + d
	case 1:
		a, c := g.letters(1, 4), g.letters(1, 4)
		return a + " . " + c + "@" + dt, a + "." + c + "@" + d
	case 2, 3:
		a, c := g.atom(), g.atom()
		return a + "." + c + "@" + dt, a + "." + c + "@" + d
	}
	a := g.atom()
	return a + "@" + dt, a + "@" + d
}

// mailbox builds one mailbox.
func (b *lister) mailbox() (string, Box) {
	g := b.g
	at, am := b.addrSpec()
	if !b.p.simple && g.s.Chance(1, 30) {
		at, am = at+":25", am+":25"
	} else if !b.p.simple && g.s.Chance(1, 40) {
		nt, np := b.name()
		return nt + " <>", Box{Name: np, Addr: ""}
	}
	bare := 40
	if b.p.encoded > 50 {
		bare = 10
	}
	if g.s.Chance(bare, 100) && !strings.HasSuffix(at, ":25") {
		return g.cfws(false) + at + b.tail(), Box{Addr: Str(am)}
	}
	if !b.p.simple && g.s.Chance(1, 20) && !strings.HasSuffix(at, ":25") {
		at = "@" + g.domain() + ",@" + g.domain() + ":" + at
	}
	if g.s.Chance(1, 10) {
		return "<" + at + ">" + b.tail(), Box{Addr: Str(am)}
	}
	nt, np := b.name()
	sp := g.pick(" ", " ", "", "\r\n ", "\t")
	if strings.HasSuffix(nt, "=") {
		sp = " "
	}
	return g.cfws(false) + nt + sp + "<" + at + ">" + b.tail(), Box{Name: np, Addr: Str(am)}
}

func (b *lister) tail() string {
	if b.p.comments && b.g.s.Chance(1, 8) {
		return " " + b.g.comment()
	}
	return ""
}

// list builds a well-formed list of n elements.
func (b *lister) list(n int) []Elem {
	g := b.g
	var out []Elem
	semi := !b.p.simple && g.s.Chance(1, 20) // a relaxation: semicolons between addresses
	for i := 0; i < n; i++ {
		var e Elem
		if !semi && g.s.Chance(b.p.groups, 100) {
			k := g.s.Intn(4)
			if !b.p.simple && g.s.Chance(1, 10) {
				k += g.s.Intn(9)
			}
			var t strings.Builder
			if g.s.Chance(1, 4) {
				m, q := g.quotedText()
				_ = m
				t.WriteString("\"" + q + "\"")
			} else {
				t.WriteString(g.letters(1, 6))
			}
			t.WriteString(g.pick(":", ": ", " :"))
			empties := !b.p.simple && g.s.Chance(1, 5)
			if empties && g.s.Chance(1, 2) {
				t.WriteString(g.pick(",", ", ", " ,", ",,", ", , "))
			}
			for j := 0; j < k; j++ {
				mt, box := b.mailbox()
				t.WriteString(mt)
				if j < k-1 {
					t.WriteString(g.pick(",", ", ", ",\r\n "))
					if empties && g.s.Chance(1, 2) {
						t.WriteString(g.pick(",", " , ", ",,"))
					}
				} else if empties && g.s.Chance(1, 2) {
					t.WriteString(g.pick(",", ", ", ",,"))
				}
				e.Boxes = append(e.Boxes, box)
			}
			if i < n-1 || b.p.simple || !g.s.Chance(1, 20) {
				t.WriteString(";")
			} // else a relaxation: the list ends with the group
			e.Text = Str(t.String())
		} else {
			mt, box := b.mailbox()
			e.Text, e.Boxes = Str(mt), []Box{box}
		}
		if i < n-1 {
			e.Sep = Str(g.pick(", ", ", ", ",", ",\r\n ", ", ", ","))
			if !b.p.simple && g.s.Chance(1, 25) {
				e.Sep = ", , "
			}
			if semi {
				e.Sep = Str(g.pick("; ", ";", ";\r\n ", ", "))
			}
		}
		out = append(out, e)
	}
	if !b.p.simple && !semi && n > 0 && g.s.Chance(1, 25) {
		out[0].Text = Str(g.pick(",", ", ", " ,", ", ,")) + out[0].Text
	}
	if !b.p.simple && !semi && n > 0 && g.s.Chance(1, 25) {
		out[n-1].Sep = Str(g.pick(",", ", ", ",,", ", , "))
	}
	for i := range out {
		out[i].Text = Str(oneFold(string(out[i].Text)))
		if i > 0 {
			j := oneFold(string(out[i-1].Sep) + string(out[i].Text))
			out[i-1].Sep = Str(strings.TrimSuffix(j, string(out[i].Text)))
			if len(j) != len(out[i-1].Sep)+len(out[i].Text) {
				out[i-1].Sep, out[i].Text = ",", Str(strings.TrimPrefix(j, ","))
			}
		}
	}
	return out
}

// oneFold leaves at most one line break in each run of white space, as
// RFC 5322 wants it.
func oneFold(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); {
		j := i
		for j < len(s) && strings.IndexByte(" \t\r\n", s[j]) >= 0 {
			j++
		}
		if j == i {
			b.WriteByte(s[i])
			i++
			continue
		}
		run := s[i:j]
		if strings.Count(run, "\r\n") > 1 {
			run = " " + run[strings.LastIndex(run, "\r\n"):]
		}
		b.WriteString(run)
		i = j
	}
	return b.String()
}

// listOp builds an address-list operation.
func (g *gen) listOp(p *profile, n int) *Op {
	b := &lister{g: g, p: p}
	op := &Op{Kind: KAddr, List: b.list(n)}
	op.Plan = b.plan
	return op
}

// crowd is a list of very many short mailboxes.
func (g *gen) crowd(n int) *Op {
	op := &Op{Kind: KAddr}
	for i := 0; i < n; i++ {
		a := g.letters(1, 2) + "@" + g.letters(1, 1)
		e := Elem{Text: Str(a), Boxes: []Box{{Addr: Str(a)}}}
		switch g.s.Intn(20) {
		case 0:
			w := g.letters(1, 2)
			e = Elem{Text: Str(w + "<" + a + ">"), Boxes: []Box{{Name: []Piece{{Lit: Str(w)}}, Addr: Str(a)}}}
		case 1:
			e = Elem{Text: Str("g:" + a + "," + a + ";"), Boxes: []Box{{Addr: Str(a)}, {Addr: Str(a)}}}
		}
		if i < n-1 {
			e.Sep = ","
		}
		op.List = append(op.List, e)
	}
	return op
}

// tiny is a short call; the handler, if any, is asked about its one word.
func (g *gen) tiny(kind int, p *profile) *Op {
	w := g.letters(1, 3)
	switch kind {
	case 0:
		a := w + "@" + g.letters(1, 2)
		return &Op{Kind: KAddr, List: []Elem{{Text: Str(a), Boxes: []Box{{Addr: Str(a)}}}}}
	case 1:
		d := &DateSpec{Month: 1 + g.l.Intn(12), Day: 1 + g.l.Intn(28), Year: 1970 + g.l.Intn(80), Hour: g.l.Intn(24), Min: g.l.Intn(60)}
		h := g.l.Intn(12)
		d.Offset = -h * 3600
		d.Text = Str(fmt.Sprintf("%d %s %d %02d:%02d -%02d00", d.Day, monthNames[d.Month-1], d.Year, d.Hour, d.Min, h))
		return &Op{Kind: KDate, Date: d}
	case 2:
		return g.rejected()
	}
	q := *p
	q.short, q.long = true, 0
	c := g.foreign(&q)
	at := w + "@" + g.letters(1, 2)
	return &Op{Kind: KAddr, List: []Elem{{Text: Str(c.raw + " <" + at + ">"), Boxes: []Box{{Name: []Piece{{Lit: Str(c.raw), Conv: 1}}, Addr: Str(at)}}}}, Plan: []*Conv{c.conv}}
}

// rejects are inputs that are refused, for histories.
func (g *gen) rejected() *Op {
	w := g.letters(1, 5)
	s := g.pick(
		w+"@", "@"+w, w, w+"@"+w+"@"+w, "\""+w+"@"+w, w+" <"+w+"@"+w, "<"+w+">", "("+w, w+"@"+w+", ,,;", w+": "+w+"@"+w+", ("+w,
		"=?x-sim?Q?"+w+"?=", "=?x-sim?Q?"+w+"?= <"+w, "\\"+w, "["+w+"]", w+"@["+w, ",", ";", ":", "\x00", "\xff\xfe", w+"@"+w+"\r\n", "", "", " ",
	)
	return &Op{Kind: KAddr, Raw: Str(s)}
}

var monthNames = []string{"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}
var dayNames = []string{"Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"}

type zoneName struct {
	n string
	o int
}

var zoneNames = []zoneName{{"UT", 0}, {"UTC", 0}, {"GMT", 0}, {"EST", -5}, {"EDT", -4}, {"CST", -6}, {"CDT", -5}, {"MST", -7}, {"MDT", -6}, {"PST", -8}, {"PDT", -7}}

// anyCase writes a word as it is, mostly, or with letters of either case.
func (g *gen) anyCase(w string) string {
	if !g.s.Chance(1, 6) {
		return w
	}
	b := []byte(w)
	for i := range b {
		if g.l.Intn(2) == 0 {
			b[i] ^= 0x20
		}
	}
	return string(b)
}

// date builds a date-time.
func (g *gen) date(short bool) *Op { return g.dateIn(short, -1) }

// dateIn builds a date-time in a year of two digits, if given.
func (g *gen) dateIn(short bool, year int) *Op {
	d := &DateSpec{Short: short}
	d.Month = 1 + g.l.Intn(12)
	d.Day = 1 + g.l.Intn(28)
	if short {
		d.Year = g.l.Intn(100)
		if year >= 0 {
			d.Year = year
		}
		if g.s.Chance(1, 5) {
			// Of the years that two digits may mean, all that can be meant
			// for a clock before 2100 have as many days in February.
			d.Day = []int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}[d.Month-1]
			if d.Month == 2 && d.Year%4 == 0 {
				d.Day = 29
			}
		}
	} else {
		switch g.s.Intn(6) {
		case 0:
			d.Year = 1900 + g.l.Intn(200)
		case 1:
			d.Year = 1000 + g.l.Intn(9000)
		case 2:
			d.Year = g.l.Intn(1000)
		default:
			d.Year = 1970 + g.l.Intn(70)
		}
		last := []int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}[d.Month-1]
		if d.Month == 2 && (d.Year%4 == 0 && d.Year%100 != 0 || d.Year%400 == 0) {
			last = 29
		}
		d.Day = 1 + g.l.Intn(last)
		if g.s.Chance(1, 6) {
			d.Day = last
		}
	}
	if g.s.Chance(1, 8) {
		d.Month, d.Day = []int{1, 12, 3, 2}[g.l.Intn(4)], 1
		if d.Month == 12 {
			d.Day = 31
		}
	}
	d.Hour, d.Min, d.Sec = g.l.Intn(24), g.l.Intn(60), 0
	var b strings.Builder
	ws := func() string { return g.pick(" ", " ", " ", "  ", "\t", "\r\n ") }
	obs := g.s.Chance(1, 6)
	// cm is a comment where the obsolete syntax has one.
	cm := func() string {
		if obs && g.s.Chance(1, 3) {
			return g.fold() + g.comment() + g.fold()
		}
		return ""
	}
	if g.s.Chance(2, 3) {
		b.WriteString(cm() + g.anyCase(dayNames[g.l.Intn(7)]) + cm() + "," + g.pick(" ", " ", "", "\r\n "))
	}
	dd := fmt.Sprintf("%02d", d.Day)
	if d.Day < 10 && g.s.Chance(1, 2) {
		dd = fmt.Sprintf("%d", d.Day)
	}
	mon := g.pick(monthNames[d.Month-1], monthNames[d.Month-1], strings.ToUpper(monthNames[d.Month-1]), strings.ToLower(monthNames[d.Month-1]), g.anyCase(monthNames[d.Month-1]))
	if short {
		fmt.Fprintf(&b, "%s%s%s%s%s%s%s%02d%s%s", cm(), dd, cm(), ws(), mon, ws(), cm(), d.Year, ws(), cm())
	} else {
		fmt.Fprintf(&b, "%s%s%s%s%s%s%04d%s%s", cm(), dd, cm(), ws(), mon, ws(), d.Year, ws(), cm())
	}
	if d.Hour < 10 && g.s.Chance(1, 4) {
		fmt.Fprintf(&b, "%d%s:%s%02d", d.Hour, cm(), cm(), d.Min)
	} else {
		fmt.Fprintf(&b, "%02d%s:%s%02d", d.Hour, cm(), cm(), d.Min)
	}
	if g.s.Chance(3, 4) {
		d.Sec = g.l.Intn(60)
		if g.s.Chance(1, 40) {
			d.Sec = 60 // a leap second: the next minute begins
		}
		fmt.Fprintf(&b, "%s:%s%02d", cm(), cm(), d.Sec)
	}
	switch g.s.Intn(6) {
	case 0: // no zone
	case 1:
		z := zoneNames[g.l.Intn(len(zoneNames))]
		d.Offset = z.o * 3600
		b.WriteString(" " + cm() + g.pick(z.n, z.n, strings.ToLower(z.n), g.anyCase(z.n)))
	default:
		h, m := g.l.Intn(15), []int{0, 0, 30, 45, 59, g.l.Intn(60)}[g.l.Intn(6)]
		if g.s.Chance(1, 30) {
			h = []int{15, 18, 23, 24, 50, 99}[g.l.Intn(6)]
		}
		sign := "+"
		d.Offset = h*3600 + m*60
		if g.l.Intn(2) == 0 {
			sign, d.Offset = "-", -d.Offset
		}
		if sign == "+" && g.s.Chance(1, 20) {
			sign = "" // a relaxation
		}
		fmt.Fprintf(&b, "%s%s%s%02d%02d", cm(), ws(), sign, h, m)
	}
	if g.s.Chance(1, 6) {
		if g.s.Chance(1, 3) {
			b.WriteString(" (" + g.pick("GMT", "EST", "PDT", "UTC", "CET", "+0100", "-0500") + ")")
		} else {
			b.WriteString(" " + g.comment())
		}
	}
	d.Text = Str(oneFold(b.String()))
	return &Op{Kind: KDate, Date: d}
}

var hostZones = []string{"UTC", "fixed:+0530", "fixed:-0800", "fixed:+1400", "fixed:-1200", "America/New_York", "Europe/London", "Asia/Kolkata", "Australia/Sydney", "America/Sao_Paulo", "Pacific/Apia", "America/St_Johns", "Asia/Shanghai", "Asia/Manila", "Asia/Kathmandu", "Europe/Dublin", "Africa/Casablanca", "America/Havana"}
