package harness

import (
	"encoding/json"
	"strings"
)

func cloneOp(o *Op) *Op {
	b, err := json.Marshal(o)
	if err != nil {
		panic(err)
	}
	var c Op
	if err := json.Unmarshal(b, &c); err != nil {
		panic(err)
	}
	return &c
}

// damage adds transmission damage to an operation's text.
func damage(g *gen, op *Op, n int) *Op {
	for i := 0; i < n; i++ {
		cur := op.Input()
		if len(cur) == 0 {
			return op
		}
		op.Edits = append(op.Edits, edit(g, op, cur))
	}
	return op
}

func damageDate(g *gen, op *Op) *Op { return damage(g, op, 1+g.s.Intn(2)) }

const special = ",;:<>@()[]\"\\.=? \t\r\n\x00\x7f-+_"

func edit(g *gen, op *Op, cur string) Edit {
	off := g.l.Intn(len(cur))
	if g.s.Chance(1, 3) {
		// Damage likes the places where something hangs on a character.
		for k := 0; k < 20; k++ {
			i := g.l.Intn(len(cur))
			c := cur[i]
			if c == ',' || c == '"' || c == '<' || c == '>' || c == '@' || c == '(' || c == ')' || c == '?' || c == ':' || c == ';' || c == '\\' || c == '=' {
				off = i
				break
			}
		}
	}
	switch g.s.Intn(13) {
	case 11, 12:
		// Something foreign before or after a character that matters.
		b := special[g.l.Intn(len(special)):][:1]
		switch g.l.Intn(4) {
		case 0:
			b = string([]byte{[]byte{0, 1, 4, 7, 8, 11, 12, 26, 27, 31, 127, 128, 160, 194, 255}[g.l.Intn(15)]})
		case 1:
			b = "\x00"
		case 2:
			b = []string{"\r\n", "\n", "\r\n\r\n", "\u00a0", "\u2028", "\ufeff", "\u200b", "\ufffd", "--", "//", "/*", "#"}[g.l.Intn(12)]
		}
		return Edit{Off: off + g.l.Intn(2), Ins: Str(b), How: "bytes inserted"}
	case 0, 1:
		return Edit{Off: off, Del: len(cur) - off, How: "cut short"}
	case 2:
		return Edit{Off: off, Del: 1, How: "byte dropped"}
	case 3:
		n := 1 + g.l.Intn(8)
		if off+n > len(cur) {
			n = len(cur) - off
		}
		return Edit{Off: off, Del: n, How: "bytes dropped"}
	case 4:
		return Edit{Off: off, Ins: Str(special[g.l.Intn(len(special)):][:1]), How: "byte inserted"}
	case 5:
		return Edit{Off: off, Del: 1, Ins: Str(special[g.l.Intn(len(special)):][:1]), How: "byte altered"}
	case 6:
		b := cur[off] ^ (1 << uint(g.l.Intn(8)))
		return Edit{Off: off, Del: 1, Ins: Str([]byte{b}), How: "bit flipped"}
	case 7:
		n := 1 + g.l.Intn(12)
		if off+n > len(cur) {
			n = len(cur) - off
		}
		return Edit{Off: off, Ins: Str(cur[off : off+n]), How: "bytes repeated"}
	}
	if k := g.s.Intn(11); k == 0 {
		n := 1 + g.l.Intn(3)
		if off+n > len(cur) {
			n = len(cur) - off
		}
		return Edit{Off: off, Ins: Str(strings.Repeat(cur[off:off+n], 10+g.l.Intn(90))), How: "bytes repeated many times"}
	} else if k < 8 {
		return Edit{Off: off, Del: 1, Ins: Str([]byte{byte(g.l.Intn(256))}), How: "byte altered"}
	}
	if off+1 < len(cur) {
		return Edit{Off: off, Del: 2, Ins: Str([]byte{cur[off+1], cur[off]}), How: "bytes swapped"}
	}
	return Edit{Off: off, Del: 1, How: "byte dropped"}
}
