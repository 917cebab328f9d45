// Package harness drives the real parsers inside the simulator.
package harness

import (
	"encoding/json"
	"strconv"
	"strings"

	"verifsim/simrt"
)

// Str is a byte string that is readable in JSON.
type Str string

// MarshalJSON writes s as a quoted Go string.
func (s Str) MarshalJSON() ([]byte, error) {
	q := strconv.QuoteToASCII(string(s))
	return json.Marshal(q[1 : len(q)-1])
}

// UnmarshalJSON undoes MarshalJSON.
func (s *Str) UnmarshalJSON(b []byte) error {
	var q string
	if err := json.Unmarshal(b, &q); err != nil {
		return err
	}
	u, err := strconv.Unquote("\"" + q + "\"")
	*s = Str(u)
	return err
}

// Scenario is one simulated run, complete: the same scenario on the same code
// is the same execution.
type Scenario struct {
	Prop     string        `json:"prop"`
	Seed     uint64        `json:"seed"`
	Policy   int           `json:"policy"`
	Mean     [3]int64      `json:"mean"`
	Weight   [3]int        `json:"weight"`
	Changes  int           `json:"changes,omitempty"`
	Explicit bool          `json:"explicit,omitempty"`
	Schedule []simrt.Entry `json:"schedule,omitempty"`
	MaxSteps int64         `json:"max_steps,omitempty"` // 0: by the calls made
	TZ       string        `json:"tz"`
	Wall     int64         `json:"wall"`
	Tick     int64         `json:"tick"`
	Phases   []Phase       `json:"phases"`
}

// Phase is a set of threads that run concurrently; the next phase starts when
// all have ended. Restart restarts the simulated process first.
type Phase struct {
	Restart bool     `json:"restart,omitempty"`
	Handler int      `json:"handler"` // 0 none, else the variant of conversion
	Threads []Caller `json:"threads"`
}

// Caller is one caller thread.
type Caller struct {
	Ops []*Op `json:"ops"`
}

// Kinds of operations.
const (
	KAddr   = "addr"
	KDate   = "date"
	KWall   = "wall"   // step the clock to Wall
	KSleep  = "sleep"  // let Dur nanoseconds pass
	KMutate = "mutate" // the caller modifies the result of its op Target
)

// Op is one operation of a caller.
type Op struct {
	Kind   string    `json:"kind"`
	Raw    Str       `json:"raw,omitempty"`
	List   []Elem    `json:"list,omitempty"`
	Edits  []Edit    `json:"edits,omitempty"`
	Date   *DateSpec `json:"date,omitempty"`
	Plan   []*Conv   `json:"plan,omitempty"`
	Wall   int64     `json:"wall,omitempty"`
	Dur    int64     `json:"dur,omitempty"`
	Target int       `json:"target,omitempty"`
	How    int       `json:"how,omitempty"`
	Hop    string    `json:"hop,omitempty"` // what the relay before did to the text
}

// Elem is one element of a list: a mailbox or a group, and what follows it.
type Elem struct {
	Text  Str   `json:"text"`
	Sep   Str   `json:"sep"`
	Boxes []Box `json:"boxes"`
}

// Box is a mailbox that an element yields.
type Box struct {
	Name []Piece `json:"name,omitempty"`
	Addr Str     `json:"addr"`
}

// Piece is a part of a name. Conv, when not zero, refers to a conversion of
// the operation's plan (index plus one); Lit is then the word as written.
type Piece struct {
	Pre  Str `json:"pre,omitempty"`
	Lit  Str `json:"lit"`
	Conv int `json:"conv,omitempty"`
}

// Edit is damage: Del bytes at Off are replaced by Ins.
type Edit struct {
	Off int    `json:"off"`
	Del int    `json:"del"`
	Ins Str    `json:"ins"`
	How string `json:"how"`
}

// Conv says how the handler behaves for one encoded word.
type Conv struct {
	Charset string `json:"charset"`
	Payload Str    `json:"payload"`
	Out     Str    `json:"out"`
	Chunks  []int  `json:"chunks,omitempty"` // sizes of the reads; 0 is an empty read
	EOFData bool   `json:"eof_with_data,omitempty"`
	Lazy    bool   `json:"lazy,omitempty"`     // read the payload only when read from
	WriteTo bool   `json:"write_to,omitempty"` // the reader implements io.WriterTo
	Scratch bool   `json:"scratch,omitempty"`  // reads use all of the buffer as scratch space
	Dress   string `json:"dress,omitempty"`    // further methods of the reader
	Fail    string `json:"fail,omitempty"`     // open, read, read+data
	FailAt  int    `json:"fail_at,omitempty"`
	Err     string `json:"err,omitempty"`   // kind of error
	Abort   string `json:"abort,omitempty"` // panic, panic error, panic string, panic runtime error, exit
	AbortAt int    `json:"abort_at,omitempty"`
	Stall   bool   `json:"stall,omitempty"`
	Sleep   int64  `json:"sleep,omitempty"`
	WaitAt  int    `json:"wait_at,omitempty"` // event at which Stall/Sleep happen: 0 open, n the n-th read
	Nested  *Op    `json:"nested,omitempty"`
	NestAt  int    `json:"nest_at,omitempty"`
}

// DateSpec is a date-time as text and as what it denotes.
type DateSpec struct {
	Text   Str  `json:"text"`
	Year   int  `json:"year"` // two-digit value when Short
	Short  bool `json:"short,omitempty"`
	Month  int  `json:"month"`
	Day    int  `json:"day"`
	Hour   int  `json:"hour"`
	Min    int  `json:"min"`
	Sec    int  `json:"sec"`
	Offset int  `json:"offset"` // seconds east of UTC
}

// Input is the text handed to the parser.
func (o *Op) Input() string {
	if o.Date != nil && o.Raw == "" {
		return applyEdits(string(o.Date.Text), o.Edits)
	}
	if len(o.List) > 0 {
		return applyEdits(o.rendered(), o.Edits)
	}
	return applyEdits(string(o.Raw), o.Edits)
}

func (o *Op) rendered() string {
	var b strings.Builder
	for _, e := range o.List {
		b.WriteString(string(e.Text))
		b.WriteString(string(e.Sep))
	}
	return b.String()
}

func applyEdits(s string, es []Edit) string {
	// Edits are applied one after the other, each to the text as it then is.
	for _, e := range es {
		off, end := e.Off, e.Off+e.Del
		if off > len(s) {
			off = len(s)
		}
		if end > len(s) {
			end = len(s)
		}
		s = s[:off] + string(e.Ins) + s[end:]
	}
	return s
}

// firstDamage is the offset before which the text is as it was.
func (o *Op) firstDamage() int {
	min := len(o.rendered())
	for _, e := range o.Edits {
		if e.Off < min {
			min = e.Off
		}
	}
	return min
}

// converts tells whether the word is decoded by a call under handler h.
func (c *Conv) converts(h int) bool {
	return h != 0 && c.Fail == "" && c.Abort == ""
}

// out is the converted text under handler variant h.
func (c *Conv) out(h int) string {
	if h == 2 {
		return "β" + string(c.Out)
	}
	return string(c.Out)
}

// Mailbox is a name and an address.
type Mailbox struct {
	Name string `json:"name"`
	Addr string `json:"addr"`
}

// want is what the reference model says the operation's list yields.
func (o *Op) want(h int) []Mailbox {
	var out []Mailbox
	for i := range o.List {
		out = append(out, o.wantElem(i, h)...)
	}
	return out
}

func (o *Op) wantElem(i, h int) []Mailbox {
	var out []Mailbox
	for _, b := range o.List[i].Boxes {
		out = append(out, Mailbox{o.nameOf(b, h), string(b.Addr)})
	}
	return out
}

func (o *Op) nameOf(b Box, h int) string {
	n := ""
	for _, p := range b.Name {
		if n != "" {
			n += string(p.Pre)
		}
		if p.Conv > 0 && p.Conv <= len(o.Plan) && o.Plan[p.Conv-1].converts(h) {
			n += o.Plan[p.Conv-1].out(h)
		} else {
			n += string(p.Lit)
		}
	}
	return n
}

// clean tells whether the operation is a well-formed list without damage.
func (o *Op) clean() bool { return o.Kind == KAddr && len(o.List) > 0 && len(o.Edits) == 0 }

// aborts tells whether a conversion of the plan is set to abort the call.
func (o *Op) aborts() bool {
	for _, c := range o.Plan {
		if c.Abort != "" {
			return true
		}
	}
	return false
}

// foreign lists, in written order, the words of the list that the handler
// must be asked for.
func (o *Op) foreign() []*Conv {
	var out []*Conv
	for _, e := range o.List {
		for _, b := range e.Boxes {
			for _, p := range b.Name {
				if p.Conv > 0 {
					out = append(out, o.Plan[p.Conv-1])
				}
			}
		}
	}
	return out
}

func clone(sc *Scenario) *Scenario {
	b, err := json.Marshal(sc)
	if err != nil {
		panic(err)
	}
	var c Scenario
	if err := json.Unmarshal(b, &c); err != nil {
		panic(err)
	}
	return &c
}
