package harness

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"time"
)

// A run that leaves library goroutines behind can only be followed by the end
// of its process. What its calls return on their own is then found out in
// processes of their own.

// apart says where such a process is described, and how many may still be
// started for this one.
var apart struct {
	job  job
	path string
	left int
}

// told is what a call returned, as one process tells another.
type told struct {
	Kind   string
	Date   bool
	Unix   int64
	Nano   int
	Offset int
	Zero   bool
	Err    []byte
	List   [][2][]byte
	Panic  []byte
	Abort  bool
}

func tell(o *outcome) *told {
	r := &told{Kind: o.kind, Date: o.isDate, Err: []byte(o.errText)}
	if o.isDate {
		_, r.Offset = o.t.Zone()
		r.Unix, r.Nano, r.Zero = o.t.Unix(), o.t.Nanosecond(), o.t.IsZero()
	}
	for _, m := range o.asRet {
		r.List = append(r.List, [2][]byte{[]byte(m.Name), []byte(m.Addr)})
	}
	if o.kind == "panic" {
		r.Abort = isAbort(o.panicVal)
		r.Panic = []byte(fmt.Sprint(o.panicVal))
	}
	return r
}

func (r *told) outcome(op *Op) *outcome {
	o := &outcome{op: op, kind: r.Kind, isDate: r.Date, errText: string(r.Err)}
	if r.Date && !r.Zero {
		o.t = time.Unix(r.Unix, int64(r.Nano)).In(time.FixedZone("", r.Offset))
	}
	o.asRet = []Mailbox{}
	for _, m := range r.List {
		o.asRet = append(o.asRet, Mailbox{string(m[0]), string(m[1])})
	}
	if r.Kind == "panic" {
		o.panicVal = string(r.Panic)
		if r.Abort {
			o.panicVal = abortText
		}
	}
	return o
}

// soloApart runs the scenario in a process of its own; nil if it may not or
// the process says nothing.
func soloApart(s *Scenario, op *Op) *outcome {
	if apart.left == 0 || apart.job.Mode == "solo" {
		return nil
	}
	apart.left--
	base := fmt.Sprintf("%s.apart%d", apart.path, apart.left)
	jb := apart.job
	jb.Mode, jb.Scenario, jb.Out, jb.Capture = "solo", s, base+".out", base+".cap"
	raw, err := json.Marshal(jb)
	if err != nil {
		panic(err)
	}
	if os.WriteFile(base, raw, 0o600) != nil {
		return nil
	}
	defer os.Remove(base)
	defer os.Remove(jb.Out)
	defer os.Remove(jb.Capture)
	c := exec.Command(os.Args[0], os.Args[1:]...)
	c.Env = append(os.Environ(), "VSIM_JOB="+base)
	if c.Run() != nil {
		return nil
	}
	raw, err = os.ReadFile(jb.Out)
	if err != nil {
		return nil
	}
	var l line
	for i, b := 0, 0; i < len(raw); i++ {
		if raw[i] == '\n' {
			if json.Unmarshal(raw[b:i], &l) == nil && l.Told != nil {
				return l.Told.outcome(op)
			}
			b = i + 1
		}
	}
	return nil
}
