package harness

import (
	"errors"
	"fmt"
	"io"
	"runtime"
	"strings"

	"verifsim/simrt"
)

var (
	errOpen = errors.New("charset refused")
	errRead = errors.New("conversion failed")
)

// Aborting handlers panic with values of different kinds.
type (
	abortValue struct{ id int }
	abortErr   struct{ id int } // an error
	abortRT    struct{ id int } // an error that claims to be the runtime's
)

func (a abortErr) Error() string { return fmt.Sprintf("simulated abort %d", a.id) }
func (a abortRT) Error() string  { return fmt.Sprintf("simulated abort %d", a.id) }
func (a abortRT) RuntimeError()  {}

const abortText = "simulated abort "

func isAbort(v interface{}) bool {
	switch v := v.(type) {
	case abortValue, abortErr, abortRT:
		return true
	case string:
		return strings.HasPrefix(v, abortText)
	}
	return false
}

func newAbort(kind string) interface{} {
	abortSeq++
	switch kind {
	case "panic error":
		return abortErr{abortSeq}
	case "panic runtime error":
		return abortRT{abortSeq}
	case "panic string":
		return abortText + fmt.Sprint(abortSeq)
	}
	return abortValue{abortSeq}
}

// softErr looks like an error that is worth another try.
type softErr struct{}

func (softErr) Error() string   { return "resource temporarily unavailable" }
func (softErr) Timeout() bool   { return true }
func (softErr) Temporary() bool { return true }

// failure is the error of the given kind.
func failure(kind string, open bool) error {
	switch kind {
	case "unexpected eof":
		return io.ErrUnexpectedEOF
	case "wrapped eof":
		return fmt.Errorf("converting: %w", io.EOF)
	case "temporary":
		return softErr{}
	case "no progress":
		return io.ErrNoProgress
	case "short write":
		return io.ErrShortWrite
	case "eof":
		if open {
			return io.EOF
		}
	case "unsupported":
		return fmt.Errorf("%w: unknown charset", errors.ErrUnsupported)
	}
	if open {
		return errOpen
	}
	return errRead
}

// callCtx is the simulator's view of one call in progress.
type callCtx struct {
	op       *Op
	handler  int
	consults []*consult
	returned bool
	nested   []*outcome
	aborted  int // number of aborts that fired
	fired    *runStats
	aborts   []interface{}
}

// consult is one question put to the handler.
type consult struct {
	charset   string
	payload   string
	conv      *Conv
	opened    bool // a reader was returned
	ended     bool // the reader reported its end or an error
	afterEnd  int  // reads after that
	afterCall int  // reads after the call had returned
	thread    int
	badInput  string
}

// runStats counts the faults that actually happened. It is no map, because the
// race detector attributes accesses to maps to the wrong functions.
type runStats struct {
	n     int
	kinds [64]struct {
		name string
		n    int64
	}
}

func (r *runStats) hit(k string) {
	for i := 0; i < r.n; i++ {
		if r.kinds[i].name == k {
			r.kinds[i].n++
			return
		}
	}
	if r.n < len(r.kinds) {
		r.kinds[r.n].name, r.kinds[r.n].n = k, 1
		r.n++
	}
}

var abortSeq int

// handle is the installed charset handler.
func handle(handler int, charset string, input io.Reader) (io.Reader, error) {
	simrt.G(0)
	t := simrt.Current()
	var ctx *callCtx
	if t != nil {
		ctx, _ = t.Op.(*callCtx)
	}
	if ctx == nil {
		panic("harness: handler called outside a call")
	}
	c := &consult{charset: charset, thread: t.ID}
	ctx.consults = append(ctx.consults, c)
	if ctx.returned {
		c.afterCall++
	}
	raw, err := io.ReadAll(input)
	if err != nil {
		c.badInput = "reading the payload: " + err.Error()
	}
	c.payload = string(raw)
	simrt.Note(uint64(len(raw)) + 77)
	for _, p := range ctx.op.Plan {
		if strings.EqualFold(p.Charset, charset) && string(p.Payload) == c.payload {
			c.conv = p
			break
		}
	}
	if c.conv == nil {
		ctx.fired.hit("refused charset")
		return nil, errOpen
	}
	p := c.conv
	r := &convReader{ctx: ctx, c: c, p: p, h: handler, text: p.out(handler), failed: p.Fail == "", aborted: p.Abort == "", waited: !p.Stall && p.Sleep == 0, nestDone: p.Nested == nil}
	if p.Lazy {
		if s, ok := input.(io.Seeker); ok {
			if _, err := s.Seek(0, io.SeekStart); err == nil {
				r.lazy = input
			}
		}
	}
	r.event()
	if p.Fail == "open" {
		ctx.fired.hit("refused charset")
		err := failure(p.Err, true)
		if p.Lazy {
			// What comes with an error does not count.
			return strings.NewReader("void"), err
		}
		return nil, err
	}
	c.opened = true
	simrt.G(0)
	if p.WriteTo {
		return &convWriterTo{r}, nil
	}
	switch p.Dress {
	case "source":
		return &convSource{r}, nil
	case "bytes":
		return &convBytes{convReader: r}, nil
	}
	return r, nil
}

// convSource also tells about what it converts, and can be closed.
type convSource struct{ *convReader }

func (r *convSource) Len() int       { return len(r.c.payload) }
func (r *convSource) Size() int64    { return int64(len(r.c.payload)) }
func (r *convSource) String() string { return r.c.payload }
func (r *convSource) Name() string   { return r.c.charset }
func (r *convSource) Close() error   { return nil }
func (r *convSource) Reset()         {}

// convBytes also offers io.ByteScanner.
type convBytes struct {
	*convReader
	last  byte
	has   bool
	again bool
	late  error
}

func (r *convBytes) Read(b []byte) (int, error) {
	if r.again && len(b) > 0 {
		r.again = false
		b[0] = r.last
		return 1, nil
	}
	if r.late != nil {
		err := r.late
		r.late = nil
		return 0, err
	}
	n, err := r.convReader.Read(b)
	if n > 0 {
		r.last, r.has = b[n-1], true
	}
	return n, err
}

func (r *convBytes) ReadByte() (byte, error) {
	var b [1]byte
	for {
		n, err := r.Read(b[:])
		if n > 0 {
			r.late = err
			return b[0], nil
		}
		if err != nil {
			return 0, err
		}
	}
}

func (r *convBytes) UnreadByte() error {
	if !r.has || r.again {
		return errors.New("nothing to unread")
	}
	r.again = true
	return nil
}

// convReader delivers the converted text as its plan says.
type convReader struct {
	ctx      *callCtx
	c        *consult
	p        *Conv
	h        int
	text     string
	pos      int
	n        int // events so far: 0 is the opening, n the n-th read
	chunk    int
	lazy     io.Reader
	failed   bool
	aborted  bool
	waited   bool
	nestDone bool
	err      error
}

// event performs what the plan sets for the current point.
func (r *convReader) event() {
	last := r.n > 0 && r.pos >= len(r.text)
	if !r.waited && (r.n >= r.p.WaitAt || last) {
		r.waited = true
		if r.p.Stall {
			r.ctx.fired.hit("stalled reader")
			simrt.Stall()
		} else {
			r.ctx.fired.hit("slow reader")
			simrt.Pause(r.p.Sleep)
		}
	}
	if !r.nestDone && (r.n >= r.p.NestAt || last) {
		r.nestDone = true
		r.ctx.fired.hit("nested call")
		t := simrt.Current()
		saved := t.Op
		o := runCall(r.p.Nested, r.h, r.ctx.fired)
		t = simrt.Current()
		t.Op = saved
		r.ctx.nested = append(r.ctx.nested, o)
	}
	if !r.aborted && (r.n >= r.p.AbortAt || last) {
		r.aborted = true
		r.ctx.aborted++
		r.c.ended = true
		if r.p.Abort == "exit" {
			r.ctx.fired.hit("goroutine exit")
			runtime.Goexit()
		}
		r.ctx.fired.hit(r.p.Abort)
		v := newAbort(r.p.Abort)
		r.ctx.aborts = append(r.ctx.aborts, v)
		panic(v)
	}
}

// Read implements io.Reader.
func (r *convReader) Read(b []byte) (int, error) {
	simrt.G(0)
	r.n++
	if r.ctx.returned {
		r.c.afterCall++
	}
	if r.c.ended {
		r.c.afterEnd++
		if r.err == nil {
			return 0, io.EOF
		}
		return 0, r.err
	}
	if r.lazy != nil {
		got, err := io.ReadAll(r.lazy)
		r.lazy = nil
		if err != nil || string(got) != r.c.payload {
			r.c.badInput = fmt.Sprintf("payload changed while being read: %q then %q (%v)", r.c.payload, got, err)
		}
	}
	r.event()
	if !r.failed && (r.n >= r.p.FailAt || r.pos >= len(r.text)) {
		r.failed = true
		n := 0
		if r.p.Fail == "read+data" {
			n = r.take(b)
			r.ctx.fired.hit("failed read with data")
		} else {
			r.ctx.fired.hit("failed read")
		}
		r.c.ended = true
		r.err = failure(r.p.Err, false)
		return n, r.err
	}
	if len(b) == 0 {
		return 0, nil
	}
	n := r.take(b)
	if n == 0 && r.pos < len(r.text) {
		r.ctx.fired.hit("empty read")
		return 0, nil
	}
	if r.pos >= len(r.text) {
		if n == 0 {
			r.c.ended = true
			return 0, io.EOF
		}
		if r.p.EOFData && r.failed && r.aborted && r.waited && r.nestDone {
			r.ctx.fired.hit("data with end")
			r.c.ended = true
			return n, io.EOF
		}
	} else {
		r.ctx.fired.hit("short read")
	}
	simrt.G(0)
	return n, nil
}

// take copies the next chunk.
func (r *convReader) take(b []byte) int {
	rest := len(r.text) - r.pos
	want := rest
	if r.chunk < len(r.p.Chunks) {
		want = r.p.Chunks[r.chunk]
		r.chunk++
	}
	if want > rest {
		want = rest
	}
	if want > len(b) {
		want = len(b)
	}
	copy(b, r.text[r.pos:r.pos+want])
	r.pos += want
	if r.p.Scratch {
		for i, k := want, 0; i < len(b) && k < 4096; i, k = i+1, k+1 {
			b[i] = 'Z'
		}
	}
	return want
}

// convWriterTo also offers io.WriterTo.
type convWriterTo struct{ *convReader }

// WriteTo implements io.WriterTo.
func (r *convWriterTo) WriteTo(w io.Writer) (int64, error) {
	var total int64
	buf := make([]byte, 512)
	for {
		n, err := r.convReader.Read(buf)
		if n > 0 {
			m, werr := w.Write(buf[:n])
			total += int64(m)
			if werr != nil {
				return total, werr
			}
		}
		if err == io.EOF {
			return total, nil
		}
		if err != nil {
			return total, err
		}
	}
}
