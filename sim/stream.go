package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"runtime"
	"time"
	"verifsim/user"

	mav "github.com/botlink/go-mavlink2"
)

// LogPlan configures the traffic logger.
type LogPlan struct {
	On     bool  `json:"on,omitempty"`
	Err    bool  `json:"err,omitempty"`   // returns errors
	Pause  int   `json:"pause,omitempty"` // yields in each call
	Sleep  int64 `json:"sleep,omitempty"`
	Mutate int   `json:"mutate,omitempty"` // overwrite every n-th logged frame
}

// BackOp is what the user's own logger or transport does with the stream when
// the stream calls it.
type BackOp struct {
	On  string `json:"on"` // logread, logwritten, read, write
	At  int    `json:"at"` // in which call
	Ops []Op   `json:"ops"`
}

// StreamPlan drives one FrameStream.
type StreamPlan struct {
	Dialects  []string `json:"dialects"`
	Raw       bool     `json:"raw,omitempty"`
	Log       LogPlan  `json:"log"`
	InCap     int      `json:"incap,omitempty"`
	CtxR      string   `json:"ctxr"` // cancel, deadline, custom, child, background
	CtxW      string   `json:"ctxw"` // the same, or shared
	DeadR     int64    `json:"deadr,omitempty"`
	DeadW     int64    `json:"deadw,omitempty"`
	Conn      ConnPlan `json:"conn"`
	Frames    []Hex    `json:"frames,omitempty"`
	More      int      `json:"moreframes,omitempty"` // further frames to send, made up when the run starts
	Custom    bool     `json:"customframe,omitempty"`
	Feeder    []Op     `json:"feeder,omitempty"`
	Consumer  []Op     `json:"consumer,omitempty"`
	Senders   [][]Op   `json:"senders,omitempty"`
	Ctl       [][]Op   `json:"ctl,omitempty"`
	Observers [][]Op   `json:"observers,omitempty"`
	Back      []BackOp `json:"back,omitempty"`
	Phases    int      `json:"phases"`
	Mutate    string   `json:"mutate,omitempty"` // what the consumer does to frames: fill, append
	Inspect   bool     `json:"inspect,omitempty"`
	NoiseEnd  int      `json:"noiseend,omitempty"` // offset after which the fed bytes are clean
	Clean     [][2]int `json:"clean,omitempty"`    // offset, length of each clean frame
	Teardown  string   `json:"teardown,omitempty"`
	long      bool
}

type cause struct {
	kind string
	err  error
	seq  int64
	at   int64 // simulated time, for deadlines
	dead bool
}

type delivered struct {
	frame mav.Frame
	data  []byte // at delivery
	held  []byte // expected content now
	seq   int64
}

type sendRec struct {
	sender int
	frame  []byte
	start  int64
	end    int64
	done   bool
}

type errObs struct {
	seq   int64
	err   error
	after bool // after having seen the stream closed
	start int64
}

type logRec struct {
	data []byte
	seq  int64
	end  int64
}

type customFrame struct{ mav.Frame }

type streamRun struct {
	w           *World
	p           *StreamPlan
	id          int
	conn        *SimConn
	st          *mav.FrameStream
	in          chan mav.Frame
	ctxR        context.Context
	ctxW        context.Context
	cancelR     func()
	cancelW     func()
	tbl         table
	frames      []Hex // to send
	dialects    mav.Dialects
	rActor      *actor
	wActor      *actor
	got         []*delivered
	waiting     bool // consumer blocked in a receive
	sawEnd      bool
	consDone    bool
	sends       []*sendRec
	sending     int
	causes      []cause
	obs         []errObs
	logR        []*logRec
	logW        []*logRec
	inLog       int
	libCalls    []*actor
	inCall      map[string]int
	inputClosed bool
	offered     map[string]int    // how often a frame was sent, or is being sent
	again       map[int]mav.Frame // frames that are sent again and again
	inOrder     [][]byte          // what the only sender sent
	scribbled   map[int]bool      // delivered frames the logger overwrote
	stalledAt   int
}

// simCtx is a user-supplied context with its own error.
type simCtx struct {
	done chan struct{}
	err  error
}

func (c *simCtx) Deadline() (time.Time, bool)   { return time.Time{}, false }
func (c *simCtx) Done() <-chan struct{}         { return c.done }
func (c *simCtx) Value(interface{}) interface{} { return nil }
func (c *simCtx) Err() error {
	select {
	case <-c.done:
		return c.err
	default:
		return nil
	}
}

func (s *streamRun) addCause(kind string, err error) {
	s.causes = append(s.causes, cause{kind: kind, err: err, seq: s.w.ev("cause:"+kind, s.id, 0)})
	s.w.fault(kind)
}

func (s *streamRun) makeCtx(kind, who string, dead int64) (context.Context, func()) {
	switch kind {
	case "background":
		return context.Background(), func() {}
	case "custom":
		c := &simCtx{done: make(chan struct{}), err: errors.New("sim: custom context " + who)}
		once := false
		return c, func() {
			if !once {
				once = true
				s.addCause("cancel"+who, c.err)
				close(c.done)
			}
		}
	case "deadline":
		c, f := context.WithTimeout(context.Background(), time.Duration(dead))
		s.causes = append(s.causes, cause{kind: "cancel" + who, err: context.DeadlineExceeded, dead: true, at: runtime.SimNow() + dead})
		return c, func() { s.addCause("cancel"+who, context.Canceled); f() }
	case "child":
		pc, f := context.WithCancel(context.Background())
		c, _ := context.WithCancel(pc)
		return c, func() { s.addCause("cancel"+who, context.Canceled); f() }
	}
	c, f := context.WithCancel(context.Background())
	return c, func() { s.addCause("cancel"+who, context.Canceled); f() }
}

func newStreamRun(w *World, id int, p *StreamPlan) *streamRun {
	s := &streamRun{w: w, p: p, id: id, inCall: map[string]int{}, scribbled: map[int]bool{}, stalledAt: -1}
	s.conn = newSimConn(w, &p.Conn, fmt.Sprint("conn", id))
	if len(p.Back) > 0 {
		s.conn.onCall = s.back
	}
	s.in = make(chan mav.Frame, p.InCap)
	s.tbl = makeTable(p.Dialects)
	s.frames = p.Frames
	for i := 0; i < p.More; i++ {
		s.frames = append(s.frames, moreFrame(i))
	}
	s.dialects = w.sharedDialects(p.Dialects)
	s.ctxR, s.cancelR = s.makeCtx(p.CtxR, "R", p.DeadR)
	if p.CtxW == "shared" {
		s.ctxW, s.cancelW = s.ctxR, s.cancelR
	} else {
		s.ctxW, s.cancelW = s.makeCtx(p.CtxW, "W", p.DeadW)
	}
	if p.Log.On {
		s.st = mav.NewFrameStreamWithLogger(&user.Conn{I: s.conn}, s.in, s.dialects, p.Raw, &user.Log{I: s})
	} else {
		s.st = mav.NewFrameStream(&user.Conn{I: s.conn}, s.in, s.dialects, p.Raw)
	}
	return s
}

// back runs what the callee of a callback does with the stream.
func (s *streamRun) back(on string, at int) {
	for i := range s.p.Back {
		if b := &s.p.Back[i]; b.On == on && b.At == at {
			s.w.fault("used_from_callback")
			s.runCtl(b.Ops, nil)
		}
	}
}

// ---- logger ----

func (s *streamRun) logCall(list *[]*logRec, b []byte, kind string) error {
	r := &logRec{data: user.Read(b), seq: s.w.ev(kind, s.id, len(b))}
	*list = append(*list, r)
	s.inLog++
	idx := len(*list) - 1
	if m := s.p.Log.Mutate; m > 0 && idx%m == 0 && kind == "logread" {
		user.Write(b, 0xaa)
		s.scribbled[idx] = true
		s.w.fault("logger_overwrites_frame")
	}
	s.back(kind, idx)
	s.w.yield()
	if s.p.Log.Pause > 0 {
		s.w.fault("slow_logger")
		s.w.pauses(s.p.Log.Pause)
	}
	if s.p.Log.Sleep > 0 {
		s.w.fault("slow_logger")
		s.w.sleep(s.p.Log.Sleep)
	}
	r.end = s.w.ev(kind+"end", s.id, 0)
	s.inLog--
	if s.p.Log.Err {
		s.w.fault("logger_error")
		return errors.New("sim: logger error")
	}
	return nil
}

func (s *streamRun) LogRead(b []byte) error    { return s.logCall(&s.logR, b, "logread") }
func (s *streamRun) LogWritten(b []byte) error { return s.logCall(&s.logW, b, "logwritten") }

// ---- actors ----

func (s *streamRun) name(n string) string { return fmt.Sprintf("%s%d", n, s.id) }

func (s *streamRun) startR() {
	if s.rActor != nil {
		return
	}
	s.rActor = s.w.goActor(s.name("readloop"), true, func(a *actor) {
		s.st.ReadContext(s.ctxR)
		s.w.ev("Rreturn", s.id, 0)
	})
}

func (s *streamRun) startW() {
	if s.wActor != nil {
		return
	}
	s.wActor = s.w.goActor(s.name("writeloop"), true, func(a *actor) {
		s.st.WriteContext(s.ctxW)
		s.w.ev("Wreturn", s.id, 0)
	})
}

func (s *streamRun) runFeeder(a *actor) {
	for i := range s.p.Feeder {
		op := s.p.Feeder[i]
		if s.w.basic(op) {
			continue
		}
		switch op.K {
		case "data":
			if len(op.B) > 0 {
				s.conn.push(chunk{data: append([]byte(nil), op.B...)})
			}
		case "gen":
			s.w.fault("long_" + op.S)
			b, chunks := genLong(op.S, op.N, uint64(op.D), s.p.Dialects)
			for _, n := range chunks {
				s.conn.push(chunk{data: b[:n]})
				b = b[n:]
			}
		case "zero":
			s.conn.push(chunk{zero: true})
		case "eof":
			s.conn.push(chunk{data: append([]byte(nil), op.B...), err: io.EOF, recover: op.N == 1})
		case "err":
			s.conn.push(chunk{data: append([]byte(nil), op.B...), err: simError(op.S, "sim: read error"), recover: op.N == 1})
		}
	}
}

func (s *streamRun) receive(inspectIt bool) bool {
	s.waiting = true
	f, ok := <-s.st.Read()
	s.waiting = false
	if !ok {
		s.w.ev("consumer-end", s.id, 0)
		s.sawEnd = true
		s.observe(true)
		return false
	}
	var b []byte
	if f != nil {
		b = f.Bytes()
	}
	d := &delivered{frame: f, data: user.Read(b), seq: s.w.ev("got", s.id, len(b))}
	s.got = append(s.got, d)
	d.held = d.data
	if s.p.Inspect || inspectIt {
		inspectFrame(s.w, s, f, d.data)
		if f != nil && string(f.Bytes()) != string(d.data) {
			s.w.violate("C15", "changed", "stream %d: inspecting frame %d changed its bytes: %x, was %x", s.id, len(s.got)-1, f.Bytes(), d.data)
		}
	}
	switch s.p.Mutate {
	case "fill":
		if f != nil {
			user.Write(b, 0xaa)
			d.held = append([]byte(nil), b...)
			s.w.fault("consumer_overwrites_frame")
		}
	case "append":
		if f != nil {
			_ = append(b, 0xaa, 0xaa, 0xaa, 0xaa, 0xaa, 0xaa, 0xaa, 0xaa, 0xaa, 0xaa, 0xaa, 0xaa, 0xaa, 0xaa, 0xaa, 0xaa)
			s.w.fault("consumer_appends_to_frame")
		}
	}
	return true
}

func (s *streamRun) runConsumer(a *actor) {
	for i := range s.p.Consumer {
		op := s.p.Consumer[i]
		if s.w.basic(op) {
			continue
		}
		switch op.K {
		case "take":
			for k := 0; k < op.N; k++ {
				if !s.receive(false) {
					return
				}
				s.w.yield()
			}
		case "slow": // take N frames with pauses or sleeps between
			for k := 0; k < op.N; k++ {
				if !s.receive(false) {
					return
				}
				if op.D > 0 {
					s.w.sleep(op.D)
				} else {
					s.w.pauses(2)
				}
			}
		case "drain":
			for s.receive(false) {
				s.w.yield()
			}
			return
		}
	}
}

func (s *streamRun) frameOf(b []byte) mav.Frame {
	c := append([]byte(nil), b...)
	var f mav.Frame
	if len(c) > 0 && c[0] == mav.V1StartByte {
		f = mav.FrameV1(c)
	} else {
		f = mav.FrameV2(c)
	}
	if s.p.Custom {
		return customFrame{f}
	}
	return f
}

func (s *streamRun) runSender(n int, a *actor) {
	var ops []Op
	for _, op := range s.p.Senders[n] {
		if op.K == "sendmore" { // all of the further frames
			for k := 0; k < s.p.More; k++ {
				ops = append(ops, Op{K: "send", N: len(s.p.Frames) + k})
			}
			continue
		}
		ops = append(ops, op)
	}
	for _, op := range ops {
		if s.w.basic(op) {
			continue
		}
		switch op.K {
		case "send", "sendonly":
			if op.N >= len(s.frames) {
				continue
			}
			r := &sendRec{sender: n, frame: s.frames[op.N]}
			f := s.frameOf(r.frame)
			if op.D == 1 { // the same Frame value again
				if s.again == nil {
					s.again = map[int]mav.Frame{}
				}
				if s.again[op.N] == nil {
					s.again[op.N] = f
				}
				f = s.again[op.N]
			}
			if s.offered == nil {
				s.offered = map[string]int{}
			}
			s.offered[string(r.frame)]++
			if len(s.p.Senders) == 1 {
				s.inOrder = append(s.inOrder, r.frame)
			}
			r.start = s.w.ev("send", s.id, op.N)
			s.sending++
			ok := true
			if op.K == "send" {
				select {
				case s.st.Write() <- f:
				case <-s.st.Closed():
					ok = false
				}
			} else {
				s.st.Write() <- f
			}
			s.sending--
			if !ok {
				return
			}
			r.end = s.w.ev("sent", s.id, op.N)
			r.done = true
			s.sends = append(s.sends, r)
		case "closeinput":
			s.inputClosed = true
			s.addCause("closeInput", mav.ErrWriteChannelClosed)
			close(s.in)
			return
		}
	}
}

func (s *streamRun) observe(after bool) {
	start := s.w.ev("closeerr?", s.id, 0)
	s.inCall["GetCloseErr"]++
	err := s.st.GetCloseErr()
	s.inCall["GetCloseErr"]--
	s.obs = append(s.obs, errObs{s.w.ev("closeerr", s.id, 0), err, after, start})
}

func (s *streamRun) runCtl(ops []Op, a *actor) {
	for i := range ops {
		op := ops[i]
		if s.w.basic(op) {
			continue
		}
		switch op.K {
		case "startR":
			s.startR()
		case "startW":
			s.startW()
		case "cancelR":
			s.cancelR()
		case "cancelW":
			s.cancelW()
		case "cancel":
			s.cancelR()
			s.cancelW()
		case "close":
			s.addCause("close", mav.ErrUserClosed)
			s.inCall["Close"]++
			s.st.Close()
			s.inCall["Close"]--
			s.w.ev("closed", s.id, 0)
			// Close has returned: the stream is closed.
			select {
			case <-s.st.Closed():
			default:
				s.w.hit("close returned before closed signal")
			}
			s.observe(false)
		case "unblock":
			s.conn.unblock()
		case "poll":
			for k := 0; k < op.N; k++ {
				s.observe(false)
				s.w.pauses(1)
			}
		case "waitclosed":
			<-s.st.Closed()
			s.w.ev("sawclosed", s.id, 0)
			for k := 0; k < 1+op.N; k++ {
				s.observe(true)
				s.w.pauses(1)
			}
		}
	}
}

func (s *streamRun) launch() {
	for i := range s.p.Ctl {
		ops := s.p.Ctl[i]
		s.libCalls = append(s.libCalls, s.w.goActor(fmt.Sprintf("ctl%d.%d", s.id, i), false, func(a *actor) { s.runCtl(ops, a) }))
	}
	if len(s.p.Feeder) > 0 {
		s.w.goActor(s.name("feeder"), false, s.runFeeder)
	}
	if s.p.Consumer != nil {
		s.w.goActor(s.name("consumer"), false, func(a *actor) { s.runConsumer(a); s.consDone = true })
	}
	for i := range s.p.Senders {
		n := i
		s.w.goActor(fmt.Sprintf("sender%d.%d", s.id, i), false, func(a *actor) { s.runSender(n, a) })
	}
	for i := range s.p.Observers {
		ops := s.p.Observers[i]
		s.libCalls = append(s.libCalls, s.w.goActor(fmt.Sprintf("obs%d.%d", s.id, i), false, func(a *actor) { s.runCtl(ops, a) }))
	}
}

func runStreams(w *World, ps []*StreamPlan, codec *CodecPlan) {
	var runs []*streamRun
	phases := 1
	for i, p := range ps {
		runs = append(runs, newStreamRun(w, i, p))
		if p.Phases > phases {
			phases = p.Phases
		}
	}
	for _, s := range runs {
		s.launch()
	}
	cr := launchCodec(w, codec)
	for ph := 0; ph < phases; ph++ {
		w.setPhase(ph)
		w.settle(func() {
			for _, s := range runs {
				s.snapshot(false)
			}
		})
		for _, s := range runs {
			s.snapshot(true)
		}
	}
	// Teardown: close whatever is still open, let the consumer drain.
	w.setPhase(1 << 20)
	w.settle(func() {})
	for _, s := range runs {
		s.preTeardown()
	}
	for _, s := range runs {
		s := s
		s.libCalls = append(s.libCalls, w.goActor(s.name("teardown"), false, func(a *actor) {
			if s.p.Teardown == "cancel" && (s.rActor != nil || s.wActor != nil) {
				s.runCtl([]Op{{K: "cancel"}}, a)
			}
			s.runCtl([]Op{{K: "close"}}, a)
		}))
		if s.consDone || s.p.Consumer == nil {
			if !s.sawEnd {
				w.goActor(s.name("drainer"), false, func(a *actor) {
					for n := 0; n < 100000 && s.receive(false); n++ {
					}
				})
			}
		}
	}
	w.settle(func() {})
	for _, s := range runs {
		s.conn.unblock()
	}
	w.settle(func() {})
	for _, s := range runs {
		s.final()
	}
	finishCodec(w, cr)
	w.panicsAs("C05")
}
