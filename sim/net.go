package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"reflect"
	"runtime"
	"strings"
	"unsafe"
	"verifsim/user"

	mav "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/util"
)

// ---- messages ----

// NetMsg is one message to be sent: its full version 2 payload in wire order.
type NetMsg struct {
	ID   uint32 `json:"id"`
	V    int    `json:"v"`
	Sys  byte   `json:"sys"`
	Comp byte   `json:"comp"`
	Seq  byte   `json:"seq"`
	P    Hex    `json:"p"`
	Text bool   `json:"text,omitempty"` // use the text setters
	// Texts to set, in a message object that the sender may use again.
	T   []TextSet `json:"t,omitempty"`
	Obj int       `json:"obj,omitempty"`
	// Only for frames of the reference peer.
	Cut  int `json:"cut,omitempty"` // trailing zeroes left in a version 2 frame; -1: all
	Sig  Hex `json:"sig,omitempty"`
	Comf int `json:"comf,omitempty"` // compatibility flags
}

// wirePayload is what must be on the wire for the message.
func (m *NetMsg) wirePayload(s *MsgSpec) []byte {
	if m.V == 1 {
		return m.P[:s.Min]
	}
	return trimV2(m.P)
}

// values is the full payload the receiver must see.
func (m *NetMsg) values(s *MsgSpec) []byte {
	b := append([]byte(nil), m.P...)
	if m.V == 1 {
		for i := s.Min; i < len(b); i++ {
			b[i] = 0
		}
	}
	return b
}

// refFrame is the frame a conforming sender builds.
func (m *NetMsg) refBytes(s *MsgSpec) []byte {
	p := frameParts{version: m.V, seq: m.Seq, sys: m.Sys, comp: m.Comp, id: m.ID, crcExtra: s.Crc, payload: m.wirePayload(s)}
	if m.V == 2 {
		if m.Cut != 0 {
			n := len(p.payload) + m.Cut
			if m.Cut < 0 || n > len(m.P) {
				n = len(m.P)
			}
			p.payload = m.P[:n]
		}
		if len(m.Sig) == 13 {
			p.sig = m.Sig
		}
		p.compat = byte(m.Comf)
	}
	return p.bytes()
}

// newMessage makes an empty message of the type the dialects use for an id.
func newMessage(d mav.Dialects, id uint32) (mav.Message, error) {
	f := frameParts{version: 2, id: id, payload: []byte{0}}
	m, err := d.GetMessage(mav.FrameV2(f.bytes()))
	if err != nil {
		return nil, err
	}
	v := reflect.ValueOf(m)
	if v.Kind() != reflect.Ptr || v.IsNil() {
		return nil, fmt.Errorf("message %d is a %T", id, m)
	}
	n, ok := reflect.New(v.Type().Elem()).Interface().(mav.Message)
	if !ok {
		return nil, fmt.Errorf("%T is no message", m)
	}
	return n, nil
}

var kinds = map[string]reflect.Kind{"uint8": reflect.Uint8, "byte": reflect.Uint8, "int8": reflect.Int8, "uint16": reflect.Uint16, "int16": reflect.Int16,
	"uint32": reflect.Uint32, "int32": reflect.Int32, "uint64": reflect.Uint64, "int64": reflect.Int64, "float32": reflect.Float32, "float64": reflect.Float64}

// fieldMem is the memory of a message field, which has the wire's byte order.
func fieldMem(m mav.Message, f *FieldSpec) ([]byte, error) {
	v := reflect.ValueOf(m).Elem().FieldByName(f.Name)
	if !v.IsValid() {
		return nil, fmt.Errorf("%T has no field %s", m, f.Name)
	}
	t := v.Type()
	if f.N > 0 {
		if t.Kind() != reflect.Array || t.Len() != f.N {
			return nil, fmt.Errorf("field %s of %T is a %v", f.Name, m, t)
		}
		t = t.Elem()
	}
	if t.Kind() != kinds[f.Type] {
		return nil, fmt.Errorf("field %s of %T is a %v", f.Name, m, t)
	}
	return unsafe.Slice((*byte)(v.Addr().UnsafePointer()), f.size()), nil
}

func isText(f *FieldSpec) bool { return f.Type == "byte" && f.N > 0 }

// fillMessage sets the fields of a message to the values in payload.
func fillMessage(m mav.Message, s *MsgSpec, payload []byte, text bool) error {
	off := 0
	for i := range s.Fields {
		f := &s.Fields[i]
		mem, err := fieldMem(m, f)
		if err != nil {
			return err
		}
		val := payload[off : off+f.size()]
		off += f.size()
		if text && isText(f) {
			set := reflect.ValueOf(m).MethodByName("Set" + f.Name)
			z := bytes.IndexByte(val, 0)
			if z < 0 {
				z = len(val)
			}
			if set.IsValid() && len(bytes.TrimRight(val, "\x00")) == z {
				if fn, ok := set.Interface().(func(string) error); ok {
					if err := fn(string(val[:z])); err != nil {
						return fmt.Errorf("setting %s of %T to %q: %v", f.Name, m, val[:z], err)
					}
					continue
				}
			}
		}
		copy(mem, val)
	}
	if s.Name == "V2Extension" {
		n := 249
		for n > 0 && payload[5+n-1] == 0 {
			n--
		}
		reflect.ValueOf(m).Elem().FieldByName("PayloadLength").SetUint(uint64(n))
	}
	return nil
}

// readMessage returns the field values of a message in wire order.
func readMessage(m mav.Message, s *MsgSpec) ([]byte, error) {
	v := reflect.ValueOf(m)
	if v.Kind() != reflect.Ptr || v.IsNil() || v.Elem().Kind() != reflect.Struct || v.Elem().Type().Name() != s.Name || m.GetMessageName() != s.Name {
		return nil, fmt.Errorf("decoded as %T (%s), want %s", m, m.GetMessageName(), s.Name)
	}
	var out []byte
	for i := range s.Fields {
		f := &s.Fields[i]
		mem, err := fieldMem(m, f)
		if err != nil {
			return nil, err
		}
		out = append(out, mem...)
		if isText(f) {
			if get := v.MethodByName("Get" + f.Name); get.IsValid() {
				if fn, ok := get.Interface().(func() string); ok {
					z := bytes.IndexByte(mem, 0)
					if z < 0 {
						z = len(mem)
					}
					if t := fn(); t != string(mem[:z]) {
						return nil, fmt.Errorf("text %s reads as %q, want %q", f.Name, t, mem[:z])
					}
				}
			}
		}
	}
	return out, nil
}

func genNetPayload(r *Rng, s *MsgSpec) []byte {
	p := randPayload(r, s.Max)
	off := 0
	for i := range s.Fields {
		f := &s.Fields[i]
		n := f.size()
		b := p[off : off+n]
		off += n
		switch {
		case isText(f) && r.P(2, 3):
			k := r.Range(0, n)
			if r.P(1, 6) {
				k = n
			}
			for j := range b {
				b[j] = 0
				if j < k {
					b[j] = byte(r.Range(32, 126))
				}
			}
		case r.P(1, 12): // one extreme field
			v := byte(r.Pick(0, 0xff, 0x80, 0x7f, 1))
			for j := range b {
				b[j] = v
			}
		case r.P(1, 12): // only high or low byte of the elements
			e := f.elem()
			for j := range b {
				if j%e != r.Pick(0, e-1) {
					b[j] = 0
				}
			}
		}
	}
	copy(p, quiet(s, p))
	if r.P(1, 8) { // everything zero but the extension, or the reverse
		lo, hi := 0, s.Min
		if r.P(1, 2) {
			lo, hi = s.Min, s.Max
		}
		for j := lo; j < hi; j++ {
			p[j] = 0
		}
	}
	return p
}

// quiet makes the signalling float32 NaNs in a payload quiet: NaNs compare as
// one value, and Go's float conversions quieten them.
func quiet(s *MsgSpec, p []byte) []byte {
	p = append([]byte(nil), p...)
	off := 0
	for i := range s.Fields {
		n := s.Fields[i].size()
		if off+n > len(p) {
			break
		}
		if s.Fields[i].Type == "float32" {
			for b := p[off : off+n]; len(b) >= 4; b = b[4:] {
				if b[3]&0x7f == 0x7f && b[2]&0x80 != 0 && (b[2]&0x7f|b[1]|b[0]) != 0 {
					b[2] |= 0x40
				}
			}
		}
		off += n
	}
	return p
}

// ---- plan ----

// NetFault says what the link does with one datagram.
type NetFault struct {
	At int    `json:"at"`
	K  string `json:"k"`
	N  int    `json:"n,omitempty"`
	D  int64  `json:"d,omitempty"`
	B  Hex    `json:"b,omitempty"`
}

// NetPlan connects two endpoints.
type NetPlan struct {
	Link     string        `json:"link"` // pipe, udp
	Peer     bool          `json:"peer,omitempty"`
	Dialects []string      `json:"dialects"`
	Msgs     []NetMsg      `json:"msgs"`
	Send     [2][][]Op     `json:"send"`
	Seg      [2]Sched      `json:"seg"`
	Conn     [2]ConnPlan   `json:"conn"`
	Faults   [2][]NetFault `json:"faults"`
	Ctl      [][]Op        `json:"ctl,omitempty"` // partitions, strays
	Slow     [2]int64      `json:"slow"`          // consumer delay
	Phases   int           `json:"phases"`
	// A router between the sides: 1 two streams that forward to each other,
	// 2 also to a third one that takes a copy of everything, 3 with buffers.
	Router int         `json:"router,omitempty"`
	RSeg   [2]Sched    `json:"rseg,omitempty"`
	RConn  [3]ConnPlan `json:"rconn,omitempty"`
}

type netSent struct {
	msg        int
	frame      []byte
	start, end int64
	sender     int
	done       bool
	at         int // bytes that had been put on the link before
	phase      int
	texts      map[int]string // what the receiver must get as texts
}

type netGot struct {
	data []byte
	seq  int64
	v    int
	sys  byte
	comp byte
	sq   uint
	id   uint32
	vals []byte
	err  error
	ver  int
	m    mav.Message
}

type netSide struct {
	n       int
	r       *netRun
	peer    *netSide // takes what this side puts on the link
	st      *mav.FrameStream
	in      chan mav.Frame
	cancel  func()
	conn    *SimConn
	sock    *usock
	rwc     *util.UDPReadWriteCloser
	sent    []*netSent
	got     []*netGot
	out     []byte // bytes put on the link towards the other side
	outC    cond
	frames  [][]byte // single writes
	dgrams  int
	writing int
	pending int
	objs    map[string]*textObj
	port    bool
	again   map[uint32]mav.Message // objects that decode every frame of their id
}

type netRun struct {
	w          *World
	p          *NetPlan
	d          mav.Dialects
	tbl        table
	side       [2]*netSide
	port       []*netSide // of the router
	parted     [2]bool
	delayed    int
	forwarding int
	enc        string // property of encoding violations
	closing    bool
}

func (r *netRun) prop() string { return r.w.plan.Property }

func (r *netRun) violate(class, f string, a ...interface{}) {
	r.w.violate(r.prop(), class, f, a...)
}

// encode builds the frame of a message through the library.
func (r *netRun) encode(nm *NetMsg) (mav.Frame, error) {
	s := r.tbl[nm.ID]
	m, err := newMessage(r.d, nm.ID)
	if err != nil {
		return nil, err
	}
	if n := reflect.TypeOf(m).Elem().Name(); n != s.Name {
		return nil, fmt.Errorf("the library decodes frames of message id %d as a %s", nm.ID, n)
	}
	if err := fillMessage(m, s, nm.P, nm.Text); err != nil {
		return nil, err
	}
	r.w.yield()
	return r.d.GetFrame(nm.V, nm.Sys, nm.Comp, nm.Seq, m)
}

func (sd *netSide) runSender(k int, ops []Op) {
	r := sd.r
	w := r.w
	for i := range ops {
		op := ops[i]
		if w.basic(op) {
			continue
		}
		switch op.K {
		case "msg":
			if op.N >= len(r.p.Msgs) {
				continue
			}
			nm := &r.p.Msgs[op.N]
			s := r.tbl[nm.ID]
			if s == nil {
				continue
			}
			sn := &netSent{msg: op.N, sender: k, phase: w.phase}
			want := nm.refBytes(s)
			if sd.st == nil { // the reference peer
				sn.frame = want
				sd.sent = append(sd.sent, sn)
				sn.start = w.ev("psend", op.N, 0)
				sd.deliverOut(sn.frame)
				sn.end = w.ev("psent", op.N, 0)
				sn.done = true
				continue
			}
			var f mav.Frame
			var err error
			if len(nm.T) > 0 {
				f, err = sd.encodeText(k, nm, sn)
			} else {
				f, err = r.encode(nm)
			}
			if err != nil || f == nil {
				r.violate("refused", "building a version %d frame of message %s (%d) with payload %x failed: %v", nm.V, s.Name, nm.ID, nm.P, err)
				continue
			}
			sn.frame = append([]byte(nil), f.Bytes()...)
			if sn.texts == nil && !bytes.Equal(sn.frame, want) {
				w.violate("C17", "encoding", "version %d frame of message %s (%d) with payload %x is %x, want %x", nm.V, s.Name, nm.ID, nm.P, sn.frame, want)
			}
			sd.pending++
			sn.start = w.ev("nsend", sd.n, op.N)
			sd.sent = append(sd.sent, sn)
			ok := true
			select {
			case sd.st.Write() <- f:
			case <-sd.st.Closed():
				ok = false
			}
			sd.pending--
			if !ok {
				if !r.closing {
					r.violate("closed", "side %d's stream closed by itself: %v", sd.n, sd.st.GetCloseErr())
				}
				return
			}
			sn.end = w.ev("nsent", sd.n, op.N)
			sn.done = true
		case "refuse":
			r.refuse(op)
		case "raw": // bytes that are no frame, from the reference peer
			if sd.st == nil {
				sd.deliverOut(op.B)
			}
		}
	}
}

// customMsg is a message type of the library's user.
type customMsg struct {
	id  uint32
	raw []byte
	err error
}

func (m *customMsg) GetVersion() int        { return 1 }
func (m *customMsg) GetDialect() string     { return "custom" }
func (m *customMsg) GetMessageName() string { return "Custom" }
func (m *customMsg) GetID() uint32          { return m.id }
func (m *customMsg) Read(mav.Frame) error   { return nil }
func (m *customMsg) Write(v int) ([]byte, error) {
	return append([]byte(nil), m.raw...), m.err
}

// refuse: what the format cannot carry must be refused.
func (r *netRun) refuse(op Op) {
	bad := func(what string, f mav.Frame, err error) {
		if err == nil {
			var b []byte
			if f != nil {
				b = f.Bytes()
			}
			r.w.violate("C17", "not-refused", "%s was not refused but became frame %x", what, b)
		}
		r.w.hit("refused")
	}
	switch op.S {
	case "version":
		nm := &r.p.Msgs[op.N]
		s := r.tbl[nm.ID]
		m, err := newMessage(r.d, nm.ID)
		if err != nil || fillMessage(m, s, nm.P, false) != nil {
			return
		}
		f, err := r.d.GetFrame(int(op.D), nm.Sys, nm.Comp, nm.Seq, m)
		bad(fmt.Sprintf("version %d of message %s", op.D, s.Name), f, err)
		b, err := m.Write(int(op.D))
		bad(fmt.Sprintf("encoding version %d of message %s", op.D, s.Name), mav.FrameV2(b), err)
		// a message of the user's that encodes itself for any version
		f, err = r.d.GetFrame(int(op.D), nm.Sys, nm.Comp, nm.Seq, &customMsg{id: nm.ID, raw: nm.P})
		bad(fmt.Sprintf("version %d of a user's message %d", op.D, nm.ID), f, err)
	case "bigid":
		nm := &r.p.Msgs[op.N]
		s := r.tbl[nm.ID]
		m, err := newMessage(r.d, nm.ID)
		if s == nil || nm.ID <= 255 || err != nil || fillMessage(m, s, nm.P, false) != nil {
			return
		}
		f, err := r.d.GetFrame(1, nm.Sys, nm.Comp, nm.Seq, m)
		bad(fmt.Sprintf("version 1 of message %s (%d)", s.Name, nm.ID), f, err)
		b, err := m.Write(1)
		bad(fmt.Sprintf("encoding version 1 of message %s (%d)", s.Name, nm.ID), mav.FrameV2(b), err)
	case "bigidunknown": // the same, carried by the library's own UnknownMessage
		nm := &r.p.Msgs[op.N]
		if nm.ID <= 255 {
			return
		}
		f, err := r.d.GetFrame(1, nm.Sys, nm.Comp, nm.Seq, &mav.UnknownMessage{ID: nm.ID, Version: 2, Raw: nm.P})
		bad(fmt.Sprintf("version 1 of an unknown message with id %d", nm.ID), f, err)
	case "unknown":
		id := uint32(op.N)
		if r.tbl[id] != nil {
			return
		}
		for v := 1; v <= 2; v++ {
			f, err := r.d.GetFrame(v, 1, 1, 1, &customMsg{id: id, raw: []byte{1, 2}})
			bad(fmt.Sprintf("version %d of message %d, which no dialect defines,", v, id), f, err)
		}
	case "toolong":
		nm := &r.p.Msgs[op.N]
		for v := 1; v <= 2; v++ {
			f, err := r.d.GetFrame(v, 1, 1, 1, &mav.UnknownMessage{ID: nm.ID, Version: v, Raw: make([]byte, op.D)})
			bad(fmt.Sprintf("a payload of %d bytes", op.D), f, err)
		}
	case "custom": // a message of a dialect that the user supplies
		nm := &r.p.Msgs[op.N]
		var s *MsgSpec
		for _, x := range synthSpec {
			if x.ID == nm.ID {
				s = x
			}
		}
		if s == nil {
			return
		}
		d := append(mav.Dialects{newSynth()}, r.d...)
		if op.D == 1 && r.tbl[nm.ID] == nil {
			d = append(append(mav.Dialects{}, r.d...), newSynth())
		}
		want := (&frameParts{version: nm.V, seq: nm.Seq, sys: nm.Sys, comp: nm.Comp, id: nm.ID, crcExtra: s.Crc, payload: nm.P}).bytes()
		f, err := d.GetFrame(nm.V, nm.Sys, nm.Comp, nm.Seq, &synthMessage{nm.ID, nm.V, nm.P})
		if err != nil || f == nil {
			r.w.violate("C17", "custom-refused", "building a version %d frame of message %d of a user's dialect with payload %x failed: %v", nm.V, nm.ID, nm.P, err)
			return
		}
		if !bytes.Equal(f.Bytes(), want) {
			r.w.violate("C17", "custom-encoding", "version %d frame of message %d of a user's dialect with payload %x is %x, want %x", nm.V, nm.ID, nm.P, f.Bytes(), want)
			return
		}
		if err := d.Validate(f); err != nil {
			r.w.violate("C17", "custom-invalid", "frame %x of message %d of a user's dialect is called invalid: %v", f.Bytes(), nm.ID, err)
		}
		m, err := d.GetMessage(f)
		if sm, ok := m.(*synthMessage); err != nil || !ok || sm.id != nm.ID || sm.version != nm.V || !bytes.Equal(sm.raw, nm.P) {
			r.w.violate("C17", "custom-decode", "frame %x of message %d of a user's dialect decodes to %+v (%v)", f.Bytes(), nm.ID, deref(m), err)
		}
		r.w.hit("custom_messages")
	case "writeerr":
		nm := &r.p.Msgs[op.N]
		e := errors.New("sim: cannot encode")
		f, err := r.d.GetFrame(2, 1, 1, 1, &customMsg{id: nm.ID, raw: []byte{1}, err: e})
		bad("a message whose Write fails", f, err)
	}
}

func (sd *netSide) deliverOut(b []byte) {
	sd.frames = append(sd.frames, append([]byte(nil), b...))
	sd.out = append(sd.out, b...)
	sd.outC.wake()
}

// runLink carries the bytes of a pipe to the other side.
func (sd *netSide) runLink(a *actor) {
	seg := &sd.r.p.Seg[sd.n]
	if sd.port {
		seg = &sd.r.p.RSeg[sd.n]
	}
	r := NewRng(seg.Seed)
	w := sd.r.w
	other := sd.peer
	pos := 0
	for {
		for pos >= len(sd.out) {
			sd.outC.wait()
		}
		n := len(sd.out) - pos
		switch seg.Mode {
		case "byte":
			n = 1
		case "small":
			if k := r.Range(1, 9); k < n {
				n = k
			}
		case "mixed":
			if k := r.Pick(1, 2, 3, 8, 17, 64, 300); k < n {
				n = k
			}
		}
		if d := seg.Switch; d > 0 && r.N(100) < int(d) {
			w.fault("delayed_segment")
			w.sleep(r.Dur())
		} else if r.P(1, 3) {
			w.pauses(r.N(4))
		}
		if other.conn != nil {
			w.fault("segment")
			other.conn.push(chunk{data: append([]byte(nil), sd.out[pos:pos+n]...)})
		}
		pos += n
	}
}

func (sd *netSide) runConsumer(a *actor) {
	r := sd.r
	w := r.w
	for {
		f, ok := <-sd.st.Read()
		if !ok {
			if !r.closing {
				r.violate("closed", "side %d's stream closed by itself: %v", sd.n, sd.st.GetCloseErr())
			}
			return
		}
		g := &netGot{data: user.Read(f.Bytes()), seq: w.ev("ngot", sd.n, len(f.Bytes()))}
		g.v, g.sys, g.comp, g.sq, g.id = f.GetVersion(), f.GetSenderSystemID(), f.GetSenderComponentID(), f.GetMessageSequence(), f.GetMessageID()
		if sd.r.p.Slow[sd.n] > 0 {
			w.sleep(sd.r.p.Slow[sd.n])
		}
		g.m, g.err = r.d.GetMessage(f)
		if g.err == nil {
			g.ver = g.m.GetVersion()
			if s := r.tbl[g.id]; s == nil {
				g.err = fmt.Errorf("message id %d", g.id)
			} else {
				g.vals, g.err = readMessage(g.m, s)
				if g.err == nil {
					g.err = sd.decodeAgain(f, g, s)
				}
			}
		}
		sd.got = append(sd.got, g)
		w.ev("decoded", sd.n, len(sd.got))
	}
}

// ---- datagram link ----

func (r *netRun) route(from int, data []byte, ip net.IP, port int) {
	sd, other := r.side[from], r.side[1-from]
	idx := sd.dgrams
	sd.dgrams++
	sd.frames = append(sd.frames, append([]byte(nil), data...))
	if k := addrKey(ip, port); k != addrKey(other.sock.addr.IP, other.sock.addr.Port) {
		r.w.violate("C09", "wrong-peer", "side %d sent a datagram to %s", from, k)
		r.w.fault("datagram_to_stranger")
		return
	}
	d := &dgram{data: append([]byte(nil), data...), ip: sd.sock.addr.IP, port: sd.sock.addr.Port}
	if r.parted[from] {
		r.w.fault("partition_drop")
		return
	}
	for i := range r.p.Faults[from] {
		f := &r.p.Faults[from][i]
		if f.At != idx {
			continue
		}
		r.w.fault("dgram_" + f.K)
		switch f.K {
		case "drop":
			return
		case "dup":
			c := &dgram{data: append([]byte(nil), d.data...), ip: d.ip, port: d.port}
			if f.D > 0 {
				r.later(other, c, f.D)
			} else {
				other.sock.push(c)
			}
		case "corrupt":
			if n := len(d.data); n > 0 {
				for j, x := range f.B {
					d.data[(f.N+j)%n] ^= x
				}
			}
		case "trunc":
			if n := len(d.data); n > 0 {
				d.data = d.data[:f.N%n]
			}
		case "delay":
			r.later(other, d, f.D)
			return
		case "merge": // two datagrams' payloads glued by a relay
			d.data = append(d.data, f.B...)
		}
	}
	other.sock.push(d)
}

func (r *netRun) later(to *netSide, d *dgram, ns int64) {
	r.delayed++
	r.w.goActor("delayed", false, func(a *actor) {
		r.w.sleep(ns)
		to.sock.push(d)
		r.delayed--
	})
}

func (r *netRun) runCtl(ops []Op) {
	for i := range ops {
		op := ops[i]
		if r.w.basic(op) {
			continue
		}
		switch op.K {
		case "part":
			r.parted[op.N] = true
			r.w.fault("partition")
		case "heal":
			r.parted = [2]bool{}
			r.w.fault("heal")
		case "stray": // somebody else's datagram
			ip, port := parseAddr(op.S)
			if s := r.side[op.N].sock; s != nil {
				r.w.fault("stray_datagram")
				s.push(&dgram{data: append([]byte(nil), op.B...), ip: ip, port: port})
			}
		}
	}
}

// ---- router ----

// startRouter puts an application between the sides that passes what one of its
// streams delivers to the other one, and perhaps to a third one as well.
func (r *netRun) startRouter() {
	w, p := r.w, r.p
	k := 2
	if p.Router > 1 {
		k = 3
	}
	for n := 0; n < k; n++ {
		n := n
		sd := &netSide{n: n, r: r, port: true}
		sd.in = make(chan mav.Frame, []int{0, 0, 0, 4}[p.Router])
		sd.conn = newSimConn(w, &p.RConn[n], fmt.Sprint("port", n))
		sd.conn.onWrite = func(b []byte) { sd.deliverOut(b) }
		sd.st = mav.NewFrameStream(&user.Conn{I: sd.conn}, sd.in, r.d, false)
		ctx, cancel := context.WithCancel(context.Background())
		sd.cancel = cancel
		r.port = append(r.port, sd)
		w.goActor(fmt.Sprint("portread", n), true, func(a *actor) { sd.st.ReadContext(ctx) })
		w.goActor(fmt.Sprint("portwrite", n), true, func(a *actor) { sd.st.WriteContext(ctx) })
	}
	for n := 0; n < 2; n++ {
		n := n
		r.side[n].peer, r.port[n].peer = r.port[n], r.side[n]
		w.goActor(fmt.Sprint("portlink", n), false, r.port[n].runLink)
		w.goActor(fmt.Sprint("forward", n), true, func(a *actor) {
			to := []*netSide{r.port[1-n]}
			if k == 3 {
				to = append(to, r.port[2])
			}
			for i := 0; ; i++ {
				f, ok := <-r.port[n].st.Read()
				if !ok {
					if !r.closing {
						r.violate("closed", "the router's stream %d closed by itself: %v", n, r.port[n].st.GetCloseErr())
					}
					return
				}
				w.hit("frame_forwarded")
				for j := range to {
					o := to[(i+j)%len(to)]
					r.forwarding++
					select {
					case o.st.Write() <- f:
					case <-o.st.Closed():
					}
					r.forwarding--
				}
			}
		})
	}
}

// checkRouter: the router passed everything on, and a copy to its third stream.
func (r *netRun) checkRouter() {
	if len(r.port) == 0 {
		return
	}
	if r.forwarding > 0 {
		r.violate("stuck", "the router waits to pass a frame on although the link is idle")
		return
	}
	if len(r.port) < 3 {
		return
	}
	left := map[string]int{}
	total := 0
	for n := 0; n < 2; n++ {
		for _, s := range r.side[n].sent {
			left[string(s.frame)]++
			total++
		}
	}
	for _, f := range r.port[2].frames {
		if left[string(f)]--; left[string(f)] < 0 {
			r.violate("copy", "the router's third stream wrote %x, which was not sent (again)", f)
			return
		}
	}
	if n := len(r.port[2].frames); n != total {
		r.violate("copy", "the sides sent %d frames, the router's third stream wrote %d", total, n)
	}
}

// ---- run ----

func runNet(w *World, p *NetPlan) {
	r := &netRun{w: w, p: p, d: makeDialects(p.Dialects), tbl: makeTable(p.Dialects)}
	sn := &simUDPNet{w: w}
	if p.Link == "udp" {
		sn.install()
		defer func() { net.SimListenUDP = nil }()
	}
	for n := 0; n < 2; n++ {
		r.side[n] = &netSide{n: n, r: r, in: make(chan mav.Frame)}
	}
	ready := make(chan struct{})
	w.goActor("main", true, func(a *actor) {
		defer close(ready)
		for n := 0; n < 2; n++ {
			n := n
			sd := r.side[n]
			if n == 1 && p.Peer {
				continue
			}
			var rwc io.ReadWriteCloser
			if p.Link == "udp" {
				u, err := util.NewUDPReadWriteCloser([]string{"10.0.0.1", "10.0.0.2"}[n], 14550+n)
				if err != nil {
					r.violate("bind", "binding failed: %v", err)
					return
				}
				sd.rwc = u
				sd.sock = sn.socks[len(sn.socks)-1]
				sd.sock.wops = p.Conn[n].Writes
				sd.sock.pause = p.Conn[n].Pause
				sd.sock.route = func(s *usock, b []byte, ip net.IP, port int) { r.route(n, b, ip, port) }
				rwc = u
			} else {
				sd.conn = newSimConn(w, &p.Conn[n], fmt.Sprint("conn", n))
				sd.conn.onWrite = func(b []byte) { sd.deliverOut(b) }
				rwc = &user.Conn{I: sd.conn}
			}
			sd.st = mav.NewFrameStream(rwc, sd.in, r.d, false)
			ctx, cancel := context.WithCancel(context.Background())
			sd.cancel = cancel
			w.goActor(fmt.Sprint("readloop", n), true, func(a *actor) { sd.st.ReadContext(ctx) })
			w.goActor(fmt.Sprint("writeloop", n), true, func(a *actor) { sd.st.WriteContext(ctx) })
			w.goActor(fmt.Sprint("consumer", n), true, sd.runConsumer)
		}
		if p.Link == "udp" {
			for n := 0; n < 2; n++ {
				o := r.side[1-n].sock.addr
				r.side[n].sock.push(&dgram{data: []byte{0}, ip: o.IP, port: o.Port})
			}
		} else {
			for n := 0; n < 2; n++ {
				r.side[n].peer = r.side[1-n]
			}
			if p.Router > 0 && !p.Peer {
				r.startRouter()
			}
			for n := 0; n < 2; n++ {
				w.goActor(fmt.Sprint("link", n), false, r.side[n].runLink)
			}
		}
		for n := 0; n < 2; n++ {
			for k := range p.Send[n] {
				sd, k, ops := r.side[n], k, p.Send[n][k]
				w.goActor(fmt.Sprintf("sender%d.%d", n, k), true, func(a *actor) { sd.runSender(k, ops) })
			}
		}
		for i := range p.Ctl {
			ops := p.Ctl[i]
			w.goActor("netctl", false, func(a *actor) { r.runCtl(ops) })
		}
	})
	for ph := 0; ph < p.Phases; ph++ {
		w.setPhase(ph)
		w.settle(nil)
		if !runtime.SimOverrun() {
			r.check(ph)
		}
	}
	r.closing = true
	w.goActor("closer", true, func(a *actor) {
		follows(ready)
		for n := 0; n < 2; n++ {
			if sd := r.side[n]; sd.st != nil {
				sd.st.Close()
				sd.cancel()
			}
		}
		for _, sd := range r.port {
			sd.st.Close()
			sd.cancel()
		}
	})
	w.setPhase(1 << 20)
	w.settle(nil)
	for _, a := range w.actors {
		if a.panicked {
			w.violate(r.prop(), "panic", "%s panicked: %s at %s", a.name, a.pval, a.stack)
		}
	}
}

// judge compares a received frame with the values its sender meant.
func (r *netRun) judge(n int, g *netGot, nm *NetMsg, texts map[int]string) {
	s := r.tbl[nm.ID]
	if g.err != nil {
		r.violate("decode", "side %d: frame %x of message %s: %v", n, g.data, s.Name, g.err)
		return
	}
	if g.id != nm.ID || g.v != nm.V || g.sys != nm.Sys || g.comp != nm.Comp || g.sq != uint(nm.Seq) {
		r.violate("header", "side %d: message %s sent with id %d version %d system %d component %d sequence %d arrived with id %d version %d system %d component %d sequence %d",
			n, s.Name, nm.ID, nm.V, nm.Sys, nm.Comp, nm.Seq, g.id, g.v, g.sys, g.comp, g.sq)
	}
	if texts != nil {
		r.judgeTexts(n, g, nm, s, texts)
	} else if want := nm.values(s); !bytes.Equal(quiet(s, g.vals), quiet(s, want)) {
		r.violate("values", "side %d: message %s (version %d) sent with values %x arrived with %x", n, s.Name, nm.V, want, g.vals)
	}
	if g.ver > g.v {
		r.violate("message-version", "side %d: message %s from a version %d frame says it is version %d", n, s.Name, g.v, g.ver)
	}
	r.w.hit("message_compared")
	if r.p.Peer {
		if got, want := sumInPieces(g.data, func() {}), refSumInPieces(g.data); got != want {
			r.violate("checksum", "the checksum of %x, read after so many bytes: %s, want %s", g.data, got, want)
		}
		r.w.hit("checksum_in_pieces")
	}
	if nm.V == 1 {
		r.w.hit("v1_message_compared")
	}
	if s.Min != s.Max {
		r.w.hit("extended_message_compared")
	}
}

func (r *netRun) check(ph int) {
	for _, v := range r.w.viol {
		if v.Property == r.prop() {
			return
		}
	}
	for n := 0; n < 2; n++ {
		if r.side[n].pending > 0 {
			r.violate("stuck", "side %d: a frame was not taken from the write channel although the link is idle", n)
			return
		}
	}
	r.checkRouter()
	for n := 0; n < 2; n++ {
		if r.p.Link == "udp" {
			r.checkUDP(n, ph)
		} else {
			r.checkPipe(n)
		}
	}
}

// checkPipe: what side n sent is what the other side has.
func (r *netRun) checkPipe(n int) {
	from, to := r.side[n], r.side[1-n]
	if from.st != nil {
		// the wire
		var want, all [][]byte
		for _, s := range from.sent {
			want = append(want, s.frame)
		}
		all = from.frames
		if len(all) != len(want) {
			r.violate("wire-count", "side %d: %d frames were accepted but %d writes reached the link", n, len(want), len(all))
			return
		}
	}
	if to.st == nil {
		// The peer reads the bytes that the library wrote.
		r.checkOrder(n, from.frames, func(i int, s *netSent) {
			want := r.p.Msgs[s.msg].refBytes(r.tbl[r.p.Msgs[s.msg].ID])
			if !bytes.Equal(from.frames[i], want) {
				r.violate("encoding", "the link carried %x, want %x", from.frames[i], want)
			}
			r.w.hit("written_frame_compared")
		}, nil)
		return
	}
	var fr [][]byte
	for _, g := range to.got {
		fr = append(fr, g.data)
	}
	r.checkOrder(n, fr, func(i int, s *netSent) { r.judge(1-n, to.got[i], &r.p.Msgs[s.msg], s.texts) }, to.got)
}

// checkOrder matches what arrived with what each sender sent, in its order.
func (r *netRun) checkOrder(n int, arrived [][]byte, judge func(i int, s *netSent), got []*netGot) {
	from := r.side[n]
	bySender := map[int][]*netSent{}
	for _, s := range from.sent {
		bySender[s.sender] = append(bySender[s.sender], s)
	}
	if len(arrived) != len(from.sent) {
		r.violate("count", "side %d sent %d messages, %d arrived", n, len(from.sent), len(arrived))
		return
	}
	var order []*netSent
	for i, b := range arrived {
		var hit *netSent
		for k := 0; k < len(r.p.Send[n]) && hit == nil; k++ {
			q := bySender[k]
			if len(q) > 0 && bytes.Equal(q[0].frame, b) {
				hit = q[0]
				bySender[k] = q[1:]
			}
		}
		if hit == nil {
			r.violate("order", "side %d: frame %d that arrived (%x) is not the next frame of any sender", n, i, b)
			return
		}
		order = append(order, hit)
		judge(i, hit)
	}
	for i := range order {
		for j := i + 1; j < len(order); j++ {
			if order[j].end < order[i].start && order[j].done && !bytes.Equal(order[i].frame, order[j].frame) {
				r.violate("order", "side %d: a frame accepted before another one was sent arrived after it", n)
				return
			}
		}
	}
}

// checkUDP: side n received exactly what the datagrams that arrived carry.
func (r *netRun) checkUDP(n, ph int) {
	sd, other := r.side[n], r.side[1-n]
	if len(sd.sock.q) > 0 {
		r.violate("stuck", "side %d: a datagram was not read although the system is idle", n)
		return
	}
	var all []byte
	intact := map[string]int{}
	for _, d := range sd.sock.popped {
		all = append(all, d.data...)
	}
	for _, s := range other.sent {
		for _, d := range sd.sock.popped {
			if bytes.Contains(d.data, s.frame) {
				intact[string(s.frame)] += bytes.Count(d.data, s.frame)
			}
		}
	}
	want := r.tbl.scan(all, false, false)
	if len(want) != len(sd.got) {
		r.violate("count", "side %d: %d frames arrived in the datagrams, %d were received", n, len(want), len(sd.got))
		return
	}
	byFrame := map[string]*netSent{}
	for _, s := range other.sent {
		byFrame[string(s.frame)] = s
	}
	times := map[string]int{}
	accidents := 0
	ends := map[string][]int{}
	for i, g := range sd.got {
		f := all[want[i].off : want[i].off+want[i].n]
		if !bytes.Equal(f, g.data) {
			r.violate("frame", "side %d: frame %d received is %x, the datagrams carried %x", n, i, g.data, f)
			return
		}
		times[string(f)]++
		s := byFrame[string(f)]
		if s == nil || times[string(f)] > intact[string(f)] {
			r.w.hit("accidental_frame")
			if sp := r.tbl[g.id]; sp != nil && (g.v == 2 || int(f[1]) == sp.Min) {
				// nobody sent it, but it must decode to what its bytes say
				h := hdrLen(f)
				nm := NetMsg{ID: g.id, V: g.v, Seq: f[h-6], Sys: f[h-5], Comp: f[h-4], P: make([]byte, sp.Max)}
				if g.v == 1 {
					nm.Seq, nm.Sys, nm.Comp = f[2], f[3], f[4]
				}
				copy(nm.P, f[h:h+int(f[1])])
				r.judge(n, g, &nm, nil)
			}
			accidents++
			continue
		}
		ends[string(f)] = append(ends[string(f)], want[i].off)
		r.judge(n, g, &r.p.Msgs[s.msg], s.texts)
	}
	if accidents > 0 {
		return
	}
	// Progress: an intact datagram followed by 280 bytes of intact datagrams
	// after which nothing is damaged any more.
	clean := len(sd.sock.popped)
	off := make([]int, len(sd.sock.popped))
	o := 0
	for i, d := range sd.sock.popped {
		off[i] = o
		o += len(d.data)
	}
	for i := len(sd.sock.popped) - 1; i >= 0; i-- {
		if byFrame[string(sd.sock.popped[i].data)] == nil {
			break
		}
		clean = i
	}
	for i, d := range sd.sock.popped {
		if i < clean || off[i]+len(d.data)+280 > len(all) {
			continue
		}
		found := false
		for _, e := range ends[string(d.data)] {
			found = found || e == off[i]
		}
		if !found {
			r.violate("progress", "side %d: the intact datagram at offset %d was not received although %d further bytes arrived", n, off[i], len(all)-off[i]-len(d.data))
			return
		}
		r.w.hit("progress_checked")
	}
}

// ---- generation ----

func genNetMsg(r *Rng, msgs []*MsgSpec, peer bool) NetMsg {
	s := msgs[r.N(len(msgs))]
	if r.P(1, 5) { // prefer messages with extension fields, texts or large ids
		for k := 0; k < 8 && s.Min == s.Max && s.ID <= 255; k++ {
			s = msgs[r.N(len(msgs))]
		}
	}
	m := NetMsg{ID: s.ID, V: 2, Sys: r.Byte(), Comp: r.Byte(), Seq: r.Byte(), P: genNetPayload(r, s), Text: r.P(1, 2)}
	if r.P(1, 8) {
		m.Sys, m.Comp, m.Seq = byte(r.Pick(0, 255, 0xfd, 0xfe)), byte(r.Pick(0, 255, 0xfd, 0xfe)), byte(r.Pick(0, 255, 0xfd, 0xfe))
	}
	if s.ID <= 255 && r.P(2, 5) {
		m.V = 1
	}
	if peer && m.V == 2 {
		m.Cut = r.Pick(0, 0, -1, 1, 2, 5)
		if r.P(1, 3) {
			m.Sig = r.Bytes(13)
		}
		if r.P(1, 4) {
			m.Comf = int(r.Byte())
		}
	}
	return m
}

func genNet(r *Rng, prop string) *NetPlan {
	p := &NetPlan{Link: "pipe", Phases: 1}
	switch r.N(4) {
	case 0:
		p.Dialects = []string{dialectNames[r.N(len(dialectNames))]}
	case 1:
		p.Dialects = []string{"common", dialectNames[r.N(len(dialectNames))]}
	case 2:
		p.Dialects = []string{dialectNames[r.N(len(dialectNames))], "common"}
	default:
		k := r.Range(2, 10)
		for _, i := range perm(r, len(dialectNames))[:k] {
			p.Dialects = append(p.Dialects, dialectNames[i])
		}
	}
	if len(p.Dialects) == 2 && p.Dialects[0] == p.Dialects[1] {
		p.Dialects = p.Dialects[:1]
	}
	msgs := tableMsgs(p.Dialects)
	if prop == "C22" {
		if !hasTexts(msgs) {
			p.Dialects = append(p.Dialects, "common")
			msgs = tableMsgs(p.Dialects)
		}
		var l []*MsgSpec
		for _, s := range msgs {
			if len(textFields(s)) > 0 {
				l = append(l, s)
			}
		}
		if r.P(3, 4) && len(l) > 2 { // few messages, so that objects are used again
			l = []*MsgSpec{l[r.N(len(l))], l[r.N(len(l))]}
		}
		msgs = l
	}
	udp := prop == "C12" || prop == "C22" && r.P(1, 4)
	p.Peer = prop == "C17"
	if udp {
		p.Link = "udp"
		p.Phases = 3
	}
	mul := scale(r)
	seen := map[string]bool{}
	uniq := byte(0)
	for n := 0; n < 2; n++ {
		ns := r.Range(1, 3)
		if p.Peer && n == 1 {
			ns = 1
		}
		for k := 0; k < ns; k++ {
			var ops []Op
			if udp {
				ops = append(ops, Op{K: "phase", N: 1})
			}
			cnt := r.Range(0, 6*mul)
			if r.P(1, 12) {
				cnt = r.Range(10, 30)
			}
			healed := false
			if udp {
				cnt += 4
			}
			for i := 0; i < cnt; i++ {
				if r.P(1, 3) {
					ops = append(ops, genDelay(r, true)...)
				}
				if udp && !healed && i >= cnt-r.Range(4, 12) && r.P(1, 2) {
					healed = true
					ops = append(ops, Op{K: "phase", N: 2})
				}
				if p.Peer && n == 0 && r.P(1, 3) {
					ops = append(ops, genRefuse(r, p, msgs))
					continue
				}
				m := genNetMsg(r, msgs, p.Peer && n == 1)
				if prop == "C22" {
					genTexts(r, &m, specOf(msgs, m.ID))
				}
				m.Sys = m.Sys&^3 | byte(k) // senders of one side are distinct
				if udp {
					// distinct frames, so that copies can be counted
					for t := 0; t < 300; t++ {
						key := string(m.refBytes(specOf(msgs, m.ID)))
						if !seen[fmt.Sprint(n)+key] {
							seen[fmt.Sprint(n)+key] = true
							break
						}
						m.Seq++
						if m.Seq == 0 {
							m.Comp++
						}
					}
					uniq++
				}
				p.Msgs = append(p.Msgs, m)
				ops = append(ops, Op{K: "msg", N: len(p.Msgs) - 1})
			}
			p.Send[n] = append(p.Send[n], ops)
		}
		p.Seg[n] = Sched{Seed: r.U64(), Mode: r.Str("whole", "byte", "small", "mixed"), Switch: uint32(r.Pick(0, 0, 5, 30))}
		p.Conn[n] = ConnPlan{Scribble: r.P(1, 3), Pause: r.Pick(0, 0, 1, 3)}
		for i := 0; i < 8; i++ {
			switch {
			case r.P(1, 8):
				p.Conn[n].Writes = append(p.Conn[n].Writes, WOp{At: r.N(12), K: "pause", N: r.Range(1, 8)})
			case r.P(1, 12):
				p.Conn[n].Writes = append(p.Conn[n].Writes, WOp{At: r.N(12), K: "sleep", D: r.Dur()})
			}
		}
		if r.P(1, 4) {
			p.Slow[n] = r.Dur()
		}
		if udp {
			p.Faults[n] = genNetFaults(r, msgs)
		}
	}
	if !udp && !p.Peer && r.P(1, 5) {
		p.Router = r.Range(1, 3)
		for n := range p.RSeg {
			p.RSeg[n] = Sched{Seed: r.U64(), Mode: r.Str("whole", "byte", "small", "mixed"), Switch: uint32(r.Pick(0, 0, 5, 30))}
		}
		for n := range p.RConn {
			p.RConn[n] = ConnPlan{Scribble: r.P(1, 3), Pause: r.Pick(0, 0, 1, 3)}
			for i := 0; i < 4; i++ {
				if r.P(1, 6) {
					p.RConn[n].Writes = append(p.RConn[n].Writes, WOp{At: r.N(12), K: r.Str("pause", "sleep"), N: r.Range(1, 8), D: r.Dur()})
				}
			}
		}
	}
	if udp {
		if r.P(1, 2) {
			var ops []Op
			ops = append(ops, Op{K: "phase", N: 1})
			for i := 0; i < r.Range(1, 3); i++ {
				ops = append(ops, genDelay(r, true)...)
				if r.P(1, 2) {
					ops = append(ops, Op{K: "part", N: r.N(2)})
					ops = append(ops, genDelay(r, true)...)
					ops = append(ops, Op{K: "heal"})
				} else {
					b := genNoise(r, msgs, &frameOpts{}, &noiseStats{map[string]int{}})
					ops = append(ops, Op{K: "stray", N: r.N(2), B: b, S: r.Str("10.0.0.9|14550", "10.0.0.1|9", "10.0.0.2|14550")})
				}
			}
			p.Ctl = append(p.Ctl, ops)
		}
	}
	return p
}

func specOf(msgs []*MsgSpec, id uint32) *MsgSpec {
	for _, m := range msgs {
		if m.ID == id {
			return m
		}
	}
	return nil
}

func perm(r *Rng, n int) []int {
	a := make([]int, n)
	for i := range a {
		a[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.N(i + 1)
		a[i], a[j] = a[j], a[i]
	}
	return a
}

func genRefuse(r *Rng, p *NetPlan, msgs []*MsgSpec) Op {
	m := genNetMsg(r, msgs, false)
	op := Op{K: "refuse"}
	switch r.N(8) {
	case 0:
		op.S, op.D = "version", int64(r.Pick(0, 3, -1, 255, 257, 258, 4, 100))
	case 1, 2:
		op.S = r.Str("bigid", "bigidunknown")
		for k := 0; k < 100 && m.ID <= 255; k++ {
			m = genNetMsg(r, msgs, false)
		}
	case 3:
		op.S = "unknown"
		op.N = r.Pick(240, 199, 60000, 0xabcdef, 0xffffff, 0x1000000+int(m.ID), int(m.ID)+256, r.N(1<<24))
		return op
	case 4:
		op.S, op.D = "toolong", int64(r.Pick(256, 257, 300, 511, 512, 1000))
	case 5, 6:
		s := synthSpec[r.N(len(synthSpec))]
		m.ID, m.V, m.P, m.Text = s.ID, 2, r.Bytes(r.Range(s.Min, s.Max)), false
		if n := len(m.P); n > 0 && m.P[n-1] == 0 {
			m.P[n-1] = 1
		}
		if m.ID <= 255 && r.P(1, 2) {
			m.V = 1
		}
		op.S, op.D = "custom", int64(r.N(2))
	default:
		op.S = "writeerr"
	}
	p.Msgs = append(p.Msgs, m)
	op.N = len(p.Msgs) - 1
	return op
}

func genNetFaults(r *Rng, msgs []*MsgSpec) []NetFault {
	var fs []NetFault
	rate := r.Pick(0, 2, 5, 9)
	limit := r.Range(1, 14)
	for i := 0; i < limit; i++ {
		if r.N(10) >= rate {
			continue
		}
		f := NetFault{At: i}
		switch r.N(7) {
		case 0:
			f.K = "drop"
		case 1:
			f.K = "dup"
			if r.P(1, 2) {
				f.D = r.Dur()
			}
		case 2, 3:
			f.K, f.N = "corrupt", r.N(300)
			f.B = r.Bytes(r.Pick(1, 1, 2, 5))
			if r.P(1, 3) {
				f.N = r.N(3)
			}
			if r.P(1, 3) {
				f.B = Hex{1 << uint(r.N(8))}
			}
		case 4:
			f.K, f.N = "trunc", r.N(300)
		case 5:
			f.K, f.D = "delay", r.Dur()
		default:
			f.K = "merge"
			f.B = genNoise(r, msgs, &frameOpts{}, &noiseStats{map[string]int{}})
			if len(f.B) > 600 {
				f.B = f.B[:600]
			}
		}
		fs = append(fs, f)
	}
	return fs
}

func netLists(p *NetPlan) []listRef {
	var out []listRef
	for n := 0; n < 2; n++ {
		l := &p.Faults[n]
		out = append(out, listRef{len(*l), func(a, b int) { *l = append(append([]NetFault{}, (*l)[:a]...), (*l)[b:]...) }})
		out = append(out, opLists(&p.Send[n])...)
		out = append(out, wopList(&p.Conn[n].Writes))
	}
	for n := range p.RConn {
		out = append(out, wopList(&p.RConn[n].Writes))
	}
	return append(out, opLists(&p.Ctl)...)
}

var _ = strings.Join
