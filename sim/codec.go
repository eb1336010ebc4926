package main

import (
	"bytes"
	"fmt"
	"runtime"

	mav "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/util"
)

// CodecPlan has goroutines that encode, decode and validate through shared
// dialects, messages and frames.
type CodecPlan struct {
	Dialects []string `json:"dialects"`
	Msgs     []NetMsg `json:"msgs"`
	Frames   []Hex    `json:"frames"`
	Actors   [][]Op   `json:"actors"`
}

type codecHeld struct {
	what string
	now  func() string
	was  string
}

type codecRun struct {
	w      *World
	p      *CodecPlan
	d      mav.Dialects
	msgs   []mav.Message
	frames []mav.Frame
	alone  map[string]string
	held   []codecHeld
}

// call performs one operation and describes its outcome.
func (c *codecRun) call(op *Op) (string, func() string) {
	switch op.K {
	case "enc":
		nm := &c.p.Msgs[op.N]
		f, err := c.d.GetFrame(nm.V, nm.Sys, nm.Comp, nm.Seq, c.msgs[op.N])
		now := func() string {
			if f == nil {
				return fmt.Sprint("nil ", err)
			}
			return fmt.Sprintf("%T %x %v", f, f.Bytes(), err)
		}
		return now(), now
	case "write":
		b, err := c.msgs[op.N].Write(c.p.Msgs[op.N].V)
		now := func() string { return fmt.Sprintf("%x %v", b, err) }
		return now(), now
	case "dec":
		m, err := c.d.GetMessage(c.frames[op.N])
		now := func() string { return fmt.Sprintf("%T %+v %v", m, deref(m), err) }
		return now(), now
	case "val":
		err := c.d.Validate(c.frames[op.N])
		return fmt.Sprint(err), nil
	case "str":
		m, err := c.d.GetMessage(c.frames[op.N])
		if s, ok := m.(fmt.Stringer); ok && err == nil {
			return s.String(), nil
		}
		return fmt.Sprint(m, err), nil
	case "sum":
		return sumInPieces(c.p.Frames[op.N], c.w.yield), nil
	case "trunc":
		b := append([]byte(nil), c.p.Frames[op.N]...)
		return fmt.Sprintf("%x", util.TruncateV2(b)), nil
	case "copy":
		b := c.p.Frames[op.N]
		f, err := mav.FrameFromBytes(append([]byte(nil), b...), uint16(len(b)), true)
		now := func() string {
			if f == nil {
				return fmt.Sprint("nil ", err)
			}
			return fmt.Sprintf("%T %x %v", f, f.Bytes(), err)
		}
		return now(), now
	}
	return "", nil
}

func launchCodec(w *World, p *CodecPlan) *codecRun {
	if p == nil {
		return nil
	}
	c := &codecRun{w: w, p: p, d: makeDialects(p.Dialects), alone: map[string]string{}}
	tbl := makeTable(p.Dialects)
	for i := range p.Msgs {
		nm := &p.Msgs[i]
		m, err := newMessage(c.d, nm.ID)
		if err != nil {
			m = &customMsg{id: nm.ID, raw: []byte{1}}
		} else {
			fillMessage(m, tbl[nm.ID], nm.P, false)
		}
		c.msgs = append(c.msgs, m)
	}
	for _, b := range p.Frames {
		b := append([]byte(nil), b...)
		if b[0] == 0xfe {
			c.frames = append(c.frames, mav.FrameV1(b))
		} else {
			c.frames = append(c.frames, mav.FrameV2(b))
		}
	}
	// What each call does alone, before anything runs beside it.
	for _, ops := range p.Actors {
		for i := range ops {
			k := fmt.Sprint(ops[i].K, ops[i].N)
			if _, ok := c.alone[k]; !ok {
				c.alone[k], _ = c.call(&ops[i])
			}
		}
	}
	for i := range p.Actors {
		ops := p.Actors[i]
		w.goActor(fmt.Sprint("codec", i), true, func(a *actor) {
			for j := range ops {
				op := &ops[j]
				if w.basic(*op) {
					continue
				}
				w.ev("codec", j, op.N)
				w.yield()
				got, now := c.call(op)
				if want := c.alone[fmt.Sprint(op.K, op.N)]; got != want {
					w.violate("C18", "codec-"+op.K, "%s of item %d gives %s, alone it gave %s", op.K, op.N, got, want)
				}
				if now != nil {
					c.held = append(c.held, codecHeld{op.K, now, got})
				}
				w.hit("codec_calls")
			}
		})
	}
	return c
}

func finishCodec(w *World, c *codecRun) {
	if c == nil {
		return
	}
	for i := range c.held {
		h := &c.held[i]
		if n := h.now(); n != h.was {
			w.violate("C18", "held-"+h.what, "a result of %s changed afterwards from %s to %s", h.what, h.was, n)
		}
	}
	for i, f := range c.frames {
		if !bytes.Equal(f.Bytes(), c.p.Frames[i]) {
			w.violate("C18", "frame-changed", "a frame that was only decoded and validated changed from %x to %x", []byte(c.p.Frames[i]), f.Bytes())
		}
	}
}

func genCodec(r *Rng) *CodecPlan {
	c := &CodecPlan{Dialects: pickDialects(r)}
	var names []string
	for _, n := range c.Dialects {
		if n != "synth" {
			names = append(names, n)
		}
	}
	if len(names) == 0 {
		names = []string{dialectNames[r.N(len(dialectNames))]}
	}
	c.Dialects = names
	msgs := tableMsgs(names)
	st := &noiseStats{map[string]int{}}
	for i := 0; i < r.Range(1, 6); i++ {
		c.Msgs = append(c.Msgs, genNetMsg(r, msgs, false))
	}
	for i := 0; i < r.Range(1, 6); i++ {
		b := genFrameBytes(r, msgs[r.N(len(msgs))], &frameOpts{signed: 20, v1: 40})
		if r.P(1, 3) { // a damaged one
			h := hdrLen(b)
			b[h+r.N(len(b)-h)] ^= byte(r.Range(1, 255))
		}
		if r.P(1, 6) {
			b = genFrameBytes(r, &MsgSpec{ID: uint32(r.Pick(240, 60000)), Crc: 3, Max: r.N(30)}, &frameOpts{})
		}
		c.Frames = append(c.Frames, b)
	}
	_ = st
	for i := 0; i < r.Range(2, 4); i++ {
		var ops []Op
		for j := 0; j < r.Range(1, 12); j++ {
			k := r.Str("enc", "enc", "write", "dec", "dec", "val", "val", "val", "str", "trunc", "copy", "sum")
			n := r.N(len(c.Frames))
			if k == "enc" || k == "write" {
				n = r.N(len(c.Msgs))
			}
			ops = append(ops, Op{K: k, N: n})
			if r.P(1, 5) {
				ops = append(ops, genDelay(r, true)...)
			}
		}
		c.Actors = append(c.Actors, ops)
	}
	return c
}

func codecLists(c *CodecPlan) []listRef { return opLists(&c.Actors) }

// sumInPieces puts data into a checksum of the library piece by piece, reading
// the sum in between, and lists what it reads. The checksum had other input first.
func sumInPieces(data []byte, yield func()) string {
	r := NewRng(uint64(len(data)), uint64(refCRC(data)))
	h := new(mav.X25CRC)
	if r.P(1, 2) {
		h.Write(r.Bytes(r.N(9)))
		yield()
	}
	h.Reset()
	var out []string
	for pos := 0; ; {
		pre := r.Bytes(r.N(4))
		pre = append(make([]byte, 0, len(pre)+r.N(4)), pre...)
		b := h.Sum(pre)
		if len(b) < len(pre) || !bytes.Equal(b[:len(pre)], pre) {
			out = append(out, fmt.Sprintf("%x becomes %x", pre, b))
		} else {
			out = append(out, fmt.Sprintf("%d:%x", pos, b[len(pre):]))
		}
		yield()
		if pos >= len(data) {
			return fmt.Sprint(out, h.Size())
		}
		k := r.Pick(0, 1, 1, 2, 5, 300)
		if k > len(data)-pos {
			k = len(data) - pos
		}
		n, err := h.Write(data[pos : pos+k])
		if n != k || err != nil {
			out = append(out, fmt.Sprintf("Write of %d bytes returns %d, %v", k, n, err))
		}
		pos += k
		yield()
	}
}

// refSumInPieces is what sumInPieces must return.
func refSumInPieces(data []byte) string {
	r := NewRng(uint64(len(data)), uint64(refCRC(data)))
	if r.P(1, 2) {
		r.Bytes(r.N(9))
	}
	var out []string
	for pos := 0; ; {
		r.Bytes(r.N(4))
		r.N(4)
		s := refCRC(data[:pos])
		out = append(out, fmt.Sprintf("%d:%02x%02x", pos, s&255, s>>8))
		if pos >= len(data) {
			return fmt.Sprint(out, 2)
		}
		k := r.Pick(0, 1, 1, 2, 5, 300)
		if k > len(data)-pos {
			k = len(data) - pos
		}
		pos += k
	}
}

// sideBySide keeps the violations that none of the streams shows alone.
func sideBySide(p *Plan, w *World) []Violation {
	if len(w.viol) == 0 {
		return nil
	}
	alone := map[string]bool{}
	var out []Violation
	done := false
	for _, v := range w.viol {
		if v.Property == "C18" {
			out = append(out, v)
			continue
		}
		if !done {
			done = true
			r := NewRng(p.Seed, p.Index, 1818)
			for _, s := range p.Streams {
				for k := -1; k < 12; k++ {
					q := &Plan{Property: "C18-alone", Seed: p.Seed, Index: p.Index, Stream: s, Sched: genSched(r)}
					if k < 0 {
						q.Stream = calm(s)
					}
					if k == 0 {
						q.Sched = p.Sched
						q.Sched.Dec = nil
						if q.Sched.Mode == "replay" {
							q.Sched = Sched{Seed: 1, Mode: "replay"}
						}
					}
					res, _ := runPlan(q, false)
					for _, x := range res.Viol {
						alone[family(x.Property)] = true
					}
				}
			}
		}
		if !alone[family(v.Property)] {
			out = append(out, Violation{"C18", v.Property + "-" + v.Class, "not seen when the streams run alone: " + v.Detail})
		}
	}
	return out
}

// calm is the plan of a stream that reads the same bytes and is not disturbed.
func calm(s *StreamPlan) *StreamPlan {
	q := *s
	q.CtxR, q.CtxW = "cancel", "shared"
	q.DeadR, q.DeadW = 0, 0
	q.Ctl = [][]Op{{{K: "startR"}}}
	q.Senders, q.Observers, q.Back, q.Conn.Writes, q.Mutate = nil, nil, nil, nil, ""
	q.Consumer = []Op{{K: "drain"}}
	q.Phases = 1
	q.Feeder = nil
	for _, op := range s.Feeder {
		if op.K != "phase" {
			q.Feeder = append(q.Feeder, op)
		}
	}
	return &q
}

// family: the properties that the same deviation of what is delivered breaks.
func family(p string) string {
	switch p {
	case "C01", "C02", "C03", "C13", "C14", "C19", "C20":
		return "delivery"
	}
	return p
}

var _ = runtime.SimNow

func deref(m mav.Message) interface{} {
	if m == nil {
		return nil
	}
	return derefAny(m)
}
