package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"runtime"

	mav "github.com/botlink/go-mavlink2"
)

// MemPlan feeds a stream endless noise and watches what it retains.
type MemPlan struct {
	Dialects []string `json:"dialects"`
	Raw      bool     `json:"raw,omitempty"`
	Log      bool     `json:"log,omitempty"`
	Kinds    []string `json:"kinds"`
	Seed     uint64   `json:"seed"`
	Units    int      `json:"units"` // noise units per stage
	Chunk    int      `json:"chunk"`
	Steps    uint64   `json:"steps"` // at most this many statements
	Stages   int      `json:"stages"`
}

const memBound = 128 << 10

// memConn produces the noise as it is read.
type memConn struct {
	w     *World
	p     *MemPlan
	r     *Rng
	msgs  []*MsgSpec
	buf   []byte
	pos   int
	left  int
	done  int
	next  cond
	closd bool
	bytes int64
	n     uint32
	st    *noiseStats
}

func (c *memConn) unit(b []byte) []byte {
	r := c.r
	c.n++
	var m *MsgSpec
	if len(c.msgs) > 0 {
		m = c.msgs[r.N(len(c.msgs))]
	}
	switch k := c.p.Kinds[r.N(len(c.p.Kinds))]; k {
	case "random":
		return append(b, r.Bytes(r.Range(1, 40))...)
	case "unknown": // distinct unknown ids, checksum fine
		p := frameParts{version: 2, seq: r.Byte(), sys: r.Byte(), comp: r.Byte(), id: uint32(r.N(1 << 24)), payload: r.Bytes(r.N(8)), crcExtra: r.Byte()}
		return append(b, p.bytes()...)
	case "badcrc": // known ids, wrong checksum
		p := frameParts{version: 2, seq: r.Byte(), sys: r.Byte(), comp: r.Byte(), id: m.ID, payload: r.Bytes(r.N(10)), crcExtra: m.Crc}
		if m.ID < 256 && r.P(1, 2) {
			p.version = 1
		}
		f := p.bytes()
		f[len(f)-1-r.N(2)] ^= byte(r.Range(1, 255))
		return append(b, f...)
	case "header": // false headers only, distinct
		return append(b, 0xfd, byte(r.N(3)), r.Byte()&^1, r.Byte(), r.Byte(), r.Byte(), r.Byte(), r.Byte(), r.Byte(), r.Byte(), r.Byte(), r.Byte())
	case "headerv1":
		return append(b, 0xfe, byte(r.N(3)), r.Byte(), r.Byte(), r.Byte(), r.Byte(), r.Byte(), r.Byte())
	case "toolong":
		p := frameParts{version: 2, seq: r.Byte(), sys: r.Byte(), comp: r.Byte(), id: m.ID, payload: r.Bytes(min(255, m.Max+1)), crcExtra: m.Crc}
		return append(b, p.bytes()...)
	case "same": // the same broken frame over and over
		return append(b, 0xfd, 1, 0, 0, 1, 2, 3, 0, 0, 0, 9, 1, 2)
	case "valid":
		return append(b, genFrameBytes(r, m, &frameOpts{v1: 30})...)
	}
	return append(b, 0xfd)
}

func (c *memConn) Read(p []byte) (int, error) {
	c.w.yield()
	for c.pos >= len(c.buf) {
		c.buf = c.buf[:0]
		c.pos = 0
		for c.left == 0 && !c.closd {
			c.next.wait()
		}
		if c.closd {
			return 0, io.EOF
		}
		for len(c.buf) < c.p.Chunk && c.left > 0 {
			c.left--
			c.buf = c.unit(c.buf)
		}
	}
	n := copy(p, c.buf[c.pos:])
	c.pos += n
	c.bytes += int64(n)
	return n, nil
}

func (c *memConn) Write(b []byte) (int, error) { return len(b), nil }

func (c *memConn) Close() error {
	if c.closd {
		return errors.New("sim: closed twice")
	}
	c.closd = true
	c.next.wake()
	return nil
}

type memLog struct{ n int }

func (l *memLog) LogRead(b []byte) error    { l.n++; return nil }
func (l *memLog) LogWritten(b []byte) error { return nil }

func retained() int64 {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc + m.StackInuse)
}

func runMem(w *World, p *MemPlan) {
	c := &memConn{w: w, p: p, r: NewRng(p.Seed), msgs: tableMsgs(p.Dialects)}
	in := make(chan mav.Frame)
	var st *mav.FrameStream
	if p.Log {
		st = mav.NewFrameStreamWithLogger(c, in, makeDialects(p.Dialects), p.Raw, &memLog{})
	} else {
		st = mav.NewFrameStream(c, in, makeDialects(p.Dialects), p.Raw)
	}
	ctx, cancel := context.WithCancel(context.Background())
	got := 0
	w.goActor("readloop", true, func(a *actor) { st.ReadContext(ctx) })
	w.goActor("writeloop", true, func(a *actor) { st.WriteContext(ctx) })
	w.goActor("consumer", true, func(a *actor) {
		for range st.Read() {
			got++
		}
	})
	var use []int64
	var units []int64
	for i := 0; i < p.Stages; i++ {
		c.left = p.Units
		if i == 0 {
			c.left = p.Units / 2
		}
		c.next.wake()
		runtime.SimWaitIdle()
		if runtime.SimOverrun() {
			break
		}
		if c.left > 0 {
			w.violate("C21", "stopped", "the stream stopped reading after %d bytes of noise", c.bytes)
			break
		}
		use = append(use, retained())
		units = append(units, c.bytes)
		w.fault("noise_stage")
		w.ev("stage", i, got)
	}
	if n := len(use); n == p.Stages && n >= 3 {
		grow := use[n-1] - use[0]
		w.reach["growth_bytes"] += int(max(0, grow))
		if grow > memBound {
			w.violate("C21", "growth", "retained memory grew with the noise: after %d bytes of noise %d bytes, after %d bytes of noise %d bytes (stages: %v)", units[0], use[0], units[n-1], use[n-1], fmt.Sprint(use))
		}
	}
	w.reach["noise_bytes"] += int(c.bytes)
	w.reach["frames_delivered"] += got
	st.Close()
	cancel()
	w.settle(nil)
	for _, a := range w.actors {
		if a.panicked {
			w.violate("C21", "panic", "%s panicked: %s at %s", a.name, a.pval, a.stack)
		}
	}
}

func genMem(r *Rng) *MemPlan {
	p := &MemPlan{Dialects: []string{"common"}, Seed: r.U64(), Raw: r.P(1, 3), Log: r.P(1, 3), Chunk: r.Pick(64, 512, 3000), Steps: 4 << 30, Stages: 3, Units: 40000}
	if r.P(1, 12) { // slow growth needs much noise to show
		p.Units = 500000
	}
	if r.P(1, 3) {
		p.Dialects = []string{"common", dialectNames[r.N(len(dialectNames))]}
	}
	all := []string{"random", "unknown", "badcrc", "header", "headerv1", "toolong", "same", "valid"}
	switch r.N(3) {
	case 0:
		p.Kinds = []string{all[r.N(7)]}
	case 1:
		p.Kinds = []string{all[r.N(7)], all[r.N(8)]}
	default:
		p.Kinds = all
	}
	return p
}
