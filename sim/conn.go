package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"syscall"
	"verifsim/user"
)

var errConnClosed = errors.New("sim: use of closed connection")

type chunk struct {
	recover bool // the transport works again after this error
	data    []byte
	err     error
	zero    bool
}

// WOp says how the transport treats one Write.
type WOp struct {
	At int    `json:"at"`          // index of the write
	K  string `json:"k"`           // err, sleep, block, pause
	E  string `json:"e,omitempty"` // kind of error
	N  int    `json:"n,omitempty"`
	D  int64  `json:"d,omitempty"`
}

// netErr is an error as sockets report them.
type netErr struct {
	msg           string
	timeout, temp bool
}

func (e *netErr) Error() string   { return e.msg }
func (e *netErr) Timeout() bool   { return e.timeout }
func (e *netErr) Temporary() bool { return e.temp }

var errorKinds = []string{"", "", "", "timeout", "temporary", "EOF", "UnexpectedEOF", "ShortWrite", "ShortBuffer", "NoProgress", "ClosedPipe", "netClosed", "deadline", "EPIPE", "EINTR", "EAGAIN", "ENOSPC", "reset", "wrapped", "Canceled"}

// simError makes an error of the kinds that transports return.
func simError(kind, msg string) error {
	op := func(err error) error {
		return &net.OpError{Op: "write", Net: "tcp", Err: os.NewSyscallError("write", err)}
	}
	switch kind {
	case "timeout":
		return &netErr{msg, true, true}
	case "temporary":
		return &netErr{msg, false, true}
	case "EOF":
		return io.EOF
	case "UnexpectedEOF":
		return io.ErrUnexpectedEOF
	case "ShortWrite":
		return io.ErrShortWrite
	case "ShortBuffer":
		return io.ErrShortBuffer
	case "NoProgress":
		return io.ErrNoProgress
	case "ClosedPipe":
		return io.ErrClosedPipe
	case "netClosed":
		return net.ErrClosed
	case "deadline":
		return os.ErrDeadlineExceeded
	case "EPIPE":
		return op(syscall.EPIPE)
	case "EINTR":
		return syscall.EINTR
	case "EAGAIN":
		return op(syscall.EAGAIN)
	case "ENOSPC":
		return syscall.ENOSPC
	case "reset":
		return op(syscall.ECONNRESET)
	case "wrapped":
		return fmt.Errorf("%s: %w", msg, io.EOF)
	case "Canceled":
		return context.Canceled
	}
	return errors.New(msg)
}

// ConnPlan configures a simulated transport.
type ConnPlan struct {
	Writes     []WOp `json:"writes,omitempty"`
	Sticky     bool  `json:"sticky,omitempty"`   // Close does not unblock pending calls
	Scribble   bool  `json:"scribble,omitempty"` // Read uses all of p as scratch space
	CloseErr   bool  `json:"closeerr,omitempty"`
	ClosePause int   `json:"closepause,omitempty"`
	CloseSleep int64 `json:"closesleep,omitempty"`
	Pause      int   `json:"pause,omitempty"` // pauses around each Read
}

type writeRec struct {
	data  []byte
	n     int
	err   error
	start int64
	end   int64
	done  bool
}

// SimConn is the simulated byte-stream transport.
type SimConn struct {
	w          *World
	p          *ConnPlan
	name       string
	q          []chunk
	arrived    []byte
	readErr    error // returned to the library
	readErrSeq int64
	rc         cond
	closed     bool
	closedCh   chan struct{}
	closeSeq   int64 // first Close call
	closeAt    int64
	closeDone  bool
	closeCount int
	reads      int
	inRead     int
	slow       int // writes that take their time whatever happens
	writes     []*writeRec
	wblock     cond
	unblocked  bool
	scr        *Rng
	onCall     func(on string, at int)
	onWrite    func(b []byte) // what a completed write delivers to
}

func newSimConn(w *World, p *ConnPlan, name string) *SimConn {
	return &SimConn{w: w, p: p, name: name, closedCh: make(chan struct{}), scr: NewRng(99)}
}

func (c *SimConn) push(ch chunk) {
	c.q = append(c.q, ch)
	c.rc.wake()
}

func (c *SimConn) failRead(kind string, err error) {
	if c.readErr != nil {
		return
	}
	c.readErr = err
	c.readErrSeq = c.w.ev("readerr", 0, 0)
	c.w.fault(kind)
}

func (c *SimConn) Read(p []byte) (int, error) {
	c.reads++
	c.inRead++
	if c.onCall != nil {
		c.onCall("read", c.reads-1)
	}
	c.w.yield()
	if c.p.Pause > 0 {
		c.w.pauses(c.p.Pause)
	}
	defer func() { c.inRead-- }()
	for {
		if c.closed && !(c.p.Sticky && !c.unblocked) {
			<-c.closedCh
			return 0, errConnClosed
		}
		if len(p) == 0 {
			return 0, nil
		}
		if len(c.q) > 0 && !c.closed {
			ch := &c.q[0]
			if ch.zero {
				c.q = c.q[1:]
				c.w.fault("zero_read")
				return 0, nil
			}
			n := user.Fill(p, ch.data)
			if c.p.Scribble {
				for i := n; i < len(p) && i < n+64; i++ {
					p[i] = byte(c.scr.Pick(0xfd, 0xfe, int(c.scr.Byte())))
				}
			}
			c.arrived = append(c.arrived, ch.data[:n]...)
			if n > 0 {
				c.w.ev("read", n, 0)
			}
			ch.data = ch.data[n:]
			if len(ch.data) == 0 {
				err, recovers := ch.err, ch.recover
				c.q = c.q[1:]
				if err != nil {
					k := "read_error"
					if err == io.EOF {
						k = "eof"
					}
					if n > 0 {
						k += "_with_data"
					}
					c.failRead(k, err)
					// A broken transport stays broken, if it does not recover.
					if !recovers {
						c.q = append([]chunk{{err: err}}, c.q...)
					} else {
						c.w.fault("transport_recovers")
					}
					return n, err
				}
			} else {
				c.w.fault("short_read")
			}
			c.w.yield()
			return n, nil
		}
		c.rc.wait()
	}
}

func (c *SimConn) Write(b []byte) (int, error) {
	rec := &writeRec{data: user.Read(b)}
	idx := len(c.writes)
	if c.closed {
		return 0, errConnClosed
	}
	c.writes = append(c.writes, rec)
	rec.start = c.w.ev("write", idx, len(b))
	if c.onCall != nil {
		c.onCall("write", idx)
	}
	c.w.yield()
	for i := range c.p.Writes {
		op := &c.p.Writes[i]
		if op.At != idx {
			continue
		}
		switch op.K {
		case "pause":
			c.w.fault("slow_write")
			c.w.pauses(op.N)
		case "sleep":
			c.w.fault("slow_write")
			c.slow++
			c.w.sleep(op.D)
			c.slow--
		case "block":
			c.w.fault("blocked_write")
			for !c.unblocked && (!c.closed || c.p.Sticky) {
				c.wblock.wait()
			}
		case "err":
			n := op.N
			if n >= len(b) {
				n = len(b) - 1
			}
			if n < 0 {
				n = 0
			}
			if n > 0 {
				c.w.fault("torn_write")
			} else {
				c.w.fault("write_error")
			}
			rec.n = n
			rec.err = simError(op.E, fmt.Sprintf("sim: write error %d", idx))
			rec.done = true
			rec.end = c.w.ev("writeerr", idx, n)
			return n, rec.err
		}
	}
	if c.closed && !c.p.Sticky {
		rec.err = errConnClosed
		rec.done = true
		rec.end = c.w.ev("writeclosed", idx, 0)
		return 0, errConnClosed
	}
	rec.n = len(b)
	rec.done = true
	rec.end = c.w.ev("wrote", idx, len(b))
	if string(rec.data) != string(b) {
		// the caller changed the buffer during the call
		rec.data = user.Read(b)
	}
	if c.onWrite != nil {
		c.onWrite(rec.data)
	}
	c.w.yield()
	return len(b), nil
}

func (c *SimConn) Close() error {
	c.closeCount++
	if c.closeSeq == 0 {
		c.closeSeq = c.w.ev("connclose", 0, 0)
		c.closeAt = runtime.SimNow()
	} else {
		c.w.ev("connclose2", 0, 0)
	}
	c.w.yield()
	c.w.pauses(c.p.ClosePause)
	c.w.sleep(c.p.CloseSleep)
	if c.closed {
		return errConnClosed
	}
	c.closed = true
	close(c.closedCh)
	if !c.p.Sticky {
		c.rc.wake()
		c.wblock.wake()
	}
	c.closeDone = true
	c.w.yield()
	if c.p.CloseErr {
		c.w.fault("close_error")
		return errors.New("sim: close error")
	}
	return nil
}

// unblock releases everything that is still stuck in the transport.
func (c *SimConn) unblock() {
	c.unblocked = true
	c.wblock.wake()
	c.rc.wake()
}
