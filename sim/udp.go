package main

import (
	"bytes"
	"errors"
	"fmt"
	"net"
	"os"
	"runtime"
	"strings"
	"syscall"
	"time"
	"verifsim/user"

	"github.com/botlink/go-mavlink2/util"
)

// ---- simulated UDP sockets ----

type dgram struct {
	data []byte
	ip   net.IP
	port int
	err  error
	idx  int
}

type sockWrite struct {
	data []byte
	to   string
	seq  int64
	err  error
	n    int
}

// usock is one simulated UDP socket.
type usock struct {
	w       *World
	addr    *net.UDPAddr
	v6      bool
	q       []*dgram
	popped  []*dgram
	rerrs   []error
	sent    []*sockWrite
	rc      cond
	wc      cond
	rdl     time.Time
	wdl     time.Time
	closed  bool
	closes  int
	readers int
	inWrite int
	wops    []WOp
	pause   int
	route   func(s *usock, p []byte, ip net.IP, port int)
}

func addrKey(ip net.IP, port int) string {
	if v4 := ip.To4(); v4 != nil {
		ip = v4
	}
	return fmt.Sprintf("%v|%d", ip, port)
}

func parseAddr(s string) (net.IP, int) {
	i := strings.LastIndex(s, "|")
	port := 0
	fmt.Sscan(s[i+1:], &port)
	return net.ParseIP(s[:i]), port
}

func (u *usock) SimReadFrom(p []byte) (int, net.IP, int, error) {
	u.readers++
	defer func() { u.readers-- }()
	u.w.yield()
	for {
		if u.closed {
			return 0, nil, 0, net.ErrClosed
		}
		if past(u.rdl) {
			return 0, nil, 0, os.ErrDeadlineExceeded
		}
		if len(u.q) > 0 {
			d := u.q[0]
			u.q = u.q[1:]
			d.idx = len(u.popped)
			if d.err != nil {
				u.w.ev("sockreaderr", 0, 0)
				u.rerrs = append(u.rerrs, d.err)
				u.w.fault("socket_read_error")
				return 0, nil, 0, d.err
			}
			u.popped = append(u.popped, d)
			u.w.ev("sockread", d.idx, len(d.data))
			n := user.Fill(p, d.data)
			ip := d.ip
			if u.v6 {
				ip = ip.To16()
			}
			u.w.pauses(u.pause)
			u.w.yield()
			return n, ip, d.port, nil
		}
		u.rc.wait()
	}
}

var errnos = map[string]error{"ECONNREFUSED": syscall.ECONNREFUSED, "ENOBUFS": syscall.ENOBUFS, "EPERM": syscall.EPERM, "ENETUNREACH": syscall.ENETUNREACH, "EMSGSIZE": syscall.EMSGSIZE, "EADDRINUSE": syscall.EADDRINUSE, "EACCES": syscall.EACCES, "EMFILE": syscall.EMFILE, "EADDRNOTAVAIL": syscall.EADDRNOTAVAIL, "EHOSTUNREACH": syscall.EHOSTUNREACH, "ETIMEDOUT": syscall.ETIMEDOUT, "EINTR": syscall.EINTR, "EAGAIN": syscall.EAGAIN}
var errnoNames = []string{"ECONNREFUSED", "ENOBUFS", "EPERM", "ENETUNREACH", "EHOSTUNREACH", "ETIMEDOUT", "EINTR", "EAGAIN"}

func (u *usock) SimWriteTo(p []byte, ip net.IP, port int) (int, error) {
	u.inWrite++
	defer func() { u.inWrite-- }()
	u.w.yield()
	if u.closed {
		return 0, net.ErrClosed
	}
	if past(u.wdl) {
		return 0, os.ErrDeadlineExceeded
	}
	sw := &sockWrite{data: user.Read(p), to: addrKey(ip, port)}
	idx := len(u.sent)
	u.sent = append(u.sent, sw)
	sw.seq = u.w.ev("sockwrite", idx, len(p))
	if len(p) > 65507 {
		sw.err = syscall.EMSGSIZE
		return 0, sw.err
	}
	for i := range u.wops {
		op := &u.wops[i]
		if op.At != idx {
			continue
		}
		switch op.K {
		case "pause":
			u.w.fault("slow_send")
			u.w.pauses(op.N)
		case "sleep":
			u.w.fault("slow_send")
			u.w.sleep(op.D)
		case "block":
			u.w.fault("blocked_send")
			for !u.closed && !past(u.wdl) {
				u.wc.wait()
			}
		case "err":
			u.w.fault("socket_write_error")
			sw.err = errnos[errnoNames[op.N%len(errnoNames)]]
			return 0, sw.err
		}
		if u.closed {
			sw.err = net.ErrClosed
			return 0, net.ErrClosed
		}
		if past(u.wdl) {
			sw.err = os.ErrDeadlineExceeded
			return 0, sw.err
		}
	}
	if !bytes.Equal(p, sw.data) {
		sw.data = user.Read(p)
	}
	sw.n = len(p)
	if u.route != nil {
		u.route(u, sw.data, ip, port)
	}
	u.w.yield()
	return len(p), nil
}

func (u *usock) SimClose() error {
	u.w.yield()
	u.closes++
	u.w.ev("sockclose", u.closes, 0)
	if u.closed {
		return net.ErrClosed
	}
	u.closed = true
	u.rc.wake()
	u.wc.wake()
	u.w.yield()
	return nil
}

// SimSetDeadline sets the deadline of reads (mode 1), writes (2) or both.
func (u *usock) SimSetDeadline(mode int, t time.Time) error {
	if u.closed {
		return net.ErrClosed
	}
	if mode&1 != 0 {
		u.rdl = t
	}
	if mode&2 != 0 {
		u.wdl = t
	}
	u.rc.wake()
	u.wc.wake()
	if !t.IsZero() {
		time.AfterFunc(time.Until(t), func() {
			u.rc.wake()
			u.wc.wake()
		})
	}
	return nil
}

func past(t time.Time) bool { return !t.IsZero() && !time.Now().Before(t) }

func (u *usock) push(d *dgram) {
	if u.closed {
		return
	}
	u.q = append(u.q, d)
	u.rc.wake()
}

// simUDPNet hands out the sockets of a run.
type simUDPNet struct {
	w       *World
	socks   []*usock
	bindErr error
	nextEph int
}

func (n *simUDPNet) install() {
	net.SimListenUDP = user.Listen(func(network string, laddr, raddr *net.UDPAddr) (net.SimUDPSock, *net.UDPAddr, bool, error) {
		n.w.yield()
		if n.bindErr != nil {
			n.w.fault("bind_error")
			return nil, nil, false, n.bindErr
		}
		b := &net.UDPAddr{}
		if laddr != nil {
			b.IP, b.Port = laddr.IP, laddr.Port
		}
		v6 := b.IP == nil || b.IP.To4() == nil
		if network == "udp4" {
			v6 = false
		}
		if b.Port == 0 {
			n.nextEph++
			b.Port = 40000 + n.nextEph
		}
		for _, s := range n.socks {
			if !s.closed && s.addr.Port == b.Port && (s.addr.IP.Equal(b.IP) || s.addr.IP.IsUnspecified() || b.IP.IsUnspecified()) {
				n.w.fault("bind_error")
				return nil, nil, false, syscall.EADDRINUSE
			}
		}
		u := &usock{w: n.w, addr: b, v6: v6}
		n.socks = append(n.socks, u)
		return u, b, v6, nil
	})
}

// ---- the scenario ----

// UDPPlan drives one UDP adapter through its public interface.
type UDPPlan struct {
	Addr    string `json:"addr"`
	Port    int    `json:"port"`
	BindErr string `json:"binderr,omitempty"`
	Taken   bool   `json:"taken,omitempty"` // another adapter holds the address
	Actors  [][]Op `json:"actors"`
	Net     [][]Op `json:"net"`
	Writes  []WOp  `json:"writes,omitempty"`
	Pause   int    `json:"pause,omitempty"`
	Phases  int    `json:"phases"`
}

type udpCall struct {
	kind       string
	actor      int
	buf        []byte
	data       []byte
	size       int
	n          int
	err        error
	start, end int64
	sock0      int // socket writes before the call
	done       bool
	afterClose bool // started after a Close had returned
}

type udpRun struct {
	w       *World
	p       *UDPPlan
	rwc     *util.UDPReadWriteCloser
	sock    *usock
	calls   []*udpCall
	closeS  int64 // first Close started
	closeE  int64 // first Close returned
	pending int
	inClose int
	rbufs   map[int][]byte
	held    []*heldFrame
}

func (r *udpRun) runActor(k int, ops []Op) {
	w := r.w
	for i := range ops {
		op := ops[i]
		if w.basic(op) {
			continue
		}
		c := &udpCall{kind: op.K, actor: k, afterClose: r.closeE != 0}
		switch op.K {
		case "read":
			c.size = op.N
			c.buf = make([]byte, op.N)
			r.calls = append(r.calls, c)
			c.start = w.ev("uread", k, op.N)
			c.n, c.err = r.rwc.Read(c.buf)
			c.end = w.ev("ureadend", k, c.n)
			c.done = true
			if c.n >= 0 && c.n <= len(c.buf) {
				c.data = user.Read(c.buf[:c.n])
			}
		case "recv":
			r.recv(k, op, c)
		case "write":
			c.data = op.B
			c.buf = append([]byte(nil), op.B...)
			r.calls = append(r.calls, c)
			c.start = w.ev("uwrite", k, len(op.B))
			c.n, c.err = r.rwc.Write(c.buf)
			c.end = w.ev("uwriteend", k, c.n)
			c.done = true
			if !bytes.Equal(c.buf, c.data) {
				w.violate("C10", "buffer-changed", "Write changed the caller's buffer")
			}
			user.Write(c.buf, 0xaa) // the caller reuses its buffer
		case "close":
			r.calls = append(r.calls, c)
			c.start = w.ev("uclose", k, 0)
			if r.closeS == 0 {
				r.closeS = c.start
			}
			c.err = r.rwc.Close()
			c.end = w.ev("ucloseend", k, 0)
			c.done = true
			if r.closeE == 0 {
				r.closeE = c.end
			}
		}
	}
}

func (r *udpRun) runNet(ops []Op) {
	for i := range ops {
		op := ops[i]
		if r.w.basic(op) {
			continue
		}
		switch op.K {
		case "dgram":
			ip, port := parseAddr(op.S)
			r.sock.push(&dgram{data: append([]byte(nil), op.B...), ip: ip, port: port})
		case "err":
			r.sock.push(&dgram{err: errnos[op.S]})
		}
	}
}

func runUDP(w *World, p *UDPPlan) {
	r := &udpRun{w: w, p: p}
	sn := &simUDPNet{w: w}
	sn.install()
	defer func() { net.SimListenUDP = nil }()
	phases := p.Phases
	ready := make(chan struct{})
	w.goActor("main", true, func(a *actor) {
		defer close(ready)
		if p.Taken {
			first, err := util.NewUDPReadWriteCloser(p.Addr, p.Port)
			if err != nil {
				w.violate("C10", "bind", "binding %q port %d failed: %v", p.Addr, p.Port, err)
				return
			}
			second, err := util.NewUDPReadWriteCloser(p.Addr, p.Port)
			if err == nil {
				w.violate("C10", "bind-error-lost", "binding an address in use reported no error (%v)", second)
			}
			first.Close()
			if len(sn.socks) != 1 || !sn.socks[0].closed {
				w.violate("C10", "close", "Close did not close the socket")
			}
			sn.socks = nil
		}
		sn.bindErr = errnos[p.BindErr]
		rwc, err := util.NewUDPReadWriteCloser(p.Addr, p.Port)
		if sn.bindErr != nil {
			if err == nil || !errors.Is(err, sn.bindErr) {
				w.violate("C10", "bind-error-lost", "bind error %v reported as %v", sn.bindErr, err)
			}
			sn.bindErr = nil
			rwc, err = util.NewUDPReadWriteCloser(p.Addr, p.Port)
		}
		if err != nil {
			w.violate("C10", "bind", "binding %q port %d failed: %v", p.Addr, p.Port, err)
			return
		}
		if rwc == nil || len(sn.socks) != 1 {
			w.violate("C10", "bind", "the constructor succeeded with %d sockets", len(sn.socks))
			return
		}
		r.rwc, r.sock = rwc, sn.socks[0]
		want := net.ParseIP(p.Addr)
		if got := r.sock.addr; (p.Port != 0 && got.Port != p.Port) || (p.Addr != "" && !got.IP.Equal(want)) || (p.Addr == "" && len(got.IP) != 0 && !got.IP.IsUnspecified()) {
			w.violate("C10", "bind-address", "asked for %q port %d, bound %v", p.Addr, p.Port, got)
		}
		r.sock.wops = p.Writes
		r.sock.pause = p.Pause
		for i := range p.Net {
			ops := p.Net[i]
			w.goActor(fmt.Sprint("peer", i), false, func(a *actor) { r.runNet(ops) })
		}
		for i := range p.Actors {
			k := i
			w.goActor(fmt.Sprint("user", i), true, func(a *actor) { r.runActor(k, p.Actors[k]) })
		}
	})
	for ph := 0; ph < phases; ph++ {
		w.setPhase(ph)
		w.settle(func() { r.idle() })
	}
	if r.rwc != nil {
		w.goActor("closer", true, func(a *actor) {
			follows(ready)
			r.runActor(1000, []Op{{K: "close"}})
		})
	}
	w.setPhase(1 << 20)
	w.settle(func() { r.idle() })
	r.final()
	for _, a := range w.actors {
		if a.panicked {
			w.violate(w.plan.Property, "panic", "%s panicked: %s at %s", a.name, a.pval, a.stack)
		}
	}
}

// idle: nothing can run, yet readers wait.
func (r *udpRun) idle() {
	if r.sock == nil || r.closeS != 0 || r.w.sleepers > 0 {
		return
	}
	readsDone := 0
	waiting := 0
	for _, c := range r.calls {
		if c.kind == "read" {
			if c.done {
				readsDone++
			} else {
				waiting++
			}
		}
	}
	busyWrite := false
	for _, c := range r.calls {
		if c.kind == "write" && !c.done {
			busyWrite = true
		}
	}
	if waiting > 0 && !busyWrite && (len(r.sock.q) > 0 || readsDone < len(r.sock.popped)+len(r.sock.rerrs)) {
		r.w.violate("C10", "read-stuck", "a read waits although %d datagrams or errors have arrived and only %d reads have returned", len(r.sock.q)+len(r.sock.popped)+len(r.sock.rerrs), readsDone)
	}
	if busyWrite && r.sock.inWrite == 0 {
		r.w.violate("C10", "write-stuck", "a write waits although no send to the network is under way")
	}
	r.w.hit("idle_checked")
}

func (r *udpRun) final() {
	w := r.w
	if r.rwc == nil {
		return
	}
	s := r.sock
	for _, c := range r.calls {
		if !c.done {
			w.violate("C10", "blocked", "%s by user %d never returned although the adapter was closed", c.kind, c.actor)
		}
	}
	if !s.closed {
		w.violate("C10", "close", "Close did not close the socket")
	}
	// Reads.
	ret := map[*dgram]bool{}
	next := 0
	type rd struct {
		c *udpCall
		d *dgram
	}
	var reads []rd
	emptyReads, emptyPopped := 0, 0
	byData := map[string][]*dgram{}
	for _, d := range s.popped {
		if len(d.data) == 0 {
			emptyPopped++
		} else {
			byData[string(d.data)] = append(byData[string(d.data)], d)
		}
	}
	_ = next
	for _, c := range r.calls {
		if c.kind != "read" || !c.done {
			continue
		}
		if c.afterClose {
			if c.err == nil {
				w.violate("C10", "read-after-close", "a read after Close returned %d bytes", c.n)
			}
			continue
		}
		if c.err != nil {
			ok := r.closeS != 0 && r.closeS < c.end && errors.Is(c.err, net.ErrClosed)
			for _, n := range errnoNames {
				if errors.Is(c.err, errnos[n]) {
					ok = true
				}
			}
			if !ok {
				w.violate("C10", "read-error", "read failed with %v, which no socket error explains", c.err)
			}
			continue
		}
		if c.n < 0 || c.n > c.size {
			w.violate("C10", "read-bytes", "read into %d bytes returned %d", c.size, c.n)
			continue
		}
		if !bytes.Equal(c.buf[:c.n], c.data) {
			w.violate("C10", "read-bytes", "the read buffer changed after the read returned")
		}
		var d *dgram
		if c.n == 0 {
			// empty datagram, or any datagram into an empty buffer
			if c.size > 0 {
				emptyReads++
				continue
			}
			continue
		}
		for _, e := range s.popped {
			if !ret[e] && len(e.data) > 0 && (bytes.Equal(e.data, c.data) || (len(e.data) > c.size && c.n == c.size && bytes.Equal(e.data[:c.size], c.data))) {
				d = e
				break
			}
		}
		if d == nil {
			w.violate("C10", "read-bytes", "read returned %q, which is no datagram that arrived (or one returned before)", abbrev(c.data))
			continue
		}
		ret[d] = true
		reads = append(reads, rd{c, d})
	}
	for i := range reads {
		for j := range reads {
			if reads[i].c.end < reads[j].c.start && reads[i].d.idx > reads[j].d.idx {
				w.violate("C10", "read-order", "datagram %d was returned before datagram %d", reads[i].d.idx, reads[j].d.idx)
			}
		}
	}
	if emptyReads > emptyPopped {
		w.violate("C10", "read-bytes", "%d reads returned an empty datagram but %d arrived", emptyReads, emptyPopped)
	}
	// Every socket error is returned, once.
	left := append([]error(nil), s.rerrs...)
	for _, c := range r.calls {
		if c.kind != "read" || !c.done || c.err == nil || errors.Is(c.err, net.ErrClosed) {
			continue
		}
		hit := false
		for i, e := range left {
			if errors.Is(c.err, e) {
				left = append(left[:i], left[i+1:]...)
				hit = true
				break
			}
		}
		if !hit {
			w.violate("C10", "read-error", "read failed with %v, but the socket did not report that (again)", c.err)
		}
	}
	_ = left // idle() finds errors that no read returns
	// Every datagram taken from the socket before Close was called reached a reader.
	zeroBuf := 0
	for _, c := range r.calls {
		if c.kind == "read" && c.done && c.err == nil && c.n == 0 {
			zeroBuf++
		}
	}
	lost := 0
	for _, d := range s.popped {
		if !ret[d] {
			lost++
		}
	}
	lateReads := 0
	for _, c := range r.calls {
		if c.kind == "read" && (!c.done || (r.closeS != 0 && c.end > r.closeS)) {
			lateReads++
		}
	}
	if lost > zeroBuf+lateReads {
		w.violate("C10", "read-lost", "%d datagrams were taken from the socket but never returned", lost-zeroBuf)
	}
	// Writes.
	used := map[*sockWrite]bool{}
	matched := map[*udpCall]bool{}
	for _, sw := range s.sent {
		var hit *udpCall
		for _, c := range r.calls {
			if c.kind == "write" && c.done && !matched[c] && (c.err == nil) == (sw.err == nil) && errors.Is(c.err, sw.err) && c.start < sw.seq && sw.seq < c.end && bytes.Equal(sw.data, c.data) && (hit == nil || c.end < hit.end) {
				hit = c
			}
		}
		if hit != nil {
			used[sw] = true
			matched[hit] = true
		}
	}
	for _, c := range r.calls {
		if c.kind != "write" || !c.done {
			continue
		}
		if c.err == nil {
			if c.n != len(c.data) {
				w.violate("C10", "write-count", "a successful write of %d bytes returned %d", len(c.data), c.n)
			}
			if c.afterClose {
				w.violate("C10", "write-after-close", "a write after Close succeeded")
			}
			if !matched[c] {
				w.violate("C10", "write-bytes", "a successful write of %q sent no such datagram", abbrev(c.data))
			}
		} else if !errors.Is(c.err, util.ErrNoAddress) {
			ok := r.closeS != 0 && r.closeS < c.end && errors.Is(c.err, net.ErrClosed)
			for _, n := range append(errnoNames, "EMSGSIZE") {
				if errors.Is(c.err, errnos[n]) {
					ok = true
				}
			}
			if !ok {
				w.violate("C10", "write-error", "write failed with %v, which no socket error explains", c.err)
			}
		}
	}
	for _, sw := range s.sent {
		if !used[sw] {
			w.violate("C10", "extra-datagram", "a datagram %q left the socket that no write asked for (or that was reported as failed)", abbrev(sw.data))
		}
	}
	r.checkPeer()
	r.checkFrames(-1)
}

// checkPeer: the first datagram a read returned decides where writes go.
func (r *udpRun) checkPeer() {
	w := r.w
	s := r.sock
	firstRead := int64(1 << 60) // earliest end of a successful read
	for _, c := range r.calls {
		if c.kind == "read" && c.done && c.err == nil && c.end < firstRead {
			firstRead = c.end
		}
	}
	target := ""
	for _, sw := range s.sent {
		if target == "" {
			target = sw.to
		} else if sw.to != target {
			w.violate("C09", "two-peers", "writes went to %s and to %s", target, sw.to)
		}
	}
	firstOK := int64(1 << 60)
	for _, c := range r.calls {
		if c.kind != "write" || !c.done {
			continue
		}
		noAddr := errors.Is(c.err, util.ErrNoAddress)
		if c.err == nil && c.end < firstOK {
			firstOK = c.end
		}
		if noAddr {
			if c.start > firstRead {
				w.violate("C09", "no-address", "a write after the first read failed with the no-address error")
			}
			for _, sw := range s.sent {
				if sw.seq > c.start && sw.seq < c.end && bytes.Equal(sw.data, c.data) && len(c.data) > 4 {
					w.violate("C09", "sent-without-address", "a write that reported no address sent %q", abbrev(sw.data))
				}
			}
			w.hit("no_address")
		}
	}
	for _, c := range r.calls {
		if c.kind == "write" && c.done && errors.Is(c.err, util.ErrNoAddress) && c.start > firstOK {
			w.violate("C09", "no-address", "a write failed with the no-address error after an earlier write had succeeded")
		}
	}
	if target == "" {
		return
	}
	w.hit("peer_checked")
	// The target must be the sender of a datagram whose read could be the first:
	// no other successful read returned before that read began.
	ok := false
	firstWrite := s.sent[0].seq
	for _, d := range s.popped {
		if addrKey(d.ip, d.port) != target {
			continue
		}
		for _, c := range r.calls {
			if c.kind != "read" || (c.done && c.err != nil) || c.start > firstRead || c.start > firstWrite {
				continue
			}
			if len(d.data) > 0 && c.done && c.n > 0 && !bytes.HasPrefix(d.data, c.data) {
				continue
			}
			if len(d.data) == 0 && c.done && c.n > 0 {
				continue
			}
			if len(d.data) > 0 && c.done && c.n == 0 && c.size > 0 {
				continue
			}
			ok = true
		}
	}
	if !ok {
		w.violate("C09", "wrong-peer", "writes went to %s, which is not the sender of the first datagram read", target)
	}
}

// ---- generation ----

func genUDP(r *Rng, prop string) *UDPPlan {
	p := &UDPPlan{Phases: r.Range(1, 3)}
	switch r.N(6) {
	case 0:
		p.Addr = ""
	case 1:
		p.Addr = "127.0.0.1"
	case 2:
		p.Addr = "192.0.2.7"
	default:
		p.Addr = "0.0.0.0"
	}
	p.Port = r.Pick(5000, 14550, 14551, 1, 65535, 0)
	if r.P(1, 8) {
		p.BindErr = r.Str("EADDRINUSE", "EACCES", "EMFILE", "EADDRNOTAVAIL")
	}
	if p.Port != 0 && r.P(1, 10) {
		p.Taken = true
	}
	p.Pause = r.Pick(0, 0, 1, 3)
	npeer := r.Range(1, 4)
	addrs := []string{}
	for i := 0; i < npeer; i++ {
		switch r.N(5) {
		case 0:
			addrs = append(addrs, fmt.Sprintf("10.0.0.%d|%d", r.Range(1, 3), r.Range(14550, 14552)))
		case 1:
			addrs = append(addrs, fmt.Sprintf("127.0.0.1|%d", r.Range(1, 65535)))
		case 2:
			if p.Addr == "" {
				addrs = append(addrs, fmt.Sprintf("2001:db8::%d|%d", r.Range(1, 3), r.Range(14550, 14552)))
				continue
			}
			fallthrough
		default:
			addrs = append(addrs, fmt.Sprintf("10.1.%d.%d|14550", r.N(2), r.Range(1, 4)))
		}
	}
	tag := 0
	var msgs []*MsgSpec
	if prop == "C23" {
		msgs = tableMsgs([]string{"common"})
	}
	uniq := func(n int) []byte {
		if prop == "C23" {
			return genRxDatagram(r, msgs)
		}
		b := r.Bytes(n)
		tag++
		if n >= 4 {
			b[0], b[1], b[2], b[3] = 0xd5, byte(tag>>8), byte(tag), byte(n)
		}
		return b
	}
	long := false
	size := func() int {
		if long && !r.P(1, 50) {
			return r.Range(8, 60)
		}
		switch r.N(8) {
		case 0:
			return 0
		case 1:
			return r.Range(4, 8)
		case 2:
			return r.Pick(279, 280, 1472, 4096, 4097, 9000)
		case 3:
			return r.Pick(65507, 2000, 512)
		}
		return r.Range(8, 60)
	}
	nd := r.Range(0, 10*scale(r))
	if prop == "C23" {
		nd = r.Range(1, 20)
	}
	long = r.P(1, 300) || deepPlans && r.P(1, 60)
	if long { // much traffic: counters wrap, caches fill
		nd = r.Range(200, 700)
	}
	for i := 0; i < r.Range(1, 2); i++ {
		var ops []Op
		for k := 0; k < nd; k++ {
			ops = append(ops, genDelay(r, true)...)
			if p.Phases > 1 && r.P(1, 6) {
				ops = append(ops, Op{K: "phase", N: r.N(p.Phases)})
			}
			if r.P(1, 9) {
				ops = append(ops, Op{K: "err", S: errnoNames[r.N(len(errnoNames))]})
				continue
			}
			ops = append(ops, Op{K: "dgram", B: uniq(size()), S: addrs[r.N(len(addrs))]})
		}
		if r.P(1, 5) { // a long silence
			k := r.N(len(ops) + 1)
			d := int64(r.Pick(31, 61, 301, 3601, 172800))*1e9 + int64(r.N(1e9))
			ops = append(ops[:k:k], append([]Op{{K: "sleep", D: d}}, ops[k:]...)...)
		}
		p.Net = append(p.Net, ops)
	}
	readers := r.Pick(1, 1, 2, 3)
	for i := 0; i < readers; i++ {
		var ops []Op
		for k := 0; k < r.Range(0, 2*nd+2); k++ {
			if r.P(1, 3) {
				ops = append(ops, genDelay(r, true)...)
			}
			n := r.Pick(65536, 65536, 65536, 4096, 300)
			if r.P(1, 12) {
				n = r.Range(4, 60)
			}
			if prop == "C23" {
				ops = append(ops, Op{K: "recv", N: r.Pick(2048, 2048, 600), D: int64(r.N(1 << 20))})
				continue
			}
			ops = append(ops, Op{K: "read", N: n})
		}
		p.Actors = append(p.Actors, ops)
	}
	nw := 0
	for i := 0; i < r.Range(1, 3); i++ {
		var ops []Op
		cnt := r.Range(1, 8)
		if long {
			cnt = r.Range(8, 400)
		}
		for k := 0; k < cnt; k++ {
			ops = append(ops, genDelay(r, true)...)
			if p.Phases > 1 && r.P(1, 6) {
				ops = append(ops, Op{K: "phase", N: r.N(p.Phases)})
			}
			n := size()
			if n > 0 && n < 4 {
				n = 4
			}
			if r.P(1, 30) {
				n = 65508
			}
			ops = append(ops, Op{K: "write", B: uniq(n)})
			nw++
		}
		p.Actors = append(p.Actors, ops)
	}
	for i := 0; i < nw; i++ {
		switch {
		case r.P(1, 8):
			p.Writes = append(p.Writes, WOp{At: i, K: "err", N: r.N(5)})
		case r.P(1, 6):
			p.Writes = append(p.Writes, WOp{At: i, K: "pause", N: r.Range(1, 8)})
		case r.P(1, 10):
			p.Writes = append(p.Writes, WOp{At: i, K: "sleep", D: r.Dur()})
		case r.P(1, 25):
			p.Writes = append(p.Writes, WOp{At: i, K: "block"})
		}
	}
	if r.P(1, 2) {
		for i := 0; i < r.Range(1, 2); i++ {
			ops := genDelay(r, true)
			if p.Phases > 1 {
				ops = append(ops, Op{K: "phase", N: r.N(p.Phases)})
			}
			ops = append(ops, Op{K: "pause", N: r.Range(0, 30)}, Op{K: "close"})
			switch r.N(4) {
			case 0:
				ops = append(ops, Op{K: "read", N: 4096})
			case 1:
				ops = append(ops, Op{K: "write", B: uniq(20)})
			case 2:
				ops = append(ops, Op{K: "close"}, Op{K: "write", B: uniq(9)}, Op{K: "read", N: 65536})
			}
			p.Actors = append(p.Actors, ops)
		}
	}
	return p
}

var _ = runtime.SimNow
