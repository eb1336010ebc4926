package main

import (
	"bytes"
	"io"
	"runtime"
	"sort"

	mav "github.com/botlink/go-mavlink2"
)

func abbrev(b []byte) string {
	const hexd = "0123456789abcdef"
	n := len(b)
	if n > 40 {
		n = 40
	}
	out := make([]byte, 0, 2*n+3)
	for _, x := range b[:n] {
		out = append(out, hexd[x>>4], hexd[x&15])
	}
	if n < len(b) {
		out = append(out, "..."...)
	}
	return string(out)
}

// compareScan checks that what was delivered is a prefix of the reference
// scan, or, with full set, equals it.
func (s *streamRun) compareScan(exp []refFrame, full bool, when string) {
	prop := "C01"
	if s.p.Raw {
		prop = "C19"
	}
	bad := -1
	for i, d := range s.got {
		if i >= len(exp) {
			bad = i
			break
		}
		if s.scribbled[i] {
			continue
		}
		e := exp[i]
		if d.frame == nil || !bytes.Equal(d.data, s.conn.arrived[e.off:e.off+e.n]) {
			bad = i
			break
		}
	}
	if bad < 0 && full && len(s.got) < len(exp) {
		bad = len(s.got)
	}
	if bad < 0 {
		return
	}
	var want, have []byte
	if bad < len(exp) {
		want = s.conn.arrived[exp[bad].off : exp[bad].off+exp[bad].n]
	}
	if bad < len(s.got) {
		have = s.got[bad].data
	}
	class := "wrong-frame"
	switch {
	case want == nil:
		class = "extra-frame"
	case have == nil:
		class = "missing-frame"
	}
	det := func(p string) {
		s.w.violate(p, class, "stream %d, %s: frame %d of %d expected after %d received bytes: want %q, got %q", s.id, when, bad, len(exp), len(s.conn.arrived), abbrev(want), abbrev(have))
	}
	det(prop)
	if s.p.Raw && bad < len(exp) && exp[bad].valid && !s.p.Mutating() {
		det("C01")
	}
	signed := func(b []byte) bool { return len(b) > 3 && b[0] == 0xfd && b[2]&1 != 0 }
	if signed(want) || signed(have) || (bad > 0 && bad-1 < len(exp) && exp[bad-1].valid && signed(s.conn.arrived[exp[bad-1].off:])) {
		det("C14")
	}
	if s.p.Mutating() && have != nil && want != nil && bytes.Contains(have, []byte{0xaa, 0xaa, 0xaa}) && !bytes.Contains(want, []byte{0xaa, 0xaa, 0xaa}) {
		s.w.violate("C15", "foreign-bytes", "stream %d: frame %d carries bytes another frame was overwritten with: got %q, want %q", s.id, bad, abbrev(have), abbrev(want))
	}
	if s.stalledAt >= 0 && bad >= s.stalledAt {
		det("C20")
	}
}

func (p *StreamPlan) Mutating() bool { return p.Mutate != "" || p.Log.Mutate > 0 }

// anyCause reports whether anything that may end the stream has begun.
func (s *streamRun) anyCause() bool {
	for _, c := range s.causes {
		if !c.dead || runtime.SimNow() >= c.at {
			return true
		}
	}
	return s.conn.readErr != nil || s.writeErr() != nil
}

func (s *streamRun) writeErr() *writeRec {
	for _, r := range s.conn.writes {
		if r.done && r.err != nil && r.err != errConnClosed {
			return r
		}
	}
	return nil
}

func (s *streamRun) writeBusy() bool {
	for _, r := range s.conn.writes {
		if !r.done {
			return true
		}
	}
	return false
}

// mustEnd names an event after which the stream has to shut down, if any.
func (s *streamRun) mustEnd() string {
	for _, c := range s.causes {
		switch c.kind {
		case "close":
			return "Close"
		case "cancelR", "cancelW":
			if c.dead && runtime.SimNow() < c.at {
				continue
			}
			if c.kind == "cancelR" && (s.rActor != nil || (s.p.CtxW == "shared" && s.wActor != nil)) {
				return "cancellation"
			}
			if c.kind == "cancelW" && s.wActor != nil {
				return "cancellation"
			}
		case "closeInput":
			if s.wActor != nil && !s.writeBusy() {
				return "closing the write channel"
			}
		}
	}
	if s.writeErr() != nil {
		return "a failed write"
	}
	if s.conn.readErr != nil && s.inLog == 0 {
		if s.waiting || s.sawEnd || len(s.got) == len(s.tbl.scan(s.conn.arrived, s.p.Raw, true)) {
			return "a failed read"
		}
	}
	return ""
}

func (s *streamRun) closedSignal() bool {
	select {
	case <-s.st.Closed():
		return true
	default:
		return false
	}
}

// snapshot evaluates the invariants while the system is idle.
func (s *streamRun) snapshot(full bool) {
	w := s.w
	stuckInTransport := s.p.Conn.Sticky && s.conn.closeSeq > 0 && !s.conn.unblocked
	if s.inLog > 0 || s.conn.slow > 0 || (s.conn.closeSeq > 0 && !s.conn.closed) {
		return // a slow logger or transport call is in progress
	}
	// spontaneous end
	if s.conn.closeSeq > 0 || (s.rActor != nil && s.rActor.done) || (s.wActor != nil && s.wActor.done) {
		if !s.anyCause() {
			w.violate(w.plan.Property, "spurious-close", "stream %d ended although nothing closed it (close reason %v)", s.id, s.st.GetCloseErr())
		}
	}
	if !stuckInTransport {
		for _, k := range []string{"Close", "GetCloseErr"} {
			if n := s.inCall[k]; n > 0 {
				w.violate("C05", "blocked-call", "stream %d: idle with %d calls of %s that do not return", s.id, n, k)
			}
		}
	}
	live := !s.anyCause()
	if s.rActor != nil && !s.rActor.done && live {
		exp := s.tbl.scan(s.conn.arrived, s.p.Raw, false)
		if s.waiting {
			if len(s.conn.q) > 0 {
				p := "C01"
				if s.p.Raw {
					p = "C19"
				}
				w.violate(p, "stuck", "stream %d: idle with %d unread chunks on the transport and a waiting consumer", s.id, len(s.conn.q))
				if s.stalledAt >= 0 {
					w.violate("C20", "stuck", "stream %d: reading did not resume after the consumer did", s.id)
				}
			}
			s.compareScan(exp, true, "idle")
			s.checkClean()
			w.hit("idle_consumer_waiting")
		} else {
			s.compareScan(exp, false, "idle, consumer busy")
			if len(exp) > len(s.got) && !s.sawEnd {
				if s.stalledAt < 0 {
					s.stalledAt = len(s.got)
				}
				w.hit("idle_consumer_stalled")
				if ahead := len(s.conn.arrived) - exp[len(s.got)].off; ahead > 65536 {
					w.violate("C20", "hoarding", "stream %d: %d bytes taken from the transport beyond the first frame the stalled consumer did not take", s.id, ahead)
				}
			}
		}
		if n := len(s.logR); s.p.Log.On && (n < len(s.got) || n > len(s.got)+1 || (s.waiting && n != len(s.got))) {
			w.violate("C08", "read-count", "stream %d: idle with %d frames delivered but %d logged as read", s.id, len(s.got), n)
		}
	}
	if s.wActor != nil && !s.wActor.done && live && !s.writeBusy() {
		done := 0
		for _, r := range s.sends {
			if r.done {
				done++
			}
		}
		if s.sending > 0 || done != len(s.conn.writes) {
			w.violate("C04", "unwritten", "stream %d: idle with %d frames accepted, %d senders waiting and only %d writes", s.id, done, s.sending, len(s.conn.writes))
			if s.rActor != nil && !s.rActor.done && !s.waiting && s.stalledAt >= 0 {
				w.violate("C20", "write-stalled", "stream %d: the stalled consumer also stopped writing: %d frames accepted, %d senders waiting, %d writes", s.id, done, s.sending, len(s.conn.writes))
			}
		}
		if s.p.Log.On && len(s.logW) != len(s.conn.writes) {
			w.violate("C08", "write-count", "stream %d: idle with %d completed writes but %d logged", s.id, len(s.conn.writes), len(s.logW))
		}
	}
	if why := s.mustEnd(); why != "" && !stuckInTransport {
		s.checkShutdown(why)
	}
	// A transport that ends or fails loses nothing that had arrived.
	if s.conn.readErr != nil && s.sawEnd && s.onlyReadErr() {
		w.hit("transport_end_drained")
		s.compareScan(s.tbl.scan(s.conn.arrived, s.p.Raw, true), true, "after the transport ended")
		s.checkClean()
	}
	if full {
		s.checkHeld()
	}
}

func (s *streamRun) onlyReadErr() bool {
	for _, c := range s.causes {
		if c.dead {
			if c.at <= s.conn.closeAt {
				return false
			}
		} else if c.seq < s.endSeq() {
			return false
		}
	}
	for _, r := range s.conn.writes {
		if r.err != nil && r.end < s.endSeq() {
			return false
		}
	}
	return true
}

func (s *streamRun) endSeq() int64 {
	if s.conn.closeSeq > 0 {
		return s.conn.closeSeq
	}
	return 1 << 60
}

func (s *streamRun) checkShutdown(why string) {
	w := s.w
	if s.rActor != nil && !s.rActor.done {
		w.violate("C06", "read-loop-stuck", "stream %d: the read loop did not return after %s", s.id, why)
	}
	if s.wActor != nil && !s.wActor.done {
		w.violate("C06", "write-loop-stuck", "stream %d: the write loop did not return after %s", s.id, why)
	}
	if s.conn.closeCount != 1 {
		w.violate("C06", "transport-close", "stream %d: the transport was closed %d times after %s", s.id, s.conn.closeCount, why)
	}
	if !s.closedSignal() {
		w.violate("C06", "closed-signal", "stream %d: the closed signal is not given after %s", s.id, why)
	}
	if s.waiting {
		w.violate("C06", "read-channel-open", "stream %d: the consumer still waits after %s", s.id, why)
	}
	if w.plan.Stream != nil && len(w.viol) == 0 {
		if g := w.leaked(); g != "" {
			w.violate("C06", "goroutine-left", "stream %d: a goroutine the stream started is still there after %s: %s", s.id, why, g)
		}
	}
	w.hit("shutdown_checked")
}

func (s *streamRun) checkClean() {
	if len(s.p.Clean) == 0 || s.p.Raw {
		return
	}
	arr := s.conn.arrived
	have := map[string]bool{}
	for _, d := range s.got {
		have[string(d.data)] = true
	}
	var scan []refFrame
	for i, c := range s.p.Clean {
		off, n := c[0], c[1]
		if off+n+280 > len(arr) {
			break
		}
		if have[string(arr[off:off+n])] {
			continue
		}
		if scan == nil {
			scan = s.tbl.scan(arr, false, false)
		}
		collision := false
		for _, f := range scan {
			if f.off < off+n && f.off+f.n > off && !(f.off == off && f.n == n) {
				collision = true
			}
		}
		if !collision {
			s.w.violate("C03", "lost-after-noise", "stream %d: clean frame %d (offset %d, %d bytes, noise ended at %d) not delivered although %d further bytes arrived", s.id, i, off, n, s.p.NoiseEnd, len(arr)-off-n)
		}
	}
}

// checkHeld: frames the consumer holds never change.
func (s *streamRun) checkHeld() {
	for i, d := range s.got {
		if d.frame != nil && !bytes.Equal(d.frame.Bytes(), d.held) {
			s.w.violate("C15", "changed", "stream %d: delivered frame %d changed from %q to %q", s.id, i, abbrev(d.held), abbrev(d.frame.Bytes()))
		}
	}
}

func (s *streamRun) preTeardown() {
	s.checkHeld()
}

// final evaluates the history of the whole run.
func (s *streamRun) final() {
	w := s.w
	s.checkHeld()
	// C05 / C06
	for k, n := range s.inCall {
		if n > 0 {
			w.violate("C05", "blocked-call", "stream %d: %d calls of %s never returned", s.id, n, k)
		}
	}
	if s.rActor != nil && !s.rActor.done {
		w.violate("C05", "read-loop-stuck", "stream %d: the read loop never returned after the stream was closed", s.id)
	}
	if s.wActor != nil && !s.wActor.done {
		w.violate("C05", "write-loop-stuck", "stream %d: the write loop never returned after the stream was closed", s.id)
	}
	s.checkShutdown("the final Close")
	if !s.sawEnd {
		w.violate("C06", "read-channel-open", "stream %d: the read channel was never closed", s.id)
	}
	s.checkIntegrity()
	if s.rActor != nil {
		// Whatever was delivered is a prefix of the reference scan.
		s.compareScan(s.tbl.scan(s.conn.arrived, s.p.Raw, true), false, "at the end")
	} else if len(s.got) > 0 {
		w.violate("C01", "extra-frame", "stream %d: frames delivered without a read loop", s.id)
	}
	s.checkWrites()
	s.checkReason()
	if s.p.Log.On {
		s.checkLog()
	}
}

// checkIntegrity: everything delivered really arrived and is valid.
func (s *streamRun) checkIntegrity() {
	if s.p.Raw {
		return
	}
	pos := 0
	for i, d := range s.got {
		if s.scribbled[i] {
			continue
		}
		b := d.data
		if len(b) < 8 || claimed(b) != len(b) {
			s.w.violate("C02", "malformed", "stream %d: delivered frame %d is no frame: %q", s.id, i, abbrev(b))
			return
		}
		if !s.tbl.validFrame(b) {
			s.w.violate("C02", "invalid", "stream %d: delivered frame %d is not valid: %q", s.id, i, abbrev(b))
			return
		}
		k := bytes.Index(s.conn.arrived[pos:], b)
		if k < 0 {
			s.w.violate("C02", "not-received", "stream %d: delivered frame %d never arrived: %q", s.id, i, abbrev(b))
			return
		}
		pos += k + len(b)
	}
}

func (s *streamRun) checkWrites() {
	w := s.w
	var all []*sendRec // frames that are sent once
	for _, r := range s.sends {
		if s.offered[string(r.frame)] == 1 {
			all = append(all, r)
		}
	}
	known := map[string]bool{}
	for _, f := range s.frames {
		known[string(f)] = true
	}
	at, count := map[string]int{}, map[string]int{}
	failed := false
	for i, wr := range s.conn.writes {
		if failed && wr.err != errConnClosed {
			w.violate("C04", "write-after-failure", "stream %d: write %d after a failed write put %d bytes on the transport", s.id, i, wr.n)
		}
		key := string(wr.data)
		if !known[key] {
			w.violate("C04", "altered", "stream %d: write %d is not a frame that was sent: %q", s.id, i, abbrev(wr.data))
			continue
		}
		count[key]++
		if count[key] > s.offered[key] {
			w.violate("C04", "repeated", "stream %d: write %d: frame %q written %d times but sent %d times", s.id, i, abbrev(wr.data), count[key], s.offered[key])
			continue
		}
		if i < len(s.inOrder) && !bytes.Equal(s.inOrder[i], wr.data) {
			w.violate("C04", "order", "stream %d: write %d is frame %q, the only sender sent %q", s.id, i, abbrev(wr.data), abbrev(s.inOrder[i]))
		}
		at[key] = i
		if wr.done && wr.err != nil {
			failed = true
		}
	}
	missing := 0
	for _, a := range s.sends {
		if key := string(a.frame); count[key] > 0 {
			count[key]--
		} else {
			missing++
		}
	}
	// Of two frames one of which was accepted before the other was offered, the
	// first is written before the other.
	where := func(r *sendRec) int {
		if i, ok := at[string(r.frame)]; ok {
			return i
		}
		return 1 << 60
	}
	byEnd := append([]*sendRec(nil), all...)
	sort.SliceStable(byEnd, func(i, j int) bool { return byEnd[i].end < byEnd[j].end })
	sort.SliceStable(all, func(i, j int) bool { return all[i].start < all[j].start })
	k := 0
	var last *sendRec // of those accepted before b, the one written last
	for _, b := range all {
		for k < len(byEnd) && byEnd[k].end < b.start {
			if last == nil || where(byEnd[k]) > where(last) {
				last = byEnd[k]
			}
			k++
		}
		if last != nil && where(b) < where(last) {
			w.violate("C04", "order", "stream %d: frame %q was accepted before %q but not written before it", s.id, abbrev(last.frame), abbrev(b.frame))
			return
		}
	}
	if s.wActor == nil {
		return
	}
	allowed := s.p.InCap + 1
	graceful := true
	for _, c := range s.causes {
		if c.kind != "closeInput" && (c.seq < s.endSeq() || c.dead) {
			graceful = false
		}
	}
	if graceful && s.conn.readErr == nil && s.writeErr() == nil {
		allowed = 0
	}
	if missing > allowed {
		w.violate("C04", "dropped", "stream %d: %d accepted frames were never written (the stream may lose at most %d when it closes)", s.id, missing, allowed)
	}
}

// reasonOK says whether something that happened before the stream closed has
// the reason r; a failed read comes last and is reported in onlyRead.
func (s *streamRun) reasonOK(r error) (ok, onlyRead bool) {
	end := s.endSeq()
	for _, c := range s.causes {
		ok := c.seq < end
		if c.dead {
			ok = c.at <= s.conn.closeAt
		}
		if !ok {
			continue
		}
		switch c.kind {
		case "cancelR":
			if s.rActor == nil && !(s.p.CtxW == "shared" && s.wActor != nil) {
				continue
			}
		case "cancelW", "closeInput":
			if s.wActor == nil {
				continue
			}
		}
		if r == c.err {
			return true, false
		}
	}
	for _, wr := range s.conn.writes {
		if wr.done && wr.err != nil && wr.err != errConnClosed && wr.end < end && r == wr.err {
			return true, false
		}
	}
	if s.conn.readErr != nil && s.conn.readErrSeq < end {
		if r == s.conn.readErr || (s.conn.readErr == io.EOF && r == io.ErrUnexpectedEOF) {
			return true, true
		}
	}
	return false, false
}

// rivalCause says whether anything but a failed read could have closed the stream.
func (s *streamRun) rivalCause() bool {
	end := s.endSeq()
	for _, c := range s.causes {
		if c.seq < end && (!c.dead || c.at <= s.conn.closeAt) {
			return true
		}
	}
	return s.writeErr() != nil
}

func (s *streamRun) checkReason() {
	w := s.w
	if !s.closedSignal() {
		return
	}
	r := s.st.GetCloseErr()
	if r == nil {
		w.violate("C07", "no-reason", "stream %d: closed without a reason", s.id)
		return
	}
	ok, onlyRead := s.reasonOK(r)
	if onlyRead && s.rivalCause() {
		// The loop meets the end of the transport behind the frames before it.
		w.hit("reason_is_read_error")
		if n := len(s.tbl.scan(s.conn.arrived, s.p.Raw, true)); len(s.got) < n {
			w.violate("C07", "early-read-reason", "stream %d: close reason %q, although of %d frames that arrived before the transport failed only %d had been taken", s.id, r, n, len(s.got))
		}
	}
	if !ok {
		var cs []string
		for _, c := range s.causes {
			cs = append(cs, c.kind)
		}
		w.violate("C07", "wrong-reason", "stream %d: close reason %q does not name what closed it (causes so far %v, read error %v)", s.id, r, cs, s.conn.readErr)
	}
	first := int64(1 << 60)
	for _, c := range s.causes {
		if c.dead {
			first = 0
		} else if c.seq < first {
			first = c.seq
		}
	}
	if s.conn.readErr != nil && s.conn.readErrSeq < first {
		first = s.conn.readErrSeq
	}
	if wr := s.writeErr(); wr != nil && wr.start < first {
		first = wr.start
	}
	var seen error
	var seenAt int64
	for _, o := range s.obs {
		if o.seq < first && o.err != nil {
			w.violate("C07", "early-reason", "stream %d: a close reason (%v) before anything closed the stream", s.id, o.err)
		}
		if o.after && o.err == nil {
			w.violate("C07", "late-reason", "stream %d: no close reason although the stream was seen closed", s.id)
		}
		if o.err != nil {
			if seen != nil && o.err != seen {
				w.violate("C07", "changed", "stream %d: close reason changed from %v to %v", s.id, seen, o.err)
			}
			if seen == nil {
				seenAt = o.seq
			}
			seen = o.err
		} else if seen != nil && seenAt < o.start {
			w.violate("C07", "changed", "stream %d: close reason changed from %v to nil", s.id, seen)
		}
	}
	if seen != nil && seen != r {
		w.violate("C07", "changed", "stream %d: close reason changed from %v to %v", s.id, seen, r)
	}
}

func (s *streamRun) checkLog() {
	w := s.w
	if n := len(s.logR); n < len(s.got) || n > len(s.got)+1 {
		w.violate("C08", "read-count", "stream %d: %d frames delivered, %d logged as read", s.id, len(s.got), n)
	}
	for i, d := range s.got {
		if i >= len(s.logR) {
			break
		}
		l := s.logR[i]
		if !s.scribbled[i] && !bytes.Equal(l.data, d.data) {
			w.violate("C08", "read-bytes", "stream %d: frame %d delivered as %q but logged as %q", s.id, i, abbrev(d.data), abbrev(l.data))
		}
		if l.end == 0 || l.end > d.seq {
			w.violate("C08", "read-order", "stream %d: frame %d reached the consumer before it was logged", s.id, i)
		}
	}
	var ok [][]byte
	for _, wr := range s.conn.writes {
		if wr.done && wr.err == nil {
			ok = append(ok, wr.data)
		}
	}
	if len(ok) != len(s.logW) {
		w.violate("C08", "write-count", "stream %d: the transport accepted %d frames, %d are logged as written", s.id, len(ok), len(s.logW))
	}
	for i, l := range s.logW {
		if i < len(ok) && !bytes.Equal(l.data, ok[i]) {
			w.violate("C08", "write-bytes", "stream %d: write %d was %q but logged as %q", s.id, i, abbrev(ok[i]), abbrev(l.data))
		}
	}
}

var _ = mav.ErrUserClosed
