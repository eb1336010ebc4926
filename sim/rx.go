package main

import (
	"bytes"
	"fmt"
	"verifsim/user"

	mav "github.com/botlink/go-mavlink2"
)

// Receive loops of users who read datagrams into a buffer that they use again
// and turn the bytes into frames themselves.

type heldFrame struct {
	f      mav.Frame
	actor  int
	want   []byte // a private frame's bytes
	buf    []byte // a shared frame's bytes in the caller's buffer
	shared bool
}

func (r *udpRun) recv(k int, op Op, c *udpCall) {
	w := r.w
	if r.rbufs == nil {
		r.rbufs = map[int][]byte{}
	}
	buf := r.rbufs[k]
	if len(buf) < op.N {
		buf = make([]byte, op.N)
		r.rbufs[k] = buf
	}
	buf = buf[:op.N:op.N]
	c.kind = "read"
	c.size = op.N
	r.calls = append(r.calls, c)
	c.start = w.ev("uread", k, op.N)
	// From here on the shared frames of this actor show other bytes.
	keep := r.held[:0]
	for _, h := range r.held {
		if !h.shared || h.actor != k {
			keep = append(keep, h)
		}
	}
	r.held = keep
	c.n, c.err = r.rwc.Read(buf)
	c.end = w.ev("ureadend", k, c.n)
	c.done = true
	c.buf = append([]byte(nil), buf[:max(0, min(c.n, len(buf)))]...)
	c.data = c.buf
	if c.err != nil || c.n < 0 || c.n > len(buf) {
		return
	}
	r.checkFrames(-1)
	got := user.Read(buf[:c.n])
	if c.n == 0 {
		for _, raw := range [][]byte{buf[:0], nil} {
			f, err := mav.FrameFromBytes(raw, 0, op.D&1 == 0)
			if err == nil {
				w.violate("C23", "empty", "an empty slice became frame %T", f)
			}
			w.hit("frame_from_empty")
		}
		return
	}
	for off, i := 0, 0; off < c.n && i < 16; i++ {
		rest := got[off:]
		private := op.D>>uint(i)&1 == 0
		l := len(rest)
		if n := claimedLen(rest); n > 0 && n <= l {
			l = n
		}
		f, err := mav.FrameFromBytes(buf[off:c.n], uint16(l), private)
		version := 0
		switch rest[0] {
		case 0xfe:
			version = 1
		case 0xfd:
			version = 2
		}
		if version == 0 {
			if err == nil {
				w.violate("C23", "marker", "bytes %x, which start with no marker, became a frame", rest[:min(12, len(rest))])
			}
			w.hit("frame_from_unknown_marker")
			off++
			continue
		}
		if err != nil || f == nil {
			w.violate("C23", "refused", "bytes %x were not turned into a frame: %v", rest[:l], err)
			return
		}
		w.hit("frame_from_bytes")
		if f.GetVersion() != version {
			w.violate("C23", "version", "bytes that start with %x became a version %d frame", rest[0], f.GetVersion())
		}
		b := user.Read(f.Bytes())
		if len(b) < l || !bytes.Equal(b[:l], rest[:l]) || (private && len(b) != l) {
			w.violate("C23", "bytes", "a frame made of %x has bytes %x", rest[:l], b)
			return
		}
		if !bytes.Equal(user.Read(buf[:c.n]), got) {
			w.violate("C23", "buffer-changed", "making a frame changed the caller's buffer")
			return
		}
		if claimedLen(rest) == l {
			if d := layoutDiff(f, rest[:l]); d != "" {
				w.violate("C23", "layout", "a frame made of %x, followed by %d bytes: %s", rest[:l], len(rest)-l, d)
				return
			}
			w.hit("frame_from_bytes_layout")
		}
		h := &heldFrame{f: f, actor: k, shared: !private, buf: buf[off : off+l]}
		// The caller changes its buffer.
		w.yield()
		if op.D>>17&1 == 0 || !private {
			x := buf[off+l-1]
			user.Write(buf[off+l-1:off+l], x^0x55)
			if b := f.Bytes(); private && b[l-1] != x {
				w.violate("C23", "not-private", "a private frame of %d bytes shows a change of the caller's buffer", l)
			} else if !private && b[l-1] != x^0x55 {
				w.violate("C23", "not-shared", "a shared frame of %d bytes does not show a change of the caller's buffer", l)
			}
			user.Write(buf[off+l-1:off+l], x)
		}
		if private {
			h.want = append([]byte(nil), rest[:l]...)
			// The holder of a private frame may change it.
			if i&1 == 1 {
				user.Write(f.Bytes()[l-1:l], ^h.want[l-1])
				h.want[l-1] ^= 0xff
				if !bytes.Equal(user.Read(buf[:c.n]), got) {
					w.violate("C23", "not-private", "changing a private frame changed the caller's buffer")
					return
				}
			}
			// The holder may also append to it, as to sign the frame.
			if op.D>>18&1 == 1 {
				_ = append(f.Bytes(), 0xaa, 0xaa, 0xaa, 0xaa, 0xaa, 0xaa, 0xaa, 0xaa, 0xaa, 0xaa, 0xaa, 0xaa, 0xaa)
				held := append([]*heldFrame(nil), r.held[max(0, len(r.held)-8):]...)
				for _, p := range held {
					if !p.shared {
						_ = append(p.f.Bytes(), 0x55, 0x55, 0x55, 0x55, 0x55, 0x55, 0x55, 0x55, 0x55, 0x55, 0x55, 0x55, 0x55)
					}
				}
				if !bytes.Equal(f.Bytes(), h.want) || !bytes.Equal(user.Read(buf[:c.n]), got) {
					w.violate("C23", "not-private", "appending to one private frame changed another frame or the caller's buffer")
					return
				}
				w.hit("private_frame_appended_to")
			}
			w.hit("private_frame_held")
		}
		r.held = append(r.held, h)
		off += l
	}
	r.checkFrames(k)
}

// layoutDiff says where a frame's accessors differ from what its bytes say.
func layoutDiff(f mav.Frame, b []byte) (diff string) {
	defer func() {
		if x := recover(); x != nil {
			diff = fmt.Sprintf("an accessor panics: %v", x)
		}
	}()
	n, h, o := int(b[1]), hdrLen(b), 2
	if b[0] == 0xfd {
		o = 4
	}
	is := func(name string, got, want interface{}) {
		if diff == "" && fmt.Sprint(got) != fmt.Sprint(want) {
			diff = fmt.Sprintf("%s is %v, want %v", name, got, want)
		}
	}
	is("the length", f.GetMessageLength(), n)
	is("the sequence number", f.GetMessageSequence(), b[o])
	is("the system id", f.GetSenderSystemID(), b[o+1])
	is("the component id", f.GetSenderComponentID(), b[o+2])
	is("the message id", f.GetMessageID(), frameID(b))
	is("the payload", f.GetMessageBytes(), b[h:h+n])
	is("the checksum input", f.GetChecksumInput(), b[1:h+n])
	is("the checksum", f.GetChecksum(), uint16(b[h+n])|uint16(b[h+n+1])<<8)
	if sg, ok := f.(signer); ok && b[0] == 0xfd {
		var want []byte
		if b[2]&1 != 0 {
			want = b[h+n+2 : h+n+15]
		}
		is("the signature", sg.GetSignature(), want)
	}
	return diff
}

// checkFrames: private frames keep their bytes, shared ones show the caller's.
// The buffers of actors other than the given one may just be changing.
func (r *udpRun) checkFrames(k int) {
	for _, h := range r.held {
		if !h.shared && !bytes.Equal(h.f.Bytes(), h.want) {
			r.w.violate("C23", "not-private", "a private frame changed from %x to %x", h.want, h.f.Bytes())
			return
		}
		if h.shared && h.actor == k {
			if b := h.f.Bytes(); len(b) < len(h.buf) || !bytes.Equal(b[:len(h.buf)], h.buf) {
				r.w.violate("C23", "not-shared", "a shared frame reads %x, the caller's bytes are %x", b, h.buf)
				return
			}
		}
	}
}

// claimedLen is the length of the frame whose header starts b, or 0.
func claimedLen(b []byte) int {
	if len(b) < 3 {
		return 0
	}
	switch b[0] {
	case 0xfe:
		return int(b[1]) + 8
	case 0xfd:
		if b[2]&1 != 0 {
			return int(b[1]) + 25
		}
		return int(b[1]) + 12
	}
	return 0
}

// genRxDatagram makes a datagram of frames, broken frames or noise.
func genRxDatagram(r *Rng, msgs []*MsgSpec) []byte {
	switch r.N(9) {
	case 0:
		return nil
	case 1:
		return r.Bytes(r.Range(1, 40))
	case 2:
		return []byte{byte(r.Pick(0xfd, 0xfe, 0xfc, 0xff, 0x00, 0x55))}
	case 3:
		b := r.Bytes(r.Range(1, 20))
		b[0] = byte(r.Pick(0xfd, 0xfe))
		return b
	}
	var b []byte
	for i := r.Range(1, 4); i > 0; i-- {
		m := genNetMsg(r, msgs, true)
		b = append(b, m.refBytes(specOf(msgs, m.ID))...)
		if r.P(1, 6) {
			b = append(b, r.Bytes(r.Range(1, 4))...)
		}
	}
	if r.P(1, 6) {
		b = b[:r.Range(1, len(b))]
	}
	if len(b) > 600 && r.P(9, 10) {
		b = b[:600]
	}
	return b
}

var _ = fmt.Sprint
