package main

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"

	mav "github.com/botlink/go-mavlink2"
)

// Text fields: a sender keeps message objects, sets their texts again and
// again and sends them; the receiver must get each text.

// TextSet sets one text field (an index into the message's fields).
type TextSet struct {
	F int `json:"f"`
	S Hex `json:"s"`
}

type textObj struct {
	m    mav.Message
	want map[int]string
}

func cstr(b []byte) string {
	if z := bytes.IndexByte(b, 0); z >= 0 {
		b = b[:z]
	}
	return string(b)
}

// fieldOff is the offset of field i in the payload.
func (s *MsgSpec) fieldOff(i int) int {
	off := 0
	for k := 0; k < i; k++ {
		off += s.Fields[k].size()
	}
	return off
}

func textFields(s *MsgSpec) []int {
	var l []int
	for i := range s.Fields {
		if isText(&s.Fields[i]) {
			l = append(l, i)
		}
	}
	return l
}

func (sd *netSide) encodeText(k int, nm *NetMsg, sn *netSent) (mav.Frame, error) {
	r := sd.r
	s := r.tbl[nm.ID]
	key := fmt.Sprint(k, "/", nm.ID, "/", nm.Obj)
	o := sd.objs[key]
	if o == nil || nm.Obj == 0 {
		m, err := newMessage(r.d, nm.ID)
		if err != nil {
			return nil, err
		}
		if n := reflect.TypeOf(m).Elem().Name(); n != s.Name {
			return nil, fmt.Errorf("the library decodes frames of message id %d as a %s", nm.ID, n)
		}
		o = &textObj{m: m, want: map[int]string{}}
		for _, i := range textFields(s) {
			o.want[i] = ""
		}
		if sd.objs == nil {
			sd.objs = map[string]*textObj{}
		}
		sd.objs[key] = o
	} else {
		r.w.hit("message_object_reused")
	}
	// The other fields, directly.
	for i := range s.Fields {
		if f := &s.Fields[i]; !isText(f) {
			mem, err := fieldMem(o.m, f)
			if err != nil {
				return nil, err
			}
			off := s.fieldOff(i)
			copy(mem, nm.P[off:off+f.size()])
		}
	}
	for _, t := range nm.T {
		if t.F >= len(s.Fields) || !isText(&s.Fields[t.F]) {
			continue
		}
		f := &s.Fields[t.F]
		set, ok := reflect.ValueOf(o.m).MethodByName("Set"+f.Name), false
		var fn func(string) error
		if set.IsValid() {
			fn, ok = set.Interface().(func(string) error)
		}
		slice := false
		if set = reflect.ValueOf(o.m).MethodByName("Set" + f.Name + "Slice"); set.IsValid() && !ok {
			var fs func([]byte) error
			if fs, ok = set.Interface().(func([]byte) error); ok {
				slice = true
				fn = func(t string) error {
					b := []byte(t)
					err := fs(b)
					for i := range b { // the caller's
						b[i] ^= 0x55
					}
					return err
				}
			}
		}
		if !ok {
			continue
		}
		before := snapshot(o.m, s, t.F)
		err := fn(string(t.S))
		r.w.hit("text_set")
		if (err != nil) != (len(t.S) > f.N) {
			r.violate("text-error", "setting %s of %s (%d bytes) to a text of %d bytes returned %v", f.Name, s.Name, f.N, len(t.S), err)
		}
		if len(t.S) > f.N {
			r.w.hit("text_cut")
		}
		if len(t.S) < len(o.want[t.F]) {
			r.w.hit("shorter_text_set")
		}
		cut := t.S
		if len(cut) > f.N {
			cut = cut[:f.N]
		}
		o.want[t.F] = cstr(cut)
		if slice {
			r.w.hit("payload_set")
			o.want[t.F] = string(cut)
		}
		if !bytes.Equal(before, snapshot(o.m, s, t.F)) {
			r.violate("text-neighbour", "setting %s of %s changed another field", f.Name, s.Name)
		}
		r.w.yield()
	}
	r.textsOf(o.m, s, o.want, "after it was set", false)
	sn.texts = map[int]string{}
	for i, t := range o.want {
		if nm.V == 1 && s.fieldOff(i) >= s.Min {
			t = ""
		}
		sn.texts[i] = t
	}
	return r.d.GetFrame(nm.V, nm.Sys, nm.Comp, nm.Seq, o.m)
}

// snapshot is the memory of all fields but one.
func snapshot(m mav.Message, s *MsgSpec, but int) []byte {
	var b []byte
	for i := range s.Fields {
		if i != but {
			mem, _ := fieldMem(m, &s.Fields[i])
			b = append(b, mem...)
		}
	}
	return b
}

// textsOf compares what the getters of a message return.
func (r *netRun) textsOf(m mav.Message, s *MsgSpec, want map[int]string, when string, received bool) {
	for _, i := range textFields(s) {
		get := reflect.ValueOf(m).MethodByName("Get" + s.Fields[i].Name)
		if !get.IsValid() {
			continue
		}
		fn, ok := get.Interface().(func() string)
		w := want[i]
		if fb, isBytes := get.Interface().(func() []byte); isBytes {
			fn, ok = func() string { return string(fb()) }, true
			if received { // zeroes at the end are not always carried
				w = strings.TrimRight(w, "\x00")
				fn = func() string { return strings.TrimRight(string(fb()), "\x00") }
			}
		}
		if !ok {
			continue
		}
		if t := fn(); t != w {
			r.violate("text", "text %s of message %s reads %q %s, want %q", s.Fields[i].Name, s.Name, t, when, w)
			return
		}
		r.w.hit("text_compared")
	}
}

// judgeTexts compares the received texts, and the other fields.
func (r *netRun) judgeTexts(n int, g *netGot, nm *NetMsg, s *MsgSpec, want map[int]string) {
	r.textsOf(g.m, s, want, fmt.Sprintf("at side %d", n), true)
	vals, sent := quiet(s, g.vals), quiet(s, nm.values(s))
	for i := range s.Fields {
		f := &s.Fields[i]
		off := s.fieldOff(i)
		if !isText(f) && !bytes.Equal(vals[off:off+f.size()], sent[off:off+f.size()]) {
			r.violate("values", "side %d: field %s of message %s (version %d) sent with value %x arrived with %x", n, f.Name, s.Name, nm.V, sent[off:off+f.size()], vals[off:off+f.size()])
			return
		}
	}
}

// decodeAgain decodes a frame into an object that decoded others before.
func (sd *netSide) decodeAgain(f mav.Frame, g *netGot, s *MsgSpec) error {
	if sd.again == nil {
		sd.again = map[uint32]mav.Message{}
	}
	m := sd.again[g.id]
	if m == nil {
		m = reflect.New(reflect.TypeOf(g.m).Elem()).Interface().(mav.Message)
		sd.again[g.id] = m
	} else {
		sd.r.w.hit("decoded_into_used_object")
	}
	if err := m.Read(f); err != nil {
		return fmt.Errorf("decoding into an object used before: %v", err)
	}
	vals, err := readMessage(m, s)
	if err != nil {
		return fmt.Errorf("decoding into an object used before: %v", err)
	}
	if !bytes.Equal(quiet(s, vals), quiet(s, g.vals)) {
		return fmt.Errorf("decoding into an object used before gives %x, into a new one %x", vals, g.vals)
	}
	return nil
}

// genTexts makes a message whose texts are set.
func genTexts(r *Rng, m *NetMsg, s *MsgSpec) {
	m.Text = false
	m.Obj = r.Pick(0, 1, 1, 1, 2)
	l := textFields(s)
	for _, i := range l {
		k := r.Pick(1, 1, 1, 0, 2, 3)
		for ; k > 0; k-- {
			m.T = append(m.T, TextSet{F: i, S: genText(r, s.Fields[i].N)})
		}
	}
	if len(m.T) == 0 {
		i := l[r.N(len(l))]
		m.T = append(m.T, TextSet{F: i, S: genText(r, s.Fields[i].N)})
	}
}

func genText(r *Rng, n int) []byte {
	var k int
	switch r.N(8) {
	case 0:
		k = 0
	case 1:
		k = n
	case 2:
		k = n + r.Pick(1, 1, 2, 200, 1000)
	case 3:
		k = n - 1
	default:
		k = r.Range(0, n)
	}
	b := r.Bytes(k)
	switch r.N(4) {
	case 0:
	case 1: // two-byte runes, so that cuts split them
		for i := range b {
			b[i] = "\xc3\xa9"[i&1]
		}
	default:
		for i := range b {
			b[i] = byte(r.Range(32, 126))
		}
	}
	if k > 0 && r.P(1, 8) {
		b[r.N(k)] = 0
	}
	return b
}

func hasTexts(msgs []*MsgSpec) bool {
	for _, s := range msgs {
		if len(textFields(s)) > 0 {
			return true
		}
	}
	return false
}
