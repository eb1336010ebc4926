package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"path"
	"reflect"
	"runtime/debug"
	"strconv"
	"strings"

	mav "github.com/botlink/go-mavlink2"
)

type signer interface{ GetSignature() []byte }
type flagger interface {
	GetIncompatibilityFlags() uint8
	GetCompatibilityFlags() uint8
}

// inspectFrame asks a delivered frame everything it can be asked and compares
// the answers with what its bytes say.
func inspectFrame(w *World, s *streamRun, f mav.Frame, data []byte) {
	what := "?"
	defer func() {
		if r := recover(); r != nil {
			w.violate("C13", "panic", "stream %d: %s of frame %q panicked: %v at %s", s.id, what, abbrev(data), r, trimStack(string(debug.Stack())))
		}
	}()
	if f == nil || len(data) < 8 || claimed(data) != len(data) {
		w.violate("C13", "bad-frame", "stream %d: delivered frame %q does not have the length its header claims", s.id, abbrev(data))
		return
	}
	is := func(name string, got, want interface{}) {
		if fmt.Sprint(got) != fmt.Sprint(want) {
			w.violate("C13", "accessor-"+name, "stream %d: %s of frame %q is %v, want %v", s.id, name, abbrev(data), got, want)
		}
	}
	n := int(data[1])
	h := hdrLen(data)
	v := 1
	if data[0] == 0xfd {
		v = 2
	}
	o := 2
	if v == 2 {
		o = 4
	}
	what = "GetVersion"
	is(what, f.GetVersion(), v)
	what = "GetMessageLength"
	is(what, f.GetMessageLength(), n)
	what = "GetMessageSequence"
	is(what, f.GetMessageSequence(), data[o])
	what = "GetSenderSystemID"
	is(what, f.GetSenderSystemID(), data[o+1])
	what = "GetSenderComponentID"
	is(what, f.GetSenderComponentID(), data[o+2])
	what = "GetMessageID"
	is(what, f.GetMessageID(), frameID(data))
	what = "GetMessageBytes"
	is(what, f.GetMessageBytes(), data[h:h+n])
	what = "GetChecksum"
	is(what, f.GetChecksum(), uint16(data[h+n])|uint16(data[h+n+1])<<8)
	what = "GetChecksumInput"
	is(what, f.GetChecksumInput(), data[1:h+n])
	if v == 2 {
		if fl, ok := f.(flagger); ok {
			what = "GetIncompatibilityFlags"
			is(what, fl.GetIncompatibilityFlags(), data[2])
			what = "GetCompatibilityFlags"
			is(what, fl.GetCompatibilityFlags(), data[3])
		}
		if sg, ok := f.(signer); ok {
			what = "GetSignature"
			var want []byte
			if data[2]&1 != 0 {
				want = data[h+n+2 : h+n+15]
			}
			var sig []byte
			func() {
				defer func() {
					if r := recover(); r != nil {
						w.violate("C13", "panic", "stream %d: GetSignature of frame %q panicked: %v", s.id, abbrev(data), r)
						w.violate("C14", "panic", "stream %d: GetSignature of frame %q panicked: %v", s.id, abbrev(data), r)
						sig = want
					}
				}()
				sig = sg.GetSignature()
			}()
			if (sig == nil) != (want == nil) || !bytes.Equal(sig, want) {
				w.violate("C14", "signature", "stream %d: signature of frame %q is %x, want %x", s.id, abbrev(data), sig, want)
				w.violate("C13", "accessor-GetSignature", "stream %d: signature of frame %q is %x, want %x", s.id, abbrev(data), sig, want)
			}
		}
	}
	if st, ok := f.(fmt.Stringer); ok {
		what = "String"
		txt := st.String()
		checkText(is, txt, f, data)
		if v == 2 {
			signed := data[2]&1 != 0
			for _, l := range strings.Split(txt, "\n") {
				if strings.HasPrefix(l, "Signed:") && strings.Contains(l, fmt.Sprint(!signed)) {
					w.violate("C14", "signed-text", "stream %d: text of frame %q says %q", s.id, abbrev(data), l)
					w.violate("C13", "accessor-String", "stream %d: text of frame %q says %q", s.id, abbrev(data), l)
				}
			}
		}
	}
	what = "Validate"
	verr := s.dialects.Validate(f)
	if (verr == nil) != s.tbl.validFrame(data) {
		w.violate("C13", "validate", "stream %d: Validate of frame %q says %v", s.id, abbrev(data), verr)
	}
	what = "GetMessage"
	m, err := s.dialects.GetMessage(f)
	if s.tbl[frameID(data)] == nil {
		u, ok := m.(*mav.UnknownMessage)
		if !ok || u == nil || u.ID != frameID(data) || u.Version != v || !bytes.Equal(u.Raw, data[h:h+n]) {
			w.violate("C19", "unknown-message", "stream %d: frame %q of an unknown message decodes as %T %v, error %v", s.id, abbrev(data), m, m, err)
		}
		w.hit("unknown_message_decoded")
	}
	if m == nil || err != nil {
		return
	}
	what = "message " + m.GetMessageName()
	if m.GetID() != frameID(data) {
		w.violate("C13", "message-id", "stream %d: frame %q decodes as message %d", s.id, abbrev(data), m.GetID())
	}
	m.GetVersion()
	m.GetDialect()
	if x, ok := m.(interface{ HasExtensionFields() bool }); ok {
		if sp := s.tbl[frameID(data)]; sp != nil {
			is("HasExtensionFields", x.HasExtensionFields(), sp.Max > sp.Min)
		}
	}
	what = "text of message " + m.GetMessageName()
	if st, ok := m.(fmt.Stringer); ok {
		if data[len(data)-1]&3 == 0 {
			checkMessageText(is, m, st)
		} else {
			_ = st.String()
		}
	}
	what = "getters of message " + m.GetMessageName()
	callGetters(m)
	for ver := 1; ver <= 2; ver++ {
		what = fmt.Sprintf("re-encoding (version %d) of message %s", ver, m.GetMessageName())
		b, err := m.Write(ver)
		_ = b
		_ = err
		_, _ = s.dialects.GetFrame(ver, 1, 2, 3, m)
	}
}

// checkText compares the numbers that a frame's text gives for header fields.
func checkText(is func(string, interface{}, interface{}), txt string, f mav.Frame, data []byte) {
	h, n := hdrLen(data), int(data[1])
	want := map[string]uint64{"MessageLength": uint64(n), "MessageID": uint64(frameID(data)), "Checksum": uint64(data[h+n]) | uint64(data[h+n+1])<<8}
	if data[0] == 0xfd {
		want["Version"], want["IncompatibilityFlags"], want["CompatibilityFlags"], want["SenderSystemID"], want["SenderComponentID"] = 2, uint64(data[2]), uint64(data[3]), uint64(data[5]), uint64(data[6])
	} else {
		want["Version"], want["SenderSystemID"], want["SenderComponentID"] = 1, uint64(data[3]), uint64(data[4])
	}
	seen := 0
	sig := data[0] != 0xfd || data[2]&1 == 0
	for _, l := range strings.Split(txt, "\n") {
		k, v, ok := strings.Cut(l, ":")
		k, v = strings.TrimSpace(k), strings.TrimSpace(v)
		if k == "Signature" {
			if data[0] != 0xfd || data[2]&1 == 0 || v != hex.EncodeToString(data[h+n+2:]) {
				is("String", l, "the frame's signature")
			}
			sig = true
		}
		x, known := want[k]
		if !ok || !known {
			continue
		}
		seen++
		if g, err := strconv.ParseUint(v, 0, 64); err == nil && g != x {
			is("String", l, x)
		}
	}
	if seen < len(want) || !sig {
		is("String", txt, fmt.Sprint("all of ", want, " and the signature, if any"))
	}
}

// checkMessageText compares the values that a message's text gives for its
// fields with the fields; printing must change nothing.
func checkMessageText(is func(string, interface{}, interface{}), m mav.Message, st fmt.Stringer) {
	v := reflect.ValueOf(m)
	if v.Kind() != reflect.Ptr || v.Elem().Kind() != reflect.Struct {
		st.String()
		return
	}
	v = v.Elem()
	t := v.Type()
	was := fmt.Sprint(v.Interface())
	txt := st.String()
	if now := fmt.Sprint(v.Interface()); now != was {
		is("String", now, was)
	}
	if _, ok := m.(*mav.UnknownMessage); ok || strings.HasPrefix(t.PkgPath(), "verifsim") || t.PkgPath() == "main" {
		return
	}
	if n := m.GetMessageName(); n != t.Name() {
		is("GetMessageName", n, t.Name())
	}
	if d := m.GetDialect(); d != strings.ToLower(path.Base(t.PkgPath())) && d != path.Base(t.PkgPath()) {
		is("GetDialect", d, path.Base(t.PkgPath()))
	}
	shown := map[string]string{}
	for _, l := range strings.Split(txt, "\n") {
		if k, x, ok := strings.Cut(l, ":"); ok {
			x = strings.TrimLeft(x, " ")
			if len(shown) == 0 && (k != "Name" || strings.TrimSpace(x) != m.GetDialect()+"/"+m.GetMessageName()) {
				is("String", l, m.GetDialect()+"/"+m.GetMessageName())
			}
			shown[k] = x
		}
	}
	ext := v.FieldByName("HasExtensionFieldValues")
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if f.PkgPath != "" || f.Name == "HasExtensionFieldValues" {
			continue
		}
		want := fmt.Sprint(v.Field(i).Interface())
		got, ok := shown[f.Name]
		if !ok && ext.IsValid() && !ext.Bool() {
			continue // perhaps an extension field
		}
		if !ok || !(got == want || strings.HasPrefix(got, want+" ")) {
			is("String", f.Name+": "+got, want)
		}
	}
}
