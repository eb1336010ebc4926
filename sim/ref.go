package main

// Independent reference implementation of the MAVLink wire format. It shares
// no code with the library under test.

import (
	_ "embed"
	"encoding/json"
	"math"

	mav "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/ardupilotmega"
	"github.com/botlink/go-mavlink2/asluav"
	"github.com/botlink/go-mavlink2/autoquad"
	"github.com/botlink/go-mavlink2/common"
	"github.com/botlink/go-mavlink2/icarous"
	"github.com/botlink/go-mavlink2/matrixpilot"
	"github.com/botlink/go-mavlink2/paparazzi"
	"github.com/botlink/go-mavlink2/slugs"
	uAvionix "github.com/botlink/go-mavlink2/uAvionix"
	"github.com/botlink/go-mavlink2/ualberta"
)

//go:embed spec.json
var specJSON []byte

type FieldSpec struct {
	Name string
	N    int
	Type string
	Ext  bool
}

func (f *FieldSpec) UnmarshalJSON(b []byte) error {
	var a [4]interface{}
	if err := json.Unmarshal(b, &a); err != nil {
		return err
	}
	f.Name, f.N, f.Type, f.Ext = a[0].(string), int(a[1].(float64)), a[2].(string), a[3].(bool)
	return nil
}

func (f *FieldSpec) elem() int {
	switch f.Type {
	case "uint16", "int16":
		return 2
	case "uint32", "int32", "float32":
		return 4
	case "uint64", "int64", "float64":
		return 8
	}
	return 1
}

func (f *FieldSpec) size() int {
	if f.N > 0 {
		return f.elem() * f.N
	}
	return f.elem()
}

type MsgSpec struct {
	ID     uint32
	Name   string
	Crc    byte
	Min    int
	Max    int
	Fields []FieldSpec
}

var spec map[string][]*MsgSpec
var dialectNames = []string{"ardupilotmega", "asluav", "autoquad", "common", "icarous", "matrixpilot", "paparazzi", "slugs", "uAvionix", "ualberta"}

// synthetic dialect: small messages, ids at byte boundaries, odd lengths
var synthSpec = []*MsgSpec{
	{ID: 0, Crc: 17, Min: 0, Max: 0},
	{ID: 1, Crc: 99, Min: 1, Max: 1},
	{ID: 2, Crc: 0, Min: 2, Max: 9},
	{ID: 0xfd, Crc: 0xfe, Min: 3, Max: 3},
	{ID: 0xfe, Crc: 0xfd, Min: 0, Max: 5},
	{ID: 255, Crc: 255, Min: 4, Max: 255},
	{ID: 256, Crc: 31, Min: 2, Max: 2},
	{ID: 0x010000, Crc: 200, Min: 1, Max: 7},
	{ID: 0xfdfefd, Crc: 5, Min: 0, Max: 255},
	{ID: 0xffffff, Crc: 128, Min: 6, Max: 40},
}

func init() {
	if err := json.Unmarshal(specJSON, &spec); err != nil {
		panic(err)
	}
	spec["synth"] = synthSpec
}

type synthDialect struct{ m map[uint32]mav.MessageMeta }

func newSynth() synthDialect {
	d := synthDialect{map[uint32]mav.MessageMeta{}}
	for _, s := range synthSpec {
		d.m[s.ID] = mav.MessageMeta{CRCExtra: s.Crc, MinimumLength: uint(s.Min), MaximumLength: uint(s.Max)}
	}
	return d
}

func (d synthDialect) GetMeta(id uint32) (mav.MessageMeta, error) {
	if m, ok := d.m[id]; ok {
		return m, nil
	}
	return mav.MessageMeta{}, mav.ErrUnknownMessage
}

func (d synthDialect) GetMessage(f mav.Frame) (mav.Message, error) {
	if _, ok := d.m[f.GetMessageID()]; ok {
		m := &synthMessage{}
		return m, m.Read(f)
	}
	return nil, mav.ErrUnknownMessage
}

// synthMessage is a message type supplied by the user of the library.
type synthMessage struct {
	id      uint32
	version int
	raw     []byte
}

func (m *synthMessage) GetVersion() int        { return m.version }
func (m *synthMessage) GetDialect() string     { return "synth" }
func (m *synthMessage) GetMessageName() string { return "synth" }
func (m *synthMessage) GetID() uint32          { return m.id }
func (m *synthMessage) Read(f mav.Frame) error {
	m.id, m.version = f.GetMessageID(), f.GetVersion()
	m.raw = append([]byte(nil), f.GetMessageBytes()...)
	return nil
}
func (m *synthMessage) Write(version int) ([]byte, error) { return append([]byte(nil), m.raw...), nil }

func dialectByName(n string) mav.Dialect {
	switch n {
	case "ardupilotmega":
		return ardupilotmega.Dialect{}
	case "asluav":
		return asluav.Dialect{}
	case "autoquad":
		return autoquad.Dialect{}
	case "common":
		return common.Dialect{}
	case "icarous":
		return icarous.Dialect{}
	case "matrixpilot":
		return matrixpilot.Dialect{}
	case "paparazzi":
		return paparazzi.Dialect{}
	case "slugs":
		return slugs.Dialect{}
	case "uAvionix":
		return uAvionix.Dialect{}
	case "ualberta":
		return ualberta.Dialect{}
	case "synth":
		return newSynth()
	}
	panic("unknown dialect " + n)
}

func makeDialects(names []string) mav.Dialects {
	d := mav.Dialects{}
	for _, n := range names {
		d = append(d, dialectByName(n))
	}
	return d
}

// table is the union of the messages of the named dialects; the first
// dialect that defines an id wins.
type table map[uint32]*MsgSpec

func makeTable(names []string) table {
	t := table{}
	for _, n := range names {
		for _, m := range spec[n] {
			if _, ok := t[m.ID]; !ok {
				t[m.ID] = m
			}
		}
	}
	return t
}

// crcTab-based X.25, bit by bit to stay independent of the library's shortcut.
var crcTab [256]uint16

func init() {
	for i := range crcTab {
		c := uint16(i)
		for k := 0; k < 8; k++ {
			if c&1 != 0 {
				c = c>>1 ^ 0x8408
			} else {
				c >>= 1
			}
		}
		crcTab[i] = c
	}
}

func refCRC(parts ...[]byte) uint16 {
	c := uint16(0xffff)
	for _, p := range parts {
		for _, b := range p {
			c = c>>8 ^ crcTab[byte(c)^b]
		}
	}
	return c
}

// claimed returns the total length a header at b[0] claims, 0 if b[0] is no marker.
func claimed(b []byte) int {
	switch b[0] {
	case 0xfe:
		return int(b[1]) + 8
	case 0xfd:
		n := int(b[1]) + 12
		if b[2]&1 != 0 {
			n += 13
		}
		return n
	}
	return 0
}

func frameID(b []byte) uint32 {
	if b[0] == 0xfe {
		return uint32(b[5])
	}
	return uint32(b[7]) | uint32(b[8])<<8 | uint32(b[9])<<16
}

func hdrLen(b []byte) int {
	if b[0] == 0xfe {
		return 6
	}
	return 10
}

// validFrame judges a complete candidate.
func (t table) validFrame(b []byte) bool {
	m := t[frameID(b)]
	if m == nil {
		return false
	}
	n := int(b[1])
	if n > m.Max || (b[0] == 0xfe && n < m.Min) {
		return false
	}
	h := hdrLen(b)
	c := refCRC(b[1:h+n], []byte{m.Crc})
	return b[h+n] == byte(c) && b[h+n+1] == byte(c>>8)
}

type refFrame struct {
	off, n int
	valid  bool
}

// scan is the reference left-to-right scan. ended: no more bytes will come.
func (t table) scan(b []byte, raw, ended bool) []refFrame {
	var out []refFrame
	i := 0
	for {
		if len(b)-i < 3 {
			return out
		}
		n := claimed(b[i:])
		if n == 0 {
			i++
			continue
		}
		if len(b)-i < n {
			if !ended {
				return out
			}
			i++
			continue
		}
		if t.validFrame(b[i : i+n]) {
			out = append(out, refFrame{i, n, true})
			i += n
			continue
		}
		if raw {
			out = append(out, refFrame{i, n, false})
		}
		i++
	}
}

// buildFrame builds a frame from its parts.
type frameParts struct {
	version          int
	seq, sys, comp   byte
	incompat, compat byte
	id               uint32
	payload          []byte
	crcExtra         byte
	sig              []byte
}

func (p *frameParts) bytes() []byte {
	var b []byte
	if p.version == 1 {
		b = append(b, 0xfe, byte(len(p.payload)), p.seq, p.sys, p.comp, byte(p.id))
	} else {
		inc := p.incompat &^ 1
		if p.sig != nil {
			inc |= 1
		}
		b = append(b, 0xfd, byte(len(p.payload)), inc, p.compat, p.seq, p.sys, p.comp, byte(p.id), byte(p.id>>8), byte(p.id>>16))
	}
	b = append(b, p.payload...)
	c := refCRC(b[1:], []byte{p.crcExtra})
	b = append(b, byte(c), byte(c>>8))
	if p.version == 2 && p.sig != nil {
		b = append(b, p.sig...)
	}
	return b
}

// trimV2 removes trailing zero bytes but keeps the first byte.
func trimV2(p []byte) []byte {
	n := len(p)
	for n > 1 && p[n-1] == 0 {
		n--
	}
	return p[:n]
}

// randPayload fills the full (version 2) payload of a message.
func randPayload(r *Rng, n int) []byte {
	b := make([]byte, n)
	switch r.N(6) {
	case 0: // all zero
	case 1:
		for i := range b {
			b[i] = 0xff
		}
	case 2: // zero tail
		k := r.N(n + 1)
		copy(b, r.Bytes(k))
	case 3: // markers
		for i := range b {
			b[i] = byte(r.Pick(0xfd, 0xfe, 0, 1, int(r.Byte())))
		}
	case 4: // zero with one nonzero byte
		if n > 0 {
			b[r.N(n)] = byte(r.Range(1, 255))
		}
	default:
		copy(b, r.Bytes(n))
	}
	return b
}

func f32bits(v float32) uint32 { return math.Float32bits(v) }
