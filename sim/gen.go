package main

// ---- traffic ----

type traffic struct {
	data     []byte
	bounds   []int
	clean    [][2]int
	noiseEnd int
}

func (t *traffic) add(b []byte) {
	t.data = append(t.data, b...)
	t.bounds = append(t.bounds, len(t.data))
}

type frameOpts struct {
	signed int // percent
	flags  int // percent of odd flag bits
	v1     int // percent
	maxLen int // 0: any
	uniq   uint32
}

func pickMsg(r *Rng, msgs []*MsgSpec, o *frameOpts) *MsgSpec {
	for i := 0; i < 20; i++ {
		m := msgs[r.N(len(msgs))]
		if o.maxLen == 0 || m.Max <= o.maxLen {
			return m
		}
	}
	return msgs[r.N(len(msgs))]
}

func tableMsgs(names []string) []*MsgSpec {
	var out []*MsgSpec
	seen := map[uint32]bool{}
	for _, n := range names {
		for _, m := range spec[n] {
			if !seen[m.ID] {
				seen[m.ID] = true
				out = append(out, m)
			}
		}
	}
	return out
}

func genFrameBytes(r *Rng, m *MsgSpec, o *frameOpts) []byte {
	p := frameParts{version: 2, seq: r.Byte(), sys: r.Byte(), comp: r.Byte(), id: m.ID, crcExtra: m.Crc}
	if r.P(1, 6) {
		p.seq, p.sys, p.comp = byte(r.Pick(0xfd, 0xfe, 0)), byte(r.Pick(0xfd, 0xfe, 255)), byte(r.Pick(0xfd, 0xfe, 1))
	}
	if m.ID <= 255 && r.P(o.v1, 100) {
		p.version = 1
	}
	if p.version == 1 {
		n := m.Min
		if r.P(1, 5) {
			n = r.Range(m.Min, m.Max)
		}
		p.payload = randPayload(r, n)
	} else {
		p.payload = randPayload(r, m.Max)
		switch r.N(8) {
		case 0: // not truncated
		case 1:
			p.payload = p.payload[:r.N(m.Max+1)]
		default:
			p.payload = trimV2(p.payload)
		}
		if r.P(o.signed, 100) {
			p.sig = r.Bytes(13)
			if r.P(1, 4) {
				for i := range p.sig {
					p.sig[i] = byte(r.Pick(0xfd, 0xfe, 0, 3))
				}
			}
		}
		if r.P(o.flags, 100) {
			p.incompat = byte(r.Pick(0, 2, 4, 0x80, int(r.Byte())))
			p.compat = byte(r.Pick(0, 1, 2, 0xfd, int(r.Byte())))
		}
	}
	return p.bytes()
}

// genNoise makes bytes that are no traffic: random bytes, dense markers,
// headers claiming long frames, damaged or partial frames.
func genNoise(r *Rng, msgs []*MsgSpec, o *frameOpts, w *noiseStats) []byte {
	frame := func() []byte {
		if len(msgs) == 0 {
			return r.Bytes(r.Range(8, 30))
		}
		return genFrameBytes(r, pickMsg(r, msgs, o), o)
	}
	switch k := r.N(12); k {
	case 0:
		w.n["noise_random"]++
		return r.Bytes(r.Range(1, 40))
	case 1:
		w.n["noise_markers"]++
		b := make([]byte, r.Range(1, 24))
		for i := range b {
			b[i] = byte(r.Pick(0xfd, 0xfe))
		}
		return b
	case 2: // a header that claims up to the maximum
		w.n["noise_claim"]++
		b := []byte{byte(r.Pick(0xfd, 0xfe)), byte(r.Pick(255, 254, 253, 200, 0, int(r.Byte()))), byte(r.Pick(0, 1, 255))}
		return append(b, r.Bytes(r.N(12))...)
	case 3, 4: // bit flips
		w.n["bit_flip"]++
		b := frame()
		for i := 0; i < r.Pick(1, 1, 1, 2, 3); i++ {
			b[r.N(len(b))] ^= 1 << uint(r.N(8))
		}
		return b
	case 5: // truncated
		w.n["truncate"]++
		b := frame()
		return b[:r.N(len(b))]
	case 6: // byte dropped
		w.n["drop_byte"]++
		b := frame()
		i := r.N(len(b))
		return append(append([]byte(nil), b[:i]...), b[i+1:]...)
	case 7: // byte inserted
		w.n["insert_byte"]++
		b := frame()
		i := r.N(len(b) + 1)
		return append(append(append([]byte(nil), b[:i]...), byte(r.Pick(0xfd, 0xfe, int(r.Byte())))), b[i:]...)
	case 8: // length byte damaged
		w.n["length_damage"]++
		b := frame()
		b[1] = byte(r.Pick(0, 255, int(b[1])+1, int(b[1])-1))
		return b
	case 9: // unknown message, checksum fine
		w.n["unknown_id"]++
		m := &MsgSpec{ID: uint32(r.Pick(240, 199, 60000, 0xabcdef, 300000)), Crc: r.Byte(), Max: r.N(60)}
		return genFrameBytes(r, m, o)
	case 10: // too long or too short payload, checksum fine
		w.n["bad_length"]++
		if len(msgs) == 0 {
			return r.Bytes(12)
		}
		m := *pickMsg(r, msgs, o)
		if r.P(1, 2) && m.Max < 255 {
			m.Max = r.Range(m.Max+1, 255)
			m.Min = m.Max
		} else {
			m.Min = r.N(m.Min + 1)
			m.Max = m.Min
		}
		return genFrameBytes(r, &m, o)
	default: // swapped neighbours
		w.n["swap_bytes"]++
		b := frame()
		i := r.N(len(b) - 1)
		b[i], b[i+1] = b[i+1], b[i]
		return b
	}
}

type noiseStats struct{ n map[string]int }

// genTraffic mixes valid frames and noise.
func genTraffic(r *Rng, names []string, n int, noise int, o *frameOpts, st *noiseStats) *traffic {
	t := &traffic{}
	msgs := tableMsgs(names)
	for i := 0; i < n; i++ {
		if len(msgs) == 0 || r.P(noise, 100) {
			b := genNoise(r, msgs, o, st)
			if len(b) > 3 && r.P(1, 10) { // a frame inside the noise
				if len(msgs) > 0 {
					st.n["nested_frame"]++
					k := r.N(len(b))
					f := genFrameBytes(r, pickMsg(r, msgs, o), o)
					b = append(append(append([]byte(nil), b[:k]...), f...), b[k:]...)
				}
			}
			t.add(b)
			continue
		}
		m := pickMsg(r, msgs, o)
		f := genFrameBytes(r, m, o)
		if m.Max > 40 && r.P(1, 8) {
			// a whole frame inside another frame's payload
			in := genFrameBytes(r, pickMsg(r, msgs, &frameOpts{maxLen: 20}), o)
			if len(in) <= m.Max {
				st.n["frame_in_payload"]++
				p := frameParts{version: 2, seq: r.Byte(), sys: 1, comp: 1, id: m.ID, crcExtra: m.Crc}
				p.payload = append(append([]byte{}, in...), r.Bytes(m.Max-len(in))...)
				f = p.bytes()
			}
		}
		t.add(f)
		if r.P(1, 25) {
			st.n["duplicate_frame"]++
			t.add(f)
		}
	}
	return t
}

// addClean appends frames with unique content after the noise.
func (t *traffic) addClean(r *Rng, names []string, n int, o *frameOpts) {
	msgs := tableMsgs(names)
	t.noiseEnd = len(t.data)
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		f := genFrameBytes(r, pickMsg(r, msgs, o), o)
		if seen[string(f)] {
			continue
		}
		seen[string(f)] = true
		t.clean = append(t.clean, [2]int{len(t.data), len(f)})
		t.add(f)
	}
}

// segment cuts the bytes into the pieces the transport will return.
func segment(r *Rng, t *traffic) [][]byte {
	var cuts []int
	n := len(t.data)
	switch r.N(7) {
	case 0: // one piece
	case 1: // byte by byte
		if n < 600 {
			for i := 1; i < n; i++ {
				cuts = append(cuts, i)
			}
		}
	case 2, 3: // around frame boundaries
		for _, b := range t.bounds {
			c := b + r.Pick(-2, -1, 0, 1, 2, 3, 5, 10, 11)
			if r.P(3, 4) && c > 0 && c < n {
				cuts = append(cuts, c)
			}
		}
	case 4: // small pieces
		for i := r.Range(1, 6); i < n; i += r.Range(1, 6) {
			cuts = append(cuts, i)
		}
	case 5: // random pieces
		m := r.Pick(10, 50, 200, 1000)
		for i := r.Range(1, m); i < n; i += r.Range(1, m) {
			cuts = append(cuts, i)
		}
	case 6: // big pieces around buffer sizes
		for i := r.Pick(558, 559, 557, 279, 280, 4096, 4095, 4097); i < n; i += r.Pick(1, 2, 558, 557, 280, 4096) {
			cuts = append(cuts, i)
		}
	}
	sortInts(cuts)
	var out [][]byte
	last := 0
	for _, c := range cuts {
		if c > last && c < n {
			out = append(out, t.data[last:c])
			last = c
		}
	}
	if last < n {
		out = append(out, t.data[last:])
	}
	return out
}

// longKinds are the kinds of traffic genLong makes.
var longKinds = []string{"zeros", "random", "nomarker", "markers", "bogus", "damaged", "frames", "frames", "mixed"}

// genLong makes n units of traffic and says how it is cut. It depends on its
// arguments only, so that plans need not spell out the bytes.
func genLong(kind string, n int, seed uint64, names []string) ([]byte, []int) {
	r := NewRng(seed, uint64(n), 51)
	msgs := tableMsgs(names)
	if len(msgs) == 0 {
		msgs = synthSpec
	}
	o := &frameOpts{v1: r.Pick(0, 40, 100), signed: r.Pick(0, 0, 20), maxLen: r.Pick(12, 30)}
	var small []*MsgSpec
	for _, m := range msgs {
		if m.Max <= o.maxLen {
			small = append(small, m)
		}
	}
	if len(small) == 0 {
		small = msgs
	}
	frame := func() []byte { return genFrameBytes(r, small[r.N(len(small))], o) }
	var b []byte
	switch kind {
	case "zeros":
		b = make([]byte, n)
	case "random":
		b = r.Bytes(n)
	case "nomarker":
		b = r.Bytes(n)
		for i := range b {
			if b[i] >= 0xfd {
				b[i] = 7
			}
		}
	case "markers":
		b = make([]byte, n)
		for i := range b {
			b[i] = byte(r.Pick(0xfd, 0xfe))
		}
	case "bogus": // headers that all differ
		for i := 0; i < n; i++ {
			b = append(b, 0xfd, byte(r.N(3)), 0, 0, byte(i), byte(i>>16), byte(r.N(9)), byte(i), byte(i>>8), 9, 1, 2, 3, 4)
		}
	case "damaged":
		for i := 0; i < n; i++ {
			f := frame()
			f[r.N(len(f))] ^= 1 << uint(r.N(8))
			b = append(b, f...)
		}
	case "frames":
		for i := 0; i < n; i++ {
			b = append(b, frame()...)
		}
	default:
		st := &noiseStats{map[string]int{}}
		for i := 0; i < n; i++ {
			if r.P(1, 2) {
				b = append(b, frame()...)
			} else {
				b = append(b, genNoise(r, small, o, st)...)
			}
		}
	}
	var chunks []int
	size := r.Pick(4096, 4096, 1000, 558, 70000)
	for left := len(b); left > 0; {
		k := size
		if r.P(1, 4) {
			k = r.Range(1, size)
		}
		if k > left {
			k = left
		}
		chunks = append(chunks, k)
		left -= k
	}
	return b, chunks
}

// longTraffic makes a lot of traffic.
func longTraffic(r *Rng, names []string, o *frameOpts, st *noiseStats, huge bool) ([]Op, int) {
	var ops []Op
	total := 0
	if r.P(1, 2) { // something valid before it
		t := genTraffic(r, names, r.Range(1, 4), 20, o, st)
		ops = append(ops, Op{K: "data", B: t.data})
		total += len(t.data)
	}
	op := Op{K: "gen", S: longKinds[r.N(len(longKinds))], D: int64(r.U64() >> 1)}
	switch op.S {
	case "zeros", "nomarker":
		op.N = r.Pick(5000, 30000, 66000, 140000)
		if huge {
			op.N = r.Pick(300000, 1100000)
		}
	case "random":
		op.N = r.Pick(5000, 20000, 66000)
		if huge {
			op.N = 300000
		}
	case "markers":
		op.N = r.Pick(1000, 4500)
		if huge {
			op.N = 20000
		}
	case "bogus":
		op.N = r.Pick(300, 1100, 2100)
		if huge {
			op.N = r.Pick(9000, 40000)
		}
	default:
		op.N = r.Pick(260, 520, 1100, 2100)
		if huge {
			op.N = r.Pick(9000, 66000)
		}
		if huge && op.S != "frames" {
			op.N = 9000
		}
	}
	b, _ := genLong(op.S, op.N, uint64(op.D), names)
	return append(ops, op), total + len(b)
}

// moreFrame makes one of any number of different frames.
func moreFrame(i int) Hex {
	p := frameParts{version: 1 + i%2, seq: byte(i), sys: byte(i >> 8), comp: byte(i >> 16), id: uint32(i % 7), crcExtra: byte(i), payload: []byte{byte(i), byte(i >> 8), byte(i >> 16), 1}}
	return p.bytes()
}

func sortInts(a []int) {
	for i := 1; i < len(a); i++ {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

func genDelay(r *Rng, sleepOK bool) []Op {
	switch r.N(5) {
	case 0:
		if sleepOK {
			return []Op{{K: "sleep", D: r.Dur()}}
		}
	case 1, 2:
		return []Op{{K: "pause", N: r.Pick(1, 1, 2, 3, 5, 8, 13, 30)}}
	}
	return nil
}

// feederScript delivers pieces over the phases.
// feederScript makes the feeder's operations; some transports work again after
// they have failed.
func feederScript(r *Rng, pieces [][]byte, phases int, end string) []Op {
	ops := feederOps(r, pieces, phases, end)
	if n := len(ops); len(pieces) > 0 && (ops[n-1].K == "eof" || ops[n-1].K == "err") && r.P(1, 4) {
		ops[n-1].N = 1
		for k := r.Range(1, 6); k > 0; k-- {
			ops = append(ops, Op{K: "data", B: pieces[r.N(len(pieces))]})
			ops = append(ops, genDelay(r, true)...)
		}
	}
	return ops
}

func feederOps(r *Rng, pieces [][]byte, phases int, end string) []Op {
	var ops []Op
	style := r.N(4)
	sleep := r.P(1, 2)
	ph := 0
	zeros := r.P(1, 6)
	ops = append(ops, genDelay(r, sleep)...)
	for i, b := range pieces {
		if ph+1 < phases && r.N(len(pieces)) < phases {
			ph++
			ops = append(ops, Op{K: "phase", N: ph})
		}
		if zeros && r.P(1, 6) {
			ops = append(ops, Op{K: "zero"})
		}
		last := i == len(pieces)-1
		if last && (end == "eofdata" || end == "errdata") {
			ops = append(ops, Op{K: end[:3], B: b, S: errorKinds[r.N(len(errorKinds))]})
			return ops
		}
		ops = append(ops, Op{K: "data", B: b})
		switch style {
		case 0:
		case 1:
			if r.P(1, 3) {
				ops = append(ops, genDelay(r, sleep)...)
			}
		default:
			ops = append(ops, genDelay(r, sleep && r.P(1, 4))...)
		}
	}
	switch end {
	case "eof", "eofdata":
		ops = append(ops, Op{K: "eof"})
	case "err", "errdata":
		ops = append(ops, Op{K: "err", S: errorKinds[r.N(len(errorKinds))]})
	}
	return ops
}

func consumerScript(r *Rng, kind string, phases int) []Op {
	switch kind {
	case "none":
		return nil
	case "eager":
		return []Op{{K: "drain"}}
	case "slow":
		ops := []Op{}
		if r.P(1, 2) {
			ops = append(ops, Op{K: "slow", N: r.Range(1, 6), D: r.Dur()})
		} else {
			ops = append(ops, Op{K: "slow", N: r.Range(1, 20)})
		}
		return append(ops, Op{K: "drain"})
	case "stall": // take some, then stall until a later phase
		ops := []Op{{K: "take", N: r.N(4)}}
		if r.P(1, 2) {
			ops = append(ops, genDelay(r, true)...)
		}
		ops = append(ops, Op{K: "phase", N: r.Range(1, phases)})
		if r.P(1, 2) {
			ops = append(ops, Op{K: "take", N: r.N(4)}, Op{K: "phase", N: phases})
		}
		return append(ops, Op{K: "drain"})
	case "abandon": // take some and never come back
		return []Op{{K: "take", N: r.N(4)}}
	}
	return []Op{{K: "drain"}}
}

func pickDialects(r *Rng) []string {
	switch r.N(10) {
	case 0, 1, 2, 3:
		return []string{"synth"}
	case 4, 5:
		return []string{"common"}
	case 6, 7:
		return []string{"common", dialectNames[[]int{0, 1, 2, 4, 5, 6, 7, 8, 9}[r.N(9)]]}
	case 8:
		return []string{dialectNames[r.N(len(dialectNames))]}
	}
	return []string{}
}

// uniqueFrames makes n different frames for the write side.
func uniqueFrames(r *Rng, names []string, n int) []Hex {
	var out []Hex
	seen := map[string]bool{}
	msgs := tableMsgs(names)
	if len(msgs) == 0 {
		msgs = synthSpec
	}
	o := &frameOpts{v1: 40, signed: 15, flags: 10}
	for len(out) < n {
		m := pickMsg(r, msgs, o)
		p := frameParts{version: 2, seq: byte(len(out)), sys: byte(r.N(256)), comp: r.Byte(), id: m.ID, crcExtra: m.Crc, payload: randPayload(r, m.Max)}
		if m.ID < 256 && r.P(1, 2) {
			p.version = 1
		}
		b := p.bytes()
		if !seen[string(b)] {
			seen[string(b)] = true
			out = append(out, b)
		}
	}
	return out
}

func senderScripts(r *Rng, nframes, nsenders, phases int, closeInput bool) [][]Op {
	out := make([][]Op, nsenders)
	for i := 0; i < nframes; i++ {
		k := r.N(nsenders)
		if r.P(1, 4) {
			out[k] = append(out[k], genDelay(r, true)...)
		}
		if phases > 1 && r.P(1, 10) {
			out[k] = append(out[k], Op{K: "phase", N: r.N(phases)})
		}
		out[k] = append(out[k], Op{K: "send", N: i})
	}
	if closeInput && nsenders == 1 {
		out[0] = append(out[0], genDelay(r, true)...)
		out[0] = append(out[0], Op{K: "closeinput"})
	}
	return out
}

// repeatSends sends some frames again, at once or later.
func repeatSends(r *Rng, scripts [][]Op) {
	same := int64(r.N(2))
	for i, ops := range scripts {
		var out []Op
		for _, op := range ops {
			if op.K != "send" {
				out = append(out, op)
				continue
			}
			op.D = same
			out = append(out, op)
			for r.P(1, 3) {
				d := op
				if r.P(1, 3) {
					d.N = r.N(op.N + 1)
				}
				out = append(out, d)
			}
		}
		scripts[i] = out
	}
}

// genWOps makes faults for the transport's writes.
func genWOps(r *Rng, n int, fail, block bool) []WOp {
	var out []WOp
	for i := 0; i < n; i++ {
		switch {
		case fail && r.P(1, 5):
			out = append(out, WOp{At: i, K: "err", E: errorKinds[r.N(len(errorKinds))], N: r.Pick(0, 0, 1, 5, 300)})
		case block && r.P(1, 5):
			out = append(out, WOp{At: i, K: "block"})
		case r.P(1, 5):
			out = append(out, WOp{At: i, K: "pause", N: r.Range(1, 8)})
		case r.P(1, 8):
			out = append(out, WOp{At: i, K: "sleep", D: r.Dur()})
		}
	}
	return out
}

// ---- profiles ----

type profile struct {
	frames    [2]int // traffic segments
	noise     []int
	signed    []int
	flags     []int
	raw       int // percent
	logger    int
	stop      int // percent of runs with a stop event in the middle
	stopKinds []string
	ends      []string
	consumers []string
	senders   int // percent of runs with senders
	wfail     int
	wblock    int
	observers int
	inspect   int
	clean     int
	mutate    int
	dialects  func(*Rng) []string
	phases    [2]int
	sticky    int
	big       int // percent: large volumes
	logMutate int
	maxLen    int
	nostart   int // percent: a loop is started late or never
	back      int // percent: the user's logger or transport use the stream
	long      int // one run in so many carries very much traffic
}

func baseProfile() profile {
	return profile{frames: [2]int{1, 14}, noise: []int{0, 10, 40, 80}, signed: []int{0, 20, 80}, flags: []int{0, 30}, ends: []string{"", "", "eof", "err", "eofdata", "errdata"},
		consumers: []string{"eager", "eager", "slow", "stall"}, phases: [2]int{1, 3}, dialects: pickDialects, logger: 20, senders: 20}
}

var allStops = []string{"close", "cancelR", "cancelW", "cancel", "close2", "closeinput", "werr", "rerr"}

func profileFor(prop string) profile {
	p := baseProfile()
	switch prop {
	case "C01":
		p.stop = 10
		p.stopKinds = allStops
		p.big = 6
	case "C02":
		p.noise = []int{50, 80, 95}
		p.frames = [2]int{3, 25}
	case "C03":
		p.noise = []int{70, 100}
		p.clean = 100
		p.ends = []string{"", "", "eof", "err"}
		p.consumers = []string{"eager", "slow", "stall"}
	case "C04":
		p.frames = [2]int{0, 4}
		p.back = 8
		p.senders = 100
		p.wfail = 35
		p.wblock = 20
		p.stop = 40
		p.stopKinds = []string{"close", "cancelR", "cancelW", "cancel", "closeinput", "closeinput", "rerr"}
		p.logger = 40
		p.consumers = []string{"eager", "slow", "none", "stall"}
	case "C05", "C06", "C07":
		p.frames = [2]int{0, 8}
		p.noise = []int{0, 20}
		p.senders = 60
		p.wfail = 20
		p.wblock = 25
		p.stop = 97
		p.stopKinds = allStops
		p.logger = 30
		p.observers = 40
		p.consumers = []string{"eager", "slow", "none", "stall", "abandon"}
		p.nostart = 12
		p.back = 25
		p.maxLen = 30
		if prop == "C05" {
			p.sticky = 8
		}
		if prop == "C07" {
			p.observers = 100
		}
	case "C08":
		p.logger = 100
		p.back = 15
		p.senders = 75
		p.wfail = 30
		p.wblock = 10
		p.stop = 40
		p.stopKinds = allStops
		p.raw = 20
		p.consumers = []string{"eager", "eager", "slow", "stall", "abandon"}
	case "C13":
		p.inspect = 100
		p.raw = 50
		p.noise = []int{20, 60, 90}
		p.flags = []int{0, 50, 100}
		p.frames = [2]int{2, 16}
	case "C14":
		p.inspect = 100
		p.signed = []int{40, 80}
		p.flags = []int{0, 50, 100}
		p.noise = []int{0, 10, 40}
		p.raw = 10
	case "C15":
		p.mutate = 50
		p.logger = 40
		p.logMutate = 50
		p.consumers = []string{"eager", "slow", "stall"}
		p.stop = 25
		p.stopKinds = allStops
		p.big = 4
		p.raw = 30
	case "C18":
		p.frames = [2]int{1, 8}
		p.raw = 25
		p.senders = 60
		p.logger = 50
		p.stop = 20
		p.stopKinds = allStops
		p.wfail = 10
		p.mutate = 20
		p.consumers = []string{"eager", "eager", "slow", "stall"}
		p.maxLen = 60
	case "C19":
		p.raw = 70
		p.inspect = 50
		p.noise = []int{20, 50, 90}
	case "C20":
		p.consumers = []string{"stall"}
		p.phases = [2]int{2, 4}
		p.senders = 60
		p.big = 10
		p.ends = []string{"", "", "", "eof"}
	}
	return p
}

func pick(r *Rng, xs []int) int { return xs[r.N(len(xs))] }

// deepPlans makes some plans several times as large, and very much traffic more
// frequent. The thorough tier sets it.
var deepPlans bool

// scale is the factor for a plan's size.
func scale(r *Rng) int {
	if deepPlans && r.P(1, 3) {
		return r.Pick(2, 3, 5, 8)
	}
	return 1
}

func genStream(r *Rng, pr *profile, st *noiseStats) *StreamPlan {
	mul := scale(r)
	p := &StreamPlan{Phases: r.Range(pr.phases[0], pr.phases[1])}
	p.Dialects = pr.dialects(r)
	p.Raw = r.P(pr.raw, 100)
	if r.P(pr.logger, 100) {
		p.Log.On = true
		p.Log.Err = r.P(1, 4)
		if r.P(1, 3) {
			p.Log.Pause = r.Range(1, 4)
		}
		if r.P(1, 8) {
			p.Log.Sleep = r.Dur()
		}
		if r.P(pr.logMutate, 100) {
			p.Log.Mutate = r.Range(1, 3)
		}
	}
	p.InCap = r.Pick(0, 0, 0, 1, 3)
	p.CtxR = r.Str("cancel", "cancel", "custom", "child")
	p.CtxW = r.Str("shared", "cancel", "custom", "child")
	p.Conn.Scribble = r.P(1, 3)
	p.Conn.CloseErr = r.P(1, 6)
	if r.P(1, 4) {
		p.Conn.ClosePause = r.Range(1, 6)
	}
	if r.P(1, 10) {
		p.Conn.CloseSleep = r.Dur()
	}
	if r.P(1, 5) {
		p.Conn.Pause = r.Range(1, 3)
	}
	p.Conn.Sticky = r.P(pr.sticky, 100)
	p.Inspect = r.P(pr.inspect, 100)
	if r.P(pr.mutate, 100) {
		p.Mutate = r.Str("fill", "append")
	}
	p.Custom = r.P(1, 8)

	stop := ""
	if r.P(pr.stop, 100) {
		stop = pr.stopKinds[r.N(len(pr.stopKinds))]
	}

	// received traffic
	o := &frameOpts{v1: r.Pick(0, 40, 100), signed: pick(r, pr.signed), flags: pick(r, pr.flags), maxLen: pr.maxLen}
	n := r.Range(pr.frames[0], pr.frames[1]*mul)
	big := r.P(pr.big, 100)
	if big {
		n = r.Range(100, 600)
		if pr.big == 10 { // C20
			n = r.Range(300, 3000)
		}
	}
	var pre []Op
	preLen := 0
	if pr.long > 0 && r.P(1, pr.long) {
		p.long = true
		if pr.clean > 0 {
			for len(p.Dialects) == 0 {
				p.Dialects = pr.dialects(r)
			}
		}
		pre, preLen = longTraffic(r, p.Dialects, o, st, r.P(1, 8))
	}
	t := genTraffic(r, p.Dialects, n, pick(r, pr.noise), o, st)
	if pr.clean > 0 {
		for len(p.Dialects) == 0 {
			p.Dialects = pr.dialects(r)
		}
		t.addClean(r, p.Dialects, r.Range(3, 30), o)
		p.NoiseEnd = preLen + t.noiseEnd
		for _, c := range t.clean {
			p.Clean = append(p.Clean, [2]int{preLen + c[0], c[1]})
		}
	}
	end := pr.ends[r.N(len(pr.ends))]
	if stop == "rerr" {
		end = r.Str("eof", "err", "eofdata", "errdata")
	}
	if len(t.data) > 0 || end != "" {
		p.Feeder = feederScript(r, segment(r, t), p.Phases, end)
	}
	p.Feeder = append(pre, p.Feeder...)
	p.Consumer = consumerScript(r, pr.consumers[r.N(len(pr.consumers))], p.Phases)

	// written traffic
	wantS := r.P(pr.senders, 100) || stop == "werr" || stop == "closeinput"
	if wantS {
		nf := r.Range(1, 12*mul)
		p.Frames = uniqueFrames(r, p.Dialects, nf)
		ns := r.Range(1, 2+mul)
		if stop == "closeinput" {
			ns = 1
		}
		p.Senders = senderScripts(r, nf, ns, p.Phases, stop == "closeinput")
		if r.P(1, 4) {
			repeatSends(r, p.Senders)
		}
		if pr.long > 0 && r.P(1, pr.long) {
			p.long = true
			p.More = r.Pick(100, 257, 1000, 5000, 70000)
			k := r.N(ns)
			p.Senders[k] = append([]Op{{K: "sendmore"}}, p.Senders[k]...)
		}
		p.Conn.Writes = genWOps(r, nf, r.P(pr.wfail, 100), r.P(pr.wblock, 100))
		if stop == "werr" {
			p.Conn.Writes = append([]WOp{{At: r.N(nf), K: "err", E: errorKinds[r.N(len(errorKinds))], N: r.Pick(0, 1, 7)}}, p.Conn.Writes...)
		}
	}

	// what the user's logger and transport do with the stream when they are called
	if pr.back > 0 && r.P(pr.back, 100) {
		for k := r.Range(1, 2); k > 0; k-- {
			b := BackOp{On: r.Str("logread", "logwritten", "logread", "logwritten", "read", "write"), At: r.N(4)}
			for j := r.Range(1, 2); j > 0; j-- {
				switch r.N(5) {
				case 0, 1:
					b.Ops = append(b.Ops, Op{K: "close"})
				case 2:
					b.Ops = append(b.Ops, Op{K: r.Str("cancel", "cancelR", "cancelW")})
				default:
					b.Ops = append(b.Ops, Op{K: "poll", N: 1})
				}
			}
			p.Back = append(p.Back, b)
		}
	}

	// control
	start := []Op{}
	startW := wantS || r.P(3, 4)
	loops := []Op{{K: "startR"}}
	if startW {
		loops = append(loops, Op{K: "startW"})
		if r.P(1, 2) {
			loops[0], loops[1] = loops[1], loops[0]
		}
	}
	if r.P(pr.nostart, 100) {
		switch r.N(3) {
		case 0:
			loops = loops[:len(loops)-1]
		case 1:
			loops = append([]Op{{K: "pause", N: r.Range(1, 40)}}, loops...)
		case 2:
			if p.Phases < 2 {
				p.Phases = 2
			}
			loops = append([]Op{loops[0], {K: "phase", N: 1}}, loops[1:]...)
		}
	}
	start = append(start, loops...)
	p.Ctl = [][]Op{start}
	wait := func() []Op {
		switch r.N(4) {
		case 0:
			return []Op{{K: "phase", N: r.N(p.Phases)}, {K: "pause", N: r.Range(0, 20)}}
		case 1:
			return []Op{{K: "sleep", D: r.Dur()}, {K: "pause", N: r.N(6)}}
		}
		return []Op{{K: "pause", N: r.Pick(0, 1, 2, 3, 5, 8, 13, 20, 40, 80)}}
	}
	addCtl := func(k string) { p.Ctl = append(p.Ctl, append(wait(), Op{K: k})) }
	switch stop {
	case "close", "cancelR", "cancelW", "cancel":
		addCtl(stop)
	case "close2":
		addCtl("close")
		addCtl("close")
	}
	if stop != "" && r.P(1, 3) {
		addCtl(r.Str("close", "cancelR", "cancelW", "cancel"))
	}
	if stop != "" && r.P(1, 10) {
		p.CtxR = "deadline"
		p.DeadR = r.Dur()
	}
	if stop != "" && r.P(1, 10) {
		p.CtxW = "deadline"
		p.DeadW = r.Dur()
	}
	if stop == "" && r.P(1, 6) {
		p.CtxR = "background"
		p.CtxW = r.Str("shared", "background")
	}
	p.Teardown = r.Str("close", "close", "cancel")
	if r.P(pr.observers, 100) {
		for i := 0; i < r.Range(1, 3); i++ {
			switch r.N(3) {
			case 0:
				p.Observers = append(p.Observers, []Op{{K: "poll", N: r.Range(1, 12)}})
			case 1:
				p.Observers = append(p.Observers, []Op{{K: "waitclosed", N: r.N(4)}})
			case 2:
				p.Observers = append(p.Observers, append(wait(), Op{K: "poll", N: r.Range(1, 5)}))
			}
		}
	}
	return p
}

func genPlan(prop string, seed, index uint64) (*Plan, *noiseStats) {
	var ph uint64
	for _, c := range prop {
		ph = ph*131 + uint64(c)
	}
	r := NewRng(seed, index, ph)
	st := &noiseStats{map[string]int{}}
	p := &Plan{Property: prop, Seed: seed, Index: index}
	p.Sched = genSched(NewRng(seed, index, ph, 7))
	switch prop {
	case "C09", "C10", "C23":
		p.UDP = genUDP(r, prop)
		return p, st
	case "C11", "C12", "C17", "C22":
		p.Net = genNet(r, prop)
		return p, st
	}
	if prop == "C16" {
		// Everything that runs concurrently in the other scenarios.
		switch r.N(10) {
		case 0, 1:
			p.UDP = genUDP(r, r.Str("C10", "C10", "C23"))
			return p, st
		case 2:
			p.Net = genNet(r, r.Str("C11", "C12", "C22"))
			return p, st
		case 3:
			ds := pickDialects(r)
			pr := profileFor("C18")
			pr.dialects = func(q *Rng) []string { return ds }
			pr.inspect = 50
			for i := 0; i < r.Range(1, 3); i++ {
				p.Streams = append(p.Streams, genStream(r, &pr, st))
			}
			p.Codec = genCodec(r)
			return p, st
		}
		pr := profileFor(r.Str("C05", "C05", "C07", "C08", "C15", "C19"))
		pr.inspect = 50
		pr.observers = 60
		pr.senders = 60
		p.Stream = genStream(r, &pr, st)
		return p, st
	}
	pr := profileFor(prop)
	pr.long = 400
	if deepPlans {
		pr.long = 80
	}
	if prop == "C21" {
		p.Mem = genMem(r)
		p.Sched = Sched{Seed: r.U64(), Mode: "random", Switch: uint32(r.Pick(0, 2))}
		return p, st
	}
	if prop == "C18" {
		n := r.Pick(0, 1, 2, 2, 3, 4)
		ds := pickDialects(r)
		pr.dialects = func(q *Rng) []string {
			if q.P(2, 3) {
				return ds
			}
			return pickDialects(q)
		}
		for i := 0; i < n; i++ {
			p.Streams = append(p.Streams, genStream(r, &pr, st))
		}
		if n < 2 || r.P(1, 2) {
			p.Codec = genCodec(r)
		}
		return p, st
	}
	p.Stream = genStream(r, &pr, st)
	if p.Stream.long {
		p.Steps = 20 * defaultMaxSteps
		p.Sched = Sched{Seed: r.U64(), Mode: "random", Switch: uint32(r.Pick(0, 2, 50)), Time: uint32(r.Pick(0, 2))}
	}
	return p, st
}
