package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"time"
	"unsafe"

	mav "github.com/botlink/go-mavlink2"
)

// ---- deterministic pseudo-random numbers ----

type Rng struct{ s uint64 }

func mix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func NewRng(parts ...uint64) *Rng {
	s := uint64(0x243f6a8885a308d3)
	for _, p := range parts {
		s = mix(s+0x9e3779b97f4a7c15) ^ mix(p+0x632be59bd9b4e019)
	}
	return &Rng{s}
}

func (r *Rng) U64() uint64 { r.s += 0x9e3779b97f4a7c15; return mix(r.s) }
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rng) Range(lo, hi int) int    { return lo + r.N(hi-lo+1) }
func (r *Rng) P(num, den int) bool     { return r.N(den) < num }
func (r *Rng) Byte() byte              { return byte(r.U64()) }
func (r *Rng) Pick(xs ...int) int      { return xs[r.N(len(xs))] }
func (r *Rng) Str(xs ...string) string { return xs[r.N(len(xs))] }
func (r *Rng) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = r.Byte()
	}
	return b
}
func (r *Rng) Dur() int64 {
	if r.P(1, 16) { // minutes to days
		return int64(r.Range(1, 10)) * int64(r.Pick(60, 600, 3600, 43200)) * 1000000000
	}
	switch r.N(4) {
	case 0:
		return int64(r.Range(1, 1000)) // ns
	case 1:
		return int64(r.Range(1, 1000)) * 1000
	case 2:
		return int64(r.Range(1, 200)) * 1000000
	}
	return int64(r.Range(1, 30)) * 1000000000
}

// Hex is a byte slice written as hexadecimal in plans.
type Hex []byte

func (h Hex) MarshalJSON() ([]byte, error) { return json.Marshal(hex.EncodeToString(h)) }
func (h *Hex) UnmarshalJSON(b []byte) error {
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	d, err := hex.DecodeString(s)
	*h = d
	return err
}

// ---- plans ----

// Sched says how the scheduler makes its choices.
type Sched struct {
	Seed   uint64   `json:"seed"`
	Mode   string   `json:"mode"` // random, pct, replay
	Switch uint32   `json:"switch,omitempty"`
	Hot    uint32   `json:"hot,omitempty"`
	HotMod uint32   `json:"hotmod,omitempty"`
	Time   uint32   `json:"time,omitempty"`
	Change []uint64 `json:"change,omitempty"`
	// Dec lists the nonzero scheduling decisions, index<<20|value.
	Dec []uint64 `json:"dec,omitempty"`
}

func genSched(r *Rng) Sched {
	s := Sched{Seed: r.U64(), Mode: "random"}
	switch r.N(8) {
	case 0: // rare preemptions
		s.Switch = uint32(r.Pick(0, 20, 100, 400))
	case 1, 2:
		s.Switch = uint32(r.Pick(1000, 4000, 12000, 30000))
	case 3, 4, 5: // a few hot statements
		s.Switch = uint32(r.Pick(0, 50, 500))
		s.Hot = uint32(r.Pick(8000, 30000, 60000))
		s.HotMod = uint32(r.Pick(3, 8, 20, 60))
	default:
		s.Mode = "pct"
		n := r.Range(0, 4)
		lim := r.Pick(300, 1000, 4000, 20000)
		for i := 0; i < n; i++ {
			s.Change = append(s.Change, uint64(r.N(lim)))
		}
		for i := range s.Change {
			for j := i + 1; j < len(s.Change); j++ {
				if s.Change[j] < s.Change[i] {
					s.Change[i], s.Change[j] = s.Change[j], s.Change[i]
				}
			}
		}
	}
	if r.P(1, 3) {
		s.Time = uint32(r.Pick(500, 5000, 30000))
	}
	return s
}

// Op is one step of an actor's script.
type Op struct {
	K string `json:"k"`
	N int    `json:"n,omitempty"`
	D int64  `json:"d,omitempty"`
	B Hex    `json:"b,omitempty"`
	S string `json:"s,omitempty"`
}

// Plan is one complete, replayable run.
type Plan struct {
	Property string        `json:"property"`
	Seed     uint64        `json:"seed"`
	Index    uint64        `json:"index"`
	Sched    Sched         `json:"sched"`
	Stream   *StreamPlan   `json:"stream,omitempty"`
	Streams  []*StreamPlan `json:"streams,omitempty"`
	Codec    *CodecPlan    `json:"codec,omitempty"`
	UDP      *UDPPlan      `json:"udp,omitempty"`
	Net      *NetPlan      `json:"net,omitempty"`
	Mem      *MemPlan      `json:"mem,omitempty"`
	Steps    uint64        `json:"steps,omitempty"` // limit of executed statements, if not the default
}

// Violation is a broken property.
type Violation struct {
	Property string `json:"property"`
	Class    string `json:"class"`
	Detail   string `json:"detail"`
}

// Result is what one run produced.
type Result struct {
	Viol    []Violation
	Stats   runtime.SimStats
	Faults  map[string]int
	Reach   map[string]int
	Events  int
	Dec     []uint64
	EvHash  uint64
	Trivial bool
}

// ---- world ----

type cond struct{ ws []unsafe.Pointer }

func (c *cond) wait() {
	c.ws = append(c.ws, runtime.SimSelf())
	runtime.SimPark()
}

func (c *cond) wake() {
	ws := c.ws
	c.ws = nil
	for _, p := range ws {
		runtime.SimReady(p)
	}
}

// World is one simulated run.
type World struct {
	unsettled bool
	plan      *Plan
	phase     int
	phaseC    cond
	seq       int64
	viol      []Violation
	faults    map[string]int
	reach     map[string]int
	sleepers  int
	actors    []*actor
	evHash    uint64
	baseG     int
	logOn     bool
	dialects  map[string]mav.Dialects
	log       []string
}

type actor struct {
	name     string
	done     bool
	panicked bool
	pval     string
	stack    string
	blocked  string // what it is doing
	lib      bool
}

func newWorld(p *Plan) *World {
	return &World{plan: p, faults: map[string]int{}, reach: map[string]int{}, phase: -1, evHash: 14695981039346656037}
}

// sharedDialects returns one dialects value for all streams that use these names.
func (w *World) sharedDialects(names []string) mav.Dialects {
	k := strings.Join(names, ",")
	if w.dialects == nil {
		w.dialects = map[string]mav.Dialects{}
	}
	if _, ok := w.dialects[k]; !ok {
		w.dialects[k] = makeDialects(names)
	}
	return w.dialects[k]
}

// ev stamps an event with the run's global sequence number.
func (w *World) ev(kind string, a, b int) int64 {
	w.seq++
	h := w.evHash
	for i := 0; i < len(kind); i++ {
		h = (h ^ uint64(kind[i])) * 1099511628211
	}
	h = (h ^ uint64(a)) * 1099511628211
	h = (h ^ uint64(b)) * 1099511628211
	w.evHash = h
	if w.logOn {
		w.log = append(w.log, fmt.Sprintf("%5d t=%-12d g%-3d %s %d %d", w.seq, runtime.SimNow(), runtime.SimSeq(), kind, a, b))
	}
	return w.seq
}

func (w *World) fault(k string) { w.faults[k]++ }
func (w *World) hit(k string)   { w.reach[k]++ }

func (w *World) violate(prop, class, f string, a ...interface{}) {
	for _, v := range w.viol {
		if v.Property == prop && v.Class == class {
			return
		}
	}
	w.viol = append(w.viol, Violation{prop, class, fmt.Sprintf(f, a...)})
}

// goActor starts an actor; panics are caught and recorded.
func (w *World) goActor(name string, lib bool, f func(a *actor)) *actor {
	a := &actor{name: name, lib: lib}
	w.actors = append(w.actors, a)
	go runActor(w, a, f)
	return a
}

func runActor(w *World, a *actor, f func(a *actor)) {
	defer func() {
		if r := recover(); r != nil {
			a.panicked = true
			a.pval = fmt.Sprint(r)
			a.stack = trimStack(string(debug.Stack()))
			w.ev("panic", 0, 0)
		}
		a.done = true
	}()
	f(a)
}

// leaked is the stack of a goroutine the library started, if more goroutines
// are left than this run's actors.
func (w *World) leaked() string {
	n := runtime.NumGoroutine() - w.baseG
	for _, a := range w.actors {
		if !a.done {
			n--
		}
	}
	if n <= 0 {
		return ""
	}
	buf := make([]byte, 1<<20)
	for _, g := range strings.Split(string(buf[:runtime.Stack(buf, true)]), "\n\n") {
		if i := strings.LastIndex(g, "created by "); i >= 0 && strings.HasPrefix(g[i+11:], "github.com/botlink/go-mavlink2") {
			return trimStack(g)
		}
	}
	w.hit("unknown_goroutines")
	return ""
}

// follows tells the race detector that what comes after follows what happened
// before ready was closed.
func follows(ready chan struct{}) {
	select {
	case <-ready:
	default:
	}
}

func trimStack(s string) string {
	var out []string
	ls := strings.Split(s, "\n")
	for i := 0; i+1 < len(ls); i++ {
		if strings.HasPrefix(ls[i+1], "\t") {
			fn := ls[i]
			loc := strings.TrimSpace(ls[i+1])
			if j := strings.LastIndex(loc, " +0x"); j > 0 {
				loc = loc[:j]
			}
			if j := strings.LastIndex(fn, "("); j > 0 {
				fn = fn[:j]
			}
			if strings.Contains(fn, "debug.Stack") || strings.Contains(fn, "runActor") {
				continue
			}
			out = append(out, fn+" "+loc)
			i++
			if len(out) >= 8 {
				break
			}
		}
	}
	return strings.Join(out, " < ")
}

func (w *World) yield() { runtime.SimYield(0) }

func (w *World) pauses(n int) {
	for i := 0; i < n; i++ {
		runtime.SimPause()
	}
}

func (w *World) sleep(d int64) {
	if d <= 0 {
		return
	}
	w.sleepers++
	time.Sleep(time.Duration(d))
	w.sleepers--
}

func (w *World) awaitPhase(p int) {
	for w.phase < p {
		w.phaseC.wait()
	}
}

// basic executes the operations every actor understands.
func (w *World) basic(op Op) bool {
	switch op.K {
	case "phase":
		w.awaitPhase(op.N)
	case "sleep":
		w.sleep(op.D)
	case "pause":
		w.pauses(op.N)
	default:
		return false
	}
	return true
}

const graceNs = 10 * int64(time.Second)

// settle runs the system until nothing can happen any more: no goroutine can
// run, no actor of the plan sleeps, and timers of the system under test had
// ten simulated seconds.
func (w *World) settle(snap func()) {
	runtime.SimWaitIdle()
	if snap != nil {
		snap()
	}
	last := runtime.SimNow()
	for n, own := 0, 0; ; n++ {
		t := runtime.SimNextTimer()
		if t < 0 || runtime.SimOverrun() {
			return
		}
		if w.sleepers > 0 {
			last = t
			if n > 20000 {
				w.unsettled = true
				return
			}
		} else if own++; t > last+graceNs || own > 3000 {
			return
		}
		runtime.SimAdvance(t)
		runtime.SimWaitIdle()
		if snap != nil {
			snap()
		}
	}
}

func (w *World) setPhase(p int) {
	w.phase = p
	w.ev("phase", p, 0)
	w.phaseC.wake()
}

var recBuf = make([]uint64, 1<<17)
var memRec = make([]uint64, 1<<16)
var traceBuf = make([]uint64, 256)
var hitBuf []uint32

const defaultMaxSteps = 30000000

// runPlan executes one plan from start to end.
func runPlan(p *Plan, logOn bool) (*Result, *World) {
	w := newWorld(p)
	w.logOn = logOn
	cfg := runtime.SimConfig{Seed: p.Sched.Seed, SwitchProb: p.Sched.Switch, HotProb: p.Sched.Hot, HotMod: p.Sched.HotMod,
		TimeProb: p.Sched.Time, ChangeAt: p.Sched.Change, Replay: p.Sched.Dec, Record: recBuf, MaxSteps: defaultMaxSteps, Hits: hitBuf, Trace: traceBuf}
	if p.Steps > 0 {
		cfg.MaxSteps = p.Steps
	}
	if p.Mem != nil {
		cfg.MaxSteps = p.Mem.Steps
		cfg.Record = memRec
	}
	switch p.Sched.Mode {
	case "pct":
		cfg.Mode = 1
	case "replay":
		cfg.Mode = 2
	}
	res := &Result{}
	runtime.SimStart(&cfg)
	w.baseG = runtime.NumGoroutine()
	switch {
	case p.Stream != nil:
		runStreams(w, []*StreamPlan{p.Stream}, nil)
	case p.Streams != nil || p.Codec != nil:
		runStreams(w, p.Streams, p.Codec)
	case p.UDP != nil:
		runUDP(w, p.UDP)
	case p.Net != nil:
		runNet(w, p.Net)
	case p.Mem != nil:
		runMem(w, p.Mem)
	}
	if w.unsettled {
		// Simulated time was too long to wait for: nothing can be concluded.
		w.viol = nil
		w.hit("run_given_up")
	}
	if runtime.SimOverrun() {
		w.violate(p.Property, "livelock", "no progress: more than %d statements executed (the run never becomes idle)", cfg.MaxSteps)
	}
	runtime.SimStop(&res.Stats)
	res.Viol = w.viol
	res.Faults = w.faults
	res.Reach = w.reach
	res.Events = int(w.seq)
	res.EvHash = w.evHash
	n := int(res.Stats.Recorded)
	if n > 0 && !res.Stats.RecordFull {
		res.Dec = append([]uint64(nil), cfg.Record[:n]...)
	}
	if raceBuild {
		for _, r := range raceReports() {
			res.Viol = append(res.Viol, Violation{"C16", "race", "data race: " + r})
		}
	}
	if p.Property == "C18" {
		res.Viol = sideBySide(p, w)
	}
	return res, w
}

// panics reports panics of library goroutines and of actors calling the library.
func (w *World) panicsAs(prop string) {
	for _, a := range w.actors {
		if a.panicked {
			w.violate(prop, "panic", "%s panicked: %s at %s", a.name, a.pval, a.stack)
		}
	}
}
