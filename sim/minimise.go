package main

import (
	"encoding/json"
	"os"
	"os/exec"
	"regexp"
	"runtime"
	"strings"
)

var crashLine = regexp.MustCompile(`(?m)^(panic: |fatal error: |SIGSEGV|unexpected fault|runtime: goroutine stack exceeds).*`)

// apart judges a plan in a process of its own. It returns "crash" and the first
// line of the crash, or the first violation of the plan's property.
func apart(p *Plan, tmp string) (class, what string, sched *Sched) {
	jb, _ := json.Marshal(p)
	os.WriteFile(tmp+".plan", jb, 0o644)
	os.Remove(tmp + ".sched")
	errF, err := os.Create(tmp + ".err")
	if err != nil {
		return
	}
	defer errF.Close()
	cmd := exec.Command("timeout", "-k", "1", "20", os.Args[0], "-replay", tmp+".plan", "-schedout", tmp+".sched")
	cmd.Stderr = errF
	out, err := cmd.Output()
	if err != nil {
		eb, _ := os.ReadFile(tmp + ".err")
		if m := crashLine.Find(eb); m != nil {
			s := string(m)
			if len(s) > 30 {
				s = s[:30]
			}
			return "crash", s, &p.Sched
		}
		return
	}
	for _, l := range strings.Split(string(out), "\n") {
		f := strings.SplitN(l, " ", 4)
		if len(f) == 4 && f[0] == "VIOL" && f[1] == p.Property {
			sched = &p.Sched
			if b, err := os.ReadFile(tmp + ".sched"); err == nil {
				s := &Sched{}
				if json.Unmarshal(b, s) == nil {
					sched = s
				}
			}
			return strings.TrimSuffix(f[2], ":"), "", sched
		}
	}
	return
}

func clonePlan(p *Plan) *Plan {
	b, _ := json.Marshal(p)
	q := &Plan{}
	json.Unmarshal(b, q)
	return q
}

// listRef is a list inside a plan from which a range can be cut.
type listRef struct {
	n   int
	cut func(a, b int)
}

func opList(l *[]Op) listRef {
	return listRef{len(*l), func(a, b int) { *l = append(append([]Op{}, (*l)[:a]...), (*l)[b:]...) }}
}

func opLists(l *[][]Op) []listRef {
	out := []listRef{{len(*l), func(a, b int) { *l = append(append([][]Op{}, (*l)[:a]...), (*l)[b:]...) }}}
	for i := range *l {
		out = append(out, opList(&(*l)[i]))
	}
	return out
}

func wopList(l *[]WOp) listRef {
	return listRef{len(*l), func(a, b int) { *l = append(append([]WOp{}, (*l)[:a]...), (*l)[b:]...) }}
}

func streamLists(s *StreamPlan) []listRef {
	var out []listRef
	if s.Clean == nil { // otherwise the plan describes its own input
		out = append(out, opList(&s.Feeder))
	}
	out = append(out, wopList(&s.Conn.Writes))
	out = append(out, opLists(&s.Senders)...)
	out = append(out, opLists(&s.Observers)...)
	out = append(out, opLists(&s.Ctl)...)
	back := &s.Back
	out = append(out, listRef{len(*back), func(a, b int) { *back = append(append([]BackOp{}, (*back)[:a]...), (*back)[b:]...) }})
	for i := range s.Back {
		out = append(out, opList(&s.Back[i].Ops))
	}
	if s.Consumer != nil {
		out = append(out, opList(&s.Consumer))
	}
	return out
}

func planLists(p *Plan) []listRef {
	var out []listRef
	if p.Streams != nil {
		l := &p.Streams
		out = append(out, listRef{len(*l), func(a, b int) { *l = append(append([]*StreamPlan{}, (*l)[:a]...), (*l)[b:]...) }})
		for _, s := range p.Streams {
			out = append(out, streamLists(s)...)
		}
	}
	if p.Stream != nil {
		out = append(out, streamLists(p.Stream)...)
	}
	if p.Codec != nil {
		out = append(out, codecLists(p.Codec)...)
	}
	if p.UDP != nil {
		out = append(out, opLists(&p.UDP.Net)...)
		out = append(out, opLists(&p.UDP.Actors)...)
		out = append(out, wopList(&p.UDP.Writes))
	}
	if p.Net != nil {
		out = append(out, netLists(p.Net)...)
	}
	return out
}

// simplified lists copies of the plan with one setting put to its simplest value.
func simplified(p *Plan) []*Plan {
	was, _ := json.Marshal(p)
	var out []*Plan
	add := func(f func(q *Plan)) {
		q := clonePlan(p)
		f(q)
		if now, _ := json.Marshal(q); string(now) != string(was) {
			out = append(out, q)
		}
	}
	conn := func(c *ConnPlan) *ConnPlan { return &ConnPlan{Writes: c.Writes, Sticky: c.Sticky} }
	stream := func(get func(q *Plan) *StreamPlan) {
		add(func(q *Plan) { s := get(q); s.Conn = *conn(&s.Conn) })
		add(func(q *Plan) { get(q).Conn.Sticky = false })
		add(func(q *Plan) { get(q).Log = LogPlan{} })
		add(func(q *Plan) { get(q).InCap = 0 })
		add(func(q *Plan) { get(q).More = 0 })
		add(func(q *Plan) { get(q).More /= 2 })
		add(func(q *Plan) { get(q).Mutate = "" })
		add(func(q *Plan) { get(q).Inspect = false })
	}
	if p.Stream != nil {
		stream(func(q *Plan) *StreamPlan { return q.Stream })
	}
	for i := range p.Streams {
		i := i
		stream(func(q *Plan) *StreamPlan { return q.Streams[i] })
	}
	if p.UDP != nil {
		add(func(q *Plan) { q.UDP.Pause = 0 })
		add(func(q *Plan) { q.UDP.Taken = false })
	}
	if p.Net != nil {
		add(func(q *Plan) { q.Net.Router, q.Net.RSeg, q.Net.RConn = 0, [2]Sched{}, [3]ConnPlan{} })
		for n := range p.Net.RConn {
			n := n
			add(func(q *Plan) { q.Net.RConn[n] = *conn(&q.Net.RConn[n]) })
		}
		for n := 0; n < 2; n++ {
			n := n
			add(func(q *Plan) { q.Net.Conn[n] = *conn(&q.Net.Conn[n]) })
			add(func(q *Plan) { q.Net.Slow[n] = 0 })
		}
	}
	return out
}

// minimisePlan shrinks a failing plan while the same violation remains: first
// the script (operations, faults, actors), then the scheduling decisions.
func minimisePlan(p *Plan, budgetMs int64, external string) *Plan {
	start := runtime.SimRealNano()
	over := func() bool { return (runtime.SimRealNano()-start)/1e6 > budgetMs }
	runs := 0
	fails := func(q *Plan, prop, class string) *Plan {
		runs++
		if runs%100 == 0 {
			runtime.GC()
		}
		res, _ := runPlan(q, false)
		for _, v := range res.Viol {
			if v.Property == prop && v.Class == class {
				c := clonePlan(q)
				if res.Dec != nil || res.Stats.Recorded == 0 {
					c.Sched = Sched{Seed: q.Sched.Seed, Mode: "replay", Dec: res.Dec}
				}
				return c
			}
		}
		return nil
	}
	var first *Result
	prop, class := "", ""
	if external != "" {
		var what string
		prop = p.Property
		class, what, _ = apart(p, external)
		if class == "" {
			return p
		}
		fails = func(q *Plan, prop, class string) *Plan {
			k, w, s := apart(q, external)
			if k != class || w != what {
				return nil
			}
			c := clonePlan(q)
			c.Sched = *s
			return c
		}
		first = &Result{}
	} else {
		first, _ = runPlan(p, false)
		if len(first.Viol) == 0 {
			return p
		}
	}
	for _, v := range first.Viol {
		if v.Property == p.Property {
			prop, class = v.Property, v.Class
			break
		}
	}
	if prop == "" {
		prop, class = first.Viol[0].Property, first.Viol[0].Class
	}
	r := NewRng(p.Seed, p.Index, 77)
	// try runs the candidate with several schedules.
	try := func(q *Plan) *Plan {
		dec := q.Sched
		cands := []Sched{dec, {Seed: 1, Mode: "replay"}}
		for i := 0; i < 4; i++ {
			cands = append(cands, genSched(r))
		}
		for _, s := range cands {
			q.Sched = s
			if c := fails(q, prop, class); c != nil {
				return c
			}
			if over() {
				break
			}
		}
		return nil
	}
	best := clonePlan(p)
	for changed := true; changed && !over(); {
		changed = false
		for k := 0; k < len(planLists(best)) && !over(); k++ {
			n := planLists(best)[k].n
			for sz := n; sz >= 1 && !over(); sz /= 2 {
				for a := 0; a < n && !over(); {
					b := a + sz
					if b > n {
						b = n
					}
					q := clonePlan(best)
					ls := planLists(q)
					if k >= len(ls) || ls[k].n != n {
						break
					}
					ls[k].cut(a, b)
					if c := try(q); c != nil {
						best = c
						changed = true
						ls2 := planLists(best)
						if k >= len(ls2) {
							n = 0
							break
						}
						n = ls2[k].n
					} else {
						a = b
					}
				}
			}
		}
		for again := true; again && !over(); {
			again = false
			for _, q := range simplified(best) {
				if over() {
					break
				}
				if c := try(q); c != nil {
					best, again, changed = c, true, true
					break
				}
			}
		}
	}
	// Scheduling decisions.
	if best.Sched.Mode == "replay" {
		for sz := len(best.Sched.Dec); sz >= 1 && !over(); sz /= 2 {
			for a := 0; a < len(best.Sched.Dec) && !over(); {
				b := a + sz
				if b > len(best.Sched.Dec) {
					b = len(best.Sched.Dec)
				}
				q := clonePlan(best)
				q.Sched.Dec = append(append([]uint64{}, best.Sched.Dec[:a]...), best.Sched.Dec[b:]...)
				if c := fails(q, prop, class); c != nil && len(c.Sched.Dec) < len(best.Sched.Dec) {
					best = c
				} else {
					a = b
				}
			}
		}
	}
	return best
}
