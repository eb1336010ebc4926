package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"slices"
)

type foundViol struct {
	Index uint64    `json:"index"`
	V     Violation `json:"v"`
	Plan  *Plan     `json:"plan"`
}

// chunkOut is what a worker reports.
type chunkOut struct {
	Runs     uint64         `json:"runs"`
	SimNs    float64        `json:"sim_ns"`
	Steps    uint64         `json:"steps"`
	Switches uint64         `json:"switches"`
	Preempts uint64         `json:"preempts"`
	Events   uint64         `json:"events"`
	Faults   map[string]int `json:"faults"`
	Reach    map[string]int `json:"reach"`
	Viol     []foundViol    `json:"viol"`
	Digest   string         `json:"digest"`
	Next     uint64         `json:"next"`
	WallNs   int64          `json:"wall_ns"`
	Hits     []int          `json:"hits"`
	Other    map[string]int `json:"other"`
	Samples  []string       `json:"samples"`
	Replayed uint64         `json:"replayed"`
	Diverged []uint64       `json:"diverged"`
}

func main() {
	check := flag.String("check", "", "")
	seed := flag.Uint64("seed", 1, "")
	from := flag.Uint64("from", 0, "")
	to := flag.Uint64("to", 1, "")
	budget := flag.Int64("budget-ms", 0, "stop after this much real time")
	out := flag.String("out", "", "")
	progress := flag.String("progress", "", "")
	replay := flag.String("replay", "", "")
	show := flag.Bool("show", false, "print the plan")
	verbose := flag.Bool("v", false, "")
	minimise := flag.String("minimise", "", "")
	sites := flag.String("sites", "", "")
	maxViol := flag.Int("maxviol", 1, "")
	allProps := flag.Bool("all", false, "report violations of every property")
	hashOut := flag.String("hashes", "", "write the interleaving hashes there")
	planOnly := flag.Bool("plan", false, "print the plan of run -from")
	count := flag.Bool("count", false, "count the distinct values in the hash files given")
	selfcheck := flag.Uint64("selfcheck", 0, "replay every n-th run and compare")
	external := flag.String("external", "", "minimise with a process per run and temporary files of that name")
	schedOut := flag.String("schedout", "", "write the schedule of a replay there")
	flag.BoolVar(&deepPlans, "deep", false, "make some plans larger")
	flag.Parse()

	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	runtime.MemProfileRate = 0
	realOut := os.Stdout
	raceStart()
	devnull, err := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	os.Stdout = devnull
	var siteNames []string
	if *sites != "" {
		b, err := os.ReadFile(*sites)
		if err == nil {
			json.Unmarshal(b, &siteNames)
		}
		hitBuf = make([]uint32, len(siteNames))
	}
	w := bufio.NewWriter(realOut)
	defer w.Flush()

	if *count {
		var all []uint64
		for _, n := range flag.Args() {
			b, _ := os.ReadFile(n)
			for i := 0; i+8 <= len(b); i += 8 {
				all = append(all, binary.LittleEndian.Uint64(b[i:]))
			}
		}
		slices.Sort(all)
		fmt.Fprintln(w, len(slices.Compact(all)))
		return
	}
	if *planOnly {
		p, _ := genPlan(*check, *seed, *from)
		jb, _ := json.MarshalIndent(p, "", " ")
		fmt.Fprintln(w, string(jb))
		return
	}
	if *replay != "" || *minimise != "" {
		name := *replay + *minimise
		b, err := os.ReadFile(name)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var p Plan
		if err := json.Unmarshal(b, &p); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		if *minimise != "" {
			p = *minimisePlan(&p, *budget, *external)
			jb, _ := json.MarshalIndent(&p, "", " ")
			os.WriteFile(*out, jb, 0o644)
			return
		}
		res, wd := runPlan(&p, *verbose)
		if *schedOut != "" && (res.Dec != nil || res.Stats.Recorded == 0) {
			jb, _ := json.Marshal(&Sched{Seed: p.Sched.Seed, Mode: "replay", Dec: res.Dec})
			os.WriteFile(*schedOut, jb, 0o644)
		}
		if *verbose {
			for _, l := range wd.log {
				fmt.Fprintln(w, l)
			}
			n := res.Stats.TraceN
			fmt.Fprintln(w, "last context switches (goroutine @ statement it left or will continue from):")
			st := uint64(0)
			if n > uint64(len(traceBuf)) {
				st = n - uint64(len(traceBuf))
			}
			for i := st; i < n; i++ {
				x := traceBuf[i%uint64(len(traceBuf))]
				s := x & 0xffffffff
				nm := "-"
				if int(s) < len(siteNames) {
					nm = siteNames[s]
				}
				fmt.Fprintf(w, "  g%d %s\n", x>>32, nm)
			}
		}
		for _, v := range res.Viol {
			fmt.Fprintf(w, "VIOL %s %s: %s\n", v.Property, v.Class, v.Detail)
		}
		fmt.Fprintf(w, "hash %016x events %016x steps %d decisions %d\n", res.Stats.Hash, res.EvHash, res.Stats.Steps, res.Stats.Decisions)
		return
	}

	o := chunkOut{Faults: map[string]int{}, Reach: map[string]int{}, Other: map[string]int{}}
	start := runtime.SimRealNano()
	var hashes []uint64
	digest := uint64(14695981039346656037)
	var pf *os.File
	if *progress != "" {
		pf, _ = os.Create(*progress)
	}
	i := *from
	for ; i < *to; i++ {
		if *budget > 0 && (runtime.SimRealNano()-start)/1e6 > *budget {
			break
		}
		p, st := genPlan(*check, *seed, i)
		if pf != nil {
			pf.WriteAt([]byte(fmt.Sprintf("%-20d", i)), 0)
		}
		if *show {
			jb, _ := json.MarshalIndent(p, "", " ")
			fmt.Fprintln(w, string(jb))
		}
		res, wd := runPlan(p, *verbose)
		if *verbose {
			for _, l := range wd.log {
				fmt.Fprintln(w, l)
			}
			fmt.Fprintf(w, "run %d hash %016x events %016x steps %d dec %d rec %d preempt %d\n", i, res.Stats.Hash, res.EvHash, res.Stats.Steps, res.Stats.Decisions, res.Stats.Recorded, res.Stats.Preempts)
			for _, v := range res.Viol {
				fmt.Fprintf(w, "VIOL %s %s: %s\n", v.Property, v.Class, v.Detail)
			}
		}
		o.Runs++
		o.SimNs += float64(res.Stats.Now)
		o.Steps += res.Stats.Steps
		o.Switches += res.Stats.Switches
		o.Preempts += res.Stats.Preempts
		o.Events += uint64(res.Events)
		for k, v := range res.Faults {
			o.Faults[k] += v
		}
		for k, v := range st.n {
			o.Faults[k] += v
		}
		for k, v := range res.Reach {
			o.Reach[k] += v
		}
		digest = (digest ^ res.Stats.Hash) * 1099511628211
		digest = (digest ^ res.EvHash) * 1099511628211
		digest = (digest ^ res.Stats.Steps) * 1099511628211
		if res.Stats.Switches > 4 {
			hashes = append(hashes, res.Stats.Hash)
		}
		if len(o.Samples) < 2 && res.Stats.Switches > 4 {
			o.Samples = append(o.Samples, describe(p, res))
		}
		if *selfcheck > 0 && i%*selfcheck == 0 && (res.Dec != nil || res.Stats.Recorded == 0) {
			q := *p
			q.Sched = Sched{Seed: p.Sched.Seed, Mode: "replay", Dec: res.Dec}
			jb, _ := json.Marshal(&q)
			var q2 Plan
			json.Unmarshal(jb, &q2)
			r2, _ := runPlan(&q2, false)
			o.Replayed++
			if r2.Stats.Hash != res.Stats.Hash || r2.EvHash != res.EvHash || r2.Stats.Steps != res.Stats.Steps {
				o.Diverged = append(o.Diverged, i)
			}
		}
		for _, v := range res.Viol {
			if v.Property != *check && !*allProps {
				o.Other[v.Property+" "+v.Class]++
				continue
			}
			if len(o.Viol) < *maxViol {
				q := *p
				if res.Dec != nil || res.Stats.Recorded == 0 {
					q.Sched = Sched{Seed: p.Sched.Seed, Mode: "replay", Dec: res.Dec}
				}
				o.Viol = append(o.Viol, foundViol{i, v, &q})
			}
		}
		if len(o.Viol) >= *maxViol {
			i++
			break
		}
		if o.Runs%200 == 0 {
			runtime.GC()
		}
	}
	o.Next = i
	if *hashOut != "" {
		hb := make([]byte, 0, 8*len(hashes))
		for _, h := range hashes {
			hb = binary.LittleEndian.AppendUint64(hb, h)
		}
		os.WriteFile(*hashOut, hb, 0o644)
	}
	o.Digest = fmt.Sprintf("%016x", digest)
	o.WallNs = runtime.SimRealNano() - start
	if hitBuf != nil {
		for k, h := range hitBuf {
			if h > 0 {
				o.Hits = append(o.Hits, k)
			}
		}
	}
	jb, _ := json.Marshal(&o)
	if *out != "" {
		os.WriteFile(*out, jb, 0o644)
	} else {
		fmt.Fprintln(w, string(jb))
	}
}

func describe(p *Plan, r *Result) string {
	b, _ := json.Marshal(p)
	s := string(b)
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	return fmt.Sprintf("seed %d run %d: %d statements, %d context switches, interleaving %016x, plan %s", p.Seed, p.Index, r.Stats.Steps, r.Stats.Switches, r.Stats.Hash, s)
}
