//go:build race

package main

import (
	"fmt"
	"os"
	"runtime"
	"strings"
)

const raceBuild = true

var raceSeen int
var racePos int64

func raceStart() {
	raceSeen = runtime.RaceErrors()
	if st, err := os.Stderr.Stat(); err == nil && st.Mode().IsRegular() {
		racePos = st.Size()
	}
}

// raceReports returns the library's data races reported since the last call.
func raceReports() []string {
	n := runtime.RaceErrors()
	if n == raceSeen {
		return nil
	}
	raceSeen = n
	f, err := os.Open("/proc/self/fd/2")
	if err != nil {
		return nil
	}
	defer f.Close()
	st, err := f.Stat()
	if err != nil || !st.Mode().IsRegular() {
		return nil
	}
	b := make([]byte, st.Size()-racePos)
	m, _ := f.ReadAt(b, racePos)
	racePos = st.Size()
	var out []string
	for _, rep := range strings.Split(string(b[:m]), "==================") {
		if !strings.Contains(rep, "WARNING: DATA RACE") {
			continue
		}
		if s := judgeRace(rep); s != "" {
			out = append(out, s)
		}
	}
	return out
}

// judgeRace describes a report in which both accesses are the library's, or one
// is the library's and the other that of a user of a frame. Others concern the
// simulator's own state, which needs no synchronisation because one goroutine
// runs at a time.
func judgeRace(rep string) string {
	lib, other := 0, 0
	var parts []string
	for _, sec := range strings.Split(rep, "\n\n") {
		ls := strings.Split(strings.TrimSpace(sec), "\n")
		for len(ls) > 0 && !(strings.Contains(ls[0], " at 0x") && strings.Contains(ls[0], " by ")) {
			if strings.HasPrefix(ls[0], "Goroutine ") {
				ls = nil
				break
			}
			ls = ls[1:]
		}
		if len(ls) == 0 {
			continue
		}
		kind := ls[0][:strings.Index(ls[0], " at 0x")]
		for i := 1; i+1 < len(ls); i += 2 {
			fn, at := strings.TrimSpace(ls[i]), strings.TrimSpace(ls[i+1])
			isLib := strings.HasPrefix(fn, "github.com/botlink/go-mavlink2")
			if !isLib && !strings.HasPrefix(fn, "main.") && !strings.HasPrefix(fn, "verifsim/") {
				continue
			}
			if isLib {
				lib++
			} else if !strings.HasPrefix(fn, "verifsim/user.Read(") && !strings.HasPrefix(fn, "verifsim/user.Write(") && !strings.HasPrefix(fn, "verifsim/user.Fill(") {
				other++
			}
			if j := strings.Index(at, " +0x"); j > 0 {
				at = at[:j]
			}
			parts = append(parts, fmt.Sprintf("%s in %s %s", strings.ToLower(kind), fn, at))
			break
		}
	}
	if lib == 0 || other > 0 || len(parts) < 2 {
		return ""
	}
	return strings.Join(parts, "; ")
}
