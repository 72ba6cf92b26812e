//go:build race

package main

import (
	"os"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"unsafe"
)

// Race builds judge C23: the race detector's happens-before analysis of every
// simulated execution. The harness package itself is compiled without
// instrumentation; where it hands an object of the library from one goroutine
// to another it states the edge with hbRel and hbAcq, as a user's own lock would.

const raceOn = true

//go:norace
func hbRel(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

//go:norace
func hbAcq(p unsafe.Pointer) { runtime.RaceAcquire(p) }

// raceLog is the log_path given to the race detector (GORACE).
var raceLog = func() string {
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if v, ok := strings.CutPrefix(f, "log_path="); ok {
			return v
		}
	}
	return ""
}()

var raceOff int64

// raceErrors is the number of reports so far.
func raceErrors() int { return runtime.RaceErrors() }

var (
	frameRe = regexp.MustCompile(`(?m)^  (\S+)\(.*\)\n\s+(\S+):(\d+)`)
	hexRe   = regexp.MustCompile(`^(?:Previous )?(?:atomic )?([Rr]ead|[Ww]rite)`)
)

// raceReports returns the reports written since the last call that lie in the
// library on both sides, each as one canonical line.
func raceReports() []string {
	f, err := os.Open(raceLog + "." + strconv.Itoa(os.Getpid()))
	if err != nil {
		return []string{"race detector log: " + err.Error()}
	}
	defer f.Close()
	fi, err := f.Stat()
	if err != nil || fi.Size() <= raceOff {
		return nil
	}
	b := make([]byte, fi.Size()-raceOff)
	n, _ := f.ReadAt(b, raceOff)
	raceOff += int64(n)
	if raceOff > 1<<24 {
		_ = os.Truncate(f.Name(), 0) // the detector keeps its offset: the file becomes sparse
	}
	seen := map[string]bool{}
	var out []string
	for _, rep := range strings.Split(string(b[:n]), "==================") {
		k := strings.Index(rep, "WARNING: DATA RACE\n")
		if k < 0 {
			continue
		}
		rep = rep[k+len("WARNING: DATA RACE\n"):]
		var acc []string
		for _, sec := range strings.Split(rep, "\n\n") {
			m := hexRe.FindStringSubmatch(sec)
			if m == nil {
				continue
			}
			where := ""
			for _, fr := range frameRe.FindAllStringSubmatch(sec, -1) {
				if strings.HasPrefix(fr[1], "main.") {
					break
				}
				if i := strings.Index(fr[1], "aperturerobotics/starpc/"); i >= 0 {
					if strings.Contains(fr[2], "<autogenerated>") {
						continue
					}
					fn := fr[1][i+len("aperturerobotics/starpc/"):]
					file := fr[2]
					if j := strings.LastIndexByte(file, '/'); j >= 0 {
						file = file[j+1:]
					}
					where = strings.ToLower(m[1]) + " in " + fn + " (" + file + ":" + fr[3] + ")"
					break
				}
			}
			acc = append(acc, where)
		}
		if len(acc) != 2 || acc[0] == "" || acc[1] == "" {
			continue // one side lies in the harness or wholly in a dependency
		}
		sort.Strings(acc)
		s := acc[0] + " and " + acc[1]
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	sort.Strings(out)
	return out
}
