package mc

import (
	"os"
	"strings"
)

// RaceCount is the number of race reports so far.
func RaceCount() int { return raceErrors() }

// RaceLog is the file the race detector writes its reports to (GORACE=log_path).
var RaceLog string
var raceOff int

// newRaceReport returns the first new report that concerns the code under test (both
// accesses outside this package, at least one of them not in a harness), or "".
func newRaceReport() string {
	b, err := os.ReadFile(RaceLog)
	if err != nil {
		return "data race (report not readable: " + err.Error() + ")"
	}
	txt := string(b[raceOff:])
	raceOff = len(b)
	for _, rep := range strings.Split(txt, "==================") {
		if !strings.Contains(rep, "DATA RACE") {
			continue
		}
		if strings.Contains(rep, "runtime.Goexit()") {
			continue // while the execution was torn down
		}
		if raceInSUT(rep) {
			return rep
		}
	}
	return ""
}

// raceInSUT looks at the innermost frame of both accesses that is not a library's.
func raceInSUT(rep string) bool {
	ok, sut := 0, 0
	for _, sec := range strings.Split(rep, "\n\n") {
		lines := strings.Split(strings.TrimSpace(sec), "\n")
		h := -1
		for i, l := range lines {
			if strings.Contains(l, "by goroutine") || strings.Contains(l, "by main goroutine") {
				h = i
				break
			}
		}
		if h < 0 {
			continue
		}
		for i := h + 1; i+1 < len(lines); i += 2 {
			fn := strings.TrimSpace(lines[i])
			if !strings.Contains(fn, "lxdlam/vertex/") && !strings.HasPrefix(fn, "main.") {
				continue // of the libraries: whoever called them is responsible
			}
			if !strings.Contains(fn, "lxdlam/vertex/mc.") {
				ok++
				if strings.Contains(fn, "lxdlam/vertex/pkg/") || strings.Contains(fn, "lxdlam/vertex/cmd/client/internal") {
					sut++
				}
			}
			break
		}
	}
	return ok >= 2 && sut >= 1
}
