package mc

import (
	"fmt"
	"runtime"
	"time"
)

// Deadline, if set, is the wall-clock time after which explorations stop early (and say
// that they did not cover their space).
var Deadline time.Time

var resets []func()

// RegisterReset is called by the instrumented packages: fn puts the package's
// variables back to their initial state.
func RegisterReset(fn func()) { resets = append(resets, fn) }

// InExec reports whether package initialisation runs as part of an execution.
func resetAll() {
	for _, f := range resets {
		f()
	}
}

func (c *Config) defaults() {
	if c.MaxSteps == 0 {
		c.MaxSteps = 20000
	}
	if c.Preempt == 0 {
		c.Preempt = 1
	}
}

// Progress counts executions, for the watchdog.
var Progress int64

func runOne(sc *sched, body func()) {
	sc.gs = sc.gs[:0]
	sc.nG, sc.doneSum = 0, 0
	sc.steps = 0
	sc.clock = startClock
	sc.timers = nil
	sc.timerN = 0
	sc.clockO = hobj{}
	sc.abort = false
	sc.calm = false
	sc.fail = nil
	sc.pruned = false
	sc.depth = 0
	sc.left = sc.cfg.Budget
	if sc.cfg.Budget < 0 {
		sc.left = 1 << 30
	}
	sc.over = make(chan struct{})
	sc.trace = nil
	s = nil
	raceAcquire(teardownAddr())
	resetEnv()
	resetAll()
	s = sc
	g := sc.newG(body)
	g.main = true
	sc.cur = g
	wakeUp(g)
	<-sc.over
	raceAcquire(teardownAddr())
	s = nil
	sc.stats.Execs++
	Progress++
	if sc.depth > sc.stats.MaxDepth {
		sc.stats.MaxDepth = sc.depth
	}
}

// Explore runs body under every schedule (and every other explored choice) within the
// bounds of cfg. It returns the first confirmed failure, or nil.
func Explore(cfg Config, body func()) (Stats, *Failure) {
	cfg.defaults()
	st := Stats{}
	sc := &sched{cfg: cfg, stats: &st, visited: make(map[uint64]int8)}
	races := RaceCount()
	for {
		runOne(sc, body)
		if sc.fail == nil && RaceBuild {
			if n := RaceCount(); n != races {
				races = n
				if m := newRaceReport(); m != "" {
					sc.fail = &Failure{Kind: "datarace", Msg: m}
				}
			}
		}
		if sc.fail != nil {
			f := sc.fail
			for i := range sc.frames {
				f.Choices = append(f.Choices, sc.frames[i].chosen)
			}
			for len(f.Choices) > 0 && f.Choices[len(f.Choices)-1] == 0 {
				f.Choices = f.Choices[:len(f.Choices)-1]
			}
			if f.Kind == "internal" || f.Kind == "datarace" {
				return st, f
			}
			for i := 0; i < 3; i++ {
				r := Replay(cfg, body, f.Choices, i == 2)
				if r == nil || r.Kind != f.Kind {
					k := "nothing"
					if r != nil {
						k = r.Kind + ": " + r.Msg
					}
					return st, &Failure{Kind: "internal", Msg: "a failure did not reproduce: " + f.Msg + " / replay gave " + k, Choices: f.Choices}
				}
				if i == 2 {
					f.Trace = r.Trace
				}
			}
			return st, f
		}
		if sc.depth < len(sc.frames) && !sc.pruned {
			return st, &Failure{Kind: "internal", Msg: fmt.Sprintf("mc: nondeterministic execution: ended after %d of %d choices", sc.depth, len(sc.frames))}
		}
		// backtrack
		again := false
		for len(sc.frames) > 0 && !again {
			f := &sc.frames[len(sc.frames)-1]
			for c := f.chosen + 1; c < f.n; c++ {
				if int(f.cost[c]) <= f.left {
					f.chosen = c
					again = true
					break
				}
			}
			if !again {
				sc.frames = sc.frames[:len(sc.frames)-1]
			}
		}
		if !again {
			st.Exhausted = true
			return st, nil
		}
		if cfg.MaxExecs > 0 && st.Execs >= cfg.MaxExecs {
			st.Why = "execution limit"
			return st, nil
		}
		if !Deadline.IsZero() && st.Execs&15 == 0 && time.Now().After(Deadline) {
			st.Why = "time limit"
			return st, nil
		}
		if len(sc.visited) >= maxVisited {
			st.Why = "state table full"
		}
		if st.Execs&0xffff == 0 {
			runtime.GC()
		}
	}
}

// Replay runs body once with exactly the given choices.
func Replay(cfg Config, body func(), choices []int, trace bool) *Failure {
	cfg.defaults()
	st := Stats{}
	sc := &sched{cfg: cfg, stats: &st, replay: true, fixed: choices, tracing: trace}
	runOne(sc, body)
	if sc.fail != nil {
		sc.fail.Trace = sc.trace
		sc.fail.Choices = choices
	}
	return sc.fail
}

// RunOnce runs body under the default schedule only.
func RunOnce(body func()) (Stats, *Failure) {
	cfg := Config{}
	cfg.defaults()
	cfg.MaxSteps = 1 << 40
	st := Stats{}
	sc := &sched{cfg: cfg, stats: &st, replay: true}
	runOne(sc, body)
	return st, sc.fail
}
