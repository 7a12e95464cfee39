// Package mc is the controlled runtime that the instrumented copy of the code under
// test is linked against: a cooperative scheduler that runs exactly one goroutine at a
// time and takes every scheduling, select, timer, random and fault decision from an
// explorer, together with in-memory files, connections and a virtual clock.
//
// All shared state of this package is protected by that discipline (one goroutine runs
// at a time, handed over through per-goroutine channels).
package mc

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------- goroutines

const (
	gReady   = iota // can run as soon as it is chosen
	gCond           // waits for cond() to hold
	gParked         // waits for another goroutine to complete its operation
	gQuiesce        // waits for every other goroutine to be blocked
	gDone
)

// waitCond is evaluated by the scheduler to see whether a waiting goroutine can go on.
type waitCond interface{ ready(g *G) bool }

// G is a controlled goroutine.
type G struct {
	id    int
	state int
	cond  waitCond
	wake  chan struct{}
	h     uint64 // happens-before hash of everything this goroutine did
	kids  uint64
	uuidN uint64
	randN int64 // outcomes of a draw in progress
	run   int   // consecutive steps without blocking
	what  string
	obj   string
	sel   *selState
	raceA *byte
	done  bool
	main  bool
	low   bool // runs only if no other can
	proc  *Proc
}

// hobj carries the happens-before hash of a shared object.
type hobj struct{ w, r uint64 }

func mix(a, b uint64) uint64 {
	a ^= b + 0x9e3779b97f4a7c15 + (a << 6) + (a >> 2)
	a ^= a >> 33
	a *= 0xff51afd7ed558ccd
	a ^= a >> 33
	a *= 0xc4ceb9fe1a85ec53
	a ^= a >> 33
	return a
}

// hashStr is FNV-1a.
func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

func (g *G) write(o *hobj, tag uint64) {
	h := mix(mix(mix(g.h, o.w), o.r), tag)
	g.h = h
	o.w = h
	o.r = 0
}

func (g *G) read(o *hobj, tag uint64) {
	h := mix(mix(g.h, o.w), tag)
	g.h = h
	o.r += h
}

// ---------------------------------------------------------------- explorer state

// Config bounds one exploration.
type Config struct {
	Budget    int   // total cost of deviations from the default schedule; <0: unlimited
	BlockCost int   // cost of a non-default choice when the running goroutine blocked
	SelCost   int   // cost of a non-default choice among several ready select cases
	RandCost  int   // cost of a non-default random outcome; 0: never explored, <0: free
	EarlyCost int   // cost of firing a timer while goroutines can run; 0: never, <0: free
	MaxSteps  int   // steps of one execution after which it counts as non-terminating
	MaxExecs  int64 // stop (not exhaustive) after that many executions
	NoCache   bool  // do not prune states already explored
	Preempt   int   // cost of a preemption (default 1)
	Demote    int   // cost of letting the next goroutine wait until nobody else can run; 0: never explored
}

// Stats is what an exploration covered.
type Stats struct {
	Execs       int64  `json:"execs"`
	States      int64  `json:"states"`
	Transitions int64  `json:"transitions"`
	Pruned      int64  `json:"pruned"`
	MaxDepth    int    `json:"max_depth"`
	Points      int64  `json:"decision_points"`
	Exhausted   bool   `json:"exhausted"`
	Why         string `json:"why,omitempty"`
}

// Failure describes a violating execution.
type Failure struct {
	Kind    string   `json:"kind"`
	Msg     string   `json:"msg"`
	Choices []int    `json:"choices"`
	Trace   []string `json:"trace,omitempty"`
}

type frame struct {
	n      int
	chosen int
	cost   [maxAlt]int8
	left   int // budget left before this choice
}

const maxAlt = 64
const maxVisited = 24 << 20

type sched struct {
	cfg     Config
	gs      []*G
	nG      int    // goroutines started
	doneSum uint64 // of the finished ones
	cur     *G
	steps   int
	clock   int64
	timers  []*timer
	timerN  uint64
	clockO  hobj
	abort   bool
	calm    bool
	over    chan struct{}
	fail    *Failure
	pruned  bool
	exited  bool
	frames  []frame
	depth   int // position in frames
	replayN int // number of frames fixed by the explorer
	left    int
	fixed   []int // replay mode: exact choices
	replay  bool
	tracing bool
	trace   []string
	visited map[uint64]int8
	stats   *Stats
	gdone   chan struct{}
	seqO    hobj
}

var s *sched // nil: no controlled execution is active

// Active reports whether a controlled execution is running.
func Active() bool { return s != nil }

// ---------------------------------------------------------------- choices

// choose asks the explorer for one of n alternatives; cost(i) is what alternative i costs.
func (sc *sched) choose(n int, cost *[maxAlt]int8) int {
	if n <= 1 {
		return 0
	}
	if n > maxAlt {
		n = maxAlt
	}
	if sc.replay {
		c := 0
		if sc.depth < len(sc.fixed) {
			c = sc.fixed[sc.depth]
		}
		if c >= n {
			c = 0
		}
		sc.depth++
		return c
	}
	if sc.depth < len(sc.frames) {
		f := &sc.frames[sc.depth]
		if f.n != n {
			panic(fmt.Sprintf("mc: nondeterministic execution: choice %d has %d alternatives, had %d", sc.depth, n, f.n))
		}
		sc.depth++
		sc.left = f.left - int(f.cost[f.chosen])
		return f.chosen
	}
	f := frame{n: n, left: sc.left}
	f.cost = *cost
	sc.frames = append(sc.frames, f)
	sc.depth++
	sc.left -= int(f.cost[0])
	return 0
}

// Choose lets a harness or an environment stand-in make an explored choice among n
// alternatives; alternatives other than 0 cost `cost`.
func Choose(n int, cost int) int {
	if s == nil || s.abort || n <= 1 || s.calm {
		return 0
	}
	var c [maxAlt]int8
	for i := 1; i < n && i < maxAlt; i++ {
		c[i] = int8(cost)
	}
	r := s.choose(n, &c)
	s.cur.h = mix(s.cur.h, uint64(r)+0x51)
	return r
}

// ChooseN is Choose without a limit on n.
func ChooseN(n int, cost int) int {
	if n <= maxAlt {
		return Choose(n, cost)
	}
	hi := Choose((n+maxAlt-1)/maxAlt, cost)
	m := n - hi*maxAlt
	if m > maxAlt {
		m = maxAlt
	}
	return hi*maxAlt + Choose(m, cost)
}

// ---------------------------------------------------------------- points

func (sc *sched) tracef(g *G, what string) {
	loc := ""
	for i := 2; i < 14; i++ {
		_, file, line, ok := runtime.Caller(i)
		if !ok {
			break
		}
		if strings.Contains(file, "/mc/") {
			continue
		}
		if j := strings.Index(file, "/pkg/"); j >= 0 {
			file = file[j+1:]
		} else if j := strings.LastIndex(file, "/vharness/"); j >= 0 {
			file = file[j+1:]
		}
		loc = file + ":" + strconv.Itoa(line)
		break
	}
	sc.trace = append(sc.trace, fmt.Sprintf("g%d %s %s", g.id, what, loc))
}

func (sc *sched) enabled(g *G) bool {
	if g.gone() {
		return false
	}
	switch g.state {
	case gReady:
		return true
	case gCond:
		if procs.cur != nil && g.proc != procs.cur && g.proc != nil {
			switch g.cond.(type) {
			case *Mutex, rwPend, rwWrite, *WaitGroup, *Once:
				// it may be one of the program's variables
				here := &G{proc: procs.cur}
				g.enter()
				r := g.cond.ready(g)
				here.enter()
				return r
			}
		}
		return g.cond.ready(g)
	}
	return false
}

// outward says whether a step can be noticed outside its program.
func outward(what string) bool {
	switch what {
	case "listen", "accept", "lclose", "dial", "exit", "mkdir", "open", "fclose", "write", "truncate", "remove", "removeall", "rename",
		"type", "stdin":
		return true
	}
	return strings.HasPrefix(what, "net.")
}

// point is called by the running goroutine before each visible operation.
// cond, if not nil, must hold when the operation is executed.
func (sc *sched) point(what string, cond waitCond) {
	g := sc.cur
	sc.steps++
	sc.stats.Transitions++
	g.what = what
	g.h = mix(g.h, 0x9d) // an operation may leave no trace of its own
	if sc.tracing {
		sc.tracef(g, what)
	}
	if p := g.proc; p != nil && p.fuse > 0 && outward(what) {
		if p.fuse--; p.fuse == 0 {
			p.end()
		} else {
			p.last = what
		}
	}
	if sc.steps > sc.cfg.MaxSteps {
		sc.failNow("livelock", fmt.Sprintf("no termination after %d steps (running: g%d %s)", sc.steps, g.id, what))
	}
	if cond != nil {
		g.state = gCond
		g.cond = cond
	} else {
		g.state = gReady
	}
	sc.schedule()
	g.state = gReady
	g.cond = nil
}

// park blocks the running goroutine until another one makes it ready.
func (sc *sched) park(what string) {
	g := sc.cur
	g.what = what
	g.h = mix(g.h, 0xbead)
	g.state = gParked
	if sc.tracing {
		sc.tracef(g, "blocks in "+what)
	}
	sc.schedule()
}

func (sc *sched) unpark(g *G) { g.state = gReady }

func (sc *sched) sig() uint64 {
	x := sc.doneSum
	for _, g := range sc.gs {
		t := uint64(1)
		if g.done {
			t = 2
		}
		if g.low {
			t |= 4
		}
		x += mix(mix(uint64(g.id)+77, g.h), t)
	}
	x = mix(x, uint64(sc.cur.id)+13)
	if sc.cur.run > 500 {
		x = mix(x, uint64(sc.cur.run))
	}
	return mix(x, sc.clockO.w)
}

// schedule picks the goroutine that runs next and hands over to it; it returns when the
// calling goroutine runs again.
func (sc *sched) schedule() {
	g := sc.cur
	next := sc.pick(g)
	if next == nil {
		runtime.Goexit()
	}
	if next == g {
		return
	}
	sc.cur = next
	next.enter()
	if sc.tracing {
		sc.trace = append(sc.trace, fmt.Sprintf("  -> g%d (%s)", next.id, next.what))
	}
	handOff(g, next)
	if sc.abort {
		runtime.Goexit()
	}
}

// pick returns the goroutine to run after g's announcement (g itself if it goes on), or
// nil if the execution is over.
func (sc *sched) pick(g *G) *G {
	for {
		var en [maxAlt]*G
		var cost [maxAlt]int8
		n := 0
		curEn := sc.enabled(g)
		ng := len(sc.gs)
		if curEn {
			g.run++
		} else {
			g.run = 0
		}
		start := 0 // the first one after g
		for start < ng && sc.gs[start].id <= g.id {
			start++
		}
		forced := curEn && g.run > 1000
		// a goroutine put last goes on only if nobody else can
		lows := false
		for pass := 0; pass < 2; pass++ {
			if curEn && !forced && g.low == (pass == 1) {
				en[n] = g
				if n > 0 {
					cost[n] = int8(sc.cfg.Preempt)
				}
				n++
			}
			for k := 0; k < ng; k++ {
				x := sc.gs[(start+k)%ng]
				if x.low != (pass == 1) {
					lows = true
					continue
				}
				if x.state == gDone || (x == g && (!forced || k != ng-1)) || !sc.enabled(x) {
					continue
				}
				if n >= maxAlt-2 {
					break
				}
				en[n] = x
				if n > 0 {
					if curEn && !forced {
						cost[n] = int8(sc.cfg.Preempt)
					} else {
						cost[n] = int8(sc.cfg.BlockCost)
					}
				}
				n++
			}
			if !lows {
				break
			}
		}
		if forced {
			g.run = 0
		}
		if n == 0 {
			// Everything is blocked: a quiescence waiter goes on, else time passes.
			if q := sc.quiescer(); q != nil {
				q.state = gReady
				q.h = mix(q.h, sc.doneSum)
				for _, x := range sc.gs {
					if x != q {
						q.h = mix(q.h, x.h)
					}
				}
				if sc.calm && !sc.replay && sc.depth >= len(sc.frames) && !sc.cfg.NoCache && sc.seen() {
					sc.abort = true
					return nil
				}
				continue
			}
			if sc.fireNext() {
				continue
			}
			if sc.fail == nil {
				sc.fail = &Failure{Kind: "deadlock", Msg: "every goroutine is blocked: " + sc.describe()}
			}
			sc.abort = true
			return nil
		}
		demote := -1
		if sc.cfg.Demote > 0 && n > 1 && !en[0].low && !en[0].main {
			demote = n
			cost[n] = int8(sc.cfg.Demote)
			n++
		}
		early := false
		if sc.cfg.EarlyCost != 0 && n < maxAlt && sc.liveTimer() {
			if sc.cfg.EarlyCost > 0 {
				cost[n] = int8(sc.cfg.EarlyCost)
			}
			early = true
			n++
		}
		c := 0
		if n > 1 {
			sc.stats.Points++
			if !sc.calm && !sc.replay && sc.depth >= len(sc.frames) && !sc.cfg.NoCache {
				if sc.seen() {
					sc.abort = true
					return nil
				}
			}
			if !sc.calm {
				c = sc.choose(n, &cost)
			}
		}
		if early && c == n-1 {
			sc.fireNext()
			continue
		}
		if c == demote {
			en[0].low = true
			continue
		}
		return en[c]
	}
}

func (sc *sched) quiescer() *G {
	for _, x := range sc.gs {
		if x.state == gQuiesce && !x.gone() {
			return x
		}
	}
	return nil
}

// seen reports whether the current state was already explored with at least the budget
// that is left, and records it otherwise.
func (sc *sched) seen() bool {
	x := sc.sig()
	left := sc.left
	if left > 120 {
		left = 120
	}
	old, ok := sc.visited[x]
	if ok && int(old) >= left {
		sc.pruned = true
		sc.stats.Pruned++
		return true
	}
	if !ok {
		sc.stats.States++
	}
	if ok || len(sc.visited) < maxVisited {
		sc.visited[x] = int8(left)
	}
	return false
}

func (sc *sched) describe() string {
	var b strings.Builder
	for _, g := range sc.gs {
		if g.state != gDone && !g.gone() {
			fmt.Fprintf(&b, "[g%d %s] ", g.id, g.what)
		}
	}
	return b.String()
}

// stop ends the execution from the running goroutine.
func (sc *sched) stop() {
	sc.abort = true
	runtime.Goexit()
}

// failNow records a failure and ends the execution.
func (sc *sched) failNow(kind, msg string) {
	if sc.fail == nil {
		sc.fail = &Failure{Kind: kind, Msg: msg}
	}
	sc.stop()
}

// Fail reports a violation from a harness body and ends the execution.
func Fail(format string, a ...interface{}) {
	msg := fmt.Sprintf(format, a...)
	if s == nil {
		panic("mc.Fail outside an execution: " + msg)
	}
	if s.abort {
		return
	}
	s.failNow("property", msg)
}

// Calm(true) makes the execution go on under the default schedule and without explored
// choices until Calm(false): for set-up, and for looking at the outcome.
func Calm(on bool) {
	if s != nil && !s.abort {
		s.calm = on
	}
}

// Prune ends the execution quietly (the scenario's precondition does not hold).
func Prune() {
	if s != nil && !s.abort {
		s.stop()
	}
}

// Go starts a controlled goroutine.
func Go(fn func()) {
	sc := s
	if sc == nil {
		panic("mc: go statement outside a controlled execution")
	}
	if sc.abort {
		return
	}
	p := sc.cur
	g := sc.newG(fn)
	p.kids++
	g.h = mix(p.h, p.kids+1000)
	p.h = mix(p.h, p.kids+5000)
	if sc.tracing {
		sc.tracef(p, "go g"+strconv.Itoa(g.id))
	}
	sc.steps++ // no scheduling point: the next visible operation of p has one
	if sc.steps > sc.cfg.MaxSteps {
		sc.point("go", nil)
	}
}

func (sc *sched) newG(fn func()) *G {
	g := &G{id: sc.nG, proc: curProc(), state: gReady, wake: make(chan struct{}, 1), what: "start"}
	sc.nG++
	sc.gs = append(sc.gs, g)
	go gMain(sc, g, fn)
	return g
}

func gMain(sc *sched, g *G, fn func()) {
	defer gEnd(sc, g)
	waitWake(g)
	if sc.abort {
		return
	}
	fn()
}

func gEnd(sc *sched, g *G) {
	if r := recover(); r != nil {
		st := string(debug.Stack())
		if sc.fail == nil {
			if strings.HasPrefix(fmt.Sprint(r), "mc: nondet") {
				sc.fail = &Failure{Kind: "internal", Msg: fmt.Sprint(r)}
			} else if !sc.abort {
				sc.fail = &Failure{Kind: "panic", Msg: fmt.Sprintf("panic: %v\n%s", r, trimStack(st))}
			}
		}
		sc.abort = true
	}
	g.done = true
	g.state = gDone
	g.what = "done"
	raceReleaseMerge(teardownAddr())
	if g.main {
		sc.abort = true
	}
	if !sc.abort {
		sc.forget(g)
		if next := sc.pick(g); next != nil {
			sc.cur = next
			next.enter()
			if sc.tracing {
				sc.trace = append(sc.trace, fmt.Sprintf("  g%d done -> g%d (%s)", g.id, next.id, next.what))
			}
			wakeUp(next)
			return
		}
	}
	finishAbort(sc)
}

// forget takes a finished goroutine off the list; its history still identifies the state.
func (sc *sched) forget(g *G) {
	for i, x := range sc.gs {
		if x == g {
			sc.gs = append(sc.gs[:i], sc.gs[i+1:]...)
			break
		}
	}
	sc.doneSum += mix(mix(uint64(g.id)+77, g.h), 2)
}

// trimStack keeps the interesting lines of a stack trace.
func trimStack(st string) string {
	var out []string
	for _, l := range strings.Split(st, "\n") {
		if strings.Contains(l, "runtime/debug") || strings.Contains(l, "/mc/sched.go") {
			continue
		}
		out = append(out, l)
		if len(out) > 24 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// finishAbort tears the execution down: wakes every other goroutine, one after the
// other, so that it unwinds; the last one reports the end of the execution.
func finishAbort(sc *sched) {
	for _, x := range sc.gs {
		if !x.done {
			sc.cur = x
			wakeUp(x)
			return
		}
	}
	close(sc.over)
}
