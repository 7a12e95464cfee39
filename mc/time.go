package mc

import (
	"time"
)

const startClock = int64(1577836800) * 1e9 // 2020-01-01T00:00:00Z

// timer is a pending point of the virtual clock.
type timer struct {
	at     int64
	seq    uint64
	c      *chanCore // receives the time, without blocking
	fn     func()    // or: run in a new goroutine
	wakeG  *G        // or: wake a sleeper
	period int64
	dead   bool
	proc   *Proc
}

func (sc *sched) addTimer(t *timer) {
	sc.timerN++
	t.seq = sc.timerN
	t.proc = curProc()
	sc.timers = append(sc.timers, t)
}

func (sc *sched) delTimer(t *timer) bool {
	for i, x := range sc.timers {
		if x == t {
			sc.timers = append(append([]*timer(nil), sc.timers[:i]...), sc.timers[i+1:]...)
			return true
		}
	}
	return false
}

// pruneTimers drops abandoned timers: one-shot channels nobody can be waiting on.
func (sc *sched) earliest() int {
	b := -1
	for i, t := range sc.timers {
		if b < 0 || t.at < sc.timers[b].at || (t.at == sc.timers[b].at && t.seq < sc.timers[b].seq) {
			b = i
		}
	}
	return b
}

// liveTimer reports whether the earliest timer would make somebody runnable.
func (sc *sched) liveTimer() bool {
	i := sc.earliest()
	if i < 0 {
		return false
	}
	t := sc.timers[i]
	return t.fn != nil || t.wakeG != nil || (t.c != nil && hasLive(t.c.recvq))
}

// fireNext advances the clock to the earliest timer and fires it.
func (sc *sched) fireNext() bool {
	i := sc.earliest()
	if i < 0 {
		return false
	}
	sc.steps++
	if sc.steps > sc.cfg.MaxSteps {
		return false
	}
	t := sc.timers[i]
	sc.timers = append(append([]*timer(nil), sc.timers[:i]...), sc.timers[i+1:]...)
	if t.at > sc.clock {
		sc.clock = t.at
	}
	h := mix(mix(sc.clockO.w, sc.clockO.r), uint64(sc.clock)+t.seq)
	sc.clockO.w, sc.clockO.r = h, 0
	if sc.tracing {
		sc.trace = append(sc.trace, "  time passes: "+time.Duration(sc.clock-startClock).String())
	}
	if t.period > 0 {
		t.at += t.period
		sc.timers = append(sc.timers, t)
	}
	switch {
	case t.wakeG != nil:
		g := t.wakeG
		if g.state == gParked {
			g.state = gReady
			g.h = mix(g.h, h)
		}
	case t.fn != nil:
		g := sc.newG(t.fn)
		g.proc = t.proc
		g.h = mix(h, 0x7171)
		g.what = "timer func"
	case t.c != nil:
		c := t.c
		c.o.w = mix(mix(c.o.w, c.o.r), h)
		c.o.r = 0
		if w := c.popRecv(); w != nil {
			w.val, w.ok = time.Unix(0, sc.clock), true
			w.sel.fired = true
			w.sel.w = w
			w.g.state = gReady
			w.g.h = mix(w.g.h, h)
		} else if len(c.buf) < c.cap {
			c.buf = append(c.buf, msg{time.Unix(0, sc.clock)})
		}
	}
	return true
}

func now() int64 {
	if s == nil {
		return startClock
	}
	if !s.abort {
		s.cur.read(&s.clockO, 0x301)
	}
	return s.clock
}

func Now() time.Time                  { return time.Unix(0, now()) }
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

func newTimerChan(d, period time.Duration) (*Chan[time.Time], *timer) {
	c := MakeChan[time.Time](1)
	t := &timer{at: now() + clampDur(d), c: &c.c, period: int64(period)}
	c.c.timer = t
	if s != nil && !s.abort {
		t.at = now() + clampDur(d)
		s.addTimer(t)
	}
	return c, t
}

func clampDur(d time.Duration) int64 {
	if d < 0 {
		return 0
	}
	if int64(d) > 1<<61 {
		return 1 << 61
	}
	return int64(d)
}

// After is time.After.
func After(d time.Duration) *Chan[time.Time] {
	c, _ := newTimerChan(d, 0)
	return c
}

// Tick is time.Tick.
func Tick(d time.Duration) *Chan[time.Time] {
	c, _ := newTimerChan(d, d)
	return c
}

// Sleep is time.Sleep.
func Sleep(d time.Duration) {
	if s == nil {
		return
	}
	if s.abort {
		return
	}
	s.point("sleep", nil)
	if d <= 0 {
		return
	}
	s.addTimer(&timer{at: now() + clampDur(d), wakeG: s.cur})
	s.park("sleep")
}

// Timer is time.Timer.
type Timer struct {
	C *Chan[time.Time]
	t *timer
}

func NewTimer(d time.Duration) *Timer {
	c, t := newTimerChan(d, 0)
	return &Timer{C: c, t: t}
}

func AfterFunc(d time.Duration, f func()) *Timer {
	t := &timer{fn: f}
	if s != nil && !s.abort {
		t.at = now() + clampDur(d)
		s.addTimer(t)
	}
	return &Timer{t: t}
}

func (t *Timer) Stop() bool {
	if s == nil || s.abort {
		return false
	}
	s.point("timer.stop", nil)
	s.cur.read(&s.clockO, 0x302)
	r := s.delTimer(t.t)
	if t.C != nil {
		t.C.c.buf = nil
	}
	return r
}

func (t *Timer) Reset(d time.Duration) bool {
	if s == nil || s.abort {
		return false
	}
	s.point("timer.reset", nil)
	s.cur.read(&s.clockO, 0x303)
	r := s.delTimer(t.t)
	if t.C != nil {
		t.C.c.buf = nil
	}
	t.t.at = now() + clampDur(d)
	s.addTimer(t.t)
	return r
}

// Ticker is time.Ticker.
type Ticker struct {
	C *Chan[time.Time]
	t *timer
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c, t := newTimerChan(d, d)
	return &Ticker{C: c, t: t}
}

func (t *Ticker) Stop() {
	if s == nil || s.abort {
		return
	}
	s.point("ticker.stop", nil)
	s.delTimer(t.t)
}

func (t *Ticker) Reset(d time.Duration) {
	if s == nil || s.abort {
		return
	}
	s.point("ticker.reset", nil)
	s.delTimer(t.t)
	t.t.period = int64(d)
	t.t.at = now() + clampDur(d)
	s.addTimer(t.t)
}

// ---- harness helpers

// Elapsed is the virtual time since the start of the execution.
func Elapsed() time.Duration {
	if s == nil {
		return 0
	}
	return time.Duration(s.clock - startClock)
}

// Quiesce waits until every other goroutine is blocked (no time passes).
func Quiesce() {
	if s == nil || s.abort {
		return
	}
	s.point("quiesce", nil)
	g := s.cur
	g.state = gQuiesce
	g.h = mix(g.h, 0x0e5c)
	g.what = "quiesce"
	s.schedule()
	g.state = gReady
}

// RunFor lets d of virtual time pass, then waits until everything is blocked.
func RunFor(d time.Duration) {
	Sleep(d)
	Quiesce()
}

// Gosched is runtime.Gosched: the goroutine steps back behind every other one.
func Gosched() {
	if s == nil || s.abort {
		return
	}
	s.cur.run = 1001
	s.point("gosched", nil)
}

// Blocked describes the goroutines that have not finished (for messages).
func Blocked() string {
	if s == nil {
		return ""
	}
	return s.describe()
}

// NumLive counts goroutines, other than the caller, that have not finished.
func NumLive() int {
	n := 0
	if s != nil {
		for _, g := range s.gs {
			if g.state != gDone && g != s.cur && !g.gone() {
				n++
			}
		}
	}
	return n
}

// Spawn starts a harness goroutine and returns a handle to wait for it.
type Task struct {
	done bool
	o    hobj
	ra   byte
}

func (t *Task) ready(g *G) bool { return t.done }

// Spawn runs fn in a controlled goroutine.
func Spawn(fn func()) *Task {
	t := &Task{}
	Go(func() {
		defer taskEnd(t)
		fn()
	})
	return t
}

func taskEnd(t *Task) {
	if s == nil || s.abort {
		return
	}
	s.cur.write(&t.o, 0x401)
	raceReleaseMerge(up(&t.ra))
	t.done = true
}

// Join waits for the task.
func (t *Task) Join() {
	if s == nil || s.abort {
		return
	}
	if !t.done {
		s.point("join", t)
	}
	s.cur.read(&t.o, 0x402)
	raceAcquire(up(&t.ra))
}

// Done reports, without waiting, whether the task has finished. Meant for use after
// Quiesce.
func (t *Task) Done() bool { return t.done }

// Stamp returns the next number of a global sequence; it is a visible operation, so all
// stamps of an execution are totally ordered for the explorer.
func Stamp() int {
	if s == nil || s.abort {
		return 0
	}
	s.point("stamp", nil)
	s.cur.write(&s.seqO, 0x501)
	stampN++
	return stampN
}

var stampN int
