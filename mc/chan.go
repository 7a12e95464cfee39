package mc

import "unsafe"

// Chan stands in for a Go channel; `chan T` of any direction becomes *Chan[T].
type Chan[T any] struct{ c chanCore }

type chanCore struct {
	o      hobj
	cap    int
	buf    []msg
	slots  []byte // one race-detector address per buffer slot
	sendx  int
	recvx  int
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	closeA byte
	timer  *timer
}

type msg struct{ v any }

type waiter struct {
	g    *G
	sel  *selState
	idx  int
	val  any
	ok   bool
	send bool
	c    *chanCore
	ra   byte
	rb   byte
}

// selState is shared by the waiters of one blocked operation.
type selState struct {
	fired bool
	w     *waiter
}

func up(p *byte) unsafe.Pointer { return unsafe.Pointer(p) }

// MakeChan is make(chan T) and make(chan T, n).
func MakeChan[T any](n ...int) *Chan[T] {
	c := &Chan[T]{}
	if len(n) > 0 {
		initChan(&c.c, n[0])
	} else {
		initChan(&c.c, 0)
	}
	return c
}

func initChan(c *chanCore, n int) {
	if n < 0 {
		panic("makechan: size out of range")
	}
	c.cap = n
	if n > 0 {
		c.slots = make([]byte, n)
	}
}

// C is the identity; it lets named channel types use the methods of *Chan.
func C[T any](c *Chan[T]) *Chan[T] { return c }

func core[T any](c *Chan[T]) *chanCore {
	if c == nil {
		return nil
	}
	return &c.c
}

func (c *Chan[T]) Send(v T) { chanSend(core(c), any(v)) }

func (c *Chan[T]) Recv() T {
	v, _ := chanRecv(core(c))
	x, _ := v.(T)
	return x
}

func (c *Chan[T]) Recv2() (T, bool) {
	v, ok := chanRecv(core(c))
	x, _ := v.(T)
	return x, ok
}

func (c *Chan[T]) Close()   { chanClose(core(c)) }
func (c *Chan[T]) Len() int { return chanLen(core(c)) }
func (c *Chan[T]) Cap() int {
	if c == nil {
		return 0
	}
	return c.c.cap
}

// ---- operations

func blockForever(what string) {
	if s == nil {
		panic("mc: " + what + " blocks forever outside a controlled execution")
	}
	if s.abort {
		return
	}
	s.point(what, nil)
	s.park(what)
}

func (c *chanCore) popRecv() *waiter {
	for len(c.recvq) > 0 {
		w := c.recvq[0]
		c.recvq = c.recvq[1:]
		if w.sel.fired {
			continue
		}
		return w
	}
	return nil
}

func (c *chanCore) popSend() *waiter {
	for len(c.sendq) > 0 {
		w := c.sendq[0]
		c.sendq = c.sendq[1:]
		if w.sel.fired {
			continue
		}
		return w
	}
	return nil
}

func hasLive(q []*waiter) bool {
	for _, w := range q {
		if !w.sel.fired {
			return true
		}
	}
	return false
}

func (c *chanCore) canSend() bool {
	return c != nil && (c.closed || len(c.buf) < c.cap || hasLive(c.recvq))
}

func (c *chanCore) canRecv() bool {
	return c != nil && (len(c.buf) > 0 || c.closed || hasLive(c.sendq))
}

// complete makes a parked waiter's operation happen.
func (w *waiter) complete() {
	w.sel.fired = true
	w.sel.w = w
	if w.g != nil {
		w.g.state = gReady
		if s != nil && s.cur != nil && s.cur != w.g {
			w.g.h = mix(w.g.h, s.cur.h)
		}
	}
}

// doSend performs a send that is known to be possible.
func (c *chanCore) doSend(v any) {
	if c.closed {
		panic("send on closed channel")
	}
	if w := c.popRecv(); w != nil {
		w.val = v
		w.ok = true
		raceAcquire(up(&w.ra))
		raceReleaseMerge(up(&w.rb))
		w.complete()
		return
	}
	if c.cap > 0 {
		sl := up(&c.slots[c.sendx])
		raceAcquire(sl)
		raceRelease(sl)
		c.sendx = (c.sendx + 1) % c.cap
	}
	c.buf = append(c.buf, msg{v})
}

func (c *chanCore) doRecv() (any, bool) {
	if len(c.buf) > 0 {
		m := c.buf[0]
		c.buf = c.buf[1:]
		sl := up(&c.slots[c.recvx])
		raceAcquire(sl)
		raceRelease(sl)
		c.recvx = (c.recvx + 1) % c.cap
		if w := c.popSend(); w != nil {
			raceAcquire(up(&w.ra))
			sl := up(&c.slots[c.sendx])
			raceReleaseMerge(sl)
			raceReleaseMerge(up(&w.rb))
			c.sendx = (c.sendx + 1) % c.cap
			c.buf = append(c.buf, msg{w.val})
			w.complete()
		}
		return m.v, true
	}
	if w := c.popSend(); w != nil {
		raceAcquire(up(&w.ra))
		raceReleaseMerge(up(&w.rb))
		w.complete()
		return w.val, true
	}
	raceAcquire(up(&c.closeA))
	return nil, false
}

func newWaiter(c *chanCore, sel *selState, idx int, send bool, v any) *waiter {
	w := &waiter{g: s.cur, sel: sel, idx: idx, send: send, val: v, c: c}
	raceReleaseMerge(up(&w.ra))
	return w
}

func (w *waiter) woken() {
	raceAcquire(up(&w.rb))
	if w.send && !w.ok && w.c.closed && w.val == closedMark {
		panic("send on closed channel")
	}
	if !w.send && !w.ok {
		raceAcquire(up(&w.c.closeA))
	}
}

type closedMarkT struct{}

var closedMark any = &closedMarkT{}

func chanSend(c *chanCore, v any) {
	if c == nil {
		blockForever("send on nil channel")
		return
	}
	if s == nil {
		if !c.canSend() {
			panic("mc: send blocks outside a controlled execution")
		}
		c.doSend(v)
		return
	}
	if s.abort {
		return
	}
	s.point("send", nil)
	s.cur.write(&c.o, 0x11)
	if c.canSend() {
		c.doSend(v)
		return
	}
	sel := &selState{}
	w := newWaiter(c, sel, 0, true, v)
	c.sendq = append(c.sendq, w)
	s.park("send")
	w.woken()
	s.cur.write(&c.o, 0x12)
}

func chanRecv(c *chanCore) (any, bool) {
	if c == nil {
		blockForever("receive from nil channel")
		return nil, false
	}
	if s == nil {
		if !c.canRecv() {
			panic("mc: receive blocks outside a controlled execution")
		}
		return c.doRecv()
	}
	if s.abort {
		return nil, false
	}
	s.point("recv", nil)
	s.cur.write(&c.o, 0x21)
	if c.canRecv() {
		return c.doRecv()
	}
	sel := &selState{}
	w := newWaiter(c, sel, 0, false, nil)
	c.recvq = append(c.recvq, w)
	s.park("recv")
	w.woken()
	s.cur.write(&c.o, 0x22)
	return w.val, w.ok
}

func chanClose(c *chanCore) {
	if c == nil {
		if s != nil && s.abort {
			return
		}
		panic("close of nil channel")
	}
	if s != nil {
		if s.abort {
			return
		}
		s.point("close", nil)
		s.cur.write(&c.o, 0x31)
	}
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
	raceReleaseMerge(up(&c.closeA))
	for {
		w := c.popRecv()
		if w == nil {
			break
		}
		w.val, w.ok = nil, false
		w.complete()
	}
	for {
		w := c.popSend()
		if w == nil {
			break
		}
		w.val, w.ok = closedMark, false
		w.complete()
	}
}

func chanLen(c *chanCore) int {
	if c == nil {
		return 0
	}
	if s != nil && !s.abort {
		s.point("len", nil)
		s.cur.read(&c.o, 0x41)
	}
	return len(c.buf)
}

// ---- select

// SelCase is one communication of a select statement.
type SelCase interface{ sc() *selCore }

type selCore struct {
	c    *chanCore
	send bool
	v    any
	ok   bool
}

// RecvCase is a receive case.
type RecvCase[T any] struct{ s selCore }

// SendCase is a send case.
type SendCase struct{ s selCore }

func (r *RecvCase[T]) sc() *selCore { return &r.s }
func (r *SendCase) sc() *selCore    { return &r.s }

func (c *Chan[T]) CaseRecv() *RecvCase[T] { return &RecvCase[T]{s: selCore{c: core(c)}} }
func (c *Chan[T]) CaseSend(v T) *SendCase {
	return &SendCase{s: selCore{c: core(c), send: true, v: any(v)}}
}

// Val is the received value.
func (r *RecvCase[T]) Val() T {
	x, _ := r.s.v.(T)
	return x
}

// Val2 is the received value and whether the channel was open.
func (r *RecvCase[T]) Val2() (T, bool) {
	x, _ := r.s.v.(T)
	return x, r.s.ok
}

// Sel executes a select statement; it returns the index of the chosen case or -1 for
// the default case.
func Sel(hasDefault bool, cases ...SelCase) int {
	var cs [16]*selCore
	n := 0
	for _, c := range cases {
		cs[n] = c.sc()
		n++
	}
	return selectGo(hasDefault, cs[:n])
}

func selectGo(hasDefault bool, cs []*selCore) int {
	if s == nil {
		for i, c := range cs {
			if c.c != nil && (c.send && c.c.canSend() || !c.send && c.c.canRecv()) {
				c.exec()
				return i
			}
		}
		if hasDefault {
			return -1
		}
		panic("mc: select blocks outside a controlled execution")
	}
	if s.abort {
		if hasDefault {
			return -1
		}
		goexit()
	}
	s.point("select", nil)
	var ready [16]int
	n := 0
	for i, c := range cs {
		if c.c == nil {
			continue
		}
		s.cur.write(&c.c.o, 0x61)
		if c.send && c.c.canSend() || !c.send && c.c.canRecv() {
			ready[n] = i
			n++
		}
	}
	if n > 0 {
		k := 0
		if n > 1 {
			k = Choose(n, s.cfg.SelCost)
		}
		i := ready[k]
		s.cur.h = mix(s.cur.h, uint64(i)+0x71)
		s.cur.write(&cs[i].c.o, 0x62)
		cs[i].exec()
		return i
	}
	if hasDefault {
		s.cur.h = mix(s.cur.h, 0x70)
		return -1
	}
	sel := &selState{}
	for i, c := range cs {
		if c.c == nil {
			continue
		}
		w := newWaiter(c.c, sel, i, c.send, c.v)
		if c.send {
			c.c.sendq = append(c.c.sendq, w)
		} else {
			c.c.recvq = append(c.c.recvq, w)
		}
	}
	s.park("select")
	w := sel.w
	// drop the other waiters
	for _, c := range cs {
		if c.c == nil {
			continue
		}
		c.c.recvq = prune(c.c.recvq)
		c.c.sendq = prune(c.c.sendq)
	}
	w.woken()
	s.cur.write(&w.c.o, 0x63)
	s.cur.h = mix(s.cur.h, uint64(w.idx)+0x71)
	cs[w.idx].v = w.val
	cs[w.idx].ok = w.ok
	return w.idx
}

func prune(q []*waiter) []*waiter {
	k := 0
	for _, w := range q {
		if !w.sel.fired {
			q[k] = w
			k++
		}
	}
	return q[:k]
}

func (c *selCore) exec() {
	if c.send {
		c.c.doSend(c.v)
	} else {
		c.v, c.ok = c.c.doRecv()
	}
}

// ChanIt iterates over the values received from a channel.
type ChanIt[T any] struct{ c *Chan[T] }

// RangeChan2 starts `for v := range c`.
func RangeChan2[T any](c *Chan[T]) (v T, it ChanIt[T]) { return v, ChanIt[T]{c} }

// RangeChan1 starts `for range c`.
func RangeChan1[T any](c *Chan[T]) ChanIt[T] { return ChanIt[T]{c} }

// Next receives the next value; false when the channel is closed.
func (it ChanIt[T]) Next(v *T) bool {
	x, ok := it.c.Recv2()
	if !ok {
		return false
	}
	if v != nil {
		*v = x
	}
	return true
}
