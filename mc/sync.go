package mc

import "runtime"

func goexit() { runtime.Goexit() }

// Locker is sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

// ---------------------------------------------------------------- Mutex

type Mutex struct {
	o      hobj
	locked bool
	ra     byte
}

func (m *Mutex) ready(g *G) bool { return !m.locked }

func (m *Mutex) Lock() {
	if s != nil {
		if s.abort {
			return
		}
		s.point("lock", m)
		s.cur.write(&m.o, 0x101)
	} else if m.locked {
		panic("mc: lock blocks outside a controlled execution")
	}
	m.locked = true
	raceAcquire(up(&m.ra))
}

func (m *Mutex) TryLock() bool {
	if s != nil {
		if s.abort {
			return false
		}
		s.point("trylock", nil)
		s.cur.write(&m.o, 0x102)
	}
	if m.locked {
		return false
	}
	m.locked = true
	raceAcquire(up(&m.ra))
	return true
}

func (m *Mutex) Unlock() {
	if s != nil {
		if s.abort {
			return
		}
		s.point("unlock", nil)
		s.cur.write(&m.o, 0x103)
	}
	if !m.locked {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	raceRelease(up(&m.ra))
	m.locked = false
}

// ---------------------------------------------------------------- RWMutex

type RWMutex struct {
	o       hobj
	readers int
	pending bool // a writer holds or waits for the lock: new readers wait
	writer  bool
	rw, rr  byte
}

type rwPend struct{ m *RWMutex }
type rwWrite struct{ m *RWMutex }

func (c rwPend) ready(g *G) bool  { return !c.m.pending }
func (c rwWrite) ready(g *G) bool { return c.m.readers == 0 }

func (m *RWMutex) Lock() {
	if s != nil {
		if s.abort {
			return
		}
		s.point("rwlock", rwPend{m})
		s.cur.write(&m.o, 0x111)
		m.pending = true
		if m.readers > 0 {
			s.point("rwlock-wait", rwWrite{m})
			s.cur.write(&m.o, 0x112)
		}
	} else if m.pending || m.readers > 0 {
		panic("mc: lock blocks outside a controlled execution")
	}
	m.pending = true
	m.writer = true
	raceAcquire(up(&m.rr))
	raceAcquire(up(&m.rw))
}

func (m *RWMutex) TryLock() bool {
	if s != nil {
		if s.abort {
			return false
		}
		s.point("rwtrylock", nil)
		s.cur.write(&m.o, 0x113)
	}
	if m.pending || m.readers > 0 {
		return false
	}
	m.pending, m.writer = true, true
	raceAcquire(up(&m.rr))
	raceAcquire(up(&m.rw))
	return true
}

func (m *RWMutex) Unlock() {
	if s != nil {
		if s.abort {
			return
		}
		s.point("rwunlock", nil)
		s.cur.write(&m.o, 0x114)
	}
	if !m.writer {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	raceRelease(up(&m.rw))
	m.writer, m.pending = false, false
}

func (m *RWMutex) RLock() {
	if s != nil {
		if s.abort {
			return
		}
		s.point("rlock", rwPend{m})
		s.cur.read(&m.o, 0x115)
	} else if m.pending {
		panic("mc: lock blocks outside a controlled execution")
	}
	m.readers++
	raceAcquire(up(&m.rw))
}

func (m *RWMutex) TryRLock() bool {
	if s != nil {
		if s.abort {
			return false
		}
		s.point("tryrlock", nil)
		s.cur.read(&m.o, 0x116)
	}
	if m.pending {
		return false
	}
	m.readers++
	raceAcquire(up(&m.rw))
	return true
}

func (m *RWMutex) RUnlock() {
	if s != nil {
		if s.abort {
			return
		}
		s.point("runlock", nil)
		s.cur.read(&m.o, 0x117)
	}
	if m.readers <= 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	raceReleaseMerge(up(&m.rr))
	m.readers--
}

// RLocker mirrors sync.RWMutex.RLocker.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// ---------------------------------------------------------------- WaitGroup

type WaitGroup struct {
	o  hobj
	n  int
	ra byte
}

func (w *WaitGroup) ready(g *G) bool { return w.n == 0 }

func (w *WaitGroup) Add(d int) {
	if s != nil {
		if s.abort {
			return
		}
		s.point("wg.add", nil)
		s.cur.write(&w.o, 0x121)
	}
	if d < 0 {
		raceReleaseMerge(up(&w.ra))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	if s != nil {
		if s.abort {
			return
		}
		s.point("wg.wait", w)
		s.cur.write(&w.o, 0x122)
	} else if w.n != 0 {
		panic("mc: WaitGroup.Wait blocks outside a controlled execution")
	}
	raceAcquire(up(&w.ra))
}

// Go mirrors sync.WaitGroup.Go.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

// ---------------------------------------------------------------- Once

type Once struct {
	o       hobj
	done    bool
	running bool
	ra      byte
}

func (o *Once) ready(g *G) bool { return !o.running }

func (o *Once) Do(f func()) {
	if s != nil {
		if s.abort {
			return
		}
		s.point("once", o)
		s.cur.write(&o.o, 0x131)
	} else if o.running {
		panic("mc: recursive Once.Do")
	}
	if o.done {
		raceAcquire(up(&o.ra))
		return
	}
	o.running = true
	defer onceEnd(o)
	f()
}

func onceEnd(o *Once) {
	o.done = true
	raceRelease(up(&o.ra))
	if s != nil && !s.abort {
		s.point("once-end", nil)
		s.cur.write(&o.o, 0x132)
	}
	o.running = false
}

// OnceFunc mirrors sync.OnceFunc.
func OnceFunc(f func()) func() {
	o := &Once{}
	return func() { o.Do(f) }
}

// ---------------------------------------------------------------- Cond

type Cond struct {
	L  Locker
	o  hobj
	q  []*G
	ra byte
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	if s == nil {
		panic("mc: Cond.Wait blocks outside a controlled execution")
	}
	if s.abort {
		goexit()
	}
	s.point("cond.wait", nil)
	s.cur.write(&c.o, 0x141)
	g := s.cur
	c.q = append(c.q, g)
	c.L.Unlock()
	woken := true
	for _, x := range c.q {
		if x == g {
			woken = false
		}
	}
	if !woken {
		s.park("cond.wait")
	}
	raceAcquire(up(&c.ra))
	c.L.Lock()
}

func (c *Cond) wakeN(n int) {
	for n != 0 && len(c.q) > 0 {
		g := c.q[0]
		c.q = c.q[1:]
		if g.state == gParked {
			g.state = gReady
		}
		g.h = mix(g.h, c.o.w)
		n--
	}
}

func (c *Cond) Signal() {
	if s == nil || s.abort {
		return
	}
	s.point("cond.signal", nil)
	s.cur.write(&c.o, 0x142)
	raceReleaseMerge(up(&c.ra))
	c.wakeN(1)
}

func (c *Cond) Broadcast() {
	if s == nil || s.abort {
		return
	}
	s.point("cond.broadcast", nil)
	s.cur.write(&c.o, 0x143)
	raceReleaseMerge(up(&c.ra))
	c.wakeN(-1)
}

// ---------------------------------------------------------------- Pool

type Pool struct {
	New func() any
	x   []any
	o   hobj
	ra  byte
}

func (p *Pool) Get() any {
	if s != nil && !s.abort {
		s.point("pool.get", nil)
		s.cur.write(&p.o, 0x151)
	}
	if n := len(p.x); n > 0 {
		v := p.x[n-1]
		p.x = p.x[:n-1]
		raceAcquire(up(&p.ra))
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v any) {
	if s != nil && !s.abort {
		s.point("pool.put", nil)
		s.cur.write(&p.o, 0x152)
	}
	raceReleaseMerge(up(&p.ra))
	p.x = append(p.x, v)
}

// ---------------------------------------------------------------- Map

// Map stands in for sync.Map. Each operation is one atomic step; Range visits the keys
// present when it starts, in a fixed order, loading each one as its own step.
type Map struct {
	o    hobj
	m    map[any]*mapEnt
	keys []any // insertion order
}

type mapEnt struct {
	v  any
	ok bool
	ra byte
}

func (m *Map) begin(what string, write bool) bool {
	if s != nil {
		if s.abort {
			return false
		}
		s.point(what, nil)
		if write {
			s.cur.write(&m.o, 0x161)
		} else {
			s.cur.read(&m.o, 0x162)
		}
	}
	return true
}

func (m *Map) get(k any) *mapEnt {
	raceDisable()
	defer raceEnable()
	if m.m == nil {
		return nil
	}
	return m.m[k]
}

func (m *Map) ent(k any) *mapEnt {
	raceDisable()
	defer raceEnable()
	if m.m == nil {
		m.m = make(map[any]*mapEnt)
	}
	e := m.m[k]
	if e == nil {
		e = &mapEnt{}
		m.m[k] = e
		m.keys = append(m.keys, k)
	} else if !e.ok {
		// back again: moves to the end
		for i, x := range m.keys {
			if x == k {
				m.keys = append(append([]any{}, m.keys[:i]...), m.keys[i+1:]...)
				break
			}
		}
		m.keys = append(m.keys, k)
	}
	return e
}

func (m *Map) Load(k any) (any, bool) {
	if !m.begin("map.load", false) {
		return nil, false
	}
	return m.load(k)
}

func (m *Map) load(k any) (any, bool) {
	e := m.get(k)
	if e == nil {
		return nil, false
	}
	raceAcquire(up(&e.ra))
	if !e.ok {
		return nil, false
	}
	return e.v, true
}

func (m *Map) store(k, v any) {
	e := m.ent(k)
	raceAcquire(up(&e.ra))
	e.v, e.ok = v, true
	raceReleaseMerge(up(&e.ra))
}

func (m *Map) del(k any) (any, bool) {
	e := m.get(k)
	if e == nil {
		return nil, false
	}
	raceAcquire(up(&e.ra))
	raceReleaseMerge(up(&e.ra))
	if !e.ok {
		return nil, false
	}
	v := e.v
	e.v, e.ok = nil, false
	return v, true
}

func (m *Map) Store(k, v any) {
	if m.begin("map.store", true) {
		m.store(k, v)
	}
}

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	if !m.begin("map.loadorstore", true) {
		return v, false
	}
	if x, ok := m.load(k); ok {
		return x, true
	}
	m.store(k, v)
	return v, false
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	if !m.begin("map.loadanddelete", true) {
		return nil, false
	}
	return m.del(k)
}

func (m *Map) Delete(k any) {
	if m.begin("map.delete", true) {
		m.del(k)
	}
}

func (m *Map) Swap(k, v any) (any, bool) {
	if !m.begin("map.swap", true) {
		return nil, false
	}
	x, ok := m.load(k)
	m.store(k, v)
	return x, ok
}

func (m *Map) CompareAndSwap(k, old, v any) bool {
	if !m.begin("map.cas", true) {
		return false
	}
	x, ok := m.load(k)
	if !ok || x != old {
		return false
	}
	m.store(k, v)
	return true
}

func (m *Map) CompareAndDelete(k, old any) bool {
	if !m.begin("map.cad", true) {
		return false
	}
	x, ok := m.load(k)
	if !ok || x != old {
		return false
	}
	m.del(k)
	return true
}

func (m *Map) Clear() {
	if !m.begin("map.clear", true) {
		return
	}
	for _, k := range m.keys {
		m.del(k)
	}
}

func (m *Map) Range(f func(k, v any) bool) {
	if !m.begin("map.range", false) {
		return
	}
	var ks []any
	for _, k := range m.keys {
		if e := m.get(k); e != nil && e.ok {
			ks = append(ks, k)
		}
	}
	if len(ks) > 1 {
		permute(ks)
	}
	for _, k := range ks {
		if !m.begin("map.range-next", false) {
			return
		}
		v, ok := m.load(k)
		if !ok {
			continue
		}
		if !f(k, v) {
			return
		}
	}
}
