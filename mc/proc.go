package mc

import "os"

// Programs that run side by side in one execution: each has its own package variables,
// which are swapped when the scheduler goes from one to the other, and its own signals,
// connections and files, which end with it. The harness is one of them.

// Proc is a program.
type Proc struct {
	id    int
	dead  bool
	cells []interface{}
	exit  func(code int)
	fuse  int // outward steps until it is killed
	last  string
	o     hobj
}

var procs struct {
	cur *Proc // whose variables are in place; nil: there are no programs
	n   int
}

// glob is a package variable.
type glob interface {
	save() interface{}
	load(x interface{})
}

type cell[T any] struct{ p *T }

func (c cell[T]) save() interface{}  { return *c.p }
func (c cell[T]) load(x interface{}) { v, _ := x.(T); *c.p = v }

var globs []glob

// Global is called by the instrumented packages for each of their variables.
func Global[T any](p *T) { globs = append(globs, cell[T]{p}) }

func resetProcs() { procs.cur, procs.n = nil, 0 }

func saveCells() []interface{} {
	r := make([]interface{}, len(globs))
	for i, g := range globs {
		r[i] = g.save()
	}
	return r
}

// enter puts the variables of a goroutine's program in place.
func (g *G) enter() {
	if procs.cur == g.proc || g.proc == nil {
		return
	}
	procs.cur.cells = saveCells()
	procs.cur = g.proc
	for i, x := range g.proc.cells {
		globs[i].load(x)
	}
}

// NewProc starts a program; exit, if not nil, runs when it ends itself by os.Exit. It is
// over when its main function returns, when it exits or when it is killed.
func NewProc(main func(), exit func(code int)) *Proc {
	if s == nil || s.abort {
		return &Proc{dead: true}
	}
	sc := s
	if procs.cur == nil {
		procs.cur = &Proc{}
		for _, g := range sc.gs {
			g.proc = procs.cur
		}
	}
	procs.n++
	p := &Proc{id: procs.n, exit: exit}
	mine := saveCells()
	s = nil
	resetAll()
	s = sc
	p.cells = saveCells()
	for i, x := range mine {
		globs[i].load(x)
	}
	old := sc.cur.proc
	sc.cur.proc = p // the new goroutine inherits it
	Go(func() {
		main()
		p.end()
	})
	sc.cur.proc = old
	return p
}

type procCond struct{ p *Proc }

func (c procCond) ready(g *G) bool { return c.p.dead }

// Join waits until the program is over.
func (p *Proc) Join() {
	if s == nil || s.abort {
		return
	}
	s.point("wait for a program", procCond{p})
	s.cur.read(&p.o, 0xa06)
}

// end takes a program away as the kernel does.
func (p *Proc) end() {
	if p.dead || s == nil || s.abort {
		return
	}
	p.dead = true
	s.cur.write(&p.o, 0xa01)
	s.cur.write(&nets.o, 0xa02)
	for _, l := range nets.listeners {
		if l.proc == p && !l.closed {
			s.cur.write(&l.o, 0xa03)
			l.close()
		}
	}
	for _, c := range nets.conns {
		for _, e := range []*Conn{c, c.peer} {
			if e.proc != p || e.closed {
				continue
			}
			s.cur.write(&e.in.o, 0xa04)
			s.cur.write(&e.out.o, 0xa05)
			e.closed = true
			e.in.readerGone = true
			if len(e.in.buf) > 0 {
				// unread bytes make it a reset
				e.out.buf = nil
				e.out.reset = true
				e.in.reset = true
			}
			e.out.closeW()
		}
	}
	for f := range fsys.open {
		if f.proc == p {
			delete(fsys.open, f)
		}
	}
	var l []notify
	for _, x := range sigs {
		if x.p != p {
			l = append(l, x)
		}
	}
	sigs = l
	for i := 0; i < len(s.timers); {
		if g := s.timers[i].wakeG; g != nil && g.proc == p || s.timers[i].proc == p && s.timers[i].fn != nil {
			s.timers = append(append([]*timer(nil), s.timers[:i]...), s.timers[i+1:]...)
			continue
		}
		i++
	}
}

// Kill ends the program at once.
func (p *Proc) Kill() {
	if s == nil || s.abort || p.dead {
		return
	}
	s.point("kill", nil)
	p.end()
}

// KillAfter kills the program before its n-th step from now that can be noticed outside of
// it: to be killed between two such steps is the same everywhere between them.
func (p *Proc) KillAfter(n int) { p.fuse = n }

// Last is the last outward step before the one that KillAfter refused.
func (p *Proc) Last() string { return p.last }

// Dead reports whether the program is over.
func (p *Proc) Dead() bool { return p.dead }

// Signal delivers a signal to the program; one that it does not catch kills it.
func (p *Proc) Signal(sig os.Signal) {
	if s == nil || s.abort || p.dead {
		return
	}
	s.point("signal", nil)
	if !deliver(sig, p) {
		p.end()
	}
}

func (g *G) gone() bool { return g.proc != nil && g.proc.dead }

func curProc() *Proc {
	if s == nil || s.cur == nil {
		return nil
	}
	return s.cur.proc
}
