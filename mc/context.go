package mc

import (
	"context"
	"os"
	"time"
)

// Context is context.Context over the channels and the clock of the runtime.
type Context interface {
	Deadline() (time.Time, bool)
	Done() *Chan[struct{}]
	Err() error
	Value(key any) any
}

type CancelFunc func()

type emptyCtx struct{ name string }

func (*emptyCtx) Deadline() (time.Time, bool) { return time.Time{}, false }
func (*emptyCtx) Done() *Chan[struct{}]       { return nil }
func (*emptyCtx) Err() error                  { return nil }
func (*emptyCtx) Value(key any) any           { return nil }
func (e *emptyCtx) String() string            { return e.name }

var background, todo = &emptyCtx{"context.Background"}, &emptyCtx{"context.TODO"}

func Background() Context { return background }
func TODO() Context       { return todo }

type cancelCtx struct {
	parent   Context
	m        Mutex
	done     *Chan[struct{}]
	err      error
	kids     []*cancelCtx
	deadline time.Time
	timer    *Timer
}

type cancelKey struct{}

func (c *cancelCtx) Deadline() (time.Time, bool) {
	if !c.deadline.IsZero() {
		return c.deadline, true
	}
	return c.parent.Deadline()
}

func (c *cancelCtx) Done() *Chan[struct{}] { return c.done }

func (c *cancelCtx) Err() error {
	c.m.Lock()
	defer c.m.Unlock()
	return c.err
}

func (c *cancelCtx) Value(key any) any {
	if _, ok := key.(cancelKey); ok {
		return c
	}
	return c.parent.Value(key)
}

func (c *cancelCtx) cancel(err error) {
	c.m.Lock()
	if c.err != nil {
		c.m.Unlock()
		return
	}
	c.err = err
	kids := c.kids
	c.kids = nil
	c.done.Close()
	c.m.Unlock()
	for _, k := range kids {
		k.cancel(err)
	}
	if c.timer != nil {
		c.timer.Stop()
	}
}

// forget takes a child out of its parent.
func (c *cancelCtx) forget(kid *cancelCtx) {
	c.m.Lock()
	defer c.m.Unlock()
	for i, k := range c.kids {
		if k == kid {
			c.kids = append(c.kids[:i:i], c.kids[i+1:]...)
			return
		}
	}
}

func newCancel(parent Context) (*cancelCtx, CancelFunc) {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &cancelCtx{parent: parent, done: MakeChan[struct{}]()}
	p, _ := parent.Value(cancelKey{}).(*cancelCtx)
	if p != nil && p.done == parent.Done() {
		p.m.Lock()
		err := p.err
		if err == nil {
			p.kids = append(p.kids, c)
		}
		p.m.Unlock()
		if err != nil {
			c.cancel(err)
		}
	} else if d := parent.Done(); d != nil {
		p = nil
		Go(func() {
			a, b := d.CaseRecv(), c.done.CaseRecv()
			if Sel(false, a, b) == 0 {
				c.cancel(parent.Err())
			}
		})
	}
	return c, func() {
		c.cancel(context.Canceled)
		if p != nil {
			p.forget(c)
		}
	}
}

func WithCancel(parent Context) (Context, CancelFunc) { return newCancel(parent) }

func WithDeadline(parent Context, d time.Time) (Context, CancelFunc) {
	c, f := newCancel(parent)
	if cur, ok := parent.Deadline(); ok && cur.Before(d) {
		return c, f
	}
	c.deadline = d
	if left := Until(d); left <= 0 {
		c.cancel(context.DeadlineExceeded)
	} else {
		c.timer = AfterFunc(left, func() { c.cancel(context.DeadlineExceeded) })
	}
	return c, f
}

func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(parent, Now().Add(d))
}

type valueCtx struct {
	Context
	key, val any
}

func (v *valueCtx) Value(key any) any {
	if key == v.key {
		return v.val
	}
	return v.Context.Value(key)
}

func WithValue(parent Context, key, val any) Context { return &valueCtx{parent, key, val} }

// NotifyContext is signal.NotifyContext.
func NotifyContext(parent Context, sig ...os.Signal) (Context, CancelFunc) {
	c, f := newCancel(parent)
	ch := MakeChan[os.Signal](1)
	SignalNotify(ch, sig...)
	Go(func() {
		if Sel(false, ch.CaseRecv(), c.done.CaseRecv()) == 0 {
			f()
		}
	})
	return c, func() {
		f()
		SignalStop(ch)
	}
}
