package hl

import (
	"fmt"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"time"

	"github.com/lxdlam/vertex/mc"
)

// Seq is the context of an enumeration of inputs, operation sequences or crash points.
type Seq struct {
	mc.Stats
	name     string
	deadline time.Time
	fail     *mc.Failure
	samples  []string
	late     bool
	n        int
}

type stopSeq struct{}

func (c *Seq) run(f func(*Seq)) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stopSeq); ok {
				return
			}
			c.fail = &mc.Failure{Kind: "internal", Msg: fmt.Sprintf("harness panic: %v\n%s", r, debug.Stack())}
		}
	}()
	f(c)
	if c.fail == nil && !c.late {
		c.Exhausted = true
	}
}

// Late reports whether the time limit has passed; the enumeration then counts as incomplete.
func (c *Seq) Late() bool {
	if c.late {
		return true
	}
	if c.n&63 == 0 && time.Now().After(c.deadline) {
		c.late = true
		c.Why = "time limit"
	}
	c.n++
	return c.late
}

// Sample records an example of what was covered.
func (c *Seq) Sample(format string, a ...interface{}) {
	if len(c.samples) < 3 {
		s := fmt.Sprintf(format, a...)
		if len(s) > 300 {
			s = s[:300] + "..."
		}
		c.samples = append(c.samples, s)
	}
}

// Note tells the watchdog what is being run.
func (c *Seq) Note(s string) { lastOp.Store(c.name + ": " + s) }

// Step counts one executed operation.
func (c *Seq) Step(n int) { c.Transitions += int64(n) }

// Try runs f (one case; it returns "" or what is wrong) and stops the enumeration when it
// fails; a failure counts only if it shows again in two more runs.
func (c *Seq) Try(desc func() string, f func() string) {
	atomic.AddInt64(&mc.Progress, 1)
	c.Execs++
	kind, msg := guard(f)
	if kind == "" {
		return
	}
	for i := 0; i < 2; i++ {
		k, m := guard(f)
		if k != kind {
			c.fail = &mc.Failure{Kind: "internal", Msg: fmt.Sprintf("a failure did not reproduce: %s: %s / %s: %s (%s)", kind, msg, k, m, desc())}
			panic(stopSeq{})
		}
	}
	c.fail = &mc.Failure{Kind: kind, Msg: desc() + " => " + msg}
	panic(stopSeq{})
}

// Violation ends the enumeration with a failure.
func (c *Seq) Violation(format string, a ...interface{}) {
	c.fail = &mc.Failure{Kind: "property", Msg: fmt.Sprintf(format, a...)}
	panic(stopSeq{})
}

func guard(f func() string) (kind, msg string) {
	defer func() {
		if r := recover(); r != nil {
			if strings.HasPrefix(fmt.Sprint(r), "mc: ") || strings.HasPrefix(fmt.Sprint(r), "harness: ") {
				kind, msg = "internal", fmt.Sprintf("%v\n%s", r, debug.Stack())
				return
			}
			st := string(debug.Stack())
			if i := strings.Index(st, "panic("); i >= 0 {
				st = st[i:]
			}
			if len(st) > 1500 {
				st = st[:1500]
			}
			kind, msg = "panic", fmt.Sprintf("panic: %v\n%s", r, st)
		}
	}()
	if m := f(); m != "" {
		return "property", m
	}
	return "", ""
}

// Under runs f as the only initial goroutine of a controlled execution under the default
// schedule and returns what is wrong ("" if nothing).
func Under(f func() string) string {
	var m string
	_, fl := mc.RunOnce(func() { m = f() })
	if fl != nil {
		return fl.Kind + ": " + fl.Msg
	}
	return m
}

// ---------------------------------------------------------------- state space search

// Machine is a deterministic system (real code next to an oracle) whose reachable states
// are enumerated.
type Machine interface {
	Reset()              // back to the initial state
	NumOps() int         // size of the alphabet
	OpName(i int) string // how operation i is written
	Do(i int) string     // runs operation i and compares; "" or what is wrong
	Hash() uint64        // identifies the state (real and oracle)
	Check() string       // further comparisons in the state reached; it may disturb the state
}

// BFS explores every operation sequence up to the given depth from the state reached by
// each prefix, merging equal states.
func (c *Seq) BFS(m Machine, prefixes [][]int, depth int) {
	type node struct {
		path []int32
	}
	seen := map[uint64]struct{}{}
	names := func(path []int) string {
		var b strings.Builder
		for i, o := range path {
			if i > 0 {
				b.WriteString(" ; ")
			}
			b.WriteString(m.OpName(o))
		}
		return b.String()
	}
	var frontier []node
	for _, p := range prefixes {
		p := p
		var h uint64
		c.Try(func() string { return names(p) }, func() string {
			m.Reset()
			for _, o := range p {
				if w := m.Do(o); w != "" {
					return w
				}
			}
			h = m.Hash()
			return m.Check()
		})
		c.Step(len(p))
		if _, ok := seen[h]; ok {
			continue
		}
		seen[h] = struct{}{}
		c.States++
		q := make([]int32, len(p))
		for i := range p {
			q[i] = int32(p[i])
		}
		frontier = append(frontier, node{q})
	}
	n := m.NumOps()
	buf := make([]int, 0, 64)
	for d := 0; d < depth; d++ {
		var next []node
		for _, nd := range frontier {
			for o := 0; o < n; o++ {
				if c.Late() {
					return
				}
				buf = buf[:0]
				for _, x := range nd.path {
					buf = append(buf, int(x))
				}
				buf = append(buf, o)
				path := buf
				var h uint64
				c.Try(func() string { return names(path) }, func() string {
					m.Reset()
					for i, o := range path {
						if w := m.Do(o); w != "" {
							if i < len(path)-1 {
								return "harness: prefix failed: " + w
							}
							return w
						}
					}
					h = m.Hash()
					if _, ok := seen[h]; ok {
						return ""
					}
					return m.Check()
				})
				c.Step(1)
				if _, ok := seen[h]; ok {
					continue
				}
				seen[h] = struct{}{}
				c.States++
				if len(path) > c.MaxDepth {
					c.MaxDepth = len(path)
				}
				if c.States%997 == 3 {
					c.Sample("%s", names(path))
				}
				if d+1 < depth {
					q := make([]int32, len(path))
					for i := range path {
						q[i] = int32(path[i])
					}
					next = append(next, node{q})
				}
			}
		}
		frontier = next
	}
}
