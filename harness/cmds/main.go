// The harness of the commands: operation sequences against the reference model.
package main

import (
	"fmt"
	"strings"

	"github.com/lxdlam/vertex/mc"
	"github.com/lxdlam/vertex/pkg/command"
	"github.com/lxdlam/vertex/pkg/db"
	"github.com/lxdlam/vertex/pkg/protocol"
	"github.com/lxdlam/vertex/vharness/hl"
	"github.com/lxdlam/vertex/vharness/model"
)

func main() { hl.Main() }

// op is a command, or a command with a given outcome of the random source.
type op struct {
	args  []string
	order int // 0: ascending map order; otherwise selects order and draws
}

func (o op) String() string {
	s := fmt.Sprintf("%q", o.args)
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	if o.order != 0 {
		s += fmt.Sprintf("#%d", o.order)
	}
	return s
}

// real executes a command on the real database.
func real(d db.DB, args []string) (hl.Val, string, protocol.RedisObject, string) {
	var objs []protocol.RedisObject
	for _, a := range args[1:] {
		objs = append(objs, protocol.NewBulkRedisString(a))
	}
	c, err := command.NewCommand(args[0], 1, objs)
	if err != nil || c == nil {
		return hl.Val{Kind: '-', S: "refused"}, "", nil, ""
	}
	d.ExecuteCommand(c)
	r, err := c.Result()
	if err != nil {
		return hl.Val{Kind: '-', S: "failed"}, "", nil, ""
	}
	if r == nil {
		return hl.Val{}, "", nil, "no result and no error"
	}
	raw := r.String()
	if string(r.Byte()) != raw {
		return hl.Val{}, raw, r, fmt.Sprintf("the result's bytes %q are not its text %q", r.Byte(), raw)
	}
	v, err := hl.DecodeOne(raw)
	if err != nil {
		return v, raw, r, fmt.Sprintf("the result %q is not a RESP value: %v", raw, err)
	}
	return v, raw, r, ""
}

type held struct {
	o   protocol.RedisObject
	raw string
	op  op
}

// machine runs the real database next to the model.
type machine struct {
	start [][]string // commands that build the start state
	alpha []op
	reads func(m *model.DB) [][]string
	d     db.DB
	m     *model.DB
	held  []held
}

func (x *machine) Reset() {
	x.d, x.m, x.held = db.NewDB(1), model.New(), x.held[:0]
	mc.RandMenu, mc.MapOrder = nil, 0
	for _, a := range x.start {
		x.m.Exec(a...)
		real(x.d, a)
	}
}

func (x *machine) NumOps() int         { return len(x.alpha) }
func (x *machine) OpName(i int) string { return x.alpha[i].String() }

func (x *machine) Do(i int) string { return x.do(x.alpha[i], true) }

// do runs an operation; the reply of a kept one is looked at again after every later kept
// one.
func (x *machine) do(o op, keep bool) string {
	if o.order != 0 {
		mc.MapOrder = o.order
		k := int64(0)
		mc.RandMenu = func(n int64) int64 { k++; return (int64(o.order) + k*k) % n }
		defer func() { mc.MapOrder, mc.RandMenu = 0, nil }()
	}
	w := x.m.Exec(o.args...)
	v, raw, obj, bad := real(x.d, o.args)
	if bad != "" {
		return fmt.Sprintf("%v: %s", o, bad)
	}
	if m := w.Check(v); m != "" {
		return fmt.Sprintf("%v: %s", o, m)
	}
	if !keep {
		return ""
	}
	if m := x.checkHeld(); m != "" {
		return m
	}
	if obj != nil {
		x.held = append(x.held, held{obj, raw, o})
	}
	return ""
}

func (x *machine) Hash() uint64 { return hl.Deep([]interface{}{x.d, x.m}) }

func (x *machine) Check() string {
	canon := x.m.Canon()
	rs := x.reads(x.m)
	for _, r := range rs {
		if m := x.do(op{args: r}, false); m != "" {
			return "then " + m
		}
	}
	if x.m.Canon() != canon {
		return "harness: a read changed the model"
	}
	return x.checkHeld()
}

// encodeObj encodes an object from its accessors.
func encodeObj(o protocol.RedisObject) string {
	switch v := o.(type) {
	case protocol.RedisArray:
		d := v.Data()
		if d == nil && strings.HasPrefix(v.String(), "*-1") {
			return "*-1\r\n"
		}
		s := fmt.Sprintf("*%d\r\n", len(d))
		for _, x := range d {
			s += encodeObj(x)
		}
		return s
	case protocol.RedisInteger:
		return fmt.Sprintf(":%d\r\n", v.Data())
	case protocol.RedisString:
		if o.Type() == "+" {
			return "+" + v.Data() + "\r\n"
		}
		if v.Data() == "" && strings.HasPrefix(v.String(), "$-1") {
			return "$-1\r\n"
		}
		return fmt.Sprintf("$%d\r\n%s\r\n", len(v.Data()), v.Data())
	}
	return o.String()
}

func f(s string) []string { return strings.Fields(s) }

// a builds an operation; "_" stands for the empty string and \ escapes are expanded
func a(s string) op {
	l := strings.Split(s, " ")
	for i := range l {
		if l[i] == "_" {
			l[i] = ""
		}
		l[i] = strings.NewReplacer(`\r`, "\r", `\n`, "\n", `\0`, "\x00", `\x`, "\xff", `\s`, " ").Replace(l[i])
	}
	return op{args: l}
}

func ops(l ...string) []op {
	var r []op
	for _, s := range l {
		r = append(r, a(s))
	}
	return r
}

func cmds(l ...string) [][]string {
	var r [][]string
	for _, o := range ops(l...) {
		r = append(r, o.args)
	}
	return r
}

// search registers a breadth-first search from every start state; split gives the number of
// parts the first operation is divided into.
func search(prop, name string, alpha []op, starts [][][]string, quick, thorough int, reads func(m *model.DB) [][]string) {
	for si, st := range starts {
		st := st
		hl.Register(prop, hl.Scn{Name: fmt.Sprintf("%s/start%d", name, si), Seq: func(c *hl.Seq) {
			m := &machine{start: st, alpha: alpha, reads: reads}
			c.BFS(m, [][]int{{}}, hl.Pick(quick, thorough))
			c.Sample("start %q, %d operations", st, len(alpha))
		}})
	}
}

const (
	maxI = "9223372036854775807"
	minI = "-9223372036854775808"
)

// single runs one operation list exhaustively from one start state: every command in each
// of the start states, followed by all reads.
func single(prop, name string, starts [][][]string, alpha []op, reads func(m *model.DB) [][]string) {
	hl.Register(prop, hl.Scn{Name: name, Seq: func(c *hl.Seq) {
		for _, st := range starts {
			m := &machine{start: st, alpha: alpha, reads: reads}
			for i := range alpha {
				if c.Late() {
					return
				}
				i := i
				c.Try(func() string { return fmt.Sprintf("after %.300q: %v", st, alpha[i]) }, func() string {
					m.Reset()
					if w := m.Do(i); w != "" {
						return w
					}
					return m.Check()
				})
				c.Step(1)
				c.States++
			}
		}
		c.Sample("%d start states x %d commands", len(starts), len(alpha))
	}})
}

// checkHeld looks at every earlier reply again.
func (x *machine) checkHeld() string {
	for _, h := range x.held {
		if h.o.String() != h.raw || string(h.o.Byte()) != h.raw {
			return fmt.Sprintf("the reply of %v changed from %q to %q afterwards", h.op, h.raw, h.o.String())
		}
		if v := encodeObj(h.o); v != h.raw {
			return fmt.Sprintf("the content of the reply of %v changed from %q to %q afterwards", h.op, h.raw, v)
		}
	}
	return ""
}
