package main

import (
	"fmt"
	"strings"

	"github.com/lxdlam/vertex/mc"
	"github.com/lxdlam/vertex/vharness/hl"
	"github.com/lxdlam/vertex/vharness/model"
	"github.com/lxdlam/vertex/vharness/srv"
)

// C22: replies in the order of the requests, and commands one at a time.

// who is one client.
type who struct {
	cmds  [][]string
	pipe  bool   // all requests in one piece, otherwise each after the previous reply
	split int    // >0: the piece is sent in two writes, cut there
	leave int    // >0: leaves after that many replies (pipe) without reading the rest; -1: at once
	how   string // how it leaves: "close", "reset", "half"
	then  [][]string
	tail  string // what follows the last request and is no request (pipe)
}

type oplan struct {
	setup   [][]string
	clients []who
	stamps  bool // real time counts (costs schedules)
	file    bool
	late    bool // the last client comes when the others are done
}

type hop struct {
	args      []string
	got       *hl.Val // nil: no reply was read
	inv, resp int
	optional  bool // may not have been executed
}

func (p oplan) body() {
	cfg := srv.Conf("")
	if p.file {
		cfg = srv.Conf(srv.File)
	}
	mc.Calm(true)
	s := srv.Start(cfg)
	if s == nil {
		mc.Fail("the server does not start")
	}
	mc.Quiesce()
	start := model.New()
	if len(p.setup) > 0 {
		c := srv.Dial(srv.Port)
		for _, x := range p.setup {
			c.Must(x...)
			start.Exec(x...)
		}
		c.Close()
		mc.Quiesce()
	}
	mc.Calm(false)
	stamp := func() int {
		if p.stamps {
			return mc.Stamp()
		}
		return 0
	}
	hist := make([][]*hop, len(p.clients))
	var ts []*mc.Task
	for i, w := range p.clients {
		i, w := i, w
		run := func() {
			c := srv.Dial(srv.Port)
			if c == nil {
				mc.Fail("client %d is refused", i)
			}
			var ops []*hop
			for _, x := range w.cmds {
				ops = append(ops, &hop{args: x, resp: 1 << 30})
			}
			hist[i] = ops
			if w.pipe {
				var b strings.Builder
				for _, x := range w.cmds {
					b.WriteString(srv.Bytes(x))
				}
				now := stamp()
				for _, o := range ops {
					o.inv = now
				}
				raw := b.String() + w.tail
				if w.split > 0 && w.split < len(raw) {
					_ = c.Send(raw[:w.split])
					raw = raw[w.split:]
				}
				_ = c.Send(raw)
			}
			leave := func(k int) {
				for _, o := range ops[k:] {
					o.optional = true
				}
				switch w.how {
				case "reset":
					c.C.Reset()
				case "half":
					_ = c.C.CloseWrite()
				default:
					c.Close()
				}
			}
			if w.leave < 0 {
				leave(0)
				return
			}
			for k, o := range ops {
				if w.leave > 0 && k == w.leave {
					leave(k)
					return
				}
				if !w.pipe {
					o.inv = stamp()
					_ = c.Send(srv.Bytes(o.args))
				}
				v, err := c.Recv()
				if err != nil {
					mc.Fail("client %d: request %d %q got no reply: %v", i, k, o.args, err)
				}
				if p.stamps {
					o.resp = stamp()
				}
				o.got = &v
			}
			if w.tail != "" {
				v, err := c.Recv()
				if err != nil || v.Kind != '-' {
					mc.Fail("client %d: a broken stream is answered %v, %v", i, v, err)
				}
				mc.Quiesce()
				if b, end := c.C.Avail(); !end || len(b) > 0 && string(b) != "TTL expired" {
					mc.Fail("client %d: after the reply to a broken stream %.100q, closed: %v", i, b, end)
				}
				return
			}
			if b, end := c.C.Avail(); len(b) > 0 || end {
				mc.Fail("client %d: after its replies %.100q, closed: %v", i, b, end)
			}
			if len(w.then) > 0 {
				c.Close()
			}
		}
		if p.late && i == len(p.clients)-1 {
			for _, t := range ts {
				t.Join()
			}
			ts = nil
			mc.Quiesce()
		}
		ts = append(ts, mc.Spawn(run))
	}
	for _, t := range ts {
		t.Join()
	}
	mc.Calm(true)
	mc.Quiesce()
	// nobody gets anything more
	for _, c := range mc.ServerConns() {
		if b, _ := c.Peer().Avail(); len(b) > 0 && !c.Peer().IsClosed() && !strings.HasPrefix(string(b), "TTL expired") {
			left := false
			for _, w := range p.clients {
				left = left || w.leave != 0
			}
			if !left {
				mc.Fail("a client got %.100q after its replies", b)
			}
		}
	}
	// what the database holds in the end is part of the history
	c := srv.Dial(srv.Port)
	if c == nil {
		mc.Fail("the server refuses a client at the end")
	}
	var end []*hop
	for _, x := range p.reads() {
		v := c.Must(x...)
		end = append(end, &hop{args: x, got: &v})
	}
	if !explain(start, hist, end) {
		mc.Fail("the replies are those of no order of execution: %s", show(hist, end))
	}
	s.Stop()
}

func (p oplan) reads() [][]string {
	seen := map[string]bool{}
	var l [][]string
	for _, w := range p.clients {
		for _, x := range w.cmds {
			if len(x) < 2 || x[0] == "\x00raw" || seen[x[1]] {
				continue
			}
			seen[x[1]] = true
			l = append(l, []string{"GET", x[1]}, []string{"LRANGE", x[1], "0", "-1"}, []string{"HGETALL", x[1]}, []string{"SMEMBERS", x[1]})
		}
	}
	return l
}

func show(hist [][]*hop, end []*hop) string {
	var b strings.Builder
	for i, ops := range append(append([][]*hop{}, hist...), end) {
		fmt.Fprintf(&b, " client %d:", i)
		for _, o := range ops {
			r := "nothing"
			if o.got != nil {
				r = o.got.String()
			}
			fmt.Fprintf(&b, " %q=%s", o.args, r)
		}
	}
	return b.String()
}

// explain looks for an order of execution that gives these replies.
func explain(start *model.DB, hist [][]*hop, end []*hop) bool {
	pos := make([]int, len(hist))
	gone := make([]bool, len(hist)) // its remaining requests are not executed
	dead := map[string]bool{}
	var rec func(db *model.DB) bool
	rec = func(db *model.DB) bool {
		key := fmt.Sprint(pos, gone, db.Canon())
		if dead[key] {
			return false
		}
		done := true
		first := 1 << 30
		for i := range hist {
			if !gone[i] && pos[i] < len(hist[i]) {
				done = false
				for _, o := range hist[i][pos[i]:] {
					if o.resp < first {
						first = o.resp
					}
				}
			}
		}
		if done {
			d := db.Clone()
			ok := true
			for _, o := range end {
				if d.Exec(o.args...).Check(*o.got) != "" {
					ok = false
				}
			}
			if ok {
				return true
			}
		}
		for i := range hist {
			if gone[i] || pos[i] >= len(hist[i]) {
				continue
			}
			o := hist[i][pos[i]]
			if o.optional && o.got == nil {
				gone[i] = true
				if rec(db) {
					return true
				}
				gone[i] = false
			}
			if o.inv > first {
				continue
			}
			d := db.Clone()
			w := d.Exec(o.args...)
			if o.got != nil && w.Check(*o.got) != "" {
				continue
			}
			pos[i]++
			if rec(d) {
				return true
			}
			pos[i]--
		}
		dead[key] = true
		return false
	}
	return rec(start)
}

func cs(l ...string) (r [][]string) {
	for _, x := range l {
		r = append(r, strings.Fields(x))
	}
	return
}

func init() {
	hl.QuickSecs["C22"], hl.QuickSecs["C23"] = 100, 80
	for _, x := range []struct {
		name string
		p    oplan
		q, t int
	}{
		{"two", oplan{clients: []who{{cmds: cs("SET a x", "GET a")}, {cmds: cs("SET a y", "GET a")}}, stamps: true}, 1, 2},
		{"duo", oplan{clients: []who{{cmds: cs("SET a x", "GET a")}, {cmds: cs("SET a y")}}}, 2, 3},
		{"duo-piped", oplan{clients: []who{{cmds: cs("RPUSH l 1", "RPUSH l 2"), pipe: true}, {cmds: cs("LRANGE l 0 -1")}}}, 2, 3},
		{"piped", oplan{clients: []who{{cmds: cs("RPUSH l 1", "RPUSH l 2", "LRANGE l 0 -1"), pipe: true}, {cmds: cs("RPUSH l 3", "LRANGE l 0 -1"), pipe: true}}}, 1, 2},
		{"incr", oplan{setup: cs("SET n 0"), clients: []who{{cmds: cs("INCR n", "INCR n"), pipe: true}, {cmds: cs("INCR n")}, {cmds: cs("DECR n")}}}, 1, 2},
		{"mset", oplan{clients: []who{{cmds: cs("MSET a 1 b 1")}, {cmds: cs("MSET b 2 a 2")}, {cmds: cs("MGET a b", "MGET b a"), pipe: true}}}, 1, 2},
		{"move", oplan{setup: cs("RPUSH l x"), clients: []who{{cmds: cs("LPOP l", "LLEN l")}, {cmds: cs("LPOP l", "LLEN l")}}, stamps: true}, 1, 2},
		{"pop", oplan{setup: cs("SADD t x y"), clients: []who{{cmds: cs("SPOP t", "SMEMBERS t"), pipe: true}, {cmds: cs("SPOP t", "SCARD t"), pipe: true}}}, 1, 2},
		{"hash", oplan{clients: []who{{cmds: cs("HSET h f 1 g 1", "HGETALL h")}, {cmds: cs("HSET h g 2 f 2", "HMGET h f g")}}, file: true}, 1, 2},
		{"errors", oplan{clients: []who{{cmds: cs("INCR q", "SET q 1", "NOPE", "INCR q"), pipe: true}, {cmds: cs("SET q z", "LPUSH"), pipe: true}}}, 1, 2},
		{"three", oplan{clients: []who{{cmds: cs("APPEND a x")}, {cmds: cs("APPEND a y")}, {cmds: cs("APPEND a z", "GET a")}}, stamps: true}, 1, 2},
		{"split", oplan{clients: []who{{cmds: cs("SET a x", "GET a", "GET b"), pipe: true, split: 40}, {cmds: cs("SET b 1", "GET a"), pipe: true, split: 5}}}, 1, 2},
		{"leave", oplan{clients: []who{{cmds: cs("RPUSH l 1", "RPUSH l 2"), pipe: true, leave: 1, how: "close"}, {cmds: cs("LRANGE l 0 -1")}}}, 2, 3},
		{"leave-half", oplan{clients: []who{{cmds: cs("RPUSH l 1", "RPUSH l 2"), pipe: true, leave: -1, how: "half"}, {cmds: cs("RPUSH l 4", "LRANGE l 0 -1")}}}, 1, 2},
		{"leave-reset", oplan{clients: []who{{cmds: cs("RPUSH l 1", "RPUSH l 2"), pipe: true, leave: -1, how: "reset"}, {cmds: cs("RPUSH l 4", "LRANGE l 0 -1")}}, late: true}, 1, 2},
		{"leave-many", oplan{clients: []who{{cmds: cs("SET a 1"), leave: -1}, {cmds: cs("SET a 2"), pipe: true, leave: -1, how: "reset"}, {cmds: cs("GET a", "SET a 3", "GET a"), pipe: true}}}, 1, 2},
		{"rejoin", oplan{clients: []who{{cmds: cs("SET a 1", "GET a"), then: cs("x")}, {cmds: cs("SET a 2", "GET a"), then: cs("x")}, {cmds: cs("GET a", "APPEND a z", "GET a"), pipe: true}}, late: true}, 1, 2},
		{"broken", oplan{clients: []who{{cmds: cs("SET a 1", "GET a"), pipe: true, tail: "*1\r\n?\r\n"}, {cmds: cs("GET a")}}}, 1, 2},
		{"broken-solo", oplan{clients: []who{{cmds: cs("SET a 1", "STRLEN a"), pipe: true, tail: "garbage\r\n"}}}, 2, 3},
		{"join-duo", oplan{clients: []who{{cmds: cs("GET a", "GET a"), pipe: true}, {cmds: cs("SET a y")}}}, 2, 3},
		{"pop-duo", oplan{setup: cs("SADD t x y"), clients: []who{{cmds: cs("SPOP t")}, {cmds: cs("SPOP t")}}, file: true}, 2, 3},
		{"join", oplan{clients: []who{{cmds: cs("GET a", "GET a", "GET a"), pipe: true}, {cmds: cs("SET a y", "STRLEN a")}}}, 1, 2},
	} {
		p := x.p
		hl.Register("C22", hl.Scn{Name: "clients/" + x.name, Body: func() { p.body() }, Quick: x.q, Thorough: x.t, Slow: x.q, Race: 2, Cfg: mc.Config{BlockCost: 1}})
	}
	// long pipelines: more than any buffer on the way holds
	for _, n := range []int{99, 101, 250} {
		n := n
		hl.Register("C22", hl.Scn{Name: fmt.Sprintf("long/%d", n), Body: func() { long(n, 2) }, Quick: 0, Thorough: 1, Slow: -1, Cfg: mc.Config{BlockCost: 1, MaxSteps: 4000000}})
	}
	hl.Register("C22", hl.Scn{Name: "long/many", Body: func() { long(12, 10) }, Quick: 0, Thorough: 1, Slow: -1, Cfg: mc.Config{BlockCost: 1, MaxSteps: 4000000}})
	hl.Register("C22", hl.Scn{Name: "pieces", Seq: pieces})
}

// long checks that many pipelined requests all get their replies.
func long(n, clients int) {
	s := srv.Start(srv.Conf(""))
	if s == nil {
		mc.Fail("the server does not start")
	}
	var ts []*mc.Task
	for i := 0; i < clients; i++ {
		k := fmt.Sprint("k", i)
		ts = append(ts, mc.Spawn(func() {
			c := srv.Dial(srv.Port)
			if c == nil {
				mc.Fail("refused")
			}
			var cmds [][]string
			for j := 0; j < n; j++ {
				cmds = append(cmds, []string{"RPUSH", k, fmt.Sprint(j)})
			}
			rs, err := c.All(cmds)
			if err != nil {
				mc.Fail("after %d replies of %d: %v", len(rs), n, err)
			}
			for j, v := range rs {
				if v.Kind != ':' || v.N != int64(j+1) {
					mc.Fail("reply %d is %v", j, v)
				}
			}
			v := c.Must("LRANGE", k, "0", "-1")
			if len(v.A) != n {
				mc.Fail("%d elements of %d", len(v.A), n)
			}
			for j, x := range v.A {
				if x.S != fmt.Sprint(j) {
					mc.Fail("element %d is %v", j, x)
				}
			}
		}))
	}
	for _, t := range ts {
		t.Join()
	}
	mc.Quiesce()
	for _, c := range mc.ServerConns() {
		if b, end := c.Peer().Avail(); len(b) > 0 || end {
			mc.Fail("after the replies %.100q, closed: %v", b, end)
		}
	}
	s.Stop()
}

// pieces sends a pipeline cut at every byte and pair of bytes, and with every size of what
// one read of the server gets.
func pieces(c *hl.Seq) {
	cmds := cs("SET a xy", "GET a", "INCR q", "RPUSH l 1 2", "LRANGE l 0 -1", "NOPE", "GET")
	cmds = append(cmds, []string{"SET", "b", "\r\n$3\r\n"}, []string{"GET", "b"}, []string{"SET", "", ""}, []string{"GET", ""})
	var raw strings.Builder
	for _, x := range cmds {
		raw.WriteString(srv.Bytes(x))
	}
	b := raw.String()
	run := func(desc string, send func(c *srv.Client), chunk int) {
		if c.Late() {
			return
		}
		c.Try(func() string { return desc }, func() string {
			return life(nil, func(cl *srv.Client) string {
				if chunk > 0 {
					mc.ReadChunk = func(_ *mc.Conn, avail int) int { return chunk }
					defer func() { mc.ReadChunk = nil }()
				}
				db := model.New()
				send(cl)
				for i, x := range cmds {
					v, err := cl.Recv()
					if err != nil {
						return fmt.Sprintf("request %d %q got no reply: %v", i, x, err)
					}
					if m := db.Exec(x...).Check(v); m != "" {
						return fmt.Sprintf("request %d %q: %s", i, x, m)
					}
				}
				return idle(cl)
			})
		})
		c.Step(len(cmds))
		c.States++
	}
	for i := 1; i < len(b); i++ {
		i := i
		run(fmt.Sprintf("%q cut at %d", b, i), func(c *srv.Client) {
			_ = c.Send(b[:i])
			mc.Quiesce()
			_ = c.Send(b[i:])
		}, 0)
		for j := i + 1; j < len(b); j += hl.Pick(7, 1) {
			j := j
			run(fmt.Sprintf("%q cut at %d and %d", b, i, j), func(c *srv.Client) {
				_ = c.Send(b[:i])
				mc.Quiesce()
				_ = c.Send(b[i:j])
				mc.Quiesce()
				_ = c.Send(b[j:])
			}, 0)
		}
		run(fmt.Sprintf("%q in reads of %d", b, i), func(c *srv.Client) { _ = c.Send(b) }, i)
	}
	run("byte by byte", func(c *srv.Client) {
		for i := range b {
			_ = c.Send(b[i : i+1])
			mc.Quiesce()
		}
	}, 0)
	c.Sample("a pipeline of %d bytes cut at every pair of positions", len(b))
}
