package main

import (
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/lxdlam/vertex/mc"
	"github.com/lxdlam/vertex/pkg/network"
	"github.com/lxdlam/vertex/vharness/hl"
)

// C21: a connection under every schedule of its users, its peer and its idle timer.

const (
	limit = 10 * time.Second
	slack = 300 * time.Millisecond
)

// cplan is a scenario: what each goroutine does with the connection, and what the peer does.
type cplan struct {
	tasks [][]string // "r" read, "R" read until closed, "w" write, "W" a large write, "e" an empty write, "c" close, "?" closed?, "s:5s" sleep
	peer  []string   // "i:bytes" send, "x" close, "X" reset, "h" half-close, "g" read all until the end, "l" stop reading, "l:9" have room for 9 bytes, "L" read again, "s:5s" sleep
	early int        // cost of a timer that fires before the work is done; 0: time passes only when everything waits
	fault *nfault
	dflt  bool          // NewConn rather than NewConnWithExpire
	lim   time.Duration // idle limit, 0: limit
}

// nfault makes the n-th read, write or close of the socket fail; k bytes are written first.
type nfault struct {
	op   string
	n, k int
	err  error
}

type cop struct {
	what       string
	i, j       int // task, number
	inv, resp  int // stamps
	start, end time.Duration
	err        error
	val        string
	closed     bool // "?" answered true
	text       string
}

var errNet = errors.New("connection reset by peer")

func text(what string, i, j int) string {
	if what == "W" {
		return fmt.Sprintf("<%d.%d%s>", i, j, strings.Repeat("-", 5000))
	}
	return fmt.Sprintf("<%d.%d>", i, j)
}

func (p cplan) body() {
	peer, sock := mc.Pipe()
	lim := limit
	if p.dflt {
		lim = 10 * time.Minute
	} else if p.lim != 0 {
		lim = p.lim
	}
	var closeAt time.Duration = -1
	seen := map[string]int{}
	mc.NetFault = func(op string, c *mc.Conn, size int) (int, error) {
		if op == "close" && closeAt < 0 {
			closeAt = mc.Elapsed()
		}
		if p.fault == nil || p.fault.op != op {
			return -1, nil
		}
		if seen[op]++; seen[op]-1 != p.fault.n {
			return -1, nil
		}
		return p.fault.k, p.fault.err
	}
	defer func() { mc.NetFault = nil }()
	before := mc.Elapsed()
	var c network.Conn
	if p.dflt {
		c = network.NewConn(sock)
	} else {
		c = network.NewConnWithExpire(sock, lim)
	}
	if c.Addr() != sock.RemoteAddr().String() {
		mc.Fail("the address is %q", c.Addr())
	}
	made := mc.Elapsed()
	var ops []*cop
	var ts []*mc.Task
	do := func(i, j int, what string) *cop {
		o := &cop{what: what, i: i, j: j, start: mc.Elapsed()}
		o.inv = mc.Stamp()
		switch what {
		case "r":
			v, err := c.Read()
			o.err = err
			if err == nil {
				if v == nil {
					mc.Fail("a read returned nothing")
				}
				o.val = v.String()
			}
		case "w", "W":
			o.text = text(what, i, j)
			o.err = c.Write(o.text)
		case "e":
			o.err = c.Write("")
		case "c":
			o.err = c.Close()
		case "?":
			o.closed = c.IsClosed()
		}
		o.resp = mc.Stamp()
		o.end = mc.Elapsed()
		ops = append(ops, o)
		return o
	}
	pause := func(what string) {
		d, err := time.ParseDuration(what[2:])
		if err != nil {
			panic("harness: " + what)
		}
		mc.Sleep(d)
	}
	for i, prog := range p.tasks {
		i, prog := i, prog
		ts = append(ts, mc.Spawn(func() {
			for j, what := range prog {
				switch {
				case what[0] == 's':
					pause(what)
				case what == "R":
					for n := 0; ; n++ {
						o := do(i, j, "r")
						if errors.Is(o.err, network.ErrConnIsClosed) {
							break
						}
						if o.err != nil {
							break // the stream is lost
						}
						if n > 20 {
							mc.Fail("a read returns again and again: %v", o.val)
						}
					}
				default:
					do(i, j, what)
				}
			}
		}))
	}
	peerGone, resumed := false, false
	var sent strings.Builder
	ts = append(ts, mc.Spawn(func() {
		for _, what := range p.peer {
			switch what[0] {
			case 's':
				pause(what)
			case 'i':
				if _, err := peer.Write([]byte(what[2:])); err == nil {
					sent.WriteString(what[2:])
				}
			case 'x':
				peerGone = true
				_ = peer.Close()
			case 'X':
				peerGone = true
				peer.Reset()
			case 'h':
				peerGone = true
				_ = peer.CloseWrite()
			case 'l':
				if n := 0; len(what) > 2 {
					_, _ = fmt.Sscan(what[2:], &n)
					sock.LimitExact(n)
				} else {
					sock.LimitOut(1)
				}
			case 'L':
				sock.LimitExact(0)
				resumed = true
			}
		}
	}))
	for _, t := range ts {
		t.Join()
	}
	mc.Quiesce()
	var last, first time.Duration = made, before // ends and starts of operations
	for _, o := range ops {
		if uses(o) {
			if o.start > first && !errors.Is(o.err, network.ErrConnIsClosed) {
				first = o.start
			}
			if o.end > last && !errors.Is(o.err, network.ErrConnIsClosed) {
				last = o.end
			}
			if o.start > last {
				last = o.start
			}
		}
	}
	explicit := false
	var closedFrom = 1 << 30 // stamp at which the connection is known to be closed
	nils := 0
	for _, o := range ops {
		if o.what == "c" {
			explicit = true
			if o.err == nil {
				nils++
			} else if !errors.Is(o.err, network.ErrConnIsClosed) && (p.fault == nil || p.fault.op != "close") {
				mc.Fail("close returned %v", o.err)
			}
			if o.resp < closedFrom {
				closedFrom = o.resp
			}
		}
		if o.what == "?" && o.closed && o.resp < closedFrom {
			closedFrom = o.resp
		}
	}
	if nils > 1 {
		mc.Fail("%d closes succeeded", nils)
	}
	broken := peerGone || p.fault != nil
	if !sock.IsClosed() && explicit {
		// another close may still wait for a peer that does not read
		mc.RunFor(slack)
		if !sock.IsClosed() {
			mc.Fail("a closed connection's socket is open")
		}
	}
	if !sock.IsClosed() {
		// nobody waits for it: it expires
		if d := first + lim - 2*time.Millisecond - mc.Elapsed(); d > 0 {
			mc.RunFor(d)
			if sock.IsClosed() && !broken && p.early == 0 {
				mc.Fail("expired %v after its last operation, limit %v", closeAt-first, lim)
			}
		}
		if d := last + lim + slack - mc.Elapsed(); d > 0 {
			mc.RunFor(d)
		}
		if !sock.IsClosed() && p.early > 0 {
			// time may have passed while whoever closes it was about to wait
			mc.RunFor(4 * lim)
		}
		if !sock.IsClosed() {
			mc.Fail("the connection has not expired %v after its last operation", mc.Elapsed()-last)
		}
	}
	if n := sock.Closes(); n != 1 {
		mc.Fail("the socket was closed %d times", n)
	}
	if !c.IsClosed() {
		mc.Fail("a closed connection does not say so")
	}
	for _, o := range ops {
		if o.inv < closedFrom {
			continue
		}
		if o.what == "?" {
			if !o.closed {
				mc.Fail("a closed connection says it is not")
			}
		} else if !errors.Is(o.err, network.ErrConnIsClosed) {
			mc.Fail("%q after the close returned %v", o.what, o.err)
		}
	}
	if !explicit && !broken {
		// it expired
		// a use that began when the time was up may have come before the close, which may
		// then be late
		edge := false
		for _, o := range ops {
			due := before + lim
			for _, q := range ops {
				if q != o && touched(q) && q.start < o.start && q.start+lim > due {
					due = q.start + lim
				}
			}
			t := o.start
			if p.early > 0 {
				t = o.end // time may pass before it has begun to count
			}
			edge = edge || (touched(o) && t >= due)
		}
		for _, o := range ops {
			if touched(o) && !edge && o.start <= closeAt && closeAt-o.start < lim {
				mc.Fail("expired %v after an operation, limit %v", closeAt-o.start, lim)
			}
		}
		if closeAt-before < lim {
			mc.Fail("expired %v after it was made, limit %v", closeAt-before, lim)
		}
		if p.early == 0 && closeAt > last+lim+slack {
			mc.Fail("expired only %v after the last operation, limit %v", closeAt-last, lim)
		}
	}
	for _, o := range ops {
		if o.text != "" && o.err != nil && resumed && !broken && !explicit && p.early == 0 && o.start < last+lim-slack {
			mc.Fail("the write of %.20q to a client that reads again in time returned %v", o.text, o.err)
		}
	}
	// reads
	vals, rest, derr := hl.DecodeAll(sent.String())
	n := 0
	for _, o := range ops {
		if o.what != "r" || o.err != nil {
			continue
		}
		if n >= len(vals) || o.val != vals[n].Encode() {
			mc.Fail("read number %d returned %q of %q", n, o.val, sent.String())
		}
		n++
	}
	readsAll := false
	for _, prog := range p.tasks {
		readsAll = readsAll || (len(prog) == 1 && prog[0] == "R")
	}
	cut := false
	for _, x := range p.peer {
		cut = cut || x == "X"
	}
	if readsAll && peerGone && !cut && !explicit && p.fault == nil && rest == "" && derr == nil && n != len(vals) && p.early == 0 {
		mc.Fail("%d values read of %d", n, len(vals))
	}
	p.wire(sock, ops, broken)
}

// partial: writes may go out in parts.
func (p cplan) partial() bool {
	for _, x := range p.peer {
		if x[0] == 'l' && len(x) > 2 {
			return true
		}
	}
	return false
}

// touched: a successful use.
func touched(o *cop) bool { return o.err == nil && uses(o) }

func uses(o *cop) bool { return o.what == "r" || o.what == "e" || o.what[0]|32 == 'w' }

// wire checks the bytes on the wire: whole writes, in the order of each goroutine.
func (p cplan) wire(sock *mc.Conn, ops []*cop, broken bool) {
	var b strings.Builder
	for _, w := range sock.Writes() {
		b.Write(w)
	}
	s := b.String()
	lastOf := map[int]int{}
	found := map[*cop]bool{}
	for s != "" {
		i := strings.IndexAny(s, "<>")
		if i < 0 {
			break
		}
		s = s[i:]
		var hit *cop
		for _, o := range ops {
			if o.text != "" && strings.HasPrefix(s, o.text) {
				hit = o
			}
		}
		if hit == nil {
			// part of a write that failed
			ok := false
			for _, o := range ops {
				if p.fault != nil && p.fault.op == "write" && o.text != "" && o.err != nil && len(o.text) > p.fault.k && strings.HasPrefix(s, o.text[:p.fault.k]) {
					s, ok = s[p.fault.k:], true
					break
				}
			}
			for _, o := range ops {
				// part of a write that the close ended: nothing comes after it
				i := strings.IndexByte(s, 'T')
				if i < 0 {
					i = len(s)
				}
				if p.partial() && o.text != "" && o.err != nil && i < len(o.text) && o.text[:i] == s[:i] && (s[i:] == "" || strings.HasPrefix("TTL expired", s[i:])) {
					return
				}
			}
			if ok {
				continue
			}
			mc.Fail("the bytes %.60q on the wire are no whole write", s)
		}
		if found[hit] {
			mc.Fail("%.20q is twice on the wire", hit.text)
		}
		found[hit] = true
		if l, ok := lastOf[hit.i]; ok && l > hit.j {
			mc.Fail("%.20q is on the wire after a later write", hit.text)
		}
		lastOf[hit.i] = hit.j
		s = s[len(hit.text):]
	}
	if broken {
		return
	}
	for _, o := range ops {
		if o.text != "" && o.err == nil && !found[o] {
			mc.Fail("%.20q was written and is not on the wire", o.text)
		}
	}
	for _, o := range ops {
		for _, q := range ops {
			if found[o] && found[q] && o.resp < q.inv && strings.Index(b.String(), o.text) > strings.Index(b.String(), q.text) {
				mc.Fail("%.20q is on the wire before %.20q, which had ended", q.text, o.text)
			}
		}
	}
}

const (
	get = "*2\r\n$3\r\nGET\r\n$1\r\na\r\n"
	set = "*3\r\n$3\r\nSET\r\n$1\r\na\r\n$1\r\nx\r\n"
)

func reg(name string, p cplan, q, t int) {
	hl.Register("C21", hl.Scn{Name: "conn/" + name, Body: func() { p.body() }, Quick: q, Thorough: t, Race: 2, Cfg: mc.Config{BlockCost: 1, EarlyCost: p.early}})
}

func init() {
	w := func(s string) []string { return strings.Fields(s) }
	for _, x := range []struct {
		name string
		p    cplan
		q, t int
	}{
		{"read-close", cplan{tasks: [][]string{w("R"), w("c")}, peer: []string{"i:" + get}}, 4, 6},
		{"read-peerclose", cplan{tasks: [][]string{w("R")}, peer: []string{"i:" + get, "i:" + set, "x"}}, 4, 6},
		{"read-half", cplan{tasks: [][]string{w("R"), w("w ? w")}, peer: []string{"i:" + get, "h"}}, 3, 5},
		{"read-reset", cplan{tasks: [][]string{w("R"), w("w w")}, peer: []string{"i:" + get, "X"}}, 4, 6},
		{"writers", cplan{tasks: [][]string{w("W w"), w("w W"), w("R")}, peer: []string{"i:" + get}}, 3, 5},
		{"write-close", cplan{tasks: [][]string{w("w w ?"), w("c w")}}, 4, 6},
		{"closers", cplan{tasks: [][]string{w("c ? c"), w("c w"), w("c r")}}, 3, 5},
		{"all", cplan{tasks: [][]string{w("R"), w("w w"), w("c")}, peer: []string{"i:" + get, "x"}}, 3, 5},
		{"partial", cplan{tasks: [][]string{w("R"), w("w")}, peer: []string{"i:*2\r\n$3\r\nGE", "i:T\r\n$1\r\na\r\n*1\r\n$4", "x"}}, 3, 5},
		{"stall", cplan{tasks: [][]string{w("w w w"), w("R")}, peer: []string{"l"}}, 3, 5},
		{"stall-close", cplan{tasks: [][]string{w("w w"), w("c")}, peer: []string{"l"}}, 3, 5},
		{"stall-closers", cplan{tasks: [][]string{w("w w"), w("c ?"), w("c ? w")}, peer: []string{"l"}}, 3, 4},
		{"expire-idle", cplan{tasks: [][]string{w("w"), w("R")}, early: 1}, 3, 5},
		{"expire-use", cplan{tasks: [][]string{w("w s:4s w s:7s w"), w("r r")}, peer: []string{"s:3s", "i:" + get}, early: 1}, 3, 4},
		{"expire-edge", cplan{tasks: [][]string{w("s:10s w ?"), w("s:10s c")}, early: 1}, 4, 6},
		{"expire-edge2", cplan{tasks: [][]string{w("w s:10s w ? w"), w("s:10s r ?")}, peer: []string{"i:" + get}, early: 1}, 3, 5},
		{"expire-peer", cplan{tasks: [][]string{w("R"), w("w")}, peer: []string{"s:10s", "x"}, early: 1}, 4, 6},
		{"expire-close", cplan{tasks: [][]string{w("R"), w("s:10s c"), w("s:10s w")}, early: 1}, 3, 5},
		{"expire-stall", cplan{tasks: [][]string{w("w w"), w("s:10s c")}, peer: []string{"l"}, early: 1}, 3, 5},
		{"late-ops", cplan{tasks: [][]string{w("s:11s w r ? c")}}, 4, 6},
		{"slow-request", cplan{tasks: [][]string{w("R"), w("w")}, peer: []string{"i:*2\r\n$3\r\nGE", "s:4s", "i:T\r\n$1", "s:4s", "i:\r\na\r\n" + set, "x"}}, 3, 5},
		{"slow-peer", cplan{tasks: [][]string{w("w W w")}, peer: []string{"l:3", "s:3s", "L"}}, 3, 5},
		{"slow-peers", cplan{tasks: [][]string{w("W w"), w("w W"), w("R")}, peer: []string{"l:100", "s:1s", "i:" + get, "s:3s", "L"}}, 3, 4},
		{"slow-peer-close", cplan{tasks: [][]string{w("w W"), w("w"), w("s:2s c")}, peer: []string{"l:9", "s:3s", "L"}}, 3, 5},
		{"slow-peer-stays", cplan{tasks: [][]string{w("W"), w("w ?"), w("R")}, peer: []string{"l:9", "s:3s"}}, 3, 5},
		{"slow-peer-again", cplan{tasks: [][]string{w("w W s:1s w W")}, peer: []string{"l:9", "s:2s", "L", "l:7", "s:2s", "L"}}, 3, 5},
		{"bad-bytes", cplan{tasks: [][]string{w("r r"), w("w c")}, peer: []string{"i:?!\r\n\r\n"}}, 3, 5},
	} {
		reg(x.name, x.p, x.q, x.t)
	}
	for _, op := range []string{"read", "write", "close"} {
		for n := 0; n < 3; n++ {
			for _, k := range []int{0, 2} {
				if k > 0 && op != "write" || n > 0 && op == "close" {
					continue
				}
				p := cplan{tasks: [][]string{w("r r"), w("w w"), w("c ? w r")}, peer: []string{"i:" + get}, fault: &nfault{op, n, k, errNet}}
				reg(fmt.Sprintf("fault/%s/%d/%d", op, n, k), p, 2, 4)
				p = cplan{tasks: [][]string{w("r r"), w("w w")}, peer: []string{"i:" + get + get, "x"}, fault: &nfault{op, n, k, errNet}}
				reg(fmt.Sprintf("fault/%s/%d/%d/peer", op, n, k), p, 2, 4)
			}
		}
	}
	hl.Register("C21", hl.Scn{Name: "conn/limits", Seq: limits})
	hl.Register("C21", hl.Scn{Name: "conn/times", Seq: times})
	hl.Register("C21", hl.Scn{Name: "conn/default", Seq: func(c *hl.Seq) {
		for _, gap := range []string{"0s", "5m", "9m59s", "9m59.9s", "10m1s"} {
			for _, op := range []string{"w", "r", "?"} {
				p := cplan{tasks: [][]string{{op, "s:" + gap, op, "s:" + gap, op}}, peer: []string{"i:" + get + get + get}, dflt: true}
				c.Try(func() string { return op + " every " + gap }, func() string { return hl.Under(func() string { p.body(); return "" }) })
				c.Step(3)
			}
		}
	}})
}

// limits enumerates idle limits, and operations just before and just after each.
func limits(c *hl.Seq) {
	for _, lim := range []time.Duration{1, time.Microsecond, time.Millisecond, 10 * time.Millisecond, 99 * time.Millisecond, 250 * time.Millisecond,
		500 * time.Millisecond, 700 * time.Millisecond, time.Second, 1100 * time.Millisecond, 1500 * time.Millisecond, 2 * time.Second, 59900 * time.Millisecond,
		90 * time.Second, 15 * time.Minute, 3 * time.Hour, 25 * time.Hour, 30 * 24 * time.Hour, 400 * 24 * time.Hour} {
		for _, gap := range []time.Duration{0, lim / 3, lim - lim/50, lim + lim/50 + 1} {
			for _, ops := range []string{"www", "rrr", "ewr", "w?w", "wcw"} {
				var task []string
				for _, o := range strings.Split(ops, "") {
					task = append(task, o, "s:"+gap.String())
				}
				p := cplan{tasks: [][]string{task}, peer: []string{"i:" + get + get + get}, lim: lim}
				desc := fmt.Sprint(task, " limit ", lim)
				c.Try(func() string { return desc }, func() string { return hl.Under(func() string { p.body(); return "" }) })
				c.Step(3)
				c.States++
			}
		}
	}
}

// times enumerates operations at all combinations of moments.
func times(c *hl.Seq) {
	gaps := []string{"0s", "3s", "9.999s", "10.001s"}
	opsOf := []string{"w", "r", "e", "i", "?"} // "i": the peer sends a request
	depth := hl.Pick(4, 5)
	var rec func(task []string, peer []string, n int)
	rec = func(task []string, peer []string, n int) {
		if c.Late() {
			return
		}
		if n > 0 {
			p := cplan{tasks: [][]string{task}, peer: peer}
			desc := fmt.Sprint(task, " peer ", peer)
			c.Try(func() string { return desc }, func() string { return hl.Under(func() string { p.body(); return "" }) })
			c.Step(n)
			c.States++
			if c.Execs%501 == 0 {
				c.Sample("%s", desc)
			}
		}
		if n == depth {
			return
		}
		for _, g := range gaps {
			for _, o := range opsOf {
				t := append(append([]string{}, task...), "s:"+g)
				q := append(append([]string{}, peer...), "s:"+g)
				if o == "i" {
					q = append(q, "i:"+get)
				} else {
					t = append(t, o)
				}
				rec(t, q, n+1)
			}
		}
	}
	rec(nil, nil, 0)
	c.MaxDepth = depth
}
