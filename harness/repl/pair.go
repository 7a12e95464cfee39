package main

import (
	"bytes"
	"fmt"
	"strings"
	"syscall"

	"github.com/lxdlam/vertex/mc"
	"github.com/lxdlam/vertex/pkg/common"
	"github.com/lxdlam/vertex/pkg/log"
	"github.com/lxdlam/vertex/pkg/network"
	"github.com/lxdlam/vertex/vharness/hl"
	"github.com/lxdlam/vertex/vharness/srv"
)

// C13 with a master and its replicas as programs of their own, which run side by side.

const (
	mPort, mRepl = 7000, 7001
	rPort, rRepl = 7010, 7011
	tPort        = 7020
	mFile, rFile = "/m.log", "/r.log"
	tFile        = "/t.log"
)

// node is a server program.
type node struct {
	p    *mc.Proc
	port int
	up   bool // initialized
	done bool // served to the end
}

func conf(port, repl, master int, file string) common.Config {
	c := common.Config{Port: port, DatabaseFile: file}
	if repl > 0 {
		c.EnableReplica, c.ReplicaPort = true, repl
	}
	if master > 0 {
		c.MasterAddress = fmt.Sprintf("127.0.0.1:%d", master)
	}
	return c
}

func launch(c common.Config) *node {
	n := &node{port: c.Port}
	n.p = mc.NewProc(func() {
		s := network.NewServer()
		if !s.Init(c) {
			return
		}
		n.up = true
		s.Serve()
		n.done = true
	}, nil)
	return n
}

// stop ends the program by the signal.
func (n *node) stop() {
	n.p.Signal(syscall.SIGTERM)
	n.p.Join()
	if !n.done {
		mc.Fail("the server on port %d does not serve to its end", n.port)
	}
}

// at connects to it.
func (n *node) at() *srv.Client {
	c := srv.Dial(n.port)
	if c == nil {
		mc.Fail("the server on port %d refuses a client", n.port)
	}
	return c
}

func (n *node) dump() string {
	c := n.at()
	d := dump(c)
	c.Close()
	return d
}

func (n *node) exec(cmds [][]string) {
	if len(cmds) == 0 {
		return
	}
	c := n.at()
	if _, err := c.All(cmds); err != nil {
		mc.Fail("the server on port %d: no reply: %v", n.port, err)
	}
	c.Close()
}

// rest looks for what syncs leave behind; files are those that may be there.
func rest(files ...string) {
	mc.Quiesce()
	for _, f := range append(mc.FSList(), mc.FSOpen()...) {
		ok := false
		for _, x := range files {
			ok = ok || x == f
		}
		if !ok {
			mc.Fail("the file %s is left behind", f)
		}
	}
	for _, c := range mc.ServerConns() {
		if !c.IsClosed() || !c.Peer().IsClosed() {
			mc.Fail("a connection is left behind")
		}
	}
}

// pairOf runs a master with a history and a replica, and goes on on each. What the replica
// got is the master's: its own file holds what its own clients did.
func pairOf(own, hist [][]string, exact bool) string {
	defer srv.Draws(3)()
	m := launch(conf(mPort, mRepl, 0, mFile))
	mc.Quiesce()
	m.exec(hist)
	if len(own) > 0 {
		r := launch(conf(rPort, 0, 0, rFile))
		mc.Quiesce()
		r.exec(own)
		r.stop()
	}
	want := m.dump()
	var ours, again string
	onR, onM := [][]string{{"APPEND", "k", "R"}, {"INCR", "n"}, {"RPUSH", "l", "R"}}, [][]string{{"SADD", "s", "M"}, {"RPUSH", "l", "M"}}
	if !exact {
		ours = plain(own, hist)
	}
	alone := plain(own, onR)
	if !randomized(hist) {
		again = plain(own, onR, hist, onM)
	}
	r := launch(conf(rPort, rRepl, mRepl, rFile))
	mc.Quiesce()
	got := r.dump()
	if exact && got != want {
		return "the replica differs from the master: " + srv.Diff(want, got)
	}
	if !exact && got != ours && !randomized(hist) {
		return "the replica differs from its data and the master's: " + srv.Diff(ours, got)
	}
	rest(mFile, rFile)
	// each goes on by itself
	r.exec(onR)
	if x := m.dump(); x != want {
		return "a command on the replica changes the master: " + srv.Diff(want, x)
	}
	after := r.dump()
	m.exec(onM)
	mine := m.dump()
	if x := r.dump(); x != after {
		return "a command on the master changes the replica: " + srv.Diff(after, x)
	}
	// the replica starts again, and syncs again
	r.stop()
	r = launch(conf(rPort, rRepl, mRepl, rFile))
	mc.Quiesce()
	if x := r.dump(); x != again && again != "" {
		return "the replica after its restart and another sync: " + srv.Diff(again, x)
	}
	after = r.dump()
	m.stop()
	if x := r.dump(); x != after {
		return "the end of the master changes the replica: " + srv.Diff(after, x)
	}
	r.stop()
	rest(mFile, rFile)
	for _, x := range []struct {
		c    common.Config
		want string
		name string
	}{
		{conf(mPort, mRepl, 0, mFile), mine, "master"},
		{conf(rPort, 0, 0, rFile), alone, "replica alone"},
		{conf(rPort, 0, mRepl, rFile), alone, "replica without its master"},
	} {
		n := launch(x.c)
		mc.Quiesce()
		if d := n.dump(); d != x.want {
			return "the " + x.name + " after its restart: " + srv.Diff(x.want, d)
		}
		n.stop()
	}
	return ""
}

// plain is the data after the commands on a server of its own.
func plain(l ...[][]string) string {
	n := launch(conf(tPort, 0, 0, tFile))
	mc.Quiesce()
	for _, x := range l {
		n.exec(x)
	}
	d := n.dump()
	n.stop()
	mc.FSDel(tFile)
	return d
}

func pairs(c *hl.Seq, own [][]string, exact bool, part, parts int) {
	depth := hl.Pick(2, 3)
	for _, st := range [][][]string{nil, {{"SET", "k", "5"}, {"RPUSH", "l", "a", "b", "a", "c"}, {"HSET", "h", "f", "1"}, {"SADD", "s", "a", "b", "c", "d"}}} {
		seq := append([][]string(nil), st...)
		var rec func(n int)
		rec = func(n int) {
			if c.Late() {
				return
			}
			c.Try(func() string {
				return fmt.Sprintf("own %s ; the master's history %s", show(own), show(seq))
			}, func() string {
				return hl.Under(func() string { return pairOf(own, seq, exact) })
			})
			c.Step(len(seq) + 1)
			c.States++
			if n == 0 {
				return
			}
			for j, a := range alphabet {
				if len(seq) == len(st) && j%parts != part {
					continue
				}
				seq = append(seq, a)
				rec(n - 1)
				seq = seq[:len(seq)-1]
			}
		}
		rec(depth)
	}
	c.MaxDepth = depth
}

// live is a master that clients use while a replica starts, and the end of either.
type live struct {
	first  []string // elements that are there before
	own    []string // elements of the replica
	client []string // elements pushed meanwhile
	fuse   int      // >0: with a kill: one of the fuse-th and the four later steps is the last
	end    string   // "kill-master", "kill-replica", "stop-master", "stop-replica": at any moment
	early  bool     // a client of the replica that is there as soon as it listens
	chain  bool     // the master is a replica itself that starts at the same time
}

// pushed are the elements of list l of a server.
func (n *node) pushed() []string {
	c := n.at()
	v := c.Must("LRANGE", "l", "0", "-1")
	c.Close()
	var l []string
	for _, x := range v.A {
		l = append(l, x.S)
	}
	return l
}

func (n *node) push(els []string, acked *[]string, may bool) {
	c := srv.Dial(n.port)
	if c == nil {
		if !may {
			mc.Fail("the server on port %d refuses a client", n.port)
		}
		return
	}
	for _, e := range els {
		v, err := c.Cmd("RPUSH", "l", e)
		if err != nil {
			if !may {
				mc.Fail("no reply to a push: %v", err)
			}
			c.Close()
			return
		}
		if v.Kind != ':' {
			mc.Fail("a push is answered %v", v)
		}
		*acked = append(*acked, e)
	}
	c.Close()
}

// prefix reports whether a is at the start of b.
func prefix(a, b []string) bool {
	return len(a) <= len(b) && fmt.Sprint(a) == fmt.Sprint(b[:len(a)])
}

func short(l []string) string { return fmt.Sprintf("%.40q", l) }

func (p live) body() {
	mc.Calm(true)
	m := launch(conf(mPort, mRepl, 0, mFile))
	mc.Quiesce()
	var acked []string
	m.push(p.first, &acked, false)
	if len(p.own) > 0 {
		r := launch(conf(rPort, 0, 0, rFile))
		mc.Quiesce()
		var x []string
		r.push(p.own, &x, false)
		r.stop()
	}
	mc.Quiesce()
	mc.Calm(false)
	lit := p.fuse > 0
	fuse := p.fuse
	if lit {
		fuse += mc.ChooseN(5, 0)
	}
	if lit && p.end == "kill-master" {
		m.p.KillAfter(fuse)
	}
	dies := strings.HasSuffix(p.end, "master")
	before := append([]string(nil), acked...)
	if p.chain {
		// the master of the replica is killed and started again while the replica starts
		m.p.Kill()
		m = launch(conf(mPort, mRepl, 0, mFile))
	}
	var ts []*mc.Task
	if len(p.client) > 0 {
		ts = append(ts, mc.Spawn(func() { m.push(p.client, &acked, dies) }))
	}
	r := launch(conf(rPort, 0, mRepl, rFile))
	if p.early {
		ts = append(ts, mc.Spawn(func() {
			mc.AwaitListener(rPort)
			r.check("the replica at its first answer", p, before, append(append([]string{}, p.first...), p.client...))
		}))
	}
	if lit && p.end == "kill-replica" {
		r.p.KillAfter(fuse)
	}
	if lit {
		mc.Quiesce()
	}
	switch p.end {
	case "kill-master":
		m.p.Kill()
	case "kill-replica":
		r.p.Kill()
	case "stop-master":
		m.p.Signal(syscall.SIGTERM)
	case "stop-replica":
		// before it is up the signal kills it
		r.p.Signal(syscall.SIGTERM)
	}
	for _, t := range ts {
		t.Join()
	}
	mc.Quiesce()
	mc.Calm(true)
	if p.end == "stop-master" {
		m.p.Join()
		if !m.done {
			mc.Fail("the stopped master did not serve to its end")
		}
	}
	if p.end == "stop-replica" {
		r.p.Join()
	}
	if r.p.Dead() != strings.HasSuffix(p.end, "replica") {
		mc.Fail("the replica ends")
	}
	if dies {
		for _, x := range mc.ServerConns() {
			if x.Peer().IsClosed() != x.IsClosed() {
				mc.Fail("a connection of the dead master is still open")
			}
		}
		r.check("the replica", p, before, nil)
		r.push([]string{"later"}, &[]string{}, false)
		want := append(append([]string{}, p.own...), "later")
		r.stop()
		r = launch(conf(rPort, 0, 0, rFile))
		mc.Quiesce()
		if got := r.pushed(); fmt.Sprint(got) != fmt.Sprint(want) {
			mc.Fail("the restarted replica has %s, not %s", short(got), short(want))
		}
		r.stop()
		// what the master wrote is still good
		m = launch(conf(mPort, mRepl, 0, mFile))
		mc.Quiesce()
		got := m.pushed()
		if p.end == "stop-master" && !prefix(acked, got) {
			mc.Fail("the stopped master has %s after its restart, not the acknowledged %s", short(got), short(acked))
		}
		if !prefix(got, append(append([]string{}, p.first...), p.client...)) {
			mc.Fail("the restarted master has %s", short(got))
		}
		m.stop()
		return
	}
	order := m.pushed()
	if !prefix(acked, order) || len(order) != len(acked) {
		mc.Fail("the master has %s after acknowledging %s", short(order), short(acked))
	}
	rest(mFile, rFile)
	if p.end != "" {
		// what the dead replica wrote is its own
		r = launch(conf(rPort, 0, 0, rFile))
		mc.Quiesce()
		if got := r.pushed(); fmt.Sprint(got) != fmt.Sprint(p.own) {
			mc.Fail("the replica that was killed has %s; its own was %s", short(got), short(p.own))
		}
		r.stop()
	} else {
		r.check("the replica", p, before, order)
		r.push([]string{"later"}, &[]string{}, false)
		want := append(append([]string{}, p.own...), "later")
		if got := m.pushed(); fmt.Sprint(got) != fmt.Sprint(order) {
			mc.Fail("a command on the replica changes the master")
		}
		r.stop()
		r = launch(conf(rPort, 0, 0, rFile))
		mc.Quiesce()
		if got := r.pushed(); fmt.Sprint(got) != fmt.Sprint(want) {
			mc.Fail("the restarted replica has %s, not %s", short(got), short(want))
		}
		r.stop()
	}
	m.stop()
	rest(mFile, rFile)
	b, _ := mc.FSGet(mFile)
	logs, err := log.ParseLog(bytes.NewReader(b))
	if err != nil {
		mc.Fail("the master's file does not parse: %v", err)
	}
	if els, bad := elements(logs); bad != "" || fmt.Sprint(els) != fmt.Sprint(order) {
		mc.Fail("the master's file holds %s, not %s; %s", short(els), short(order), bad)
	}
}

// check judges what a replica has: its own and, if it could sync, the master's at some
// moment since it started.
func (n *node) check(name string, p live, before, order []string) {
	got := n.pushed()
	if !prefix(p.own, got) {
		mc.Fail("%s has %s without its own %s", name, short(got), short(p.own))
	}
	theirs := got[len(p.own):]
	all := append(append([]string{}, p.first...), p.client...)
	if len(theirs) == 0 && (order == nil || p.chain) {
		return // the master may have been gone
	}
	if !prefix(before, theirs) {
		mc.Fail("%s has %s, not all of %s, which the master acknowledged before it started", name, short(theirs), short(before))
	}
	if order != nil && !prefix(theirs, order) || !prefix(theirs, all) {
		mc.Fail("%s has %s, no start of what the master has: %s", name, short(theirs), short(all))
	}
}

func init() {
	parts := 4
	for name := range owns {
		for part := 0; part < parts; part++ {
			name, part := name, part
			hl.Register("C13", hl.Scn{Name: fmt.Sprintf("pair/%s/%d", name, part), Seq: func(c *hl.Seq) {
				pairs(c, owns[name], name == "empty", part, parts)
			}})
		}
	}
	L := strings.Repeat("L", 4090)
	for _, x := range []struct {
		name string
		p    live
		q, t int
	}{
		{"idle", live{first: []string{"a", L}, own: []string{"o"}}, 2, 3},
		{"busy", live{first: []string{"a"}, client: []string{"b", "c"}}, 1, 2},
		{"busy-own", live{first: []string{"a"}, own: []string{"o"}, client: []string{L, "c"}}, 1, 2},
		{"kill-master", live{first: []string{"a", "b"}, own: []string{"o"}, end: "kill-master"}, 2, 3},
		{"kill-busy-master", live{first: []string{"a"}, client: []string{L, "c"}, end: "kill-master"}, 2, 3},
		{"stop-master", live{first: []string{"a", L}, own: []string{"o"}, end: "stop-master"}, 2, 3},
		{"stop-busy-master", live{first: []string{"a"}, client: []string{"b"}, end: "stop-master"}, 1, 2},
		{"kill-replica", live{first: []string{"a", "b"}, own: []string{"o"}, end: "kill-replica"}, 4, 5},
		{"kill-replica-busy", live{first: []string{"a"}, client: []string{"b"}, end: "kill-replica"}, 2, 3},
		{"stop-replica", live{first: []string{"a", L}, own: []string{"o"}, end: "stop-replica"}, 4, 5},
		{"early", live{first: []string{"a", L}, own: []string{"o"}, early: true}, 1, 2},
		{"early-busy", live{first: []string{"a"}, client: []string{"b", "c"}, early: true}, 1, 2},
		{"master-restarts", live{first: []string{"a", L}, chain: true}, 2, 3},
	} {
		p := x.p
		hl.Register("C13", hl.Scn{Name: "pair/" + x.name, Body: func() { p.body() }, Quick: x.q, Thorough: x.t, Slow: x.q, Cfg: mc.Config{BlockCost: 1}})
	}
	// every step of a server can be its last
	for _, x := range []struct {
		name string
		p    live
	}{
		{"master", live{first: []string{"a", L}, own: []string{"o"}, end: "kill-master"}},
		{"busy-master", live{first: []string{"a"}, client: []string{"b", L}, end: "kill-master"}},
		{"replica", live{first: []string{"a", L}, own: []string{"o"}, end: "kill-replica"}},
		{"replica-busy", live{first: []string{"a"}, own: []string{"o"}, client: []string{"b", L}, end: "kill-replica"}},
	} {
		for from := 1; from < 41; from += 5 {
			p := x.p
			p.fuse = from
			hl.Register("C13", hl.Scn{Name: fmt.Sprintf("pair/last-step/%s/%d", x.name, from), Body: func() { p.body() }, Quick: 1, Thorough: 2, Slow: -1, Late: from > 25, Cfg: mc.Config{BlockCost: 1}})
		}
	}
}
