package main

import (
	"fmt"
	"net"
	"strings"
	"time"

	"github.com/lxdlam/vertex/mc"
	"github.com/lxdlam/vertex/vharness/hl"
)

// C13 with a master that delivers slowly: at any byte of the stream it pauses, and a client
// of the replica is there as soon as the replica takes a connection. Whatever the replica
// makes of the pause, it serves its own data or all of the master's, and its data does not
// change under the client.
type pause struct {
	first, own []string
	d          time.Duration
	cut        bool // the stream ends after the pause
}

// stream is what a replica of the server receives.
func (n *node) stream(port int) []byte {
	r, err := mc.HDial(port)
	if err != nil {
		mc.Fail("the master does not accept a replica")
	}
	var st []byte
	for b := make([]byte, 1<<16); ; {
		k, err := r.Read(b)
		st = append(st, b[:k]...)
		if err != nil {
			break
		}
	}
	_ = r.Close()
	return st
}

func (p pause) body() {
	mc.Calm(true)
	m := launch(conf(mPort, mRepl, 0, mFile))
	mc.Quiesce()
	var acked, x []string
	m.push(p.first, &acked, false)
	st := m.stream(mRepl)
	m.stop()
	r := launch(conf(rPort, 0, 0, rFile))
	mc.Quiesce()
	r.push(p.own, &x, false)
	r.stop()
	mc.Quiesce()
	l, err := mc.ListenTCP("tcp", &net.TCPAddr{Port: mRepl})
	if err != nil {
		mc.Fail("harness: %v", err)
	}
	mc.Calm(false)
	at := mc.ChooseN(len(st)+1, 0)
	mc.Spawn(func() {
		x, err := l.Accept()
		if err != nil {
			return
		}
		_, _ = x.Write(st[:at])
		mc.Sleep(p.d)
		if !p.cut {
			_, _ = x.Write(st[at:])
		}
		_ = x.Close()
	})
	r = launch(conf(rPort, 0, mRepl, rFile))
	var got []string
	t := mc.Spawn(func() {
		mc.AwaitListener(rPort)
		got = r.pushed()
	})
	t.Join()
	mc.RunFor(p.d + time.Minute)
	mc.Calm(true)
	all := append(append([]string{}, p.own...), p.first...)
	if fmt.Sprint(got) != fmt.Sprint(all) && fmt.Sprint(got) != fmt.Sprint(p.own) {
		mc.Fail("a replica whose master pauses after %d of %d bytes answers with %s; its own are %s, with the master's %s", at, len(st), short(got), short(p.own), short(all))
	}
	if p.cut && at < len(st) && fmt.Sprint(got) != fmt.Sprint(p.own) {
		mc.Fail("a replica whose master ends after %d of %d bytes answers with %s; its own are %s", at, len(st), short(got), short(p.own))
	}
	if later := r.pushed(); fmt.Sprint(later) != fmt.Sprint(got) {
		mc.Fail("a replica whose master pauses after %d of %d bytes answers with %s first and with %s later, without a command in between", at, len(st), short(got), short(later))
	}
	r.stop()
	_ = l.Close()
}

// again is a master that is stopped and started again: a replica that is there as soon as
// the master listens for replicas holds all that was acknowledged before.
type again struct {
	first []string
	own   []string
}

func (p again) body() {
	mc.Calm(true)
	m := launch(conf(mPort, mRepl, 0, mFile))
	mc.Quiesce()
	var acked, x []string
	m.push(p.first, &acked, false)
	m.stop()
	if len(p.own) > 0 {
		r := launch(conf(rPort, 0, 0, rFile))
		mc.Quiesce()
		r.push(p.own, &x, false)
		r.stop()
	}
	mc.Quiesce()
	mc.Calm(false)
	m = launch(conf(mPort, mRepl, 0, mFile))
	mc.AwaitListener(mRepl)
	r := launch(conf(rPort, 0, mRepl, rFile))
	mc.AwaitListener(rPort)
	want := append(append([]string{}, p.own...), p.first...)
	if got := r.pushed(); fmt.Sprint(got) != fmt.Sprint(want) {
		mc.Fail("the replica of a master that was started again has %s, not %s", short(got), short(want))
	}
	mc.Quiesce()
	mc.Calm(true)
	if got := m.pushed(); fmt.Sprint(got) != fmt.Sprint(p.first) {
		mc.Fail("the master that was started again has %s, not %s", short(got), short(p.first))
	}
	r.stop()
	m.stop()
}

func init() {
	L := strings.Repeat("L", 5000)
	for _, x := range []struct {
		name string
		p    pause
	}{
		{"moment", pause{first: []string{"a", "b"}, own: []string{"o"}, d: 50 * time.Millisecond}},
		{"minute", pause{first: []string{"a", "b"}, own: []string{"o"}, d: 2 * time.Minute}},
		{"hour", pause{first: []string{"a", "b"}, d: time.Hour}},
		{"minute-then-end", pause{first: []string{"a", "b"}, own: []string{"o"}, d: 2 * time.Minute, cut: true}},
	} {
		p := x.p
		hl.Register("C13", hl.Scn{Name: "replica/pause/" + x.name, Body: func() { p.body() }, Quick: 0, Thorough: 1, Slow: -1, Cfg: mc.Config{BlockCost: 1}})
	}
	for _, x := range []struct {
		name string
		p    again
		q, t int
	}{
		{"none", again{}, 1, 2},
		{"some", again{first: []string{"a", "b"}, own: []string{"o"}}, 1, 2},
		{"large", again{first: []string{"a", L}}, 1, 2},
	} {
		p := x.p
		hl.Register("C13", hl.Scn{Name: "pair/again/" + x.name, Body: func() { p.body() }, Quick: x.q, Thorough: x.t, Slow: 1, Cfg: mc.Config{BlockCost: 1}})
	}
}
