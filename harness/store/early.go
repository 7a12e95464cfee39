package main

import (
	"fmt"
	"strings"
	"syscall"

	"github.com/lxdlam/vertex/mc"
	"github.com/lxdlam/vertex/pkg/network"
	"github.com/lxdlam/vertex/vharness/hl"
	"github.com/lxdlam/vertex/vharness/srv"
)

// C10 and C11 for clients that are there while the server restarts: as soon as it takes a
// connection, however far it has come. Their first answer is of the restored data already,
// and what they push follows it.

type early struct {
	had     []string   // elements of list l before the restart
	torn    bool       // the file ends inside a further record
	clients [][]string // what each client pushes after its first read
}

func serverProc() *mc.Proc {
	cfg := srv.Conf(srv.File)
	return mc.NewProc(func() {
		s := network.NewServer()
		if s.Init(cfg) {
			s.Serve()
		}
	}, nil)
}

func elementsOf(c *srv.Client) []string {
	l := []string{}
	for _, x := range c.Must("LRANGE", "l", "0", "-1").A {
		l = append(l, x.S)
	}
	return l
}

func (p early) body() {
	mc.Calm(true)
	n := serverProc()
	mc.Quiesce()
	c := srv.Dial(srv.Port)
	if c == nil {
		mc.Fail("the server refuses a client")
	}
	for _, e := range p.had {
		c.Must("RPUSH", "l", e)
	}
	c.Close()
	mc.Quiesce()
	n.Signal(syscall.SIGTERM)
	n.Join()
	mc.Quiesce()
	mc.Calm(false)
	if p.torn {
		b, _ := mc.FSGet(srv.File)
		rec := b[len(b)/len(p.had)*(len(p.had)-1):] // they are of one size
		mc.FSPut(srv.File, append(append([]byte{}, b...), rec[:1+mc.ChooseN(len(rec)-1, 0)]...))
	}
	n = serverProc()
	var ts []*mc.Task
	for _, els := range p.clients {
		els := els
		ts = append(ts, mc.Spawn(func() {
			mc.AwaitListener(srv.Port)
			c := srv.Dial(srv.Port)
			if c == nil {
				mc.Fail("the server refuses a client")
			}
			got := elementsOf(c)
			if len(got) < len(p.had) || fmt.Sprint(got[:len(p.had)]) != fmt.Sprint(p.had) || len(p.clients) == 1 && len(got) > len(p.had) {
				mc.Fail("the first read after the restart is answered %.40q, not %.40q", got, p.had)
			}
			for _, e := range els {
				if v := c.Must("RPUSH", "l", e); v.Kind != ':' || len(p.clients) == 1 && v.N != int64(len(got)+1) {
					mc.Fail("a push to %d elements is answered %v", len(got), v)
				}
				got = append(got, e)
			}
			if now := elementsOf(c); len(p.clients) == 1 && fmt.Sprint(now) != fmt.Sprint(got) {
				mc.Fail("the client that came first sees %.40q, not %.40q", now, got)
			}
			c.Close()
		}))
	}
	for _, t := range ts {
		t.Join()
	}
	mc.Quiesce()
	mc.Calm(true)
	var all []string
	for life := 0; life < 2; life++ {
		c := srv.Dial(srv.Port)
		if c == nil {
			mc.Fail("the server refuses a later client")
		}
		got := elementsOf(c)
		c.Close()
		mc.Quiesce()
		if life == 0 {
			next := make([]int, len(p.clients))
			if len(got) < len(p.had) || fmt.Sprint(got[:len(p.had)]) != fmt.Sprint(p.had) {
				mc.Fail("after the early clients the list is %.40q, which does not start with %.40q", got, p.had)
			}
			for _, e := range got[len(p.had):] {
				found := false
				for i, els := range p.clients {
					if !found && next[i] < len(els) && els[next[i]] == e {
						next[i]++
						found = true
					}
				}
				if !found {
					mc.Fail("after the early clients the list is %.40q: %.40q is too much", got, e)
				}
			}
			for i, els := range p.clients {
				if next[i] != len(els) {
					mc.Fail("after the early clients the list is %.40q, without all of %.40q", got, els)
				}
			}
			all = got
		} else if fmt.Sprint(got) != fmt.Sprint(all) {
			mc.Fail("after another restart the list is %.40q, not %.40q", got, all)
		}
		n.Signal(syscall.SIGTERM)
		n.Join()
		if life == 0 {
			n = serverProc()
			mc.Quiesce()
		}
	}
}

func init() {
	L := strings.Repeat("L", 5000)
	for _, x := range []struct {
		name string
		p    early
		q, t int
	}{
		{"nothing-yet", early{clients: [][]string{{"x"}}}, 1, 3},
		{"one", early{had: []string{"a", "b"}, clients: [][]string{{"x"}}}, 1, 3},
		{"one-large", early{had: []string{"a", L, "b"}, clients: [][]string{{"x", L}}}, 1, 3},
		{"reads", early{had: []string{"a", "b"}, clients: [][]string{nil}}, 1, 3},
		{"two", early{had: []string{"a", "b"}, clients: [][]string{{"x"}, {"y"}}}, 1, 3},
		{"three", early{had: []string{"a"}, clients: [][]string{{"x"}, nil, {"y", "z"}}}, 1, 2},
	} {
		p := x.p
		hl.Register("C10", hl.Scn{Name: "early/" + x.name, Body: func() { p.body() }, Quick: x.q, Thorough: x.t, Slow: 1, Cfg: mc.Config{BlockCost: 1}})
	}
	for _, x := range []struct {
		name string
		p    early
	}{
		{"one", early{had: []string{"a", "b"}, clients: [][]string{{"x"}}, torn: true}},
		{"two", early{had: []string{"a", "b"}, clients: [][]string{{"x"}, {"y"}}, torn: true}},
	} {
		p := x.p
		hl.Register("C11", hl.Scn{Name: "early/" + x.name, Body: func() { p.body() }, Quick: 0, Thorough: 1, Slow: -1, Cfg: mc.Config{BlockCost: 1}})
	}
}
