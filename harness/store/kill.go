package main

import (
	"fmt"
	"strings"

	"github.com/lxdlam/vertex/mc"
	"github.com/lxdlam/vertex/pkg/network"
	"github.com/lxdlam/vertex/vharness/hl"
	"github.com/lxdlam/vertex/vharness/srv"
)

// C11 with the server as a program of its own that is killed at any moment while clients
// use it, again and again.

type killed struct {
	lives [][][]string // of each life, of each client: the elements it pushes
	pipe  bool
	sync  bool // a replica syncs meanwhile, which flushes the file
	// the steps of the server in the first life that can be its last
	from, steps int
}

func (p killed) body() {
	base := []string{}       // what must be there at the start of a life
	var before [][]string    // what clients pushed in the life before
	var pos map[int64]string // and as which push
	for round, clients := range append(append([][][]string{}, p.lives...), nil) {
		mc.Calm(true)
		cfg := srv.Conf(srv.File)
		cfg.EnableReplica, cfg.ReplicaPort = true, srv.ReplicaPort
		n := mc.NewProc(func() {
			s := network.NewServer()
			if s.Init(cfg) {
				s.Serve()
			}
		}, nil)
		mc.Quiesce()
		if n.Dead() {
			mc.Fail("in life %d the server does not start", round)
		}
		c := srv.Dial(srv.Port)
		if c == nil {
			mc.Fail("in life %d the server refuses a client", round)
		}
		had := []string{}
		for _, x := range c.Must("LRANGE", "l", "0", "-1").A {
			had = append(had, x.S)
		}
		c.Close()
		mc.Quiesce()
		// all that an earlier life started with, then the start of some order of what its
		// clients pushed, the one in which they were answered
		if len(had) < len(base) || fmt.Sprint(had[:len(base)]) != fmt.Sprint(base) {
			mc.Fail("life %d starts with %.40q, without %.40q, which an earlier one started with", round, had, base)
		}
		next := make([]int, len(before))
		for i, e := range had[len(base):] {
			found := false
			for j, els := range before {
				if !found && next[j] < len(els) && els[next[j]] == e {
					next[j]++
					found = true
				}
			}
			if !found {
				mc.Fail("life %d starts with %.40q: %.40q was not pushed then", round, had, e)
			}
			if x, ok := pos[int64(len(base)+i+1)]; ok && x != e {
				mc.Fail("life %d starts with %.40q: in place of %.40q, %.40q was executed", round, had, e, x)
			}
		}
		base = had
		if clients == nil {
			break
		}
		ops := len(mc.FSOps())
		before, pos = clients, map[int64]string{}
		var ts []*mc.Task
		mc.Calm(false)
		// every step of the server can be its last
		n.KillAfter(p.from + mc.ChooseN(p.steps, 0))
		p.from, p.steps = 1, hl.Pick(14, 30)
		for _, els := range clients {
			els := els
			ts = append(ts, mc.Spawn(func() {
				c := srv.Dial(srv.Port)
				if c == nil {
					return
				}
				if p.pipe {
					var b strings.Builder
					for _, e := range els {
						b.WriteString(srv.Bytes([]string{"RPUSH", "l", e}))
					}
					if c.Send(b.String()) != nil {
						return
					}
				}
				for _, e := range els {
					if !p.pipe && c.Send(srv.Bytes([]string{"RPUSH", "l", e})) != nil {
						return
					}
					v, err := c.Recv()
					if err != nil {
						return
					}
					if v.Kind != ':' {
						mc.Fail("a push replies %v", v)
					}
					if x, ok := pos[v.N]; ok {
						mc.Fail("%q and %q were both the push number %d", x, e, v.N)
					}
					pos[v.N] = e
				}
				c.Close()
			}))
		}
		if p.sync {
			ts = append(ts, mc.Spawn(func() {
				r, err := mc.HDial(srv.ReplicaPort)
				if err != nil {
					return
				}
				for b := make([]byte, 4096); ; {
					if _, err := r.Read(b); err != nil {
						break
					}
				}
				_ = r.Close()
			}))
		}
		for _, t := range ts {
			t.Join()
		}
		mc.Quiesce()
		during := n.Dead() && n.Last() == "write"
		n.Kill()
		mc.Quiesce()
		// a write during which it was killed may have arrived in part
		if l := mc.FSOps()[ops:]; during && len(l) > 0 {
			if o := l[len(l)-1]; o.Op == "write" && o.Path == srv.File {
				cuts := []int{len(o.Data), 0, 1, 5, len(o.Data) / 2, len(o.Data) - 1}
				k := cuts[mc.Choose(len(cuts), 0)]
				b, _ := mc.FSGet(srv.File)
				mc.FSPut(srv.File, b[:len(b)-len(o.Data)+k])
			}
		}
	}
}

func init() {
	L := strings.Repeat("L", 4000)
	for _, x := range []struct {
		name string
		p    killed
		q, t int
	}{
		{"one", killed{lives: [][][]string{{{"a", L, "b"}}}}, 1, 2},
		{"two", killed{lives: [][][]string{{{"a", L + "1"}, {"b", L + "2"}}}}, 1, 2},
		{"piped", killed{lives: [][][]string{{{"a", L + "1", "c"}, {L + "2", "b"}}}, pipe: true}, 1, 2},
		{"again", killed{lives: [][][]string{{{"a", L + "1", "b"}}, {{"c", L + "2"}}, {{"d"}}}}, 0, 1},
		{"sync", killed{lives: [][][]string{{{"a", "b"}}}, sync: true}, 1, 2},
		{"sync-again", killed{lives: [][][]string{{{"a", "b"}}, {{"c"}, {"d"}}}, sync: true}, 0, 1},
	} {
		for from := 1; from < 41; from += 5 {
			p := x.p
			p.from, p.steps = from, 5
			hl.Register("C11", hl.Scn{Name: fmt.Sprintf("kill/%s/%d", x.name, from), Late: from > 25, Body: func() { p.body() }, Quick: x.q, Thorough: x.t, Slow: -1, Cfg: mc.Config{BlockCost: 1}})
		}
	}
}
