package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/lxdlam/vertex/mc"
	"github.com/lxdlam/vertex/pkg/log"
	"github.com/lxdlam/vertex/vharness/hl"
	"github.com/lxdlam/vertex/vharness/srv"
)

// C12: the order of the log is the order of execution.

// records are the commands in the database file.
func records() (cmds [][]string, bad string) {
	b, _ := mc.FSGet(srv.File)
	logs, err := log.ParseLog(bytes.NewReader(b))
	if err != nil {
		return nil, fmt.Sprintf("the file does not parse: %v", err)
	}
	for _, l := range logs {
		v, err := hl.DecodeOne(string(l.GetRawRequest()))
		if err != nil || v.Kind != '*' || len(v.A) == 0 {
			return nil, fmt.Sprintf("a record holds the request %q", l.GetRawRequest())
		}
		cmd := []string{l.GetName()}
		for _, a := range l.GetArguments() {
			x, err := hl.DecodeOne(string(a))
			if err != nil {
				return nil, fmt.Sprintf("a record holds the argument %q", a)
			}
			cmd = append(cmd, x.S)
		}
		cmds = append(cmds, cmd)
	}
	return cmds, ""
}

type order struct {
	clients [][]string // elements each client pushes, one command each; "?" is a read
	pipe    bool       // all of a client's requests in one piece
	sync    int        // replicas that sync meanwhile
	hurry   bool       // stop while the clients work
}

func (o order) body() {
	cfg := srv.Conf(srv.File)
	if o.sync > 0 {
		cfg.EnableReplica, cfg.ReplicaPort = true, srv.ReplicaPort
	}
	mc.Calm(true)
	s := srv.Start(cfg)
	if s == nil {
		mc.Fail("the server does not start")
	}
	mc.Quiesce()
	mc.Calm(false)
	pos := map[int64]string{} // executed as the n-th push
	var ts []*mc.Task
	for _, els := range o.clients {
		els := els
		ts = append(ts, mc.Spawn(func() {
			c := srv.Dial(srv.Port)
			if c == nil {
				return // stopped already
			}
			var cmds [][]string
			for _, e := range els {
				if e == "?" {
					cmds = append(cmds, []string{"LLEN", "l"})
				} else {
					cmds = append(cmds, []string{"RPUSH", "l", e})
				}
			}
			var rs []hl.Val
			var err error
			if o.pipe {
				rs, err = c.All(cmds)
			} else {
				for _, x := range cmds {
					var v hl.Val
					if v, err = c.Cmd(x...); err != nil {
						break
					}
					rs = append(rs, v)
				}
			}
			if err != nil && !o.hurry {
				mc.Fail("no reply: %v", err)
			}
			for i, v := range rs {
				if v.Kind != ':' {
					mc.Fail("%q replied %v", cmds[i], v)
				}
				if els[i] == "?" {
					continue
				}
				if x, ok := pos[v.N]; ok {
					mc.Fail("%q and %q were both the push number %d", x, els[i], v.N)
				}
				pos[v.N] = els[i]
			}
		}))
	}
	for i := 0; i < o.sync; i++ {
		ts = append(ts, mc.Spawn(func() {
			r, err := mc.HDial(srv.ReplicaPort)
			if err != nil {
				return
			}
			for b := make([]byte, 4096); ; {
				if _, err := r.Read(b); err != nil {
					break
				}
			}
			_ = r.Close()
		}))
	}
	if o.hurry {
		s.S.Stop()
	}
	for _, t := range ts {
		t.Join()
	}
	if !o.hurry {
		s.S.Stop()
	}
	s.T.Join()
	cmds, bad := records()
	if bad != "" {
		mc.Fail("%s", bad)
	}
	seen := map[string]bool{}
	for i, c := range cmds {
		if len(c) != 3 || !strings.EqualFold(c[0], "RPUSH") || c[1] != "l" || seen[c[2]] {
			mc.Fail("record %d is %q", i, c)
		}
		seen[c[2]] = true
		if e, ok := pos[int64(i+1)]; ok && e != c[2] {
			mc.Fail("record %d is %q, and %q was executed at that position", i, c, e)
		}
	}
	for n, e := range pos {
		if !seen[e] {
			mc.Fail("%q, executed as number %d, is not in the file of %d records", e, n, len(cmds))
		}
	}
	if !o.hurry {
		n := 0
		for _, els := range o.clients {
			for _, e := range els {
				if e != "?" {
					n++
				}
			}
		}
		if len(cmds) != n {
			mc.Fail("%d records of %d executed commands", len(cmds), n)
		}
	}
}

func init() {
	L := strings.Repeat("L", 4000)
	for _, x := range []struct {
		name string
		o    order
		q, t int
	}{
		{"two", order{clients: [][]string{{"a", "b"}, {"c"}}}, 2, 3},
		{"piped", order{clients: [][]string{{"a", "?", "b"}, {"c", "d"}}, pipe: true}, 1, 3},
		{"three", order{clients: [][]string{{"a"}, {"b"}, {"c"}}}, 1, 3},
		{"sync", order{clients: [][]string{{"a", "b"}, {"c"}}, sync: 1}, 1, 3},
		{"syncs", order{clients: [][]string{{"a", "b"}}, sync: 2}, 2, 3},
		{"large", order{clients: [][]string{{"a", L, "b"}, {L + "2"}}, sync: 1, pipe: true}, 1, 3},
		{"stop", order{clients: [][]string{{"a", "b"}, {"c"}}, hurry: true}, 2, 3},
		{"stop-sync", order{clients: [][]string{{"a", "b"}}, hurry: true, sync: 1, pipe: true}, 2, 3},
	} {
		o := x.o
		hl.Register("C12", hl.Scn{Name: "order/" + x.name, Body: func() { o.body() }, Quick: x.q, Thorough: x.t, Slow: x.q, Race: 2, Cfg: mc.Config{BlockCost: 1}})
	}
}
