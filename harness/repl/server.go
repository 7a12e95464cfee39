package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/lxdlam/vertex/mc"
	"github.com/lxdlam/vertex/pkg/log"
	"github.com/lxdlam/vertex/vharness/hl"
	"github.com/lxdlam/vertex/vharness/srv"
)

// C14 with the whole server: clients execute commands while replicas sync.

type service struct {
	clients  [][]string // elements that each client pushes
	replicas int
	pipe     bool
	stop     bool // while all this runs
	first    []string
}

// elements are what the records of a log push; bad if it holds anything else.
func elements(logs []*log.VertexLog) (els []string, bad string) {
	for i, l := range logs {
		v, err := hl.DecodeOne(string(l.GetRawRequest()))
		if err != nil || v.Kind != '*' || len(v.A) != 3 || !strings.EqualFold(v.A[0].S, "RPUSH") {
			return nil, fmt.Sprintf("record %d holds the request %q", i, l.GetRawRequest())
		}
		els = append(els, v.A[2].S)
	}
	return els, ""
}

func (p service) body() {
	cfg := srv.Conf(srv.File)
	cfg.EnableReplica, cfg.ReplicaPort = true, srv.ReplicaPort
	mc.Calm(true)
	s := srv.Start(cfg)
	if s == nil {
		mc.Fail("the server does not start")
	}
	mc.Quiesce()
	var acked []string
	if len(p.first) > 0 {
		c := srv.Dial(srv.Port)
		for _, e := range p.first {
			c.Must("RPUSH", "l", e)
			acked = append(acked, e)
		}
		c.Close()
		mc.Quiesce()
	}
	mc.Calm(false)
	type sync struct {
		acked   []string
		data    []byte
		refused bool
	}
	syncs := make([]*sync, p.replicas)
	var ts []*mc.Task
	for i := range syncs {
		g := &sync{}
		syncs[i] = g
		ts = append(ts, mc.Spawn(func() {
			g.acked = append([]string(nil), acked...)
			c, err := mc.HDial(srv.ReplicaPort)
			if err != nil {
				g.refused = true
				return
			}
			for b := make([]byte, 1<<14); ; {
				n, err := c.Read(b)
				g.data = append(g.data, b[:n]...)
				if err != nil {
					break
				}
			}
			_ = c.Close()
		}))
	}
	for _, els := range p.clients {
		els := els
		ts = append(ts, mc.Spawn(func() {
			c := srv.Dial(srv.Port)
			if c == nil {
				return
			}
			if p.pipe {
				var b strings.Builder
				for _, e := range els {
					b.WriteString(srv.Bytes([]string{"RPUSH", "l", e}))
				}
				_ = c.Send(b.String())
			}
			for _, e := range els {
				if !p.pipe {
					_ = c.Send(srv.Bytes([]string{"RPUSH", "l", e}))
				}
				v, err := c.Recv()
				if err != nil {
					if !p.stop {
						mc.Fail("no reply: %v", err)
					}
					return
				}
				if v.Kind == ':' {
					acked = append(acked, e)
				}
			}
			c.Close()
		}))
	}
	if p.stop {
		s.S.Stop()
	}
	for _, t := range ts {
		t.Join()
	}
	if !p.stop {
		mc.Quiesce()
		for _, c := range mc.ServerConns() {
			if !c.IsClosed() {
				mc.Fail("after the syncs a connection is still open")
			}
		}
		s.S.Stop()
	}
	s.T.Join()
	mc.Quiesce()
	if mc.Listening(srv.ReplicaPort) {
		mc.Fail("the stopped server still listens for replicas")
	}
	for _, c := range mc.ServerConns() {
		if !c.IsClosed() {
			mc.Fail("after the stop a connection is still open")
		}
	}
	for _, f := range mc.FSOpen() {
		if f != srv.File {
			mc.Fail("after the stop the file %s is still open", f)
		}
	}
	for _, f := range mc.FSList() {
		if f != srv.File {
			mc.Fail("after the stop the file %s is still there", f)
		}
	}
	b, _ := mc.FSGet(srv.File)
	logs, err := log.ParseLog(bytes.NewReader(b))
	if err != nil {
		mc.Fail("the file does not parse: %v", err)
	}
	order, bad := elements(logs)
	if bad != "" {
		mc.Fail("%s", bad)
	}
	for _, g := range syncs {
		if g.refused {
			if !p.stop {
				mc.Fail("a replica is refused")
			}
			continue
		}
		_, complete, bad := stream(g.data)
		if bad != "" {
			mc.Fail("%s", bad)
		}
		if !complete {
			if !p.stop {
				mc.Fail("a replica got only %d bytes", len(g.data))
			}
			continue
		}
		logs, _ := log.ParseLog(bytes.NewReader(g.data[4:]))
		els, bad := elements(logs)
		if bad != "" {
			mc.Fail("a replica: %s", bad)
		}
		if len(els) > len(order) || fmt.Sprint(els) != fmt.Sprint(order[:len(els)]) {
			mc.Fail("a replica got %.200q, no prefix of the log %.200q", els, order)
		}
		for _, a := range g.acked {
			found := false
			for _, x := range els {
				found = found || x == a
			}
			if !found {
				mc.Fail("a replica got %.200q without %.20q, which was acknowledged before it connected", els, a)
			}
		}
	}
}

func init() {
	L := strings.Repeat("L", 4090)
	for _, x := range []struct {
		name string
		p    service
		q, t int
	}{
		{"one", service{clients: [][]string{{"a", "b"}}, replicas: 1}, 2, 3},
		{"idle", service{first: []string{"a", L, "b"}, replicas: 1}, 2, 4},
		{"two", service{first: []string{"a"}, clients: [][]string{{"b"}}, replicas: 2}, 1, 2},
		{"piped", service{clients: [][]string{{"a", L, "b"}, {"c"}}, replicas: 1, pipe: true}, 1, 2},
		{"stop", service{first: []string{"a"}, clients: [][]string{{"b"}}, replicas: 1, stop: true}, 2, 3},
		{"stop-two", service{first: []string{"a", L}, replicas: 2, stop: true}, 1, 3},
	} {
		p := x.p
		hl.Register("C14", hl.Scn{Name: "server/" + x.name, Body: func() { p.body() }, Quick: x.q, Thorough: x.t, Slow: x.q, Race: 2, Cfg: mc.Config{BlockCost: 1}})
	}
}
