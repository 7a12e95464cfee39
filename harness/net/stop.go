package main

import (
	"bytes"
	"fmt"
	"net"
	"os"
	"strings"
	"syscall"
	"time"

	"github.com/lxdlam/vertex/mc"
	"github.com/lxdlam/vertex/pkg/common"
	"github.com/lxdlam/vertex/pkg/log"
	"github.com/lxdlam/vertex/vharness/hl"
	"github.com/lxdlam/vertex/vharness/srv"
)

// C23: a stop at any moment.

type splan struct {
	file    bool
	replica bool
	port    int           // replica port if not the usual one (-1: none given, -2: the clients' port)
	taken   bool          // somebody else listens on the replica port
	clients [][]string    // elements that each pushes and waits for; "pipe" first: in one piece
	guests  []string      // "idle" (connects), "half" (half a request), "deaf" (does not read), "gone" (leaves), "sync" (a replica), "syncdeaf" (a replica that does not read)
	stops   []string      // "call", "int", "term", "abrt"
	calm    bool          // the stops come when everything else is done
	early   bool          // the stop comes before serving begins
	setup   []string      // elements pushed before
	errs    int           // errors of accept
	disk    time.Duration // how long a write of the file takes
	after   time.Duration // when the stops come
}

func (p splan) body() {
	cfg := common.Config{Port: srv.Port}
	if p.file {
		cfg.DatabaseFile = srv.File
	}
	rport := srv.ReplicaPort
	if p.replica {
		cfg.EnableReplica, cfg.ReplicaPort = true, srv.ReplicaPort
		if p.port == -1 {
			cfg.ReplicaPort = 0
			rport = srv.Port + 1
		} else if p.port == -2 {
			cfg.ReplicaPort = srv.Port
			rport = srv.Port + 1
		}
	}
	ports := []int{srv.Port, rport}
	var other net.Listener
	if p.taken {
		var err error
		if other, err = mc.ListenTCP("tcp", &net.TCPAddr{Port: rport}); err != nil {
			mc.Fail("%v", err)
		}
		ports = ports[:1]
	}
	s := srv.New(cfg)
	if s == nil {
		mc.Fail("the server does not start")
	}
	if p.replica && !mc.Listening(rport) {
		mc.Fail("nobody listens for replicas on port %d", rport)
	}
	type ack struct {
		pos int64
		el  string
	}
	var acks []ack
	var ts []*mc.Task
	if p.disk > 0 {
		mc.FSDelay = func(op, path string, size int) time.Duration { return p.disk }
	}
	stop := func(how string) {
		mc.Sleep(p.after)
		switch how {
		case "call":
			s.S.Stop()
		case "int":
			mc.Signal(os.Interrupt)
		case "term":
			mc.Signal(syscall.SIGTERM)
		case "abrt":
			mc.Signal(syscall.SIGABRT)
		}
	}
	if p.early {
		for _, how := range p.stops {
			stop(how)
		}
		mc.Quiesce()
	}
	served := false
	atEnd := func() {
		// the moment at which serving has returned
		served = true
		for _, port := range ports {
			if mc.Listening(port) {
				mc.Fail("serving has returned and port %d still accepts", port)
			}
		}
		if !p.file {
			return
		}
		b, _ := mc.FSGet(srv.File)
		logs, err := log.ParseLog(bytes.NewReader(b))
		if err != nil {
			mc.Fail("serving has returned and the file does not parse: %v", err)
		}
		have := map[string]bool{}
		for _, l := range logs {
			for _, a := range l.GetArguments()[1:] {
				v, _ := hl.DecodeOne(string(a))
				have[v.S] = true
			}
		}
		for _, a := range acks {
			if !have[a.el] {
				mc.Fail("serving has returned and the acknowledged push of %.20q is not in the file of %d records", a.el, len(logs))
			}
		}
	}
	s.Serve(atEnd)
	if len(p.setup) > 0 {
		mc.Calm(true)
		c := srv.Dial(srv.Port)
		for _, e := range p.setup {
			v := c.Must("RPUSH", "l", e)
			acks = append(acks, ack{v.N, e})
		}
		c.Close()
		mc.Quiesce()
		mc.Calm(false)
	}
	for i := 0; i < p.errs; i++ {
		mc.InjectAcceptError(srv.Port, errAccept)
	}
	for _, els := range p.clients {
		els := els
		ts = append(ts, mc.Spawn(func() {
			c := srv.Dial(srv.Port)
			if c == nil {
				return
			}
			if els[0] == "pipe" {
				var b strings.Builder
				for _, e := range els[1:] {
					b.WriteString(hl.Cmd("RPUSH", "l", e).Encode())
				}
				_ = c.Send(b.String())
				for _, e := range els[1:] {
					v, err := c.Recv()
					if err != nil {
						if err != srv.ErrClosed {
							mc.Fail("%v", err)
						}
						return
					}
					acks = append(acks, ack{v.N, e})
				}
			} else {
				for _, e := range els {
					v, err := c.Cmd("RPUSH", "l", e)
					if err != nil {
						if err != srv.ErrClosed {
							mc.Fail("%v", err)
						}
						return
					}
					if v.Kind != ':' {
						return
					}
					acks = append(acks, ack{v.N, e})
				}
			}
			if !p.calm {
				// until it is disconnected
				if v, err := c.Recv(); err == nil {
					mc.Fail("a reply to nothing: %v", v)
				}
			}
		}))
	}
	for _, g := range p.guests {
		g := g
		ts = append(ts, mc.Spawn(func() {
			port := srv.Port
			if strings.HasPrefix(g, "sync") {
				port = rport
			}
			c, err := mc.HDial(port)
			if err != nil {
				return
			}
			switch g {
			case "half":
				_, _ = c.Write([]byte("*2\r\n$3\r\nGE"))
			case "deaf":
				c.Peer().LimitOut(2)
				_, _ = c.Write([]byte(strings.Repeat(hl.Cmd("GET", "none").Encode(), 5)))
			case "syncdeaf":
				c.Peer().LimitOut(2)
			case "gone":
				_, _ = c.Write([]byte(hl.Cmd("GET", "none").Encode()))
				_ = c.Close()
			case "sync":
				for b := make([]byte, 4096); ; {
					if _, err := c.Read(b); err != nil {
						break
					}
				}
				_ = c.Close()
			}
		}))
	}
	if p.calm {
		for _, t := range ts {
			t.Join()
		}
		ts = nil
		mc.Calm(true)
		mc.Quiesce()
		mc.Calm(false)
	}
	if !p.early {
		for _, how := range p.stops {
			how := how
			ts = append(ts, mc.Spawn(func() {
				stop(how)
				if how == "call" {
					// the call returns when the server has stopped
					for _, port := range ports {
						if mc.Listening(port) {
							mc.Fail("the stop has returned and port %d still accepts", port)
						}
					}
				}
			}))
		}
	}
	for _, t := range ts {
		t.Join()
	}
	s.T.Join()
	if !served {
		mc.Fail("serving has not returned")
	}
	mc.Calm(true)
	mc.Quiesce()
	mc.RunFor(1e9) // clients that do not read are given a moment
	for _, c := range mc.ServerConns() {
		if !c.IsClosed() {
			mc.Fail("a client is still connected after the stop")
		}
	}
	if other != nil {
		if !mc.Listening(rport) {
			mc.Fail("the stop has closed a port of somebody else")
		}
		_ = other.Close()
	}
	if l := mc.OpenPorts(); len(l) != 0 {
		mc.Fail("after the stop the ports %v accept", l)
	}
	for _, how := range []string{"call", "int", "call"} {
		stop(how)
	}
	mc.Quiesce()
	// the same again in this process
	n := srv.Start(cfg)
	if n == nil {
		mc.Fail("the server does not start again after the stop")
	}
	c := srv.Dial(srv.Port)
	if c == nil {
		mc.Fail("the restarted server refuses a client")
	}
	mc.FSDelay = nil
	v := c.Must("LRANGE", "l", "0", "-1")
	if p.file {
		have := map[string]bool{}
		for _, x := range v.A {
			have[x.S] = true
		}
		for _, a := range acks {
			if !have[a.el] {
				mc.Fail("the acknowledged push of %.20q is lost after a restart", a.el)
			}
		}
	}
	n.Stop()
}

var errAccept = fmt.Errorf("accept: too many open files")

func init() {
	L := strings.Repeat("L", 4090)
	both := splan{file: true, replica: true}
	with := func(p splan, f func(*splan)) splan { f(&p); return p }
	for _, x := range []struct {
		name string
		p    splan
		q, t int
	}{
		{"bare", splan{stops: []string{"call"}}, 3, 4},
		{"bare-int", splan{stops: []string{"int"}}, 3, 4},
		{"bare-term", splan{stops: []string{"term"}}, 3, 4},
		{"bare-abrt", splan{stops: []string{"abrt"}}, 3, 4},
		{"replica-nofile", splan{replica: true, stops: []string{"call"}, guests: []string{"sync"}}, 3, 3},
		{"replica-port", splan{replica: true, port: -1, file: true, stops: []string{"call"}, guests: []string{"sync"}}, 2, 3},
		{"replica-same-port", splan{replica: true, port: -2, file: true, stops: []string{"call"}, clients: [][]string{{"a"}}, guests: []string{"sync"}}, 2, 3},
		{"replica-port-taken", splan{replica: true, taken: true, file: true, stops: []string{"call", "term"}, clients: [][]string{{"a"}}}, 2, 3},
		{"replica-port-taken-early", splan{replica: true, taken: true, file: true, stops: []string{"call"}, early: true}, 3, 4},
		{"twice", splan{file: true, replica: true, stops: []string{"call", "call"}}, 3, 3},
		{"signals", splan{file: true, stops: []string{"int", "int", "term"}}, 3, 3},
		{"mixed", splan{file: true, stops: []string{"call", "int", "call"}}, 3, 3},
		{"early", splan{file: true, replica: true, stops: []string{"call"}, early: true}, 3, 4},
		{"early-signal", splan{file: true, stops: []string{"term"}, early: true}, 3, 4},
		{"write", splan{file: true, clients: [][]string{{"a", "b"}}, stops: []string{"call"}}, 3, 3},
		{"write-signal", splan{file: true, clients: [][]string{{"a"}}, stops: []string{"int"}}, 2, 3},
		{"write-nofile", splan{clients: [][]string{{"a"}}, stops: []string{"call"}}, 3, 3},
		{"pipe", splan{file: true, clients: [][]string{{"pipe", "a", L, "b"}}, stops: []string{"call"}}, 2, 3},
		{"writers", splan{file: true, clients: [][]string{{"a"}, {"b"}}, stops: []string{"call"}}, 2, 3},
		{"done", splan{file: true, clients: [][]string{{"a", "b"}}, stops: []string{"call"}, calm: true}, 2, 3},
		{"done-signal", splan{file: true, clients: [][]string{{"a", L}}, stops: []string{"term", "call"}, calm: true}, 1, 2},
		{"idle", splan{guests: []string{"idle"}, stops: []string{"call"}}, 3, 4},
		{"half", splan{guests: []string{"half", "idle"}, stops: []string{"call"}}, 2, 3},
		{"deaf", splan{guests: []string{"deaf"}, stops: []string{"call"}}, 3, 3},
		{"deaf-write", splan{file: true, guests: []string{"deaf"}, clients: [][]string{{"a"}}, stops: []string{"int"}}, 1, 2},
		{"gone", splan{guests: []string{"gone"}, stops: []string{"call"}}, 3, 3},
		{"sync", with(both, func(p *splan) {
			p.setup, p.guests, p.stops = []string{"a"}, []string{"sync"}, []string{"call"}
		}), 3, 3},
		{"sync-write", with(both, func(p *splan) {
			p.clients, p.guests, p.stops = [][]string{{"a"}}, []string{"sync"}, []string{"call"}
		}), 2, 2},
		{"sync-deaf", with(both, func(p *splan) {
			p.setup, p.guests, p.stops = []string{"a"}, []string{"syncdeaf"}, []string{"call"}
		}), 3, 3},
		{"sync-deaf-calm", with(both, func(p *splan) {
			p.setup, p.guests, p.stops, p.calm = []string{"a"}, []string{"syncdeaf", "deaf", "half"}, []string{"int"}, true
		}), 2, 2},
		{"accept", splan{guests: []string{"idle"}, errs: 2, stops: []string{"call"}}, 3, 3},
		{"all", with(both, func(p *splan) {
			p.clients, p.guests, p.stops = [][]string{{"a"}}, []string{"sync", "gone", "half"}, []string{"int", "call"}
		}), 1, 2},
	} {
		p := x.p
		hl.Register("C23", hl.Scn{Name: "stop/" + x.name, Body: func() { p.body() }, Quick: x.q, Thorough: x.t, Race: 2, Cfg: mc.Config{BlockCost: 1}})
	}
	// every amount of records around the size of a buffer
	for _, size := range []int{2048, 4096, 8192} {
		size := size
		hl.Register("C23", hl.Scn{Name: fmt.Sprint("stop/buffered/", size), Seq: func(c *hl.Seq) {
			for n := size - 180; n <= size+4; n++ {
				el := strings.Repeat("e", n)
				for _, els := range [][]string{{el}, {"a", el}, {"a", el[:n/2], el[n/2:]}} {
					for _, replica := range []bool{false, true} {
						if c.Late() {
							return
						}
						p := splan{file: true, replica: replica, clients: [][]string{els}, stops: []string{"call"}, calm: true}
						c.Try(func() string { return fmt.Sprintf("elements of %d bytes in %d commands", n, len(els)) }, func() string {
							return hl.Under(func() string { p.body(); return "" })
						})
						c.Step(len(els))
						c.States++
					}
				}
			}
		}})
	}
	// a disk that is slow
	l := func(i int) string { return fmt.Sprint(i, strings.Repeat("L", 4090)) }
	for i, d := range []time.Duration{4 * time.Millisecond, 90 * time.Millisecond, 1200 * time.Millisecond} {
		p := splan{file: true, replica: true, disk: d, after: d + d/2, clients: [][]string{{"pipe", l(0), "a", l(1), "b"}, {l(2), "c"}}, guests: []string{"sync"}, stops: []string{"call", "int"}}
		hl.Register("C23", hl.Scn{Name: fmt.Sprint("stop/slow-disk/", i), Body: func() { p.body() }, Quick: 1, Thorough: 2, Slow: 1, Late: i == 2, Cfg: mc.Config{BlockCost: 1}})
	}
	hl.Register("C23", hl.Scn{Name: "stop/slow-disk/moments", Seq: func(c *hl.Seq) {
		for _, d := range []time.Duration{time.Millisecond, 9 * time.Millisecond, 10 * time.Millisecond, 11 * time.Millisecond, 50 * time.Millisecond, 300 * time.Millisecond} {
			for k := 0; k <= 16; k++ {
				for _, replica := range []bool{false, true} {
					for _, how := range []string{"call", "term"} {
						if c.Late() {
							return
						}
						p := splan{file: true, replica: replica, disk: d, after: d * time.Duration(k) / 2, clients: [][]string{{"pipe", l(0), "a", l(1), "b", "c", l(3)}, {l(2), "c", l(4)}}, stops: []string{how}}
						if replica {
							p.guests = []string{"sync", "half"}
						}
						c.Try(func() string { return fmt.Sprintf("writes of the file take %v, %s after %v", d, how, p.after) }, func() string {
							return hl.Under(func() string { p.body(); return "" })
						})
						c.Step(1)
						c.States++
					}
				}
			}
		}
	}})
}
