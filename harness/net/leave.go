package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/lxdlam/vertex/mc"
	"github.com/lxdlam/vertex/pkg/common"
	"github.com/lxdlam/vertex/vharness/hl"
	"github.com/lxdlam/vertex/vharness/srv"
)

// C25: clients and replicas that have left leave nothing behind.

// guests are the ways to come and leave.
var guests = map[string]func(port int){
	"close":   func(port int) { dialed(port, func(c *srv.Client) { c.Close() }) },
	"reset":   func(port int) { dialed(port, func(c *srv.Client) { c.C.Reset() }) },
	"half":    func(port int) { dialed(port, func(c *srv.Client) { _ = c.C.CloseWrite(); soon(c); c.Close() }) },
	"command": func(port int) { dialed(port, func(c *srv.Client) { c.Must("GET", "none"); c.Close() }) },
	"write":   func(port int) { dialed(port, func(c *srv.Client) { c.Must("SET", "k", "v"); c.Close() }) },
	"unread": func(port int) {
		dialed(port, func(c *srv.Client) { _ = c.Send(strings.Repeat(hl.Cmd("GET", "none").Encode(), 3)); c.Close() })
	},
	"unread-reset": func(port int) {
		dialed(port, func(c *srv.Client) {
			_ = c.Send(strings.Repeat(hl.Cmd("GET", "none").Encode(), 3))
			c.C.Reset()
		})
	},
	"piped-half": func(port int) {
		dialed(port, func(c *srv.Client) {
			_ = c.Send(strings.Repeat(hl.Cmd("GET", "none").Encode(), 3))
			_ = c.C.CloseWrite()
			soon(c)
			c.Close()
		})
	},
	"part":       func(port int) { dialed(port, func(c *srv.Client) { _ = c.Send("*2\r\n$3\r\nGE"); c.Close() }) },
	"part-reset": func(port int) { dialed(port, func(c *srv.Client) { _ = c.Send("*2\r\n$3\r\nGE"); c.C.Reset() }) },
	"broken": func(port int) {
		dialed(port, func(c *srv.Client) { _ = c.Send("*1\r\n?\r\n"); soon(c); c.Close() })
	},
	"broken-left": func(port int) { dialed(port, func(c *srv.Client) { _ = c.Send("*1\r\n?\r\n"); c.Close() }) },
	"broken-gone": func(port int) { dialed(port, func(c *srv.Client) { _ = c.Send("*1\r\n?\r\n"); c.C.Reset() }) },
	"broken-late": func(port int) {
		dialed(port, func(c *srv.Client) {
			_ = c.Send(hl.Cmd("GET", "none").Encode() + "garbage\r\n" + hl.Cmd("GET", "none").Encode())
			soon(c)
			c.Close()
		})
	},
	"expired": func(port int) {
		dialed(port, func(c *srv.Client) {
			c.Must("GET", "none")
			rest(c) // the server closes it
			c.Close()
		})
	},
}

// late guests are for combinations: one reads no reply and so delays the others' ones until it
// expires, when others may have expired too.
func init() {
	guests["deaf"] = func(port int) {
		dialed(port, func(c *srv.Client) {
			mc.Sleep(time.Second)
			c.C.Peer().LimitOut(2)
			_ = c.Send(strings.Repeat(hl.Cmd("GET", "none").Encode(), 5))
			mc.Sleep(12 * time.Minute)
			c.Close()
		})
	}
	slow := func(text string) func(port int) {
		return func(port int) {
			dialed(port, func(c *srv.Client) {
				mc.Sleep(2 * time.Second)
				_ = c.Send(text)
				rest(c)
				c.Close()
			})
		}
	}
	// replicas
	replica := func(f func(c *mc.Conn)) func(int) {
		return func(int) {
			c, err := mc.HDial(srv.ReplicaPort)
			if err != nil {
				mc.Fail("a replica is refused: %v", err)
			}
			f(c)
			_ = c.Close()
		}
	}
	drain := func(c *mc.Conn) {
		for b := make([]byte, 4096); ; {
			if _, err := c.Read(b); err != nil {
				return
			}
		}
	}
	guests["replica"] = replica(drain)
	guests["replica-close"] = replica(func(*mc.Conn) {})
	guests["replica-reset"] = replica(func(c *mc.Conn) { c.Reset() })
	guests["replica-half"] = replica(func(c *mc.Conn) { _ = c.CloseWrite(); drain(c) })
	guests["replica-part"] = replica(func(c *mc.Conn) { _, _ = c.Read(make([]byte, 2)) })
	guests["replica-part-reset"] = replica(func(c *mc.Conn) { _, _ = c.Read(make([]byte, 5)); c.Reset() })
	guests["replica-deaf"] = replica(func(c *mc.Conn) { c.Peer().LimitOut(2); mc.Sleep(time.Minute) })
	guests["replica-talks"] = replica(func(c *mc.Conn) { _, _ = c.Write([]byte(hl.Cmd("GET", "none").Encode())); drain(c) })
	guests["broken-slow"] = slow("*1\r\n?\r\n")
	guests["command-slow"] = slow(hl.Cmd("GET", "none").Encode())
	guests["pipe-broken-slow"] = slow(hl.Cmd("GET", "none").Encode() + "?\r\n")
}

var guestNames = []string{"close", "reset", "half", "command", "write", "unread", "unread-reset", "piped-half", "part", "part-reset", "broken", "broken-left", "broken-gone", "broken-late", "expired"}

var replicaNames = []string{"replica", "replica-close", "replica-reset", "replica-half", "replica-part", "replica-part-reset", "replica-deaf", "replica-talks"}

func dialed(port int, f func(c *srv.Client)) {
	if c := srv.Dial(port); c != nil {
		f(c)
	} else {
		mc.Fail("a client is refused")
	}
}

// rest reads until the server has closed.
func rest(c *srv.Client) {
	for b := make([]byte, 4096); ; {
		if _, err := c.C.Read(b); err != nil {
			return
		}
	}
}

// soon reads until the server has closed, which it does without waiting for the idle limit.
func soon(c *srv.Client) {
	t := mc.Elapsed()
	rest(c)
	if d := mc.Elapsed() - t; d > time.Minute {
		mc.Fail("the connection of a client whose stream is over is closed only after %v", d)
	}
}

type usage struct {
	size, live, open, files int
	soon                    int // goroutines after a minute
}

func use(s *srv.Srv) (u usage) {
	mc.Quiesce()
	mc.RunFor(time.Minute)
	u.soon = mc.NumLive()
	mc.RunFor(10 * time.Minute)
	mc.Quiesce()
	u.size, u.live = hl.Size(s.S), mc.NumLive()
	for _, c := range mc.ServerConns() {
		if !c.IsClosed() {
			u.open++
		}
	}
	u.files = len(mc.FSOpen()) + len(mc.FSList())
	return
}

// leaving: the same clients come and go twice; after the second time nothing is left that was
// not there after the first.
func leaving(kinds []string, file bool) {
	cfg := srv.Conf("")
	if file {
		cfg = srv.Conf(srv.File)
	}
	for _, k := range kinds {
		if strings.HasPrefix(k, "replica") {
			cfg.EnableReplica, cfg.ReplicaPort = true, srv.ReplicaPort
		}
	}
	mc.Calm(true)
	s := srv.Start(cfg)
	if s == nil {
		mc.Fail("the server does not start")
	}
	mc.Quiesce()
	round := func() {
		var ts []*mc.Task
		for _, k := range kinds {
			k := k
			ts = append(ts, mc.Spawn(func() { guests[k](srv.Port) }))
		}
		for _, t := range ts {
			t.Join()
		}
	}
	// whatever the commands themselves leave is there from the start
	guests["command"](srv.Port)
	guests["write"](srv.Port)
	guests["broken"](srv.Port)
	idle := use(s)
	round()
	first := use(s)
	mc.Calm(false)
	round()
	mc.Calm(true)
	second := use(s)
	if first.open != 0 || second.open != 0 {
		mc.Fail("%d connections of clients that have left are still open", second.open)
	}
	if first.live > idle.live || second.live > idle.live {
		mc.Fail("%d goroutines run without a client, %d after clients have left: %s", idle.live, second.live, mc.Blocked())
	}
	if first.soon > idle.live || second.soon > idle.live {
		mc.Fail("%d goroutines run without a client, %d a minute after clients have left, %d after the second time", idle.live, first.soon, second.soon)
	}
	if first.files > idle.files || second.files > idle.files {
		mc.Fail("files are left of replicas that have left: %v, open %v", mc.FSList(), mc.FSOpen())
	}
	if second.size > first.size {
		mc.Fail("the server keeps something of clients that have left: what it holds grew from %d to %d, then %d", idle.size, first.size, second.size)
	}
	c := srv.Dial(srv.Port)
	if c == nil {
		mc.Fail("the server refuses a client afterwards")
	}
	c.Must("SET", "k", "v")
	if v := c.Must("GET", "k"); v.S != "v" {
		mc.Fail("afterwards GET replies %v", v)
	}
	c.Close()
	s.Stop()
}

func init() {
	hl.QuickSecs["C25"] = 45
	add := func(kinds []string, file bool, sc hl.Scn) {
		sc.Name, sc.Body, sc.Cfg = fmt.Sprintf("leaving/%s/%v", strings.Join(kinds, "+"), file), func() { leaving(kinds, file) }, mc.Config{BlockCost: 1}
		hl.Register("C25", sc)
	}
	for i, a := range guestNames {
		add([]string{a}, i%2 == 0, hl.Scn{Quick: 2, Thorough: 3, Race: 2, Slow: 1})
	}
	for _, a := range replicaNames {
		add([]string{a}, true, hl.Scn{Quick: 2, Thorough: 3, Race: 2, Slow: 1})
	}
	add([]string{"replica"}, false, hl.Scn{Quick: 2, Thorough: 3, Race: 2, Slow: 1})
	add([]string{"replica", "replica-reset", "write"}, true, hl.Scn{Quick: 1, Thorough: 2, Race: 1, Slow: -1})
	add([]string{"replica-deaf", "replica-half", "broken"}, true, hl.Scn{Quick: 1, Thorough: 2, Race: 1, Slow: -1})
	for _, l := range [][]string{{"deaf"}, {"deaf", "broken-slow"}, {"deaf", "command-slow"}, {"deaf", "pipe-broken-slow", "broken-slow"}} {
		add(l, false, hl.Scn{Quick: 1, Thorough: 2, Race: 1, Slow: -1})
	}
	add([]string{"close", "broken", "unread", "half"}, true, hl.Scn{Quick: 1, Thorough: 2, Race: 1, Slow: -1})
	add([]string{"broken-left", "broken-gone", "broken"}, true, hl.Scn{Quick: 1, Thorough: 2, Race: 1, Slow: -1})
	for i, a := range guestNames {
		for _, b := range guestNames[i:] {
			add([]string{a, b}, false, hl.Scn{Late: true, Thorough: 2, Race: 1, Slow: 1})
		}
	}
	for i, a := range replicaNames {
		for _, b := range append(replicaNames[i:len(replicaNames):len(replicaNames)], "close", "write", "broken", "expired") {
			add([]string{a, b}, true, hl.Scn{Late: true, Thorough: 2, Race: 1, Slow: 1})
		}
	}
	// many one after the other
	many := func(name string, as, bs []string, cfg common.Config) {
		hl.Register("C25", hl.Scn{Name: name, Seq: func(c *hl.Seq) {
			for _, a := range as {
				for _, b := range bs {
					a, b := a, b
					if c.Late() {
						return
					}
					c.Try(func() string {
						return fmt.Sprintf("100 that leave by %s and %s in turn", a, b)
					}, func() string {
						return hl.Under(func() string {
							s := srv.Start(cfg)
							if s == nil {
								return "the server does not start"
							}
							guests["command"](srv.Port)
							guests["write"](srv.Port)
							guests["broken"](srv.Port)
							guests[a](srv.Port)
							guests[b](srv.Port)
							u := use(s)
							for n := 0; n < 50; n++ {
								guests[a](srv.Port)
								guests[b](srv.Port)
							}
							v := use(s)
							if v.open > 0 || v.live > u.live || v.soon > u.live || v.size > u.size || v.files > u.files {
								return fmt.Sprintf("connections, goroutines, files and memory grew from %v to %v", u, v)
							}
							s.Stop()
							return ""
						})
					})
					c.Step(102)
					c.States++
				}
			}
		}})
	}
	many("leaving/many", guestNames, guestNames, srv.Conf(""))
	rcfg := srv.Conf(srv.File)
	rcfg.EnableReplica, rcfg.ReplicaPort = true, srv.ReplicaPort
	many("leaving/many-replicas", replicaNames, append([]string{"command", "reset", "broken"}, replicaNames...), rcfg)
}
