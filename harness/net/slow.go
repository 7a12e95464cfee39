package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/lxdlam/vertex/mc"
	"github.com/lxdlam/vertex/vharness/hl"
	"github.com/lxdlam/vertex/vharness/model"
	"github.com/lxdlam/vertex/vharness/srv"
)

// C22 on a disk that is slow: the engine writes the database file between two commands, so
// all requests wait; none may be lost, doubled or overtaken.

// slowDisk runs clients while every write of the file takes d.
func slowDisk(d time.Duration, clients, n, big int, piped bool) {
	mc.FSDelay = func(op, path string, size int) time.Duration { return d }
	s := srv.Start(srv.Conf(srv.File))
	if s == nil {
		mc.Fail("the server does not start")
	}
	var ts []*mc.Task
	for i := 0; i < clients; i++ {
		k := fmt.Sprint("k", i)
		ts = append(ts, mc.Spawn(func() {
			c := srv.Dial(srv.Port)
			if c == nil {
				mc.Fail("refused")
			}
			db := model.New()
			var cmds [][]string
			for j := 0; j < n; j++ {
				cmds = append(cmds, []string{"APPEND", k, fmt.Sprint(j, strings.Repeat("v", big))}, []string{"RPUSH", k, fmt.Sprint(j)}, []string{"STRLEN", k}, []string{"LRANGE", k, "0", "-1"})
			}
			cmds = append(cmds, []string{"GET", k})
			if piped {
				rs, err := c.All(cmds)
				for j, v := range rs {
					if m := db.Exec(cmds[j]...).Check(v); m != "" {
						mc.Fail("request %d %.60q: %.300s", j, cmds[j], m)
					}
				}
				if err != nil {
					mc.Fail("%v", err)
				}
				return
			}
			for j, x := range cmds {
				v, err := c.Cmd(x...)
				if err != nil {
					mc.Fail("request %d %.60q: %v", j, x, err)
				}
				if m := db.Exec(x...).Check(v); m != "" {
					mc.Fail("request %d %.60q: %.300s", j, x, m)
				}
			}
		}))
	}
	for _, t := range ts {
		t.Join()
	}
	mc.Quiesce()
	for _, c := range mc.ServerConns() {
		if b, end := c.Peer().Avail(); len(b) > 0 || end {
			mc.Fail("after the replies %.100q, closed: %v", b, end)
		}
	}
	s.Stop()
}

func init() {
	for i, d := range []time.Duration{9 * time.Millisecond, 11 * time.Millisecond, 150 * time.Millisecond} {
		d := d
		hl.Register("C22", hl.Scn{Name: fmt.Sprint("slow-disk/", i), Body: func() { slowDisk(d, 2, 1, 4100, i == 1) }, Quick: 1, Thorough: 2, Slow: -1, Cfg: mc.Config{BlockCost: 1}})
	}
	all := func(name string, late bool, counts []int, ds []time.Duration, sizes []int) {
		hl.Register("C22", hl.Scn{Name: "slow-disk/" + name, Late: late, Seq: func(c *hl.Seq) {
			for _, clients := range counts {
				for _, d := range ds {
					for _, big := range sizes {
						for _, piped := range []bool{false, true} {
							if c.Late() {
								return
							}
							c.Try(func() string {
								return fmt.Sprintf("%d clients, values of %d bytes, writes of the file take %v, pipelined %v", clients, big, d, piped)
							}, func() string {
								return hl.Under(func() string { slowDisk(d, clients, 3, big, piped); return "" })
							})
							c.Step(1)
							c.States++
						}
					}
				}
			}
		}})
	}
	ms := time.Millisecond
	all("few", false, []int{2, 12}, []time.Duration{5 * ms, 25 * ms, 150 * ms}, []int{4100})
	all("all", true, []int{1, 2, 5, 12}, []time.Duration{ms, 5 * ms, 10 * ms, 25 * ms, 99 * ms, time.Second, 5 * time.Second}, []int{0, 300, 4100})
}

// slowReader: clients that leave a reply lying for a while before they go on reading, one after the other.
func slowReader(sizes []int, room int, pause time.Duration) {
	s := srv.Start(srv.Conf(srv.File))
	if s == nil {
		mc.Fail("the server does not start")
	}
	db := model.New()
	for i := 0; i < 2; i++ {
		c := srv.Dial(srv.Port)
		if c == nil {
			mc.Fail("refused")
		}
		for j, n := range sizes {
			k := fmt.Sprint("k", i)
			for _, x := range [][]string{{"SET", k, strings.Repeat("v", n)}, {"GET", k}, {"RPUSH", k + "l", strings.Repeat("w", n/3), "", "x"}, {"LRANGE", k + "l", "0", "-1"}} {
				peer := c.C.Peer()
				peer.LimitExact(room)
				var b strings.Builder
				fmt.Fprintf(&b, "*%d\r\n", len(x))
				for _, a := range x {
					fmt.Fprintf(&b, "$%d\r\n%s\r\n", len(a), a)
				}
				if err := c.Send(b.String()); err != nil {
					mc.Fail("request %d: %v", j, err)
				}
				mc.Sleep(pause)
				peer.LimitExact(0)
				v, err := c.Recv()
				if err != nil {
					mc.Fail("%.40q, whose reply is read after %v: %v", x, pause, err)
				}
				if m := db.Exec(x...).Check(v); m != "" {
					mc.Fail("%.40q, whose reply is read after %v: %.300s", x, pause, m)
				}
			}
		}
	}
	s.Stop()
}

func init() {
	for i, d := range []time.Duration{time.Second, 20 * time.Second} {
		d := d
		hl.Register("C22", hl.Scn{Name: fmt.Sprint("slow-reader/", i), Body: func() { slowReader([]int{40, 5000}, 20, d) }, Quick: 1, Thorough: 2, Slow: -1, Cfg: mc.Config{BlockCost: 1}})
	}
	hl.Register("C22", hl.Scn{Name: "slow-reader/many", Seq: func(c *hl.Seq) {
		for _, d := range []time.Duration{time.Millisecond, 50 * time.Millisecond, 150 * time.Millisecond, 3 * time.Second, time.Minute, 9 * time.Minute} {
			for _, room := range []int{1, 4, 4096} {
				c.Try(func() string { return fmt.Sprintf("replies read after %v, room for %d bytes", d, room) }, func() string {
					return hl.Under(func() string { slowReader([]int{1, 10, 4096, 9000}, room, d); return "" })
				})
				c.Step(1)
				c.States++
			}
		}
	}})
}
