package main

import (
	"fmt"
	"time"

	"github.com/lxdlam/vertex/mc"
	"github.com/lxdlam/vertex/pkg/concurrency"
	"github.com/lxdlam/vertex/vharness/hl"
)

// C16: data channels.

type dcConf struct {
	size    int // 0: NewDataChannel
	expire  time.Duration
	senders []int // events per sender
	recv    int   // number of receives of the receiver; -1: until closed; 0: none
	recvs   int   // number of receiver goroutines (default 1 if recv != 0)
	closers int   // concurrent closers (each closes twice)
	after   bool  // closed by the last sender when done
}

func (c dcConf) String() string {
	return fmt.Sprintf("size=%d/expire=%v/senders=%v/recv=%dx%d/closers=%d/after=%v", c.size, c.expire, c.senders, c.recv, c.recvs, c.closers, c.after)
}

func dcScenario(c dcConf) func() {
	return func() {
		var r concurrency.Receiver
		var s concurrency.Sender
		expire := c.expire
		if c.size == 0 && c.expire == concurrency.DefaultExpireTime {
			r, s = concurrency.NewDataChannel()
		} else {
			r, s = concurrency.NewDataChannelWithOption(c.size, c.expire)
		}
		type sent struct{ ev, status int }
		results := make([][]sent, len(c.senders))
		nr := c.recvs
		if nr == 0 && c.recv != 0 {
			nr = 1
		}
		got := make([][]int, nr)
		closedBefore := make([]bool, nr) // the receiver saw the closed error
		closeDone := false
		var ts []*mc.Task
		left := len(c.senders)
		for i, n := range c.senders {
			i, n := i, n
			ts = append(ts, mc.Spawn(func() {
				for k := 0; k < n; k++ {
					ev := i*100 + k
					t0 := mc.Elapsed()
					st := s.Send(concurrency.NewEvent("t", ev, nil))
					if st == concurrency.Expired && mc.Elapsed()-t0 < expire {
						mc.Fail("expired after %v, the limit is %v", mc.Elapsed()-t0, expire)
					}
					if st != concurrency.Success && st != concurrency.Closed && st != concurrency.Expired {
						mc.Fail("unknown status %d", st)
					}
					results[i] = append(results[i], sent{ev, st})
					if st == concurrency.Closed {
						if st2 := s.Send(concurrency.NewEvent("t", -1, nil)); st2 != concurrency.Closed {
							mc.Fail("a send after one that reported closed gave %d", st2)
						}
					}
				}
				left--
				if c.after && left == 0 {
					r.Close()
				}
			}))
		}
		recvOne := func(i int) bool {
			e, err := r.Receive()
			if err != nil {
				if err != concurrency.ErrChannelClosed {
					mc.Fail("Receive returned %v", err)
				}
				if e != nil {
					mc.Fail("Receive returned an event together with the closed error")
				}
				closedBefore[i] = true
				return false
			}
			if e == nil {
				mc.Fail("Receive returned neither event nor error")
			}
			if e.Topic() != "t" || e.Error() != nil {
				mc.Fail("the event was altered")
			}
			got[i] = append(got[i], e.Data().(int))
			return true
		}
		for i := 0; i < nr; i++ {
			i := i
			ts = append(ts, mc.Spawn(func() {
				for k := 0; c.recv < 0 || k < c.recv; k++ {
					if !recvOne(i) {
						if _, err := r.Receive(); err != concurrency.ErrChannelClosed {
							mc.Fail("Receive after the closed error gave %v", err)
						}
						return
					}
				}
			}))
		}
		var cs []*mc.Task
		for i := 0; i < c.closers; i++ {
			cs = append(cs, mc.Spawn(func() {
				r.Close()
				if _, err := r.Receive(); err != concurrency.ErrChannelClosed {
					mc.Fail("Receive after Close gave %v", err)
				}
				if c.closers == 1 {
					// (with several closers only the first one's return means that closing has completed)
					if st := s.Send(concurrency.NewEvent("t", -2, nil)); st != concurrency.Closed {
						mc.Fail("Send after Close gave %d", st)
					}
				}
				r.Close()
			}))
		}
		for _, t := range ts[:len(c.senders)] {
			t.Join()
		}
		if c.closers == 0 && !c.after {
			all := true // a receiver may wait in vain for an event whose sender gave up
			for _, rs := range results {
				for _, x := range rs {
					all = all && x.status == concurrency.Success
				}
			}
			if c.recv < 0 || !all {
				mc.Quiesce() // the receiver has had its chance
			} else {
				for _, t := range ts {
					t.Join()
				}
			}
		}
		for _, t := range cs {
			t.Join()
		}
		closeDone = c.closers > 0 || c.after
		// without a close everything sent successfully is either received or pending
		ok := map[int]bool{}
		nOK := 0
		for _, rs := range results {
			for _, x := range rs {
				if x.status == concurrency.Success {
					ok[x.ev] = true
					nOK++
				}
				if x.status == concurrency.Closed && !closeDone {
					mc.Fail("a send reported closed although nobody closed")
				}
			}
		}
		if !closeDone {
			n := 0
			for i := range got {
				n += len(got[i])
				if closedBefore[i] {
					mc.Fail("a receive reported closed although nobody closed")
				}
			}
			if pend := nOK - n; pend < 0 || (c.size >= 0 && pend > c.size) || (c.recv < 0 && pend != 0) {
				mc.Fail("%d successful sends, %d received, buffer size %d", nOK, n, c.size)
			}
			if c.recv == 0 && c.size > 0 {
				// the pending events are still delivered, in order
				got = append(got, nil)
				closedBefore = append(closedBefore, false)
				for i := 0; i < nOK; i++ {
					recvOne(0 + len(got) - 1)
				}
			}
		}
		r.Close()
		if _, err := r.Receive(); err != concurrency.ErrChannelClosed {
			mc.Fail("Receive after Close gave %v", err)
		}
		if st := s.Send(concurrency.NewEvent("t", -3, nil)); st != concurrency.Closed {
			mc.Fail("Send after Close gave %d", st)
		}
		for _, t := range ts {
			t.Join()
		}
		seen := map[int]bool{}
		for i := range got {
			last := map[int]int{}
			for _, ev := range got[i] {
				if ev < 0 {
					mc.Fail("an event that was refused as closed was received")
				}
				if seen[ev] {
					mc.Fail("event %d was received twice", ev)
				}
				seen[ev] = true
				if l, k := last[ev/100]; k && l > ev {
					mc.Fail("events of one sender were received out of order: %v", got[i])
				}
				last[ev/100] = ev
				if !ok[ev] {
					mc.Fail("event %d was received but its send did not report success", ev)
				}
			}
		}
		if c.size == 0 && len(seen) != nOK {
			mc.Fail("%d sends reported success, %d events were received", nOK, len(seen))
		}
	}
}

func init() {
	ms := time.Millisecond
	var cs []dcConf
	for _, size := range []int{0, 1, 2} {
		for _, exp := range []time.Duration{10 * ms, 0} {
			for _, recv := range []int{-1, 0, 1} {
				for _, closers := range []int{0, 1, 2} {
					for _, after := range []bool{false, true} {
						for _, snd := range [][]int{{1}, {3}, {1, 1}, {2, 1}} {
							if after && closers > 0 {
								continue
							}
							if recv == 1 && !after && closers == 0 && exp == 0 {
								continue // the receive may wait for ever: nothing closes
							}
							if recv == 1 && !after && closers == 0 && size == 0 {
								continue
							}
							if exp == 0 && (len(snd) > 1 || closers > 1) {
								continue
							}
							if closers == 2 && (recv == 0 || len(snd) > 1) {
								continue
							}
							cs = append(cs, dcConf{size: size, expire: exp, recv: recv, closers: closers, after: after, senders: snd})
						}
					}
				}
			}
		}
	}
	cs = append(cs, dcConf{size: 0, expire: 10 * ms, recv: -1, recvs: 2, senders: []int{2, 1}, after: true},
		dcConf{size: 1, expire: 10 * ms, recv: -1, recvs: 2, senders: []int{2}, closers: 1},
		dcConf{size: 0, expire: 10 * ms, recv: -1, recvs: 2, senders: []int{1}, closers: 1},
		dcConf{size: 0, expire: 10 * ms, recv: -1, recvs: 2, closers: 1},
		dcConf{size: 3, expire: 1 * ms, recv: 0, senders: []int{5}},
		dcConf{size: 3, expire: 1 * ms, recv: -1, senders: []int{5}},
		dcConf{size: -1, expire: 1 * ms, recv: -1, senders: []int{2}},
		dcConf{size: 100, expire: 10 * ms, recv: -1, senders: []int{3}, closers: 1},
		dcConf{size: 2, expire: 10 * ms, recv: -1, senders: []int{1, 1, 1}, after: true})
	seen := map[string]bool{}
	for _, c := range cs {
		if seen[c.String()] {
			continue
		}
		seen[c.String()] = true
		n := len(c.senders) + c.closers
		if c.recv != 0 {
			n++
		}
		if c.recvs == 2 {
			n++
		}
		q := 4
		if n >= 3 {
			q = 3
		}
		if n >= 4 {
			q = 2
		}
		race := 0
		if c.expire > 0 {
			race = 2
		}
		hl.Register("C16", hl.Scn{Name: "channel/" + c.String(), Body: dcScenario(c), Cfg: mc.Config{EarlyCost: 1}, Quick: q, Thorough: -q - 2, Race: race})
	}
	// a bare receiver waits without time limit until the channel is closed
	hl.Register("C16", hl.Scn{Name: "channel/waits", Quick: -3, Thorough: -3, Body: func() {
		r, s := concurrency.NewDataChannel()
		var errs [2]error
		t := mc.Spawn(func() { _, errs[0] = r.Receive() })
		u := mc.Spawn(func() { _, errs[1] = r.Receive() })
		mc.RunFor(time.Hour)
		if t.Done() || u.Done() {
			mc.Fail("Receive returned without event or close")
		}
		if st := s.Send(concurrency.NewEvent("t", 1, nil)); st != concurrency.Success {
			mc.Fail("Send to a waiting receiver gave %d", st)
		}
		mc.Quiesce()
		r.Close()
		t.Join()
		u.Join()
		if (errs[0] == nil) == (errs[1] == nil) {
			mc.Fail("one event and one close for two receivers gave %v", errs)
		}
	}})

	// a buffer holds what it was made for, whatever its size
	for _, n := range []int{1, 2, 7, 8, 9, 15, 16, 17, 31, 33, 63, 65, 100, 127, 129, 255, 257, 1000, 1025, 4097} {
		n := n
		hl.Register("C16", hl.Scn{Name: fmt.Sprintf("channel/full/%d", n), Cfg: defaultOrder, Quick: 0, Thorough: 0, Slow: -1, Body: func() {
			r, s := concurrency.NewDataChannelWithOption(n, 10*time.Millisecond)
			send := func(i, want int) {
				t0 := mc.Elapsed()
				if st := s.Send(concurrency.NewEvent("t", i, nil)); st != want {
					mc.Fail("send %d into a buffer of %d gave %d, expected %d", i, n, st, want)
				} else if d := mc.Elapsed() - t0; st == concurrency.Success && d != 0 || st == concurrency.Expired && d < 10*time.Millisecond {
					mc.Fail("send %d into a buffer of %d took %v", i, n, d)
				}
			}
			next := 0
			recv := func() {
				e, err := r.Receive()
				if err != nil || e.Data() != next {
					mc.Fail("received %v, %v; event %d is next", e, err, next)
				}
				next++
			}
			for i := 0; i < n; i++ {
				send(i, concurrency.Success)
			}
			send(-1, concurrency.Expired)
			for i := 0; i < n/2+1; i++ {
				recv()
			}
			for i := n; i < n+n/2+1; i++ {
				send(i, concurrency.Success)
			}
			send(-1, concurrency.Expired)
			for next < n+n/2+1 {
				recv()
			}
			send(next, concurrency.Success)
			r.Close()
			send(0, concurrency.Closed)
			if e, err := r.Receive(); e != nil || err != concurrency.ErrChannelClosed {
				mc.Fail("Receive after Close gave %v, %v", e, err)
			}
		}})
	}
	// limits of every size
	for _, d := range []time.Duration{1, 999, 500 * time.Microsecond, 1500 * time.Microsecond, time.Second - 1, 61 * time.Second, time.Hour, 400 * 24 * time.Hour} {
		for n := 0; n < 2; n++ {
			d, n := d, n
			hl.Register("C16", hl.Scn{Name: fmt.Sprintf("channel/limit/%d/%d", d, n), Cfg: defaultOrder, Quick: 0, Thorough: 0, Slow: -1, Body: func() {
				r, s := concurrency.NewDataChannelWithOption(n, d)
				for i := 0; i < n; i++ {
					if st := s.Send(concurrency.NewEvent("t", i, nil)); st != concurrency.Success {
						mc.Fail("a send into a free buffer gives %d", st)
					}
				}
				// a receiver that is late, but not too late
				var st [2]int
				var took time.Duration
				t := mc.Spawn(func() { st[0] = s.Send(concurrency.NewEvent("t", n, nil)) })
				mc.RunFor(d / 10 * 9)
				if t.Done() {
					mc.Fail("a send with a limit of %v gives %d after %v", d, st[0], d/10*9)
				}
				for i := 0; i <= n; i++ {
					if e, err := r.Receive(); err != nil || e.Data() != i {
						mc.Fail("received %v, %v; event %d is next", e, err, i)
					}
				}
				t.Join()
				for i := 0; i < n; i++ {
					s.Send(concurrency.NewEvent("t", i, nil))
				}
				// none
				t = mc.Spawn(func() {
					t0 := mc.Elapsed()
					st[1] = s.Send(concurrency.NewEvent("t", 7, nil))
					took = mc.Elapsed() - t0
				})
				t.Join()
				if st != [2]int{concurrency.Success, concurrency.Expired} || took < d {
					mc.Fail("sends with a limit of %v give %v, the last after %v", d, st, took)
				}
				// closed meanwhile
				t = mc.Spawn(func() { st[0] = s.Send(concurrency.NewEvent("t", 8, nil)) })
				mc.RunFor(d / 10 * 9)
				r.Close()
				t.Join()
				if st[0] != concurrency.Closed {
					mc.Fail("a send that waits while the channel is closed gives %d", st[0])
				}
			}})
		}
	}
}
