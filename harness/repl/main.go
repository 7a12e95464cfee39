// The harness of replication: what a replica has after a sync, and syncs under every
// schedule.
package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"net"
	"strings"

	"github.com/lxdlam/vertex/mc"
	"github.com/lxdlam/vertex/vharness/hl"
	"github.com/lxdlam/vertex/vharness/srv"
)

func main() { hl.Main() }

var big = strings.Repeat("0123456789abcdef", 94)
var huge = strings.Repeat("x", 9000)

var alphabet = [][]string{
	{"SET", "k", "v"}, {"SET", "k", ""}, {"SET", "j\xff\r\n", "\r\n\x80"}, {"INCR", "n"}, {"DECRBY", "n", "3"}, {"APPEND", "k", "w"},
	{"MSET", "k", "1", "n", "2"}, {"APPEND", "k", big}, {"INCR", "k"},
	{"RPUSH", "l", "a", "b"}, {"LPUSH", "l", "a", "\xfe"}, {"LPOP", "l"}, {"RPOP", "l"}, {"LREM", "l", "0", "a"}, {"LTRIM", "l", "1", "-1"},
	{"LSET", "l", "0", ""}, {"LINSERT", "l", "BEFORE", "a", "x"},
	{"HSET", "h", "f", "v", "g", "\xff"}, {"HDEL", "h", "f"},
	{"SADD", "s", "a", "b", "c"}, {"SREM", "s", "a"}, {"SPOP", "s"}, {"SPOP", "s", "2"},
	{"GET", "k"}, {"NOSUCH"}, {"SADD", "s"},
}

var reads = [][]string{
	{"MGET", "k", "n", "j\xff\r\n", "l"}, {"STRLEN", "k"}, {"EXISTS", "k", "n"},
	{"LRANGE", "l", "0", "-1"}, {"LLEN", "l"}, {"HGETALL", "h"}, {"HLEN", "h"}, {"SMEMBERS", "s"}, {"SCARD", "s"},
}

const masterPort = 7000

func dump(c *srv.Client) string {
	d, err := c.Reads(reads)
	if err != nil {
		mc.Fail("reading failed: %v", err)
	}
	return d
}

func show(cmds [][]string) string {
	s := fmt.Sprintf("%q", cmds)
	if len(s) > 500 {
		s = s[:500] + "..."
	}
	return s
}

// master runs a server with the commands and returns what a replica gets that syncs then,
// with the master's data at that moment. Rounds are syncs with commands between them.
func master(rounds [][][]string) (streams []string, dumps []string, bad string) {
	bad = hl.Under(func() string {
		defer srv.Draws(1)()
		cfg := srv.Conf("/master.log")
		cfg.EnableReplica, cfg.ReplicaPort = true, srv.ReplicaPort
		s := srv.Start(cfg)
		if s == nil {
			return "the master does not start"
		}
		c := srv.Dial(srv.Port)
		for _, cmds := range rounds {
			if len(cmds) > 0 {
				if _, err := c.All(cmds); err != nil {
					return fmt.Sprintf("no reply: %v", err)
				}
			}
			r, err := mc.HDial(srv.ReplicaPort)
			if err != nil {
				return "the master does not accept a replica"
			}
			var st []byte
			for b := make([]byte, 1<<16); ; {
				n, err := r.Read(b)
				st = append(st, b[:n]...)
				if err != nil {
					break
				}
			}
			_ = r.Close()
			streams = append(streams, string(st))
			dumps = append(dumps, dump(c))
		}
		c.Close()
		s.Stop()
		return ""
	})
	return
}

// feed says how the harness, playing the master, delivers the stream.
type feed struct {
	cut   int    // bytes delivered
	how   string // what happens then: "eof", "reset", "fault"; "refuse": there is no master
	chunk int    // >0: in pieces of this size
}

var errLine = errors.New("no route to host")

// deliver is the master that a replica connects to.
func deliver(stream string, f feed) {
	l, err := mc.ListenTCP("tcp", &net.TCPAddr{Port: masterPort})
	if err != nil {
		mc.Fail("harness: %v", err)
	}
	broken := false
	mc.DialFault = func(op string, c *mc.Conn, size int) error {
		if a, ok := c.RemoteAddr().(*net.TCPAddr); ok && a.Port == masterPort && broken {
			return errLine
		}
		return nil
	}
	mc.Spawn(func() {
		x, err := l.Accept()
		if err != nil {
			return
		}
		c := x.(*mc.Conn)
		b := []byte(stream[:f.cut])
		for len(b) > 0 {
			n := len(b)
			if f.chunk > 0 && n > f.chunk {
				n = f.chunk
			}
			if _, err := c.Write(b[:n]); err != nil {
				break
			}
			b = b[n:]
			if f.chunk > 0 {
				mc.Gosched()
			}
		}
		if f.how == "fault" {
			mc.Quiesce()
			broken = true
			_, _ = c.Write([]byte("x")) // wakes the reader up
		}
		if f.how == "reset" {
			// what is on the way arrives first
			mc.Quiesce()
			c.Reset()
		} else {
			_ = c.Close()
		}
		_ = l.Close()
	})
}

// replica starts a server that syncs, and returns its data before (from its own file) and
// after the sync, and what it has after it went on, and after its restart alone.
type replica struct {
	own, got   string
	more, last string
	left       string // what the sync left behind
}

// leftover is what a sync has not released on the replica's side.
func leftover() string {
	for _, c := range mc.ServerConns() {
		if a, ok := c.LocalAddr().(*net.TCPAddr); ok && a.Port == masterPort && !c.Peer().IsClosed() {
			return "the connection to the master is still open"
		}
	}
	n := 0
	for _, f := range mc.FSOpen() {
		if f != srv.File {
			return "the file " + f + " is still open"
		}
		n++
	}
	if n > 3 { // three lives, which keep the database file
		return fmt.Sprintf("%d files are open", n)
	}
	for _, f := range mc.FSList() {
		if f != srv.File {
			return "the file " + f + " is still there"
		}
	}
	return ""
}

func runReplica(own [][]string, stream string, f feed, more [][]string) (x replica, bad string) {
	bad = hl.Under(func() string {
		defer srv.Draws(2)()
		defer func() { mc.DialFault = nil }()
		s := srv.Start(srv.Conf(srv.File))
		if s == nil {
			return "the server does not start"
		}
		c := srv.Dial(srv.Port)
		if len(own) > 0 {
			if _, err := c.All(own); err != nil {
				return fmt.Sprintf("no reply: %v", err)
			}
		}
		x.own = dump(c)
		c.Close()
		s.Stop()
		if f.how != "refuse" {
			deliver(stream, f)
		}
		cfg := srv.Conf(srv.File)
		cfg.MasterAddress = fmt.Sprintf("127.0.0.1:%d", masterPort)
		s = srv.Start(cfg)
		if s == nil {
			return "the replica does not start"
		}
		mc.Quiesce()
		x.left = leftover()
		c = srv.Dial(srv.Port)
		x.got = dump(c)
		if more != nil {
			if _, err := c.All(more); err != nil {
				return fmt.Sprintf("no reply: %v", err)
			}
			x.more = dump(c)
		}
		c.Close()
		s.Stop()
		if more != nil {
			s = srv.Start(srv.Conf(srv.File))
			if s == nil {
				return "the replica does not start again"
			}
			c = srv.Dial(srv.Port)
			x.last = dump(c)
			c.Close()
			s.Stop()
		}
		return ""
	})
	return
}

// both is the data after the commands of two histories, one after the other.
func both(a, b [][]string) string {
	var d string
	bad := hl.Under(func() string {
		defer srv.Draws(1)()
		s := srv.Start(srv.Conf(""))
		c := srv.Dial(srv.Port)
		if _, err := c.All(append(append([][]string(nil), a...), b...)); err != nil {
			return "no reply"
		}
		d = dump(c)
		c.Close()
		s.Stop()
		return ""
	})
	if bad != "" {
		return bad
	}
	return d
}

var owns = map[string][][]string{
	"empty": nil,
	"full":  {{"MSET", "k", "own", "n", "7"}, {"RPUSH", "l", "own", "a"}, {"HSET", "h", "own", "1"}, {"SADD", "s", "own", "a"}},
}

func init() {
	parts := 4
	for name := range owns {
		for part := 0; part < parts; part++ {
			name, part := name, part
			hl.Register("C13", hl.Scn{Name: fmt.Sprintf("replica/%s/histories/%d", name, part), Seq: func(c *hl.Seq) {
				histories(c, owns[name], name == "empty", part, parts)
			}})
			hl.Register("C13", hl.Scn{Name: fmt.Sprintf("replica/%s/cuts/%d", name, part), Seq: func(c *hl.Seq) {
				cuts(c, owns[name], part, parts)
			}})
		}
	}
	hl.Register("C13", hl.Scn{Name: "replica/chunks", Seq: chunks})
	for _, total := range []int{1 << 9, 1 << 10, 1 << 12, 1 << 13, 1 << 15, 1 << 16, 1 << 17, 3 << 16, 1 << 20, 1 << 24} {
		total := total
		hl.Register("C13", hl.Scn{Name: fmt.Sprintf("replica/sizes/%d", total), Seq: func(c *hl.Seq) { sizes(c, total) }})
	}
	hl.Register("C13", hl.Scn{Name: "replica/announced", Seq: announced})
	for part := 0; part < 2; part++ {
		part := part
		hl.Register("C14", hl.Scn{Name: fmt.Sprintf("replica/released/%d", part), Seq: func(c *hl.Seq) {
			ends(c, owns["full"], part, 2)
		}})
	}
}

// sync compares a complete sync.
func syncOK(c *hl.Seq, own, hist [][]string, stream, want string, f feed, exact bool) {
	c.Try(func() string {
		return fmt.Sprintf("own %s ; the master's history %s ; %d bytes in pieces of %d", show(own), show(hist), len(stream), f.chunk)
	}, func() string {
		x, bad := runReplica(own, stream, f, nil)
		if bad != "" {
			return bad
		}
		if x.got == want {
			return ""
		}
		if !exact {
			// its own data stays where the master's history does not touch it
			if x.got == both(own, hist) || randomized(hist) {
				return ""
			}
		}
		return "the replica differs from the master: " + srv.Diff(want, x.got)
	})
	c.Step(len(hist) + 1)
	c.States++
}

// randomized histories cannot be repeated on other data
func randomized(h [][]string) bool {
	for _, c := range h {
		if c[0] == "SPOP" {
			return true
		}
	}
	return false
}

func histories(c *hl.Seq, own [][]string, exact bool, part, parts int) {
	depth := hl.Pick(2, 3)
	starts := [][][]string{nil, {{"SET", "k", "5"}, {"RPUSH", "l", "a", "b", "a", "c"}, {"HSET", "h", "f", "1"}, {"SADD", "s", "a", "b", "c", "d"}}}
	for _, st := range starts {
		seq := append([][]string(nil), st...)
		var rec func(n int)
		rec = func(n int) {
			if c.Late() {
				return
			}
			// a sync after each of the last two commands
			k := len(seq)
			rounds := [][][]string{seq}
			if k > 0 {
				rounds = [][][]string{seq[:k-1], seq[k-1:]}
			}
			var streams, dumps []string
			c.Try(func() string { return "the master's history " + show(seq) }, func() string {
				var bad string
				streams, dumps, bad = master(rounds)
				return bad
			})
			i := len(streams) - 1
			syncOK(c, own, seq, streams[i], dumps[i], feed{cut: len(streams[i]), how: "eof"}, exact)
			if k-len(st) > c.MaxDepth {
				c.MaxDepth = k - len(st)
			}
			if n == 0 {
				return
			}
			for j, a := range alphabet {
				if k == len(st) && j%parts != part {
					continue
				}
				seq = append(seq, a)
				rec(n - 1)
				seq = seq[:len(seq)-1]
			}
		}
		rec(depth)
	}
	c.Sample("own %s and every master history to depth %d", show(own), depth)
}

// cutHistories are transferred with every possible failure.
var cutHistories = [][][]string{
	{{"SET", "k", "v"}},
	{{"SET", "k", "m\xff"}, {"RPUSH", "l", "a", "b"}, {"SADD", "s", "x"}},
	{{"INCR", "n"}, {"HSET", "h", "f", "v", "g", "w"}, {"APPEND", "k", big}},
	{{"SET", "k", huge}, {"INCR", "n"}},
	{},
	{{"INCR", "n"}, {"APPEND", "k", "1"}, {"INCR", "n"}, {"RPUSH", "l", "a"}, {"LPOP", "l"}, {"INCR", "n"}, {"SADD", "s", "x"}, {"APPEND", "k", "2"}},
	many(90),
}

// many is a longer history of small commands.
func many(n int) (h [][]string) {
	for i := 0; i < n; i++ {
		h = append(h, [][]string{{"INCR", "n"}, {"APPEND", "k", "x"}, {"RPUSH", "l", fmt.Sprint(i)}, {"HSET", "h", fmt.Sprint(i % 3), fmt.Sprint(i)}}[i%4])
	}
	return
}

func cuts(c *hl.Seq, own [][]string, part, parts int) {
	more := [][]string{{"APPEND", "k", "!"}, {"INCR", "n"}}
	for _, h := range cutHistories {
		var streams []string
		c.Try(func() string { return "the master's history " + show(h) }, func() string {
			var bad string
			streams, _, bad = master([][][]string{h})
			return bad
		})
		st := streams[0]
		stride := 1
		if hl.Tier == "quick" && len(st) > 1000 {
			stride = 41
		}
		for _, how := range []string{"eof", "reset", "fault", "refuse"} {
			for cut := 0; cut < len(st); cut++ {
				if cut%parts != part || (stride > 1 && cut > 400 && cut < len(st)-8 && cut/parts%stride != 0) || (how == "refuse" && cut > 3) {
					continue
				}
				if c.Late() {
					return
				}
				cut := cut
				c.Try(func() string {
					return fmt.Sprintf("own %s ; the master's history %s ; the transfer ends after %d of %d bytes (%s)", show(own), show(h), cut, len(st), how)
				}, func() string {
					x, bad := runReplica(own, st, feed{cut: cut, how: how}, more)
					if bad != "" {
						return bad
					}
					if x.got != x.own {
						return "the failed sync changed the data: " + srv.Diff(x.own, x.got)
					}
					if x.last != x.more {
						return "after going on, stop and restart: " + srv.Diff(x.more, x.last)
					}
					if cut%97 == 3 {
						if w := both(own, more); x.more != w {
							return "it does not go on from its own data: " + srv.Diff(w, x.more)
						}
					}
					return ""
				})
				c.Step(4)
				c.States++
			}
		}
	}
	c.Sample("every cut of %s", show(cutHistories[1]))
}

// chunks delivers streams in pieces of every size.
func chunks(c *hl.Seq) {
	for _, h := range cutHistories {
		var streams, dumps []string
		c.Try(func() string { return "the master's history " + show(h) }, func() string {
			var bad string
			streams, dumps, bad = master([][][]string{h})
			return bad
		})
		st := streams[0]
		for n := 1; n <= len(st) && n <= 600; n++ {
			if c.Late() {
				return
			}
			if len(st) > 2000 && n < 40 {
				continue
			}
			syncOK(c, nil, h, st, dumps[0], feed{cut: len(st), how: "eof", chunk: n}, true)
		}
	}
	// longer histories, synced at every moment
	var h [][]string
	for i := 0; i < hl.Pick(180, 400); i++ {
		switch i % 5 {
		case 0:
			h = append(h, []string{"APPEND", "k", big[:i*29%1400]})
		case 1:
			h = append(h, []string{"RPUSH", "l", fmt.Sprint(i), "\xc3\x28"})
		case 2:
			h = append(h, []string{"SADD", "s", fmt.Sprint(i), fmt.Sprint(i + 1)})
		case 3:
			h = append(h, []string{"SPOP", "s"})
		default:
			h = append(h, []string{"HSET", "h", fmt.Sprint(i % 4), fmt.Sprint(i)})
		}
	}
	var rounds [][][]string
	var upto []int
	for i := 0; i < len(h); {
		j := i + 1
		if i >= 64 {
			j = i + 20
		}
		if j > len(h) {
			j = len(h)
		}
		rounds = append(rounds, h[i:j])
		upto = append(upto, j)
		i = j
	}
	var streams, dumps []string
	c.Try(func() string { return "a master with a sync after every command" }, func() string {
		var bad string
		streams, dumps, bad = master(rounds)
		return bad
	})
	for i := range streams {
		if c.Late() {
			return
		}
		syncOK(c, nil, h[:upto[i]], streams[i], dumps[i], feed{cut: len(streams[i]), how: "eof"}, true)
	}
	c.MaxDepth = len(h)
}

// ends checks what a sync leaves behind, however it ends.
func ends(c *hl.Seq, own [][]string, part, parts int) {
	for hi, h := range cutHistories {
		if hi%parts != part {
			continue
		}
		var streams []string
		c.Try(func() string { return "the master's history " + show(h) }, func() string {
			var bad string
			streams, _, bad = master([][][]string{h})
			return bad
		})
		st := streams[0]
		for _, how := range []string{"eof", "reset", "fault", "refuse"} {
			for cut := 0; cut <= len(st); cut++ {
				if cut > 40 && cut < len(st)-8 && cut%hl.Pick(67, 5) != 0 {
					continue
				}
				if c.Late() {
					return
				}
				cut := cut
				c.Try(func() string {
					return fmt.Sprintf("own %s ; the master's history %s ; the transfer ends after %d of %d bytes (%s)", show(own), show(h), cut, len(st), how)
				}, func() string {
					x, bad := runReplica(own, st, feed{cut: cut, how: how}, nil)
					if bad != "" {
						return bad
					}
					return x.left
				})
				c.Step(4)
				c.States++
			}
		}
	}
	c.Sample("every end of a sync of %s", show(cutHistories[1]))
}

// sizes are transfers whose length is near a power of two.
func sizes(c *hl.Seq, total int) {
	for d := -14; d <= 14; d++ {
		if total >= 1<<20 && d != 0 && (d != 8 || total > 1<<20) {
			continue
		}
		if c.Late() {
			return
		}
		n := (total-140)/2 + d*hl.Pick(2, 1)
		h := [][]string{{"SET", "k", strings.Repeat("s", n)}, {"APPEND", "k", "t"}}
		var streams, dumps []string
		c.Try(func() string { return fmt.Sprintf("a value of %d bytes", n) }, func() string {
			var bad string
			if total > 1<<20 {
				h = h[:1]
			}
			streams, dumps, bad = master([][][]string{h[:1], h[1:]}[:len(h)])
			return bad
		})
		for i := range streams {
			syncOK(c, nil, h[:i+1], streams[i], dumps[i], feed{cut: len(streams[i]), how: "eof"}, true)
		}
	}
	c.MaxDepth = 2
}

// announced are transfers that arrive whole and end inside a record: they are incomplete too.
func announced(c *hl.Seq) {
	for _, h := range cutHistories {
		if len(h) == 0 {
			continue
		}
		var streams []string
		var lens = map[int]bool{}
		c.Try(func() string { return "the master's history " + show(h) }, func() string {
			var bad string
			streams, _, bad = master([][][]string{h})
			return bad
		})
		st := streams[0][4:]
		for i := 0; i+4 <= len(st); {
			lens[i] = true
			i += 4 + int(binary.LittleEndian.Uint32([]byte(st[i:])))
		}
		for n := 1; n < len(st); n++ {
			if lens[n] || n > 300 && n < len(st)-6 && n%hl.Pick(173, 7) != 0 {
				continue
			}
			if c.Late() {
				return
			}
			n := n
			for _, own := range owns {
				own := own
				c.Try(func() string {
					return fmt.Sprintf("own %s ; the master's history %s ; a transfer of the first %d of its %d bytes", show(own), show(h), n, len(st))
				}, func() string {
					var head [4]byte
					binary.LittleEndian.PutUint32(head[:], uint32(n))
					x, bad := runReplica(own, string(head[:])+st[:n], feed{cut: 4 + n, how: "eof"}, nil)
					if bad != "" {
						return bad
					}
					if x.got != x.own {
						return "the incomplete log changed the data: " + srv.Diff(x.own, x.got)
					}
					return ""
				})
				c.Step(2)
				c.States++
			}
		}
	}
}
