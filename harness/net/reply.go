package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/lxdlam/vertex/mc"
	"github.com/lxdlam/vertex/vharness/hl"
	"github.com/lxdlam/vertex/vharness/model"
	"github.com/lxdlam/vertex/vharness/srv"
)

// C06: one well-formed reply per request, whatever it is, and the server goes on.

var startStates = [][][]string{
	nil,
	{{"SET", "s", "5"}, {"RPUSH", "l", "x", "y"}, {"HSET", "h", "x", "1", "y", "2"}, {"SADD", "t", "x", "y"}, {"SET", "l", "q"}, {"SET", "", "e"}},
}

// life runs f with a client of a running server.
func life(start [][]string, f func(c *srv.Client) string) string {
	return hl.Under(func() string {
		s := srv.Start(srv.Conf(""))
		if s == nil {
			return "the server does not start"
		}
		c := srv.Dial(srv.Port)
		if c == nil {
			return "the server refuses a client"
		}
		for _, x := range append([][]string{{"SET", "sentinel", "S"}}, start...) {
			c.Must(x...)
		}
		m := f(c)
		if m == "" {
			c.Close()
			s.Stop()
		}
		return m
	})
}

// one sends a request, in the same piece as a read of the sentinel, and returns its reply.
func one(c *srv.Client, raw string) (v hl.Val, bad string) {
	if c.Send(raw+hl.Cmd("GET", "sentinel").Encode()) != nil {
		return v, "the connection is closed"
	}
	v, err := c.Recv()
	if err != nil {
		return v, fmt.Sprintf("no reply: %v", err)
	}
	w, err := c.Recv()
	if err != nil {
		return v, fmt.Sprintf("replied %v, then the next request got no reply: %v", v, err)
	}
	if !w.Equal(hl.Bulk("S")) {
		return v, fmt.Sprintf("replied %v, then %v to the next request, a read of \"S\"", v, w)
	}
	return v, ""
}

func idle(c *srv.Client) string {
	mc.Quiesce()
	if b, end := c.C.Avail(); len(b) > 0 || end {
		return fmt.Sprintf("after the replies: %.100q, connection closed: %v", b, end)
	}
	return ""
}

// requests runs a list of requests in one life; with the model if all are lists of bulk strings.
func requests(c *hl.Seq, start [][]string, reqs []hl.Val, judged bool) {
	if len(reqs) == 0 || c.Late() {
		return
	}
	c.Try(func() string { return fmt.Sprintf("start %q, %d requests from %.300v", start, len(reqs), reqs[0]) }, func() string {
		return life(start, func(cl *srv.Client) string {
			db := model.New()
			db.Exec("SET", "sentinel", "S")
			for _, x := range start {
				db.Exec(x...)
			}
			for i, r := range reqs {
				v, bad := one(cl, r.Encode())
				if bad != "" {
					return fmt.Sprintf("request %d %.300v: %s", i, r, bad)
				}
				if judged {
					var args []string
					for _, x := range r.A {
						args = append(args, x.S)
					}
					if m := db.Exec(args...).Check(v); m != "" {
						return fmt.Sprintf("request %d %.300v: %s", i, r, m)
					}
				} else if mustFail(r) && v.Kind != '-' {
					return fmt.Sprintf("request %d %.300v: replied %v, it is no command", i, r, v)
				}
			}
			return idle(cl)
		})
	})
	c.Step(2 * len(reqs))
	c.States += int64(len(reqs))
}

// mustFail reports whether a value certainly is no valid command.
func mustFail(r hl.Val) bool {
	if r.Kind != '*' || len(r.A) == 0 {
		return true
	}
	n := r.A[0]
	if n.Kind == ':' || n.Kind == '*' {
		return true
	}
	if n.Kind != '$' || n.Null {
		return n.Null
	}
	for _, x := range model.Names {
		if strings.EqualFold(x, n.S) {
			return false
		}
	}
	return true
}

func product(k int, alpha []hl.Val, f func(args []hl.Val)) {
	args := make([]hl.Val, k)
	var rec func(i int)
	rec = func(i int) {
		if i == k {
			f(args)
			return
		}
		for _, a := range alpha {
			args[i] = a
			rec(i + 1)
		}
	}
	rec(0)
}

func bulks(l ...string) (r []hl.Val) {
	for _, x := range l {
		r = append(r, hl.Bulk(x))
	}
	return
}

func init() {
	wide := bulks("s", "l", "h", "t", "none", "", "x", "0", "1", "-1", "2", fmt.Sprint(math.MaxInt64), fmt.Sprint(math.MinInt64), "BEFORE", "\r\n", "\x00\xff", "99999999999999999999")
	narrow := bulks("l", "h", "x", "1", "")
	odd := []hl.Val{hl.Bulk("s"), hl.Bulk("l"), hl.Bulk("x"), {Kind: ':', N: 3}, {Kind: '$', Null: true}, {Kind: '+', S: "h"}, {Kind: '-', S: "ERR t"}, hl.Arr(), {Kind: '*', Null: true}, hl.Arr(hl.Bulk("s")), hl.Arr(hl.Arr())}
	names := append([]string{}, model.Names...)
	names = append(names, "NOSUCH", "")
	for _, n := range names {
		n := n
		hl.Register("C06", hl.Scn{Name: "args/" + n, Seq: func(c *hl.Seq) {
			for _, start := range startStates {
				var batch []hl.Val
				flush := func() {
					requests(c, start, batch, true)
					batch = batch[:0]
				}
				add := func(args []hl.Val) {
					batch = append(batch, hl.Arr(append(bulks(n), args...)...))
					if len(batch) == 60 {
						flush()
					}
				}
				for k := 0; k <= hl.Pick(2, 3); k++ {
					product(k, wide, add)
					flush()
				}
				for k := 3; k <= hl.Pick(4, 5); k++ {
					product(k, narrow, add)
					flush()
				}
				c.Sample("%q with every argument list from %d values", n, len(wide))
			}
			c.MaxDepth = 60
		}})
		hl.Register("C06", hl.Scn{Name: "objects/" + n, Seq: func(c *hl.Seq) {
			for _, start := range startStates {
				var batch []hl.Val
				for k := 0; k <= hl.Pick(3, 4); k++ {
					product(k, odd, func(args []hl.Val) {
						batch = append(batch, hl.Arr(append(bulks(n), args...)...))
						if len(batch) == 60 {
							requests(c, start, batch, false)
							batch = batch[:0]
						}
					})
					requests(c, start, batch, false)
					batch = batch[:0]
				}
			}
			c.Sample("%q with every list of up to three objects of %d kinds", n, len(odd))
		}})
		// each alone in a fresh server, with the letter case and the neighbourhood of the name
		hl.Register("C06", hl.Scn{Name: "names/" + n, Seq: func(c *hl.Seq) {
			lower, upper := strings.ToLower(n), strings.ToUpper(n)
			mixed := ""
			for i := range n {
				if i%2 == 0 {
					mixed += lower[i : i+1]
				} else {
					mixed += upper[i : i+1]
				}
			}
			vs := map[string]bool{}
			for _, v := range []string{lower, upper, mixed, n + " ", " " + n, n + "\x00", n + "\r\n", "S" + n, n + "X"} {
				if vs[v] {
					continue
				}
				vs[v] = true
				for k := 0; k <= 2; k++ {
					product(k, bulks("s", "l", "h", "t", "none", "1", "x"), func(args []hl.Val) {
						requests(c, startStates[1], []hl.Val{hl.Arr(append(bulks(v), args...)...)}, true)
					})
				}
			}
		}})
	}
	hl.Register("C06", hl.Scn{Name: "values", Seq: func(c *hl.Seq) {
		var batch []hl.Val
		for k := 0; k <= 3; k++ {
			product(k, odd, func(args []hl.Val) { batch = append(batch, hl.Arr(append([]hl.Val{}, args...)...)) })
		}
		batch = append(batch, odd...)
		batch = append(batch, hl.Val{Kind: '+', S: ""}, hl.Val{Kind: '+', S: "GET s"}, hl.Val{Kind: '-', S: ""}, hl.Val{Kind: ':', N: math.MinInt64}, hl.Bulk(""), hl.Bulk("GET"), hl.Bulk("*1\r\n"), hl.Bulk(strings.Repeat("z", 70000)))
		for _, start := range startStates {
			for i := 0; i < len(batch); i += 40 {
				j := i + 40
				if j > len(batch) {
					j = len(batch)
				}
				requests(c, start, batch[i:j], false)
			}
		}
		// large requests
		for _, n := range []int{100, 1000, 4096, 65536, 300000} {
			args := bulks("RPUSH", "big")
			for i := 0; i < n; i++ {
				args = append(args, hl.Bulk(fmt.Sprint(i)))
			}
			requests(c, nil, []hl.Val{hl.Arr(args...), hl.Cmd("LLEN", "big"), hl.Cmd("LRANGE", "big", "0", "-1")}, true)
			requests(c, nil, []hl.Val{hl.Cmd("SET", "k", strings.Repeat("v", n)), hl.Cmd("GET", "k"), hl.Cmd("APPEND", "k", strings.Repeat("w", n)), hl.Cmd("GET", "k"), hl.Cmd("SET", strings.Repeat("k", n), "v"), hl.Cmd("GET", strings.Repeat("k", n)), hl.Cmd(strings.Repeat("G", n))}, true)
		}
		deep := hl.Bulk("GET")
		for i := 0; i < 200; i++ {
			deep = hl.Arr(deep)
			if i%20 == 0 {
				requests(c, nil, []hl.Val{deep, hl.Arr(hl.Bulk("GET"), deep)}, false)
			}
		}
	}})
	hl.Register("C06", hl.Scn{Name: "wide", Seq: func(c *hl.Seq) {
		// commands with every number of arguments
		for _, start := range startStates {
			var batch []hl.Val
			for _, n := range []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 31, 32, 33, 49, 50, 51, 63, 64, 65, 99, 100, 101, 102, 127, 128, 129, 130, 199, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025} {
				var e, p []string
				for i := 0; i < n; i++ {
					e = append(e, fmt.Sprint("e", i))
					p = append(p, fmt.Sprint("f", i), fmt.Sprint("v", i))
				}
				w := func(l []string, a ...string) hl.Val { return hl.Cmd(append(append([]string{}, a...), l...)...) }
				batch = append(batch, w(p, "MSET"), w(p, "MSET", "odd"), w(e, "MGET"), w(p, "MGET", "s"), w(e, "EXISTS", "s"), w(p, "EXISTS"), w(e, "LPUSH", "l"), w(p, "RPUSH", "l"), hl.Cmd("LRANGE", "l", "0", "-1"),
					w(p, "HSET", "h"), w(p, "HSET", "h", "odd"), w(p, "HMGET", "h"), w(p[n:], "HDEL", "h"), hl.Cmd("HGETALL", "h"), w(e, "SADD", "t"), w(e[n/2:], "SREM", "t"), hl.Cmd("SMEMBERS", "t"), w(e, "SUNION", "t"), w(e, "SDIFF", "t"), w(e, "SINTER", "t", "t"),
					w(e, "GET"), w(e, "LPOP"), w(e, "SPOP", "t"), w(e, "NOSUCH"), hl.Cmd("LTRIM", "l", "5", "4"), w(nil, "LLEN", "l"))
				if len(batch) > 50 {
					requests(c, start, batch, true)
					batch = batch[:0]
				}
			}
			requests(c, start, batch, true)
		}
		c.Sample("commands with 1 to 2050 arguments")
	}})
	hl.Register("C06", hl.Scn{Name: "repeated", Seq: func(c *hl.Seq) {
		// the thousandth request of a client is replied like its first
		for _, r := range []hl.Val{hl.Cmd("GET", "s"), hl.Cmd("INCR", "s"), hl.Cmd("NOPE"), hl.Cmd("GET"), hl.Cmd("LPOP", "s"), hl.Cmd("EXPIRE", "a", "b"), hl.Cmd("")} {
			var l []hl.Val
			for i := 0; i < hl.Pick(1100, 5000); i++ {
				l = append(l, r)
			}
			requests(c, startStates[1], append(l, hl.Cmd("GET", "s"), hl.Cmd("LRANGE", "l", "0", "-1")), true)
		}
		for _, r := range []hl.Val{hl.Arr(), null('*'), null('$'), hl.Arr(hl.Arr()), hl.Arr(null('$')), hl.Arr(hl.Arr(hl.Arr(), hl.Arr())), {Kind: ':', N: 1}, {Kind: '+', S: "x"}, {Kind: '-', S: "x"}, hl.Bulk("GET")} {
			var l []hl.Val
			for i := 0; i < hl.Pick(1100, 5000); i++ {
				l = append(l, r)
			}
			requests(c, startStates[1], l, false)
		}
	}})
	hl.Register("C06", hl.Scn{Name: "pairs", Seq: func(c *hl.Seq) {
		// every pair of one request of each kind for each command, and refused ones
		var all []hl.Val
		for _, n := range model.Names {
			for _, a := range [][]string{{}, {"s"}, {"l", "x"}, {"h", "x", "1"}, {"l", "0", "1"}, {"l", "BEFORE", "x", "z"}, {"t", "1"}} {
				all = append(all, hl.Cmd(append([]string{n}, a...)...))
			}
		}
		for i := range all {
			var batch []hl.Val
			for j := i % 3; j < len(all); j += hl.Pick(3, 1) {
				batch = append(batch, all[i], all[j])
			}
			requests(c, startStates[1], batch, true)
		}
	}})
	for i := 0; i < 8; i++ {
		i := i
		hl.Register("C06", hl.Scn{Name: fmt.Sprintf("bytes/%d", i), Seq: func(c *hl.Seq) { malformed(c, i) }})
	}
}

// expect says how many replies a byte stream must get: at least lo, at most hi; error says
// that reply number lo-1 must be an error because the bytes are malformed there.
func expect(b string) (lo, hi int, fail bool) {
	for b != "" {
		v, n, err := hl.Decode(b)
		if err == hl.ErrShort {
			return lo, lo + 1, false
		}
		if err != nil {
			if lenient(b) {
				return lo, 1 << 20, false
			}
			return lo + 1, lo + 1, true
		}
		if again := v.Encode(); again != b[:n] {
			return lo, 1 << 20, false // an unusual way of writing it: either
		}
		lo++
		b = b[n:]
	}
	return lo, lo, false
}

// lenient reports bytes that a reader may accept although they are not proper: a bulk
// string without its terminator, a line break inside a line.
func lenient(b string) bool {
	_, _, err := hl.Decode(b)
	return err != nil && (strings.Contains(err.Error(), "terminator") || strings.Contains(err.Error(), "line break"))
}

// malformed sends byte streams that are not, or not only, requests.
func malformed(c *hl.Seq, part int) {
	var streams []string
	base := []string{get, set, "*1\r\n$0\r\n\r\n", "*2\r\n$3\r\nGET\r\n:1\r\n", "+OK\r\n", "*0\r\n", "$3\r\nGET\r\n", "*-1\r\n", "*2\r\n*1\r\n$1\r\na\r\n$-1\r\n"}
	alpha := "\r\n*$:+-019a\x00\xff "
	for _, b := range base {
		for i := 0; i <= len(b); i++ {
			streams = append(streams, b[:i], b[:i]+set, b[i:])
			for _, a := range []byte(alpha) {
				streams = append(streams, b[:i]+string([]byte{a})+b[i:])
				if i < len(b) {
					streams = append(streams, b[:i]+string([]byte{a})+b[i+1:], b[:i]+string([]byte{a})+b[i+1:]+get)
				}
			}
			if i < len(b) {
				streams = append(streams, b[:i]+b[i+1:], b[:i]+b[i+1:]+get)
			}
		}
	}
	// every short string
	var rec func(s string, n int)
	rec = func(s string, n int) {
		streams = append(streams, s)
		if n == 0 {
			return
		}
		for _, a := range []string{"\r\n", "*", "$", ":", "+", "-", "1", "2", "0", "x", "\r", "\n"} {
			rec(s+a, n-1)
		}
	}
	rec("", hl.Pick(3, 5))
	for k := part; k < len(streams); k += 8 {
		b := streams[k]
		if c.Late() {
			return
		}
		c.Try(func() string { return fmt.Sprintf("the bytes %q", b) }, func() string {
			return life(nil, func(cl *srv.Client) string {
				x := srv.Dial(srv.Port)
				if x == nil {
					return "the server refuses a client"
				}
				_ = x.Send(b)
				mc.Quiesce()
				lo, hi, fail := expect(b)
				if m := replies(x, lo, hi, fail); m != "" {
					return m
				}
				if v, bad := one(cl, hl.Cmd("SET", "z", "1").Encode()); bad != "" || v.Kind != '+' {
					return fmt.Sprintf("after that another client got %v %s", v, bad)
				}
				// one that comes later
				y := srv.Dial(srv.Port)
				if y == nil {
					return "after that the server refuses a client"
				}
				if _, bad := one(y, hl.Cmd("GET", "z").Encode()); bad != "" {
					return "after that a new client: " + bad
				}
				return idle(cl)
			})
		})
		c.States++
		c.Step(4)
		if k%997 < 8 {
			c.Sample("%q", b)
		}
	}
}

func replies(x *srv.Client, lo, hi int, fail bool) string {
	got := string(x.C.Take())
	n := 0
	var last hl.Val
	for got != "" {
		v, m, err := hl.Decode(got)
		if err != nil {
			if strings.HasPrefix("TTL expired", got) || strings.HasPrefix(got, "TTL expired") {
				break
			}
			return fmt.Sprintf("the bytes %.200q in the replies are no reply: %v", got, err)
		}
		last = v
		got = got[m:]
		n++
	}
	if n < lo || n > hi {
		return fmt.Sprintf("%d replies, expected %d", n, lo)
	}
	if fail && last.Kind != '-' {
		return fmt.Sprintf("malformed bytes were answered with %v", last)
	}
	return ""
}

func null(k byte) hl.Val { return hl.Val{Kind: k, Null: true} }
