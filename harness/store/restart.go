package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/lxdlam/vertex/mc"
	"github.com/lxdlam/vertex/vharness/hl"
	"github.com/lxdlam/vertex/vharness/srv"
)

// C10: a graceful stop and a restart change nothing.

// cycle runs the lives one after another on one file, then one more without commands.
func cycle(lives [][][]string, salt int) string {
	return hl.Under(func() string {
		defer srv.Draws(salt)()
		last := ""
		for i, cmds := range lives {
			l := run(cmds, i == 0)
			if i > 0 && l.before != last {
				return fmt.Sprintf("restart %d: %s", i, srv.Diff(last, l.before))
			}
			last = l.after
		}
		f, _ := mc.FSGet(srv.File)
		for i := 0; i < 2; i++ {
			l := run(nil, false)
			if l.before != last {
				return fmt.Sprintf("final restart %d: %s", i+1, srv.Diff(last, l.before))
			}
			if !bytes.Equal(f, l.fileStart) || !bytes.Equal(f, l.fileEnd) {
				return fmt.Sprintf("restoring changed the file from %d bytes to %d, then %d", len(f), len(l.fileStart), len(l.fileEnd))
			}
		}
		return ""
	})
}

// splits are all ways to distribute a sequence over lives.
func splits(seq [][]string) [][][][]string {
	var out [][][][]string
	for mask := 0; mask < 1<<uint(len(seq)-1); mask++ {
		var lives [][][]string
		cur := [][]string{seq[0]}
		for i := 1; i < len(seq); i++ {
			if mask&(1<<uint(i-1)) != 0 {
				lives = append(lives, cur)
				cur = nil
			}
			cur = append(cur, seq[i])
		}
		out = append(out, append(lives, cur))
	}
	return out
}

var starts = map[string][][]string{
	"empty": nil,
	"full": {{"MSET", "k", "kv", "n", "41", "j\x00\xff\r\n", "J"}, {"RPUSH", "l", "a", "b", "a"}, {"HSET", "h", "f", "1", "g", "2"},
		{"SADD", "s", "a", "b", "c", "d"}, {"SADD", "t", "b", "x"}},
	"emptied": {{"SET", "k", ""}, {"RPUSH", "l", "a"}, {"LPOP", "l"}, {"HSET", "h", "f", "1"}, {"HDEL", "h", "f"}, {"SADD", "s", "a"}, {"SREM", "s", "a"}},
}

// walk runs all sequences of exactly n commands whose first is among the given part.
func walk(c *hl.Seq, start [][]string, al [][]string, n, part, parts int) {
	seq := make([][]string, n)
	k := 0
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			for _, lives := range splits(seq) {
				if c.Late() {
					return
				}
				ls := append([][][]string(nil), lives...)
				if len(start) > 0 {
					ls[0] = append(append([][]string(nil), start...), ls[0]...)
				}
				k++
				kk := k
				c.Try(func() string { return "lives " + showLives(ls) }, func() string { return cycle(ls, kk) })
				c.Step(len(ls) + 2)
				c.States++
				if k%501 == 7 {
					c.Sample("lives %s", showLives(ls))
				}
			}
			return
		}
		for j, a := range al {
			if i == 0 && j%parts != part {
				continue
			}
			seq[i] = a
			rec(i + 1)
		}
	}
	rec(0)
	if n > c.MaxDepth {
		c.MaxDepth = n
	}
}

func showLives(l [][][]string) string {
	s := ""
	for i, x := range l {
		if i > 0 {
			s += " | "
		}
		s += show(x)
	}
	return s
}

// long is a history whose log spans many buffers; it is cut into lives of every length.
func long(n int) [][]string {
	var l [][]string
	for i := 0; i < n; i++ {
		switch i % 7 {
		case 0:
			l = append(l, []string{"APPEND", "k", big[:i*37%1400]})
		case 1:
			l = append(l, []string{"RPUSH", "l", fmt.Sprint(i), "\xc3\x28"})
		case 2:
			l = append(l, []string{"HSET", "h", fmt.Sprint(i % 5), fmt.Sprint(i)})
		case 3:
			l = append(l, []string{"SADD", "s", fmt.Sprint(i), fmt.Sprint(i + 1), fmt.Sprint(i + 2)})
		case 4:
			l = append(l, []string{"SPOP", "s"})
		case 5:
			l = append(l, []string{"LPOP", "l"})
		default:
			l = append(l, []string{"MSET", "n", fmt.Sprint(i % 50), "k", fmt.Sprint(i)})
		}
	}
	return l
}

func init() {
	hl.Register("C10", hl.Scn{Name: "restart/long", Seq: func(c *hl.Seq) {
		h := long(hl.Pick(60, 150))
		for n := 1; n <= len(h); n++ {
			if c.Late() {
				return
			}
			var lives [][][]string
			for i := 0; i < len(h); i += n {
				j := i + n
				if j > len(h) {
					j = len(h)
				}
				lives = append(lives, h[i:j])
			}
			c.Try(func() string { return fmt.Sprintf("%d commands in lives of %d", len(h), n) }, func() string { return cycle(lives, n) })
			c.Step(len(lives) + 2)
			c.States++
		}
		c.MaxDepth = len(h)
	}})
	hl.Register("C10", hl.Scn{Name: "restart/repeated", Seq: func(c *hl.Seq) {
		// every number of restarts in a row
		for n := 0; n <= hl.Pick(12, 60); n++ {
			lives := [][][]string{starts["full"]}
			for i := 0; i < n; i++ {
				lives = append(lives, nil)
			}
			c.Try(func() string { return fmt.Sprintf("%d restarts without commands", n) }, func() string { return cycle(lives, 1) })
			c.Step(n + 3)
			c.States++
		}
	}})
	// commands with many arguments and keys of many objects
	for _, n := range []int{1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 600, 1025} {
		n := n
		hl.Register("C10", hl.Scn{Name: fmt.Sprintf("restart/wide/%d", n), Seq: func(c *hl.Seq) {
			var e, p []string
			for i := 0; i < n; i++ {
				e = append(e, fmt.Sprint("e", i))
				p = append(p, fmt.Sprint("f", i), fmt.Sprint("v", i))
			}
			w := func(l []string, a ...string) []string { return append(append([]string{}, a...), l...) }
			var keys [][]string
			for i := 0; i < n && i < 200; i++ {
				k := e[i]
				keys = append(keys, []string{"SET", k, k}, []string{"RPUSH", k, k}, []string{"HSET", k, k, k}, []string{"SADD", k, k})
			}
			fill := [][]string{w(p, "MSET"), w(e, "RPUSH", "l"), w(p, "HSET", "h"), w(e, "SADD", "s")}
			for j, a := range [][]string{w(p, "MSET", "f0", "x"), w(e, "LPUSH", "l"), w(e, "RPUSH", "new"), w(p, "HSET", "new"), w(p, "HSET", "h", "f0", "x"), w(e, "HDEL", "h"), w(p, "HDEL", "h", "q"), w(e, "SADD", "new"), w(e, "SREM", "s", "q"), w(e[n/2:], "SREM", "s"), {"SPOP", "s", fmt.Sprint(n)}, {"SPOP", "s", fmt.Sprint(n - 1)}, {"LTRIM", "l", "1", fmt.Sprint(n / 2)}, {"LREM", "l", "0", "e0"}} {
				for _, lives := range [][][][]string{{{a}}, {append(append([][]string{}, fill...), a)}, {fill, {a}, {{"SET", "f0", "z"}}}} {
					lives := lives
					c.Try(func() string { return "lives " + showLives(lives) }, func() string { return cycle(lives, n+j) })
					c.Step(len(lives) + 2)
					c.States++
				}
			}
			for _, lives := range [][][][]string{{keys}, {keys[:len(keys)/2], keys[len(keys)/2:]}, {fill, keys}} {
				lives := lives
				c.Try(func() string { return "lives " + showLives(lives) }, func() string { return cycle(lives, n) })
				c.Step(len(lives) + 2)
				c.States++
			}
			c.Sample("commands of %d parts, %d keys", n, len(keys)/4)
		}})
	}
	// values of every interesting size in every place of every modifying command
	for i, n := range []int{0, 1, 127, 128, 255, 256, 1000, 1023, 1024, 1025, 1400, 1500, 2047, 2048, 4095, 4096, 4097, 8192, 16383, 16384, 65535, 65536, 70000, 1 << 20} {
		n := n
		v := strings.Repeat("v", n)
		d := strings.Repeat("0", n) + "7"
		fill := [][]string{{"RPUSH", "l", "a", v, "b"}, {"HSET", "h", "f", "1", v + "f", "2"}, {"SADD", "s", "a", v, "b"}, {"SET", "k", "q"}, {"SET", "n", "5"}}
		cs := [][]string{
			{"SET", "k", v}, {"SET", v + "k", "x"}, {"MSET", "k", v, "n", v, v + "m", "x"}, {"APPEND", "k", v}, {"APPEND", v + "k", v}, {"INCR", v + "k"}, {"INCRBY", "n", d}, {"DECRBY", "n", d},
			{"LPUSH", "l", "x", v}, {"RPUSH", "l", v, "y", v}, {"LINSERT", "l", "BEFORE", v, "p"}, {"LINSERT", "l", "AFTER", "a", v}, {"LREM", "l", "0", v}, {"LSET", "l", "0", v}, {"LSET", "l", d, v}, {"LTRIM", "l", "0", d},
			{"HSET", "h", "f", v}, {"HSET", "h", v + "f", "x", "g", v}, {"HDEL", "h", v + "f", "f"}, {"SADD", "s", v + "m", "x"}, {"SADD", v + "s", v, "y"}, {"SREM", "s", v, "a"}, {"SPOP", "s", "2"}, {"LPOP", "l"}, {"RPOP", "l"},
		}
		hl.Register("C10", hl.Scn{Name: fmt.Sprintf("restart/sizes/%d", n), Late: n > 1<<17, Seq: func(c *hl.Seq) {
			for j, a := range cs {
				if c.Late() {
					return
				}
				for _, lives := range [][][][]string{{append(append([][]string{}, fill...), a)}, {fill, {a}}, {fill, {a, {"SET", "n", "6"}}, {{"APPEND", "k", "!"}}}} {
					lives := lives
					c.Try(func() string { return "lives " + showLives(lives) }, func() string { return cycle(lives, i+j) })
					c.Step(len(lives) + 2)
					c.States++
				}
			}
			c.Sample("%d commands with parts of %d bytes", len(cs), n)
		}})
	}
	for name := range starts {
		name := name
		for part := 0; part < 4; part++ {
			part := part
			hl.Register("C10", hl.Scn{Name: fmt.Sprintf("restart/%s/pairs/%d", name, part), Seq: func(c *hl.Seq) {
				walk(c, starts[name], alphabet, 1, part, 4)
				walk(c, starts[name], alphabet, 2, part, 4)
			}})
			hl.Register("C10", hl.Scn{Name: fmt.Sprintf("restart/%s/small/%d", name, part), Seq: func(c *hl.Seq) {
				walk(c, starts[name], small, hl.Pick(2, 4), part, 4)
				if hl.Tier == "quick" && name == "full" {
					walk(c, starts[name], small, 3, part, 4)
				}
			}})
			hl.Register("C10", hl.Scn{Name: fmt.Sprintf("restart/%s/odd/%d", name, part), Seq: func(c *hl.Seq) {
				walk(c, starts[name], odd, 1, part, 4)
				walk(c, starts[name], odd, 2, part, 4)
			}})
			hl.Register("C10", hl.Scn{Name: fmt.Sprintf("restart/%s/triples/%d", name, part), Late: true, Seq: func(c *hl.Seq) {
				walk(c, starts[name], alphabet, 3, part, 4)
			}})
		}
	}
}
