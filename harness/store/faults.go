package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/lxdlam/vertex/mc"
	"github.com/lxdlam/vertex/vharness/hl"
	"github.com/lxdlam/vertex/vharness/srv"
)

// C31: a disk that fails damages nothing.

var errIO = errors.New("input/output error")

// point is one use of the disk.
type point struct {
	op, path string
	size     int
}

// failure: the n-th use of the disk fails, a write after k bytes.
type failure struct{ n, k int }

// faulty is a life in which uses of the disk fail, and every use after the last of them too
// if forever is set.
func faulty(d disk, cmds [][]string, fs []failure, forever bool) (x run1, uses []point) {
	arm = func() {
		uses = nil
		mc.FSFault = func(op, path string, size int) (int, error) {
			uses = append(uses, point{op, path, size})
			i := len(uses) - 1
			for _, f := range fs {
				if f.n == i {
					return f.k, errIO
				}
			}
			if forever && i > fs[len(fs)-1].n {
				return 0, errIO
			}
			return -1, nil
		}
	}
	defer func() { arm, mc.FSFault = nil, nil }()
	x = live(d, cmds)
	return
}

// whole is how many bytes of a file are whole records.
func whole(s string) int {
	n := 0
	for len(s)-n >= 4 {
		l := int(s[n]) | int(s[n+1])<<8 | int(s[n+2])<<16 | int(s[n+3])<<24
		if l < 0 || n+4+l > len(s) {
			break
		}
		n += 4 + l
	}
	return n
}

func parts(p point) []int {
	if p.op != "write" {
		return []int{-1}
	}
	var l []int
	for k := 0; k <= p.size; k++ {
		if k < hl.Pick(3, 6) || k > p.size-3 || k%(1+p.size/hl.Pick(8, 200)) == 0 {
			l = append(l, k)
		}
	}
	return l
}

// disks lets every use of the disk fail, with each amount written; twice: and then every later
// one of that life as well.
func disks(c *hl.Seq, base [][]string, torn int, cmds [][]string, twice bool) {
	title := fmt.Sprintf("%s ; stop ; %d bytes lost ; %s", show(base), torn, show(cmds))
	var d disk
	var good run1
	var uses []point
	c.Try(func() string { return title }, func() string {
		d = disk{}
		if base != nil {
			l := live(d, base)
			if l.bad != "" {
				return l.bad
			}
			d = l.end
			f := d[srv.File]
			if torn > len(f) {
				torn = len(f)
			}
			d[srv.File] = f[:len(f)-torn]
		}
		good, uses = faulty(d, cmds, nil, false)
		return good.bad
	})
	old := d[srv.File]
	old = old[:whole(old)]
	starting := func(p point) bool {
		return p.path == srv.File && (p.op == "open" || p.op == "create" || p.op == "read" || p.op == "truncate")
	}
	// judge runs a life with failures and what follows it
	judge := func(fs []failure, ps []point, forever bool) (uses []point) {
		name := func() string {
			w := title
			for i, f := range fs {
				w += fmt.Sprintf(" ; %s of %s (use %d of the disk, %d of %d bytes) fails", ps[i].op, ps[i].path, f.n, f.k, ps[i].size)
			}
			if forever {
				return w + " from then on"
			}
			return w + " once"
		}
		c.Try(name, func() string {
			var x run1
			x, uses = faulty(d, cmds, fs, forever)
			if x.bad != "" && !strings.Contains(x.bad, "does not start") {
				return x.bad
			}
			early := false
			for _, p := range ps {
				early = early || starting(p)
			}
			if x.bad == "" && !early {
				for i := range good.dumps {
					if i >= len(x.dumps) || x.dumps[i] != good.dumps[i] {
						return "the server replies differently when the disk fails: " + srv.Diff(good.dumps[i], x.dumps[i])
					}
				}
			}
			now := x.end[srv.File]
			if !strings.HasPrefix(now, old) {
				return fmt.Sprintf("records that were in the file are gone: %d bytes of records before, %d bytes of the file afterwards", len(old), len(now))
			}
			// on a healthy disk
			again := live(x.end, after)
			if again.bad != "" {
				return "on a healthy disk: " + again.bad
			}
			ok := false
			for _, w := range good.dumps {
				ok = ok || w == again.dumps[0]
			}
			if !ok {
				return "the data on a healthy disk is not that of a prefix of the history; against all of it: " + srv.Diff(good.dumps[len(good.dumps)-1], again.dumps[0])
			}
			third := live(again.end, nil)
			if third.bad != "" {
				return "and then: " + third.bad
			}
			if w := again.dumps[len(again.dumps)-1]; third.dumps[0] != w {
				return "after the next stop and restart: " + srv.Diff(w, third.dumps[0])
			}
			return ""
		})
		c.Step(3)
		c.States++
		if c.States%499 == 5 {
			c.Sample("%s", name())
		}
		return
	}
	for n, p := range uses {
		if !twice {
			for _, k := range parts(p) {
				for _, forever := range []bool{false, true} {
					if c.Late() {
						return
					}
					judge([]failure{{n, k}}, []point{p}, forever)
				}
			}
			continue
		}
		for _, k := range few(p) {
			// the first failure may change what follows
			_, then := faulty(d, cmds, []failure{{n, k}}, false)
			for m := n + 1; m < len(then); m++ {
				for _, l := range few(then[m]) {
					for _, forever := range []bool{false, true} {
						if c.Late() {
							return
						}
						judge([]failure{{n, k}, {m, l}}, []point{p, then[m]}, forever)
					}
				}
			}
		}
	}
}

// few are the parts that matter most.
func few(p point) []int {
	if p.op != "write" {
		return []int{-1}
	}
	return []int{0, p.size / 2, p.size}
}

func init() {
	hl.QuickSecs["C31"] = 80
	base := [][]string{{"SET", "k", "0"}, {"SADD", "s", "x", "y"}, {"RPUSH", "l", "a"}}
	hs := map[string][][]string{
		"small": {{"SET", "k", "v\xff\r\n"}, {"APPEND", "k", "w"}, {"INCR", "n"}, {"LPOP", "l"}},
		"syncs": {{"SET", "n", "1"}, sync, {"RPUSH", "l", "b"}, sync, sync, {"APPEND", "k", "w"}},
		"big":   {{"APPEND", "k", big}, {"SET", "n", "7"}, {"APPEND", "k", big}, {"INCR", "n"}, {"APPEND", "k", big}, {"HSET", "h", "f", "v"}},
		"huge":  {{"SET", "n", "1"}, {"APPEND", "k", huge}, {"INCR", "n"}, sync, {"LPOP", "l"}, {"APPEND", "k", huge}, {"INCR", "n"}},
		"reads": {{"GET", "k"}, sync},
		"none":  {},
	}
	for name, h := range hs {
		h := h
		for _, fresh := range []bool{true, false} {
			b := base
			if fresh {
				b = nil
			}
			hl.Register("C31", hl.Scn{Name: fmt.Sprintf("disk/%s/fresh=%v", name, fresh), Seq: func(c *hl.Seq) { disks(c, b, 0, h, false) }})
		}
		hl.Register("C31", hl.Scn{Name: "disk/" + name + "/torn", Late: name == "huge", Seq: func(c *hl.Seq) {
			for torn := 1; torn < hl.Pick(30, 60); torn += hl.Pick(5, 1) {
				disks(c, base, torn, h, false)
			}
		}})
	}
	for name, h := range hs {
		h := h
		hl.Register("C31", hl.Scn{Name: "disk/" + name + "/twice", Late: name == "huge", Seq: func(c *hl.Seq) {
			disks(c, nil, 0, h, true)
			disks(c, base, 0, h, true)
			for torn := 1; torn < hl.Pick(30, 60); torn += hl.Pick(9, 1) {
				disks(c, base, torn, h, true)
			}
		}})
	}
	for i := range crashAlphabet {
		i := i
		hl.Register("C31", hl.Scn{Name: fmt.Sprintf("disk/histories/%d", i), Seq: func(c *hl.Seq) {
			for _, a := range crashAlphabet {
				if hl.Tier == "thorough" {
					for _, b := range crashAlphabet {
						disks(c, base, 0, [][]string{crashAlphabet[i], a, b}, false)
					}
				}
				if hl.Tier == "thorough" {
					disks(c, base, 0, [][]string{crashAlphabet[i], a}, false)
				}
				disks(c, base, 0, [][]string{crashAlphabet[i], sync, a}, false)
			}
		}})
	}
	// the file takes several reads
	hl.Register("C31", hl.Scn{Name: "disk/many-reads", Seq: func(c *hl.Seq) {
		for _, size := range []int{2000, 4000, 4090, 5000, 9000} {
			for n := 2; n <= hl.Pick(3, 6); n++ {
				b := [][]string{{"SADD", "s", "x", "y"}}
				for i := 0; i < n; i++ {
					b = append(b, []string{"APPEND", "k", strings.Repeat("y", size)}, []string{"RPUSH", "l", "a"})
				}
				for _, torn := range []int{0, 3} {
					disks(c, b, torn, [][]string{{"INCR", "n"}, {"LPOP", "l"}}, false)
				}
			}
		}
	}})
}
