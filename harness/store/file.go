package main

import (
	"errors"
	"fmt"
	"os"
	"strings"

	"github.com/lxdlam/vertex/mc"
	"github.com/lxdlam/vertex/pkg/log"
	"github.com/lxdlam/vertex/vharness/hl"
)

// C29: writes to the persistent file stay whole, and a flush is complete.

const filePath = "/p.log"

// a write is a run of one letter that no other write uses; size counts in terms of the
// buffer: "S-1" and so on.
type fop struct {
	kind byte   // 'w' Write, 's' WriteString, 'b' WriteByte, 'f' Flush, 'i' the sizes
	size string // of 'w' and 's'
}

func (o fop) String() string { return string(o.kind) + o.size }

func fsize(spec string, s int) int {
	switch spec {
	case "1":
		return 1
	case "7":
		return 7
	case "S/2":
		return s/2 + 3
	case "S-1":
		return s - 1
	case "S":
		return s
	case "S+1":
		return s + 1
	case "2S":
		return 2*s + 5
	}
	return 0
}

type fwrite struct {
	c        byte
	n        int // length
	from, to int // stamps; to is 0 while it runs
	ok       bool
	err      error
}

// pfile is the file under test with what happened to it.
type pfile struct {
	p        *log.PersistentFile
	writes   []*fwrite
	contents []string // after every write to the file
	bad      string
	timed    bool
	clock    int
}

func openFile() *mc.File {
	f, err := mc.OpenFile(filePath, os.O_RDWR|os.O_APPEND|os.O_CREATE, 0755)
	if err != nil {
		mc.Fail("open: %v", err)
	}
	return f
}

func newPFile(timed bool) *pfile {
	x := &pfile{timed: timed}
	f := openFile()
	x.p = log.NewPersistentFile(f)
	mc.FSWatch = func(o mc.FSOp) {
		if o.Path == filePath {
			b, _ := mc.FSGet(filePath)
			x.contents = append(x.contents, string(b))
		}
	}
	return x
}

func (x *pfile) stamp() int {
	if !x.timed {
		x.clock++
		return x.clock
	}
	return mc.Stamp()
}

func (x *pfile) fail(format string, a ...interface{}) {
	if x.bad == "" {
		x.bad = fmt.Sprintf(format, a...)
	}
}

// do runs one operation; w is the record of the write it makes (nil for others).
func (x *pfile) do(o fop, w *fwrite) {
	switch o.kind {
	case 'w', 's', 'b':
		n, err := 1, error(nil)
		w.from = x.stamp()
		switch o.kind {
		case 'w':
			b := []byte(strings.Repeat(string(w.c), w.n))
			n, err = x.p.Write(b)
			for i := range b {
				b[i] = '?' // the caller may use its buffer again
			}
		case 's':
			n, err = x.p.WriteString(strings.Repeat(string(w.c), w.n))
		default:
			err = x.p.WriteByte(w.c)
		}
		w.to = x.stamp()
		w.ok, w.err = err == nil, err
		if err == nil && n != w.n {
			x.fail("a write of %d bytes succeeded with %d", w.n, n)
		}
	case 'f':
		from := x.stamp()
		if x.p.Flush() == nil {
			b, _ := mc.FSGet(filePath)
			for _, w := range x.writes {
				if w.ok && w.to < from && !strings.Contains(string(b), strings.Repeat(string(w.c), w.n)) {
					x.fail("a flush succeeded, and a write of %d bytes that had returned before is not in the file", w.n)
				}
			}
		}
	case 'i':
		b, a, s := x.p.Buffered(), x.p.Available(), x.p.Size()
		if b < 0 || a < 0 || b > s || a > s {
			x.fail("sizes: buffered %d available %d of %d", b, a, s)
		}
	}
}

// parse splits content into whole writes; the last may be a part.
func (x *pfile) parse(content string) (order []*fwrite, last int, bad string) {
	for content != "" {
		c := content[0]
		n := 0
		for n < len(content) && content[n] == c {
			n++
		}
		content = content[n:]
		var w *fwrite
		for _, y := range x.writes {
			if y.c == c {
				w = y
			}
		}
		if w == nil {
			return order, 0, fmt.Sprintf("the file contains %q, which nobody wrote", c)
		}
		for _, y := range order {
			if y == w {
				return order, 0, "a write is split or doubled"
			}
		}
		if n > w.n {
			return order, 0, "a write is doubled"
		}
		if n < w.n && content != "" {
			return order, 0, fmt.Sprintf("%d bytes of a write of %d and then something else", n, w.n)
		}
		order = append(order, w)
		last = n
	}
	return order, last, ""
}

// finish is called when all operations are over: it checks the sizes, flushes and looks at
// everything the file has been.
func (x *pfile) finish(faulty bool) string {
	if x.bad != "" {
		return x.bad
	}
	if !faulty {
		total := 0
		for _, w := range x.writes {
			total += w.n
			if !w.ok {
				return fmt.Sprintf("a write of %d bytes failed: %v", w.n, w.err)
			}
		}
		b, _ := mc.FSGet(filePath)
		bu, av, si := x.p.Buffered(), x.p.Available(), x.p.Size()
		if bu+len(b) != total || bu+av != si {
			return fmt.Sprintf("%d bytes written, %d in the file: buffered %d, available %d, size %d", total, len(b), bu, av, si)
		}
	}
	err := x.p.Flush()
	b, _ := mc.FSGet(filePath)
	order, last, bad := x.parse(string(b))
	if bad != "" {
		return bad
	}
	in := map[*fwrite]bool{}
	for i, w := range order {
		in[w] = i < len(order)-1 || last == w.n
		for _, v := range order[i+1:] {
			if v.to < w.from {
				return "the order of the writes is not the order in time"
			}
		}
	}
	if err == nil {
		for _, w := range x.writes {
			if w.ok && !in[w] {
				return fmt.Sprintf("the last flush succeeded and a successful write of %d bytes is not in the file", w.n)
			}
		}
		if !faulty && x.p.Buffered() != 0 {
			return "something is buffered after a flush"
		}
	} else if !faulty {
		return fmt.Sprintf("flushing failed: %v", err)
	}
	for _, c := range x.contents {
		if !strings.HasPrefix(string(b), c) {
			return fmt.Sprintf("the file held %d bytes that are no prefix of its final content", len(c))
		}
	}
	return ""
}

func (x *pfile) plan(ops []fop) []*fwrite {
	var l []*fwrite
	for _, o := range ops {
		var w *fwrite
		if o.kind == 'w' || o.kind == 's' || o.kind == 'b' {
			w = &fwrite{c: byte('A' + len(x.writes)), n: 1}
			if o.kind != 'b' {
				w.n = fsize(o.size, x.p.Size())
			}
			x.writes = append(x.writes, w)
		}
		l = append(l, w)
	}
	return l
}

var fmenu = []fop{{'w', "7"}, {'s', "7"}, {'b', ""}, {'w', "S/2"}, {'w', "S-1"}, {'w', "S"}, {'w', "S+1"}, {'s', "S+1"}, {'w', "2S"}, {'s', "2S"}, {'f', ""}, {'i', ""}}

var errDisk = errors.New("no space left on device")

func init() {
	for i := range fmenu {
		i := i
		hl.Register("C29", hl.Scn{Name: fmt.Sprintf("file/sequences/%v", fmenu[i]), Seq: func(c *hl.Seq) {
			depth := hl.Pick(4, 5)
			seq := []fop{fmenu[i]}
			var rec func()
			rec = func() {
				if c.Late() {
					return
				}
				runSeq(c, seq)
				if len(seq) > c.MaxDepth {
					c.MaxDepth = len(seq)
				}
				if len(seq) == depth {
					return
				}
				for _, o := range fmenu {
					seq = append(seq, o)
					rec()
					seq = seq[:len(seq)-1]
				}
			}
			rec()
		}})
	}
	progs := [][][]fop{
		{{{'w', "7"}, {'w', "S"}}, {{'w', "S-1"}, {'f', ""}}},
		{{{'w', "7"}, {'f', ""}}, {{'s', "7"}, {'f', ""}}},
		{{{'w', "S+1"}}, {{'w', "2S"}}, {{'w', "7"}}},
		{{{'w', "S/2"}, {'w', "S/2"}}, {{'s', "S/2"}, {'b', ""}}},
		{{{'w', "7"}, {'i', ""}}, {{'w', "S"}, {'f', ""}}, {{'i', ""}}},
		{{{'w', "7"}}, {{'w', "S-1"}}, {{'f', ""}, {'f', ""}}},
		{{{'s', "2S"}, {'w', "7"}}, {{'b', ""}, {'s', "S-1"}}},
		{{{'w', "7"}, {'w', "7"}}, {{'w', "S"}}, {{'f', ""}}, {{'i', ""}}},
	}
	for i, p := range progs {
		p := p
		body := func() { concurrent(p) }
		sc := hl.Scn{Name: fmt.Sprintf("file/schedules/%d", i), Body: body, Quick: 3, Thorough: -1, Race: 2}
		if len(p) > 3 {
			sc.Quick = 2
		}
		hl.Register("C29", sc)
	}
}

// runSeq runs a sequence of operations alone, without a fault and with one at every write.
func runSeq(c *hl.Seq, ops []fop) {
	one := func(at, part int) (writes int) {
		c.Try(func() string {
			if at < 0 {
				return fmt.Sprint(ops)
			}
			return fmt.Sprintf("%v, the file fails from its write %d on (part %d)", ops, at, part)
		}, func() string {
			writes = 0
			return hl.Under(func() string {
				x := newPFile(false)
				if at >= 0 {
					mc.FSFault = func(op, path string, size int) (int, error) {
						if op != "write" {
							return -1, nil
						}
						if writes++; writes-1 < at {
							return -1, nil
						}
						if writes-1 > at {
							if part >= 10 { // only once
								return -1, nil
							}
							return 0, errDisk
						}
						switch part % 10 {
						case 0:
							return 0, errDisk
						case 1:
							return 1, errDisk
						case 2:
							return size / 2, errDisk
						}
						return size - 1, errDisk
					}
				} else {
					mc.FSFault = func(op, path string, size int) (int, error) {
						if op == "write" {
							writes++
						}
						return -1, nil
					}
				}
				defer func() { mc.FSFault, mc.FSWatch = nil, nil }()
				ws := x.plan(ops)
				for i, o := range ops {
					x.do(o, ws[i])
				}
				hit := at >= 0 && writes > at
				if m := x.finish(at >= 0); m != "" {
					return m
				}
				if hit {
					for _, w := range ws {
						if w != nil && !w.ok {
							return ""
						}
					}
					// nobody was told: the last flush must have failed
					if x.p.Flush() == nil {
						b, _ := mc.FSGet(filePath)
						for _, w := range ws {
							if w != nil && !strings.Contains(string(b), strings.Repeat(string(w.c), w.n)) {
								return "the file failed, and nothing reported it"
							}
						}
					}
				}
				return ""
			})
		})
		c.Step(len(ops))
		c.States++
		return
	}
	n := one(-1, 0)
	for at := 0; at < n; at++ {
		for _, part := range []int{0, 1, 2, 3, 10, 12} {
			one(at, part)
		}
	}
}

// concurrent runs every program in its own goroutine.
func concurrent(progs [][]fop) {
	x := newPFile(true)
	defer func() { mc.FSWatch = nil }()
	var plans [][]*fwrite
	for _, p := range progs {
		plans = append(plans, x.plan(p))
	}
	var ts []*mc.Task
	for i := range progs {
		i := i
		ts = append(ts, mc.Spawn(func() {
			for j, o := range progs[i] {
				x.do(o, plans[i][j])
			}
		}))
	}
	for _, t := range ts {
		t.Join()
	}
	if m := x.finish(false); m != "" {
		mc.Fail("%s", m)
	}
}
