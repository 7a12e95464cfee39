package main

import (
	"fmt"
	"hash/fnv"
	"sort"
	"strings"

	"github.com/lxdlam/vertex/mc"
	"github.com/lxdlam/vertex/pkg/common"
	"github.com/lxdlam/vertex/vharness/hl"
	"github.com/lxdlam/vertex/vharness/srv"
)

// C11: a crash at any point leaves a file that yields a prefix of the history, and service
// goes on from there.

// disk is the content of the files.
type disk map[string]string

func (d disk) clone() disk {
	n := disk{}
	for k, v := range d {
		n[k] = v
	}
	return n
}

func (d disk) key() uint64 {
	var l []string
	for k := range d {
		l = append(l, k)
	}
	sort.Strings(l)
	h := fnv.New64a()
	for _, k := range l {
		fmt.Fprintf(h, "%s\x00%d\x00%s\x00", k, len(d[k]), d[k])
	}
	return h.Sum64()
}

func (d disk) String() string {
	var l []string
	for k, v := range d {
		l = append(l, fmt.Sprintf("%s:%d", k, len(v)))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func (d disk) put() {
	for k, v := range d {
		mc.FSPut(k, []byte(v))
	}
}

func temporary(p string) bool { return strings.HasPrefix(p, "/tmp/") }

// images calls f with every state the disk goes through: before and after every effect, and
// with every part of every write.
func images(base disk, ops []mc.FSOp, f func(d disk, op int, cut int, size int)) {
	d := base.clone()
	f(d, 0, 0, 0)
	for i, o := range ops {
		if temporary(o.Path) {
			continue
		}
		switch o.Op {
		case "create":
			d[o.Path] = ""
		case "write":
			old := d[o.Path]
			for n := 1; n <= len(o.Data); n++ {
				d[o.Path] = patch(old, int(o.Off), string(o.Data[:n]))
				f(d, i+1, n, len(o.Data))
			}
			continue
		case "truncate":
			old := d[o.Path]
			if int(o.Size) < len(old) {
				old = old[:o.Size]
			} else {
				old += strings.Repeat("\x00", int(o.Size)-len(old))
			}
			d[o.Path] = old
		case "remove":
			delete(d, o.Path)
		case "rename":
			d[string(o.Data)] = d[o.Path]
			delete(d, o.Path)
		default:
			continue
		}
		f(d, i+1, 0, 0)
	}
}

func patch(old string, off int, data string) string {
	if off >= len(old) {
		return old + strings.Repeat("\x00", off-len(old)) + data
	}
	end := ""
	if off+len(data) < len(old) {
		end = old[off+len(data):]
	}
	return old[:off] + data + end
}

// run1 is a life with a dump after every command: dumps[0] is the state after the start.
type run1 struct {
	dumps []string
	start disk
	ops   []mc.FSOp
	end   disk
	bad   string
}

var sync = srv.Raw("a replica syncs")

func conf() common.Config {
	c := srv.Conf(srv.File)
	c.EnableReplica, c.ReplicaPort = true, srv.ReplicaPort
	return c
}

// arm, if set, prepares the disk of a life.
var arm func()

// live runs one life on the disk with the commands.
func live(d disk, cmds [][]string) (x run1) {
	x.start = d.clone()
	x.bad = hl.Under(func() string {
		d.put()
		if arm != nil {
			arm()
		}
		defer srv.Draws(1)()
		s := srv.Start(conf())
		if s == nil {
			return "the server does not start"
		}
		c := srv.Dial(srv.Port)
		if c == nil {
			return "the server does not accept a client"
		}
		x.dumps = []string{dump(c)}
		for _, a := range cmds {
			if a[1] == sync[1] {
				r, err := mc.HDial(srv.ReplicaPort)
				if err != nil {
					return "the master does not accept a replica"
				}
				for b := make([]byte, 1<<16); ; {
					if _, err := r.Read(b); err != nil {
						break
					}
				}
				_ = r.Close()
			} else if _, err := c.Cmd(a...); err != nil {
				return fmt.Sprintf("%.100q: %v", a, err)
			}
			x.dumps = append(x.dumps, dump(c))
		}
		c.Close()
		s.Stop()
		x.ops = append([]mc.FSOp(nil), mc.FSOps()...)
		return ""
	})
	d = x.start.clone()
	images(x.start, x.ops, func(m disk, _, _, _ int) { d = m.clone() })
	x.end = d
	return
}

// crasher explores the crash points of histories.
type crasher struct {
	c     *hl.Seq
	seen  map[uint64]bool // disks after a crash in a first life
	every bool            // all cuts in later lives too

	part, parts int // only cuts of this residue
	stride      int // only every so many cuts in the middle of a large write
}

// around are cuts of a write near its ends and near the ends of a record's parts
func around(cut, size int) bool {
	return cut < 6 || cut >= size-1 || cut%37 == 0
}

// crash explores every crash point of a life: the next life finds a prefix of what the
// crashed one had, runs next[0], and what it has then survives a stop; and so on.
func (x *crasher) crash(title string, l run1, next [][][]string, level int) {
	images(l.start, l.ops, func(d disk, op, cut, size int) {
		if x.c.Late() || (level > 0 && !x.every && !around(cut, size)) {
			return
		}
		if x.parts > 0 && cut%x.parts != x.part || x.stride > 0 && !around(cut, size) && (cut/x.parts)%x.stride != 0 {
			return
		}
		if level == 0 {
			k := d.key()
			if x.seen[k] {
				return
			}
			x.seen[k] = true
		}
		x.c.States++
		if level+1 > x.c.MaxDepth {
			x.c.MaxDepth = level + 1
		}
		img := d.clone()
		cmds := next[0]
		name := func() string {
			return fmt.Sprintf("%s ; crash after effect %d, byte %d of %d (%v) ; %s", title, op, cut, size, img, show(cmds))
		}
		var got run1
		x.c.Try(name, func() string {
			got = live(img, cmds)
			if got.bad != "" {
				return got.bad
			}
			for _, w := range l.dumps {
				if got.dumps[0] == w {
					return ""
				}
			}
			return fmt.Sprintf("the recovered data is not that of a prefix of the history; against all of it: %s", srv.Diff(l.dumps[len(l.dumps)-1], got.dumps[0]))
		})
		x.c.Step(1 + len(cmds))
		if len(cmds) > 0 {
			x.c.Try(name, func() string {
				again := live(got.end, nil)
				if again.bad != "" {
					return "after the next stop: " + again.bad
				}
				if w := got.dumps[len(got.dumps)-1]; again.dumps[0] != w {
					return "after the next stop and restart: " + srv.Diff(w, again.dumps[0])
				}
				return ""
			})
			x.c.Step(1)
		}
		if len(next) > 1 {
			x.crash(name(), got, next[1:], level+1)
		}
		if x.c.States%999 == 5 {
			x.c.Sample("%s", name())
		}
	})
}

// history runs lives with stops between them and explores the crashes of the last one.
func (x *crasher) history(lives [][][]string, next [][][]string) {
	d := disk{}
	var l run1
	title := showLives(lives)
	for _, cmds := range lives {
		x.c.Try(func() string { return title }, func() string {
			l = live(d, cmds)
			return l.bad
		})
		x.c.Step(len(cmds))
		d = l.end
	}
	x.crash(title, l, next, 0)
}

var crashAlphabet = [][]string{
	{"SET", "k", "v\xff\r\n"}, {"APPEND", "k", "w"}, {"INCR", "n"}, {"MSET", "k", "1", "n", "2"},
	{"RPUSH", "l", "a", "b"}, {"LPOP", "l"}, {"HSET", "h", "f", "v"}, {"SADD", "s", "a", "b", "c"}, {"SPOP", "s"}, {"GET", "k"}, sync,
}

var after = [][]string{{"APPEND", "k", "!"}, {"RPUSH", "l", "z"}}

func init() {
	start := [][]string{{"SET", "k", "0"}, {"SADD", "s", "x", "y"}}
	for i := range crashAlphabet {
		i := i
		// every history of up to three (four) commands, every crash point
		hl.Register("C11", hl.Scn{Name: fmt.Sprintf("crash/histories/%d", i), Seq: func(c *hl.Seq) {
			x := &crasher{c: c, seen: map[uint64]bool{}}
			seq := [][]string{crashAlphabet[i]}
			var rec func(n int)
			rec = func(n int) {
				if c.Late() {
					return
				}
				if n == 0 {
					x.history([][][]string{append([][]string(nil), seq...)}, [][][]string{after})
					return
				}
				for _, a := range crashAlphabet {
					seq = append(seq, a)
					rec(n - 1)
					seq = seq[:len(seq)-1]
				}
			}
			rec(hl.Pick(1, 3))
		}})
		// crashes of a life after a restart, and crashes of the life after the crash
		hl.Register("C11", hl.Scn{Name: fmt.Sprintf("crash/second/%d", i), Seq: func(c *hl.Seq) {
			x := &crasher{c: c, seen: map[uint64]bool{}, every: hl.Tier == "thorough"}
			x.history([][][]string{start, {crashAlphabet[i]}}, [][][]string{{after[0], sync}, {after[1]}})
		}})
		hl.Register("C11", hl.Scn{Name: fmt.Sprintf("crash/third/%d", i), Late: true, Seq: func(c *hl.Seq) {
			x := &crasher{c: c, seen: map[uint64]bool{}}
			x.history([][][]string{{start[0], crashAlphabet[i]}}, [][][]string{{after[0]}, {sync, after[1]}, {after[0]}})
		}})
	}
	// every command of the large alphabet between two others
	for part := 0; part < 8; part++ {
		part := part
		hl.Register("C11", hl.Scn{Name: fmt.Sprintf("crash/every/%d", part), Seq: func(c *hl.Seq) {
			fill := [][]string{{"MSET", "k", "v", "n", "41"}, {"RPUSH", "l", "a", "b", "a"}, {"HSET", "h", "f", "1", "g", "2"}, {"SADD", "s", "a", "b", "c", "d"}}
			for i, a := range alphabet {
				if i%8 == part {
					x := &crasher{c: c, seen: map[uint64]bool{}}
					x.history([][][]string{fill, {a, {"SET", "n", "0"}}}, [][][]string{after[:1]})
				}
			}
		}})
	}
	// writes that are longer than the file's buffer, or fill it
	bigs := map[string][][]string{
		"fill":  {{"APPEND", "k", big}, {"APPEND", "k", big}, {"APPEND", "k", "w"}, {"APPEND", "k", big}},
		"huge":  {{"SET", "n", "1"}, {"APPEND", "k", huge}, {"INCR", "n"}},
		"many":  {{"SADD", "s", "a", "b", "c"}, {"RPUSH", "l", big, "x"}, sync, {"SPOP", "s"}, {"LPOP", "l"}, sync, {"SET", "k", big}, {"INCR", "n"}},
		"twice": {{"APPEND", "k", huge}, {"APPEND", "k", huge}},
	}
	for name, h := range bigs {
		for part := 0; part < 4; part++ {
			h, part := h, part
			hl.Register("C11", hl.Scn{Name: fmt.Sprintf("crash/large/%s/%d", name, part), Seq: func(c *hl.Seq) {
				x := &crasher{c: c, seen: map[uint64]bool{}}
				x.part, x.parts = part, 4
				if hl.Tier == "quick" {
					x.stride = 7
				}
				x.history([][][]string{h}, [][][]string{after[:1]})
			}})
		}
	}
}
