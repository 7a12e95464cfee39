package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/lxdlam/vertex/pkg/log"
	"github.com/lxdlam/vertex/pkg/protocol"
	"github.com/lxdlam/vertex/vharness/hl"
)

// C09: log records round-trip, and a prefix of the bytes gives a prefix of the records.

// rec is a record with what it must be decoded to, taken when it was made.
type rec struct {
	name string
	want string
	buf  []byte
}

// content writes everything a record holds.
func content(v *log.VertexLog) string {
	s := fmt.Sprintf("%q %d %q %q %d %d:", v.GetId(), v.GetTime(), v.GetHost(), v.GetName(), v.GetIndex(), len(v.GetArguments()))
	for _, a := range v.GetArguments() {
		s += fmt.Sprintf("%d %x ", len(a), a)
	}
	return s + fmt.Sprintf("/ %x", v.GetRawRequest())
}

func pack(name string, v *log.VertexLog) rec {
	w := content(v)
	b, err := log.PackLog(v)
	if err != nil {
		panic(fmt.Sprintf("record %s cannot be encoded: %v", name, err))
	}
	if content(v) != w {
		panic("encoding changed record " + name)
	}
	return rec{name, w, b}
}

// request makes the record of a request given as a value.
func request(name string, index int, v hl.Val) rec {
	o, err := protocol.Parse(strings.NewReader(v.Encode()))
	if err != nil {
		panic("harness: " + err.Error())
	}
	objs := o.(protocol.RedisArray).Data()
	l := log.NewLog(name, index, objs)
	var args []string
	for _, a := range v.A[1:] {
		args = append(args, a.Encode())
	}
	// what is in the record is what was in the request
	var have []string
	for _, a := range l.GetArguments() {
		have = append(have, string(a))
	}
	if fmt.Sprintf("%q", have) != fmt.Sprintf("%q", args) || l.GetName() != name || int(l.GetIndex()) != index || string(l.GetRawRequest()) != v.Encode() {
		panic(fmt.Sprintf("the record of %v is %s", v, content(l)))
	}
	return pack(fmt.Sprintf("%.60v", v), l)
}

func menu() []rec {
	return []rec{
		request("SET", 1, hl.Cmd("SET", "k", "v")),
		request("PING", 1, hl.Cmd("PING")),
		request("SET", 2, hl.Cmd("SET", "\xff\x00\x80", "\r\n$5\r\n")),
		request("MSET", -1, hl.Cmd("MSET", "", "", "", "")),
		request("lrem", 1<<31-1, hl.Arr(hl.Val{Kind: '+', S: "lrem"}, hl.Val{Kind: ':', N: -1 << 63}, hl.Val{Kind: '$', Null: true},
			hl.Val{Kind: '*', Null: true}, hl.Arr(hl.Bulk("a\xfe"), hl.Arr()), hl.Val{Kind: '-', S: "ERR x"})),
		pack("empty strings", &log.VertexLog{Index: 1, Arguments: [][]byte{{}, nil, {0}}}),
		pack("only a time", &log.VertexLog{Time: -1}),
		pack("only a name", &log.VertexLog{Name: "x"}),
	}
}

// sized is a record whose encoding is exactly n bytes long.
func sized(n int) rec {
	for k := n; k >= 0; k-- {
		r := pack(fmt.Sprintf("%d bytes", n), &log.VertexLog{Name: "S", Arguments: [][]byte{bytes.Repeat([]byte{0xfe}, k)}})
		if len(r.buf) == n {
			return r
		}
		if len(r.buf) < n {
			// the length prefix grew by one: fill up with the name
			for j := 1; j < 8; j++ {
				r = pack(fmt.Sprintf("%d bytes", n), &log.VertexLog{Name: strings.Repeat("S", 1+j), Arguments: [][]byte{bytes.Repeat([]byte{0xfe}, k)}})
				if len(r.buf) == n {
					return r
				}
			}
		}
		if k-(len(r.buf)-n) > 0 && len(r.buf)-n > 1 {
			k -= len(r.buf) - n - 1
		}
	}
	panic("harness: no record of that size")
}

var errBroken = errors.New("broken")

// chunked is a reader that returns the bytes in the given pieces and then err; with tail,
// the error comes together with the last bytes.
type chunked struct {
	b     []byte
	sizes []int // cyclic
	i     int
	err   error
	tail  bool
}

func (r *chunked) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, r.err
	}
	n := len(r.b)
	if len(r.sizes) > 0 {
		n = r.sizes[r.i%len(r.sizes)]
		r.i++
	}
	if n > len(r.b) {
		n = len(r.b)
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, r.b[:n])
	r.b = r.b[n:]
	if len(r.b) == 0 && r.tail {
		return n, r.err
	}
	return n, nil
}

// decode compares what a reader over a prefix of the records gives.
func decode(rs []rec, cut int, r io.Reader, broken bool) string {
	logs, err := log.ParseLog(r)
	n, pos := 0, 0
	for n < len(rs) && pos+len(rs[n].buf) <= cut {
		pos += len(rs[n].buf)
		n++
	}
	if broken {
		if err == nil {
			return fmt.Sprintf("a reader that breaks after %d bytes gives no error", cut)
		}
		if len(logs) > n {
			return fmt.Sprintf("%d records out of %d complete ones", len(logs), n)
		}
		n = len(logs)
	} else if (err != nil) != (pos != cut) {
		return fmt.Sprintf("%d bytes (%d records and %d more bytes): the error is %v", cut, n, cut-pos, err)
	}
	if len(logs) != n {
		return fmt.Sprintf("%d bytes give %d records instead of %d", cut, len(logs), n)
	}
	for i, l := range logs {
		if l == nil {
			return "a nil record"
		}
		if c := content(l); c != rs[i].want {
			return fmt.Sprintf("record %d is %.300s instead of %.300s", i, c, rs[i].want)
		}
	}
	return ""
}

func names(rs []rec) string {
	var l []string
	for _, r := range rs {
		l = append(l, r.name)
	}
	return strings.Join(l, " ; ")
}

func all(rs []rec) []byte {
	var b []byte
	for _, r := range rs {
		b = append(b, r.buf...)
	}
	return b
}

// prefixes decodes the given prefixes of the records in several ways.
func prefixes(c *hl.Seq, rs []rec, cuts []int, level int) {
	b := all(rs)
	c.Try(func() string { return fmt.Sprintf("records %s (%d bytes)", names(rs), len(b)) }, func() string {
		for _, n := range cuts {
			readers := []*chunked{
				{b: b[:n], err: io.EOF},
				{b: b[:n], sizes: []int{1}, err: io.EOF},
				{b: b[:n], sizes: []int{3, 0, 1, 4}, err: io.EOF, tail: true},
				{b: b[:n], err: errBroken},
				{b: b[:n], sizes: []int{2}, err: errBroken, tail: true},
			}
			if level == 0 {
				readers = []*chunked{readers[0], readers[2], readers[3]}
			}
			for _, r := range readers {
				broken := r.err == errBroken
				if m := decode(rs, n, r, broken); m != "" {
					return m
				}
				c.Step(1)
			}
		}
		return ""
	})
	c.States += int64(len(cuts))
}

func upTo(n int) []int {
	l := make([]int, n+1)
	for i := range l {
		l[i] = i
	}
	return l
}

func init() {
	for part := 0; part < 8; part++ {
		part := part
		hl.Register("C09", hl.Scn{Name: fmt.Sprintf("log/sequences/%d", part), Seq: func(c *hl.Seq) {
			var m []rec
			c.Try(func() string { return "the record menu" }, func() string { m = menu(); return "" })
			var seq []rec
			var rec func(n int)
			rec = func(n int) {
				if c.Late() {
					return
				}
				prefixes(c, seq, upTo(len(all(seq))), hl.Pick(0, 1))
				if len(seq) > c.MaxDepth {
					c.MaxDepth = len(seq)
				}
				if n == 0 {
					return
				}
				for i, r := range m {
					if len(seq) == 0 && i != part {
						continue
					}
					seq = append(seq, r)
					rec(n - 1)
					seq = seq[:len(seq)-1]
				}
			}
			rec(hl.Pick(3, 4))
			c.Sample("every prefix of %s ; ...", m[part].name)
		}})
		hl.Register("C09", hl.Scn{Name: fmt.Sprintf("log/splits/%d", part), Seq: func(c *hl.Seq) {
			// every way to read a stream in three pieces
			m := menu()
			for j := range m {
				rs := []rec{m[part], m[j], m[(part+j)%len(m)]}
				b := all(rs)
				for i := 0; i <= len(b); i++ {
					i := i
					if c.Late() {
						return
					}
					c.Try(func() string { return fmt.Sprintf("records %s read in pieces, first %d bytes", names(rs), i) }, func() string {
						for k := i; k <= len(b); k += hl.Pick(3, 1) {
							if m := decode(rs, len(b), &chunked{b: b, sizes: []int{i, k - i, len(b)}, err: io.EOF}, false); m != "" {
								return m
							}
							c.Step(1)
						}
						return ""
					})
					c.States++
				}
			}
		}})
	}
	// sizes around the powers of 256 in the length and the sizes of buffers
	var sizes []int
	for _, n := range []int{128, 256, 512, 4096, 8192, 16384, 65536, 1 << 24} {
		for d := -6; d <= 6; d++ {
			sizes = append(sizes, n+d)
		}
	}
	for part := 0; part < 8; part++ {
		part := part
		hl.Register("C09", hl.Scn{Name: fmt.Sprintf("log/sizes/%d", part), Seq: func(c *hl.Seq) {
			small := menu()[0]
			for i, n := range sizes {
				if i%8 != part {
					continue
				}
				if c.Late() {
					return
				}
				n := n
				var r rec
				c.Try(func() string { return fmt.Sprintf("a record of %d bytes", n) }, func() string { r = sized(n); return "" })
				rs := []rec{r, small, r, small}
				total := len(all(rs))
				var cuts []int
				for _, x := range []int{0, n, n + len(small.buf), 2*n + len(small.buf), total, 4096, 8192, n + 4096} {
					for d := -9; d <= 9; d++ {
						if x+d >= 0 && x+d <= total {
							cuts = append(cuts, x+d)
						}
					}
				}
				if n > 1<<20 {
					rs = rs[:2]
					total = len(all(rs))
					cuts = []int{0, 1, 4, 5, n - 1, n, n + 1, n + 4, total - 1, total}
				}
				prefixes(c, rs, cuts, 0)
			}
		}})
	}
	// records that are not built by the program's own constructor
	hl.Register("C09", hl.Scn{Name: "log/fields", Seq: func(c *hl.Seq) {
		strs := []string{"", "a", "é", "\x00", strings.Repeat("y", 300)}
		args := [][][]byte{nil, {nil}, {{}}, {{}, {}}, {[]byte("x")}, {{0xff, 0xfe}, {}, {0}}, {bytes.Repeat([]byte{0x80}, 200)}}
		var rs []rec
		for _, id := range strs {
			for _, name := range strs {
				for _, host := range []string{"", "::1"} {
					for _, a := range args {
						for _, t := range []int64{0, 1, -1, 1 << 62, -1 << 63} {
							for _, ix := range []int32{0, 1, -1, 1<<31 - 1, -1 << 31} {
								v := &log.VertexLog{Id: id, Time: t, Host: host, Name: name, Index: ix, Arguments: a}
								if len(a) > 0 {
									v.RawRequest = a[len(a)-1]
								}
								empty := id == "" && name == "" && host == "" && t == 0 && ix == 0 && len(a) == 0
								c.Try(func() string { return content(v) }, func() string {
									b, err := log.PackLog(v)
									if empty {
										return "" // refused or not
									}
									if err != nil {
										return fmt.Sprintf("not encoded: %v", err)
									}
									r := rec{"fields", content(v), b}
									rs = append(rs[:0], r, r)
									return decode(rs, 2*len(b), bytes.NewReader(all(rs)), false)
								})
								c.Step(2)
								c.States++
							}
						}
					}
				}
			}
		}
	}})
}
