// The harness of the protocol: encoding, decoding and the totality of the reader.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/lxdlam/vertex/pkg/protocol"
	"github.com/lxdlam/vertex/vharness/hl"
)

func main() { hl.Main() }

// build makes the object through the public constructors.
func build(v hl.Val) protocol.RedisObject {
	switch v.Kind {
	case '+':
		return protocol.NewSimpleRedisString(v.S)
	case '-':
		return protocol.NewRedisError(v.S)
	case ':':
		return protocol.NewRedisInteger(v.N)
	case '$':
		if v.Null {
			return protocol.NewNullBulkRedisString()
		}
		return protocol.NewBulkRedisString(v.S)
	}
	if v.Null {
		return protocol.NewNullRedisArray()
	}
	var l []protocol.RedisObject
	for _, x := range v.A {
		l = append(l, build(x))
	}
	return protocol.NewRedisArray(l)
}

// look compares everything an object shows with the value it should be.
func look(o protocol.RedisObject, v hl.Val) string {
	if o == nil {
		return fmt.Sprintf("nil instead of %v", v)
	}
	enc := v.Encode()
	if o.String() != enc {
		return fmt.Sprintf("the text of %.200v is %.200q instead of %.200q", v, o.String(), enc)
	}
	if string(o.Byte()) != enc {
		return fmt.Sprintf("the bytes of %.200v are %.200q instead of %.200q", v, o.Byte(), enc)
	}
	if o.Type() != string(v.Kind) {
		return fmt.Sprintf("the type of %.200v is %q", v, o.Type())
	}
	switch v.Kind {
	case '+', '$':
		s, ok := o.(protocol.RedisString)
		if !ok {
			return fmt.Sprintf("%.200v is a %T", v, o)
		}
		if s.Data() != v.S {
			return fmt.Sprintf("the content of %.200v is %.200q", v, s.Data())
		}
	case '-':
		s, ok := o.(protocol.RedisError)
		if !ok {
			return fmt.Sprintf("%.200v is a %T", v, o)
		}
		if s.Message() != v.S || s.Error() == nil || s.Error().Error() != v.S {
			return fmt.Sprintf("the message of %.200v is %.200q and its error is %.200v", v, s.Message(), s.Error())
		}
	case ':':
		s, ok := o.(protocol.RedisInteger)
		if !ok {
			return fmt.Sprintf("%.200v is a %T", v, o)
		}
		if s.Data() != v.N {
			return fmt.Sprintf("the number of %.200v is %d", v, s.Data())
		}
	case '*':
		s, ok := o.(protocol.RedisArray)
		if !ok {
			return fmt.Sprintf("%.200v is a %T", v, o)
		}
		d := s.Data()
		if len(d) != len(v.A) {
			return fmt.Sprintf("%.200v has %d elements", v, len(d))
		}
		for i := range d {
			if m := look(d[i], v.A[i]); m != "" {
				return fmt.Sprintf("element %d: %s", i, m)
			}
		}
	}
	return ""
}

var errBroken = errors.New("the wire is broken")

// chunks delivers data in pieces; after limit bytes it fails the harness's expectation.
type chunks struct {
	data  string
	cuts  []int // ascending positions at which a read stops
	pos   int
	end   error // returned after the data
	asEOF bool  // end comes together with the last bytes
	zero  bool  // an empty read before every chunk
	z     bool
	over  bool // a read was asked for after the data ended
	reads int
}

func (c *chunks) Read(p []byte) (int, error) {
	c.reads++
	if c.reads > 10*len(c.data)+1000 {
		panic("the reader keeps reading")
	}
	if c.zero && !c.z {
		c.z = true
		return 0, nil
	}
	c.z = false
	if c.pos >= len(c.data) {
		c.over = true
		return 0, c.end
	}
	n := len(c.data)
	for _, x := range c.cuts {
		if x > c.pos {
			n = x
			break
		}
	}
	k := copy(p, c.data[c.pos:n])
	c.pos += k
	if c.asEOF && c.pos == len(c.data) {
		return k, c.end
	}
	return k, nil
}

func everyByte(n int) []int {
	l := make([]int, n)
	for i := range l {
		l[i] = i + 1
	}
	return l
}

// readAll decodes the sequence of values and the end of the stream.
func readAll(r *chunks, want []hl.Val) string {
	rd := protocol.NewRESPReader(r)
	for i, v := range want {
		o, err := rd.ReadObject()
		if err != nil {
			return fmt.Sprintf("value %d (%.200v): error %.300v", i, v, err)
		}
		if m := look(o, v); m != "" {
			return fmt.Sprintf("value %d: %s", i, m)
		}
	}
	o, err := rd.ReadObject()
	if err == nil {
		return fmt.Sprintf("after the last value another one is read: %.200q", o)
	}
	if !errors.Is(err, r.end) {
		return fmt.Sprintf("after the last value the error is %v instead of %v", err, r.end)
	}
	return ""
}

// exact checks that the values are delivered although nothing after them has arrived.
func exact(enc []string, want []hl.Val) string {
	r := &fed{}
	rd := protocol.NewRESPReader(r)
	for i, v := range want {
		r.data = enc[i]
		o, err := rd.ReadObject()
		if err != nil {
			return fmt.Sprintf("value %d (%.200v): error %.300v", i, v, err)
		}
		if m := look(o, v); m != "" {
			return fmt.Sprintf("value %d: %s", i, m)
		}
		if r.data != "" {
			return fmt.Sprintf("value %d (%.200v) was returned before its last %d bytes were read", i, v, len(r.data))
		}
	}
	return ""
}

// fed delivers what it was given and then would block: being asked for more is a failure.
type fed struct{ data string }

func (f *fed) Read(p []byte) (int, error) {
	if f.data == "" {
		return 0, errors.New("would block although the value is complete")
	}
	n := copy(p, f.data)
	f.data = f.data[n:]
	return n, nil
}

func enc(vs []hl.Val) (string, []string) {
	var b strings.Builder
	var l []string
	for _, v := range vs {
		e := v.Encode()
		l = append(l, e)
		b.WriteString(e)
	}
	return b.String(), l
}

// decodeAllWays decodes the values under the given ways to split their bytes.
func decodeAllWays(c *hl.Seq, vs []hl.Val, full bool) {
	s, l := enc(vs)
	n := len(s)
	try := func(r func() *chunks) {
		c.Try(func() string { x := r(); return fmt.Sprintf("%.300q split at %v", s, x.cuts) }, func() string { return readAll(r(), vs) })
		c.Step(len(vs))
	}
	try(func() *chunks { return &chunks{data: s, end: io.EOF} })
	try(func() *chunks { return &chunks{data: s, end: io.EOF, asEOF: true} })
	try(func() *chunks { return &chunks{data: s, end: errBroken, cuts: everyByte(n)} })
	try(func() *chunks { return &chunks{data: s, end: io.EOF, cuts: everyByte(n), zero: true, asEOF: true} })
	c.Try(func() string { return fmt.Sprintf("%.300q value by value", s) }, func() string { return exact(l, vs) })
	for i := 1; i < n; i++ {
		i := i
		try(func() *chunks { return &chunks{data: s, end: io.EOF, cuts: []int{i}} })
		if full && n <= 60 {
			for j := i + 1; j < n; j++ {
				j := j
				try(func() *chunks { return &chunks{data: s, end: io.EOF, cuts: []int{i, j}} })
			}
		}
	}
	if full && n <= 12 {
		for m := 0; m < 1<<(n-1); m++ {
			var cuts []int
			for i := 0; i < n-1; i++ {
				if m>>i&1 == 1 {
					cuts = append(cuts, i+1)
				}
			}
			try(func() *chunks { return &chunks{data: s, end: io.EOF, cuts: cuts} })
		}
	}
	c.States++
}

func one(c *hl.Seq, v hl.Val, full bool) {
	c.Try(func() string { return fmt.Sprintf("%.300v", v) }, func() string {
		if m := look(build(v), v); m != "" {
			return m
		}
		o, err := protocol.Parse(bytes.NewReader([]byte(v.Encode())))
		if err != nil {
			return fmt.Sprintf("Parse fails: %v", err)
		}
		if m := look(o, v); m != "" {
			return "Parse: " + m
		}
		// the source of an array may be reused by its owner
		return ""
	})
	decodeAllWays(c, []hl.Val{v}, full)
}

func null(k byte) hl.Val  { return hl.Val{Kind: k, Null: true} }
func str(s string) hl.Val { return hl.Val{Kind: '+', S: s} }
func erv(s string) hl.Val { return hl.Val{Kind: '-', S: s} }
func num(n int64) hl.Val  { return hl.Val{Kind: ':', N: n} }
func nest(n int) hl.Val {
	v := hl.Arr(num(-1), hl.Bulk("\r\n"))
	for i := 1; i < n; i++ {
		v = hl.Arr(v)
	}
	return v
}

var leaves = func() []hl.Val {
	l := []hl.Val{null('$'), null('*'), hl.Arr()}
	for _, t := range []string{"", "O", "OK x", "-1", "$-1", "*0", "\x00\xff", ":", "+ "} {
		l = append(l, str(t), erv(t))
	}
	for _, n := range []int64{0, 1, -1, 9, 10, -10, 1 << 31, -1 << 31, 1<<63 - 1, -1 << 63} {
		l = append(l, num(n))
	}
	for _, t := range []string{"", "a", "\r", "\n", "\r\n", "\n\r", "\x00", "\xff\xfe", "$-1\r\n", "$1\r\na\r\n", "*1\r\n", "a\r\n\r\n", "0123456789"} {
		l = append(l, hl.Bulk(t))
	}
	return l
}()

// few are leaves for combinations.
var few = []hl.Val{null('$'), null('*'), hl.Arr(), str(""), str("OK"), erv("E x"), num(0), num(-12), hl.Bulk(""), hl.Bulk("\r\n"), hl.Bulk("*1\r\n"), hl.Bulk("ab\x00")}

func init() {
	hl.Register("C07",
		hl.Scn{Name: "leaves", Seq: func(c *hl.Seq) {
			for _, v := range leaves {
				one(c, v, true)
			}
			c.Sample("%d leaf values, all splits", len(leaves))
		}},
		hl.Scn{Name: "arrays", Seq: func(c *hl.Seq) {
			for _, x := range leaves {
				one(c, hl.Arr(x), true)
				for _, y := range leaves {
					one(c, hl.Arr(x, y), false)
				}
				if c.Late() {
					return
				}
			}
			c.Sample("all arrays of one and two of %d leaves", len(leaves))
		}},
		hl.Scn{Name: "triples", Seq: func(c *hl.Seq) {
			for _, x := range few {
				for _, y := range few {
					for _, z := range few {
						one(c, hl.Arr(x, y, z), hl.Tier == "thorough")
						one(c, hl.Arr(hl.Arr(x), y, hl.Arr(z, hl.Arr(y))), false)
						one(c, hl.Arr(hl.Arr(x, y), z), false)
					}
					if c.Late() {
						return
					}
				}
			}
			c.Sample("arrays of three of %d values, flat and nested", len(few))
		}},
		hl.Scn{Name: "streams2", Seq: func(c *hl.Seq) {
			for _, x := range leaves {
				for _, y := range leaves {
					decodeAllWays(c, []hl.Val{x, y}, true)
				}
				if c.Late() {
					return
				}
			}
			c.Sample("all streams of two of %d leaves, all pairs of cuts", len(leaves))
		}},
		hl.Scn{Name: "streams3", Seq: func(c *hl.Seq) {
			mix := append(append([]hl.Val{}, few...), hl.Cmd("GET", "a"), hl.Arr(hl.Arr(), hl.Bulk("\r\n")), nest(3))
			for _, x := range mix {
				for _, y := range mix {
					for _, z := range mix {
						decodeAllWays(c, []hl.Val{x, y, z}, hl.Tier == "thorough")
					}
				}
				if c.Late() {
					return
				}
			}
			c.Sample("all streams of three of %d values", len(mix))
		}},
		hl.Scn{Name: "nesting", Seq: func(c *hl.Seq) {
			for n := 1; n <= 64; n++ {
				one(c, nest(n), false)
				decodeAllWays(c, []hl.Val{nest(n), num(1), nest(n)}, false)
			}
			for n := 1; n <= 12; n++ { // repeated: nothing is left behind by earlier values
				var l []hl.Val
				for k := 0; k < 200; k++ {
					l = append(l, nest(n), hl.Cmd("x"))
				}
				s, _ := enc(l)
				c.Try(func() string { return "400 nested values" }, func() string { return readAll(&chunks{data: s, end: io.EOF}, l) })
			}
			c.Sample("arrays nested up to 64 deep")
		}},
		hl.Scn{Name: "texts", Seq: func(c *hl.Seq) {
			// every short text, in each kind of value that holds one
			try := func(t string) {
				vs := []hl.Val{hl.Bulk(t), hl.Arr(hl.Bulk(t), num(1), hl.Bulk(t)), num(7)}
				if !strings.ContainsAny(t, "\r\n") {
					vs = append(vs, str(t), erv(t), hl.Arr(str(t), erv(t)), num(7))
				}
				s, _ := enc(vs)
				c.Try(func() string { return fmt.Sprintf("text %q", t) }, func() string {
					for _, v := range vs {
						if m := look(build(v), v); m != "" {
							return m
						}
					}
					if m := readAll(&chunks{data: s, end: io.EOF}, vs); m != "" {
						return m
					}
					return readAll(&chunks{data: s, end: io.EOF, cuts: everyByte(len(s))}, vs)
				})
				c.Step(3 * len(vs))
				c.States++
			}
			var b [2]byte
			for i := 0; i < 256; i++ {
				b[0] = byte(i)
				try(string(b[:1]))
				for j := 0; j < 256; j++ {
					b[1] = byte(j)
					try(string(b[:]))
				}
				if c.Late() {
					return
				}
			}
			const alpha = "\x00\r\n a$*\xff"
			n := hl.Pick(5, 6)
			var rec func(t string)
			rec = func(t string) {
				if len(t) >= 3 {
					try(t)
				}
				if len(t) < n && !c.Late() {
					for i := range []byte(alpha) {
						rec(t + alpha[i:i+1])
					}
				}
			}
			rec("")
			c.Sample("all texts of up to 2 bytes, all of up to %d bytes of %q", n, alpha)
		}},
		hl.Scn{Name: "repeated", Seq: func(c *hl.Seq) {
			// whatever a stream starts with, and however long that goes on, what follows is read
			tail := []hl.Val{hl.Cmd("GET", "a"), nest(3), num(1), hl.Bulk("\r\n"), hl.Arr(), null('*'), str("OK"), erv("E")}
			mix := append(append([]hl.Val{}, leaves...), hl.Cmd("x"), nest(2), nest(5), hl.Arr(hl.Arr(), hl.Arr(hl.Arr())), hl.Arr(null('*'), null('$')), hl.Arr(hl.Arr(), num(1)))
			many := func(vs ...hl.Val) {
				var l []hl.Val
				for k := 0; k < 2200/len(vs); k++ {
					l = append(l, vs...)
				}
				l = append(l, tail...)
				s, _ := enc(l)
				for _, cuts := range [][]int{nil, {len(s) / 3, len(s) / 2}} {
					cuts := cuts
					c.Try(func() string { return fmt.Sprintf("%d times %.200v", 2200/len(vs), vs) }, func() string { return readAll(&chunks{data: s, end: io.EOF, cuts: cuts}, l) })
					c.Step(len(l))
				}
				c.States++
			}
			for _, x := range mix {
				many(x)
			}
			for _, x := range few {
				for _, y := range few {
					many(x, y)
				}
				if c.Late() {
					return
				}
			}
			c.Sample("each value, and each pair of %d values, over and over", len(few))
		}},
		hl.Scn{Name: "sizes", Seq: func(c *hl.Seq) {
			sizes := []int{9, 10, 99, 100, 4080, 4090, 4091, 4092, 4093, 4094, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 70000, 1 << 20}
			for _, n := range sizes {
				raw := []byte(strings.Repeat("\x00a\r\n\xff*", n/6+1)[:n])
				txt := strings.Repeat("line text ", n/10+1)[:n]
				uni := strings.Repeat("é中😀", n/9) // valid UTF-8
				uni += strings.Repeat("z", n-len(uni))
				for _, vs := range [][]hl.Val{{hl.Bulk(uni), str(uni)}, {hl.Bulk(string(raw))}, {str(txt)}, {erv(txt)}, {hl.Arr(hl.Bulk(string(raw)), num(1)), hl.Cmd("x")}, {str("a"), hl.Bulk(string(raw)), str("b")}} {
					s, l := enc(vs)
					for _, v := range vs {
						c.Try(func() string { return "build" }, func() string { return look(build(v), v) })
					}
					var cuts [][]int
					cuts = append(cuts, nil)
					for _, x := range []int{1, 2, 5, 6, 7, 8, 9, 4094, 4095, 4096, 4097, 8192, len(s) - 1, len(s) - 2, len(s) - 3, len(s) - 4, len(s) / 2} {
						if x > 0 && x < len(s) {
							cuts = append(cuts, []int{x})
						}
					}
					for _, step := range []int{512, 1000, 4095, 4096, 4097} {
						var q []int
						for p := step; p < len(s); p += step {
							q = append(q, p)
						}
						if len(q) < 300 {
							cuts = append(cuts, q)
						}
					}
					for _, q := range cuts {
						q := q
						c.Try(func() string { return fmt.Sprintf("%d bytes cut at %v", len(s), q) }, func() string { return readAll(&chunks{data: s, end: io.EOF, cuts: q}, vs) })
						c.Step(1)
					}
					c.Try(func() string { return "value by value" }, func() string { return exact(l, vs) })
					c.States++
				}
				if c.Late() {
					return
				}
			}
			for _, n := range []int{1, 9, 10, 99, 100, 1000, 5000} {
				var v hl.Val = hl.Arr()
				for i := 0; i < n; i++ {
					v.A = append(v.A, few[i%len(few)])
				}
				s := v.Encode()
				c.Try(func() string { return fmt.Sprintf("array of %d", n) }, func() string {
					if m := look(build(v), v); m != "" {
						return m
					}
					return readAll(&chunks{data: s + s, end: io.EOF}, []hl.Val{v, v})
				})
				c.States++
			}
			c.Sample("bulk strings and lines of %v bytes", sizes)
		}},
		hl.Scn{Name: "errors", Seq: func(c *hl.Seq) {
			for _, t := range []string{"", "x", "ERR a b", "\x00\xff", "-", "*1"} {
				c.Try(func() string { return fmt.Sprintf("error of %q", t) }, func() string {
					return look(protocol.NewRedisErrorFromGoError(errors.New(t)), erv(t))
				})
				c.States++
			}
			// an error is one line, whatever its text
			for _, t := range []string{"a\r\nb", "\r\n", "\r", "\n", "a\n", "\r\n+OK\r\n", "x\r\n\r\ny"} {
				for _, o := range []protocol.RedisObject{protocol.NewRedisError(t), protocol.NewRedisErrorFromGoError(errors.New(t))} {
					o := o
					c.Try(func() string { return fmt.Sprintf("error of %q", t) }, func() string {
						v, err := hl.DecodeOne(o.String())
						if err != nil {
							return fmt.Sprintf("encodes to %q: %v", o.String(), err)
						}
						return look(o, v)
					})
					c.States++
				}
			}
		}},
	)
}
