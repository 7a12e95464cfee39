// The harness of the command line client.
package main

import (
	"fmt"
	"strings"

	"github.com/lxdlam/vertex/cmd/client/internal"
	"github.com/lxdlam/vertex/pkg/protocol"
	"github.com/lxdlam/vertex/vharness/hl"
)

func main() { hl.Main() }

// piece is a word or a quoted string of a line; joint says that nothing separates it from
// the piece before.
type piece struct {
	s     string
	joint bool
}

// pieces splits a line; open says that its last quote is not closed.
func pieces(line string) (l []piece, open bool) {
	joint := false
	for i := 0; i < len(line); {
		switch line[i] {
		case ' ':
			joint = false
			i++
		case '"':
			j := strings.IndexByte(line[i+1:], '"')
			if j < 0 {
				return l, true
			}
			l = append(l, piece{line[i+1 : i+1+j], joint})
			joint = true
			i += j + 2
		default:
			j := i
			for j < len(line) && line[j] != ' ' && line[j] != '"' {
				j++
			}
			l = append(l, piece{line[i:j], joint})
			joint = true
			i = j
		}
	}
	return l, false
}

// input checks what the client makes of a line. Pieces that touch may be one argument, or
// several, or refused.
func input(line string) string {
	out, err := internal.FormatInput(line)
	l, open := pieces(line)
	touch := false
	for _, p := range l {
		touch = touch || p.joint
	}
	if open {
		if err == nil {
			return fmt.Sprintf("a quote is not closed and %q is sent", out)
		}
		return ""
	}
	if err != nil {
		if touch {
			return ""
		}
		return fmt.Sprintf("refused: %v", err)
	}
	v, derr := hl.DecodeOne(out)
	if derr != nil {
		return fmt.Sprintf("%q is sent, no command: %v", out, derr)
	}
	if v.Kind != '*' {
		return fmt.Sprintf("%q is sent, no command", out)
	}
	var args []string
	for _, x := range v.A {
		if x.Kind != '$' || x.Null {
			return fmt.Sprintf("%q is sent, with an argument that is no string", out)
		}
		args = append(args, x.S)
	}
	if !fits(args, l) {
		return fmt.Sprintf("the arguments %q are sent", args)
	}
	return ""
}

func fits(args []string, l []piece) bool {
	if len(l) == 0 {
		return len(args) == 0
	}
	if len(args) == 0 {
		return false
	}
	// the first argument is the first piece, or that and what touches it
	s := ""
	for k := 0; k < len(l) && (k == 0 || l[k].joint); k++ {
		s += l[k].s
		if s == args[0] && fits(args[1:], l[k+1:]) {
			return true
		}
	}
	return false
}

func inputs(c *hl.Seq, alpha []string, depth int, first string) {
	var rec func(s string, n int)
	rec = func(s string, n int) {
		if c.Late() {
			return
		}
		c.Try(func() string { return fmt.Sprintf("the line %q", s) }, func() string { return input(s) })
		c.States++
		c.Step(1)
		if c.States%50021 == 7 {
			c.Sample("%q", s)
		}
		if n == 0 {
			return
		}
		for _, a := range alpha {
			rec(s+a, n-1)
		}
	}
	rec(first, depth)
	c.MaxDepth = depth + 1
}

// ---------------------------------------------------------------- output

// key is what a rendering must tell: kind, content and order. Simple and bulk strings are
// both text; an absent list is an empty one.
func key(v hl.Val) string {
	switch v.Kind {
	case '+', '$':
		if v.Null {
			return "null"
		}
		return fmt.Sprintf("text %q", v.S)
	case '-':
		return fmt.Sprintf("error %q", v.S)
	case ':':
		return fmt.Sprintf("integer %d", v.N)
	}
	l := []string{}
	for _, x := range v.A {
		l = append(l, key(x))
	}
	return "list [" + strings.Join(l, "; ") + "]"
}

type outputs struct {
	seen map[string]string // rendering: key
}

func (o *outputs) check(v hl.Val) string {
	obj, err := protocol.Parse(strings.NewReader(v.Encode()))
	if err != nil {
		return fmt.Sprintf("does not parse: %v", err)
	}
	s := internal.FormatOutput(obj)
	if t := internal.FormatOutput(obj); t != s {
		return fmt.Sprintf("printed as %q, then as %q", s, t)
	}
	if strings.TrimSpace(s) == "" {
		return fmt.Sprintf("printed as %q", s)
	}
	k := key(v)
	if old, ok := o.seen[s]; ok && old != k {
		return fmt.Sprintf("printed as %q, like %s", s, old)
	}
	o.seen[s] = k
	if strings.HasPrefix(s, "1) ") {
		// numbered, then with the right numbers
		n := 0
		for _, l := range strings.Split(s, "\n") {
			var i int
			if _, err := fmt.Sscanf(l, "%d) ", &i); err == nil && l[0] != ' ' {
				if n++; i != n {
					return fmt.Sprintf("printed as %.200q, its element %d with the number %d", s, n, i)
				}
			}
		}
		if n != len(v.A) {
			return fmt.Sprintf("printed as %.200q, with %d numbers for %d elements", s, n, len(v.A))
		}
	}
	return content(s, v)
}

// content looks for plain contents in the rendering, in order.
func content(s string, v hl.Val) string {
	pos := 0
	var walk func(v hl.Val) string
	walk = func(v hl.Val) string {
		want := ""
		switch v.Kind {
		case '*':
			for _, x := range v.A {
				if m := walk(x); m != "" {
					return m
				}
			}
			return ""
		case ':':
			want = fmt.Sprint(v.N)
		default:
			for _, r := range v.S {
				if r < ' ' || r > '~' || r == '"' || r == '\\' {
					return ""
				}
			}
			want = v.S
		}
		i := strings.Index(s[pos:], want)
		if i < 0 {
			return fmt.Sprintf("printed as %q, without %q at its place", s, want)
		}
		pos += i + len(want)
		return ""
	}
	return walk(v)
}

func trees(leaves []hl.Val, depth, width int) []hl.Val {
	all := append([]hl.Val{}, leaves...)
	if depth == 0 {
		return all
	}
	sub := trees(leaves, depth-1, width)
	all = append(all, hl.Arr(), hl.Val{Kind: '*', Null: true})
	lists := [][]hl.Val{nil}
	for w := 0; w < width; w++ {
		var next [][]hl.Val
		for _, l := range lists {
			for _, x := range sub {
				m := append(append([]hl.Val{}, l...), x)
				next = append(next, m)
				all = append(all, hl.Arr(m...))
			}
		}
		lists = next
	}
	return all
}

func init() {
	for _, f := range []string{"", "a", "b", " ", "\"", "\\"} {
		f := f
		hl.Register("C27", hl.Scn{Name: fmt.Sprintf("input/%q", f), Seq: func(c *hl.Seq) {
			if f == "" {
				inputs(c, nil, 0, "")
				// every pair of bytes, bare and in quotes
				for i := 0; i < 256; i++ {
					for j := 0; j < 256; j++ {
						for _, form := range []string{"%c%c", "a %c%c", "\"%c%c\"", "x \"%c %c\" y"} {
							s := strings.Replace(strings.Replace(form, "%c", string([]byte{byte(i)}), 1), "%c", string([]byte{byte(j)}), 1)
							c.Try(func() string { return fmt.Sprintf("the line %q", s) }, func() string { return input(s) })
							c.Step(1)
							c.States++
						}
					}
				}
				return
			}
			inputs(c, []string{"a", "b", " ", "\"", "\\"}, hl.Pick(8, 10), f)
		}})
	}
	hl.Register("C27", hl.Scn{Name: "input/kinds", Seq: func(c *hl.Seq) {
		inputs(c, []string{"SET", " ", "\"", "\t", "'", "\r", "$3\r\n", "é", "\x00"}, hl.Pick(5, 6), "")
	}})
	hl.Register("C27", hl.Scn{Name: "input/long", Seq: func(c *hl.Seq) {
		for _, n := range []int{100, 4094, 4095, 4096, 4097, 8192, 70000} {
			for _, form := range []string{"%s", "GET %s", "\"%s\"", "SET a \"%s\" b", "%s %s", "\"%s\" \"%s\"", "\"%s", "%s\"", "%s \"\""} {
				for _, what := range []string{"x", " ", "y z", "é"} {
					s := strings.ReplaceAll(form, "%s", strings.Repeat(what, n/len(what)))
					c.Try(func() string { return fmt.Sprintf("%q with %d bytes of %q", form, n, what) }, func() string { return input(s) })
					c.Step(1)
					c.States++
				}
			}
		}
	}})
	text := []string{"", "a", "b", "a b", "\"", "\\", "\\n", "\n", "\\\"", "(nil)", "1) \"a\"", "a\"\n2) \"b", "a\"\n1) \"b", "\" \"", "(integer) 1", "Server error: e", "(empty list or set)", "\x00\xff", "é", "\xc3", "1", "\ta", "   2) \"b"}
	line := []string{"", "e", "(nil)", "\"a\"", "1) \"a\"", "(integer) 1", "e f", "Server error: e", "\\", "(empty list or set)", "\xff"}
	var leaves []hl.Val
	for _, s := range text {
		leaves = append(leaves, hl.Bulk(s))
	}
	for _, s := range line {
		leaves = append(leaves, hl.Val{Kind: '+', S: s}, hl.Val{Kind: '-', S: s})
	}
	for _, n := range []int64{0, 1, -1, 10, 1 << 62, -1 << 63} {
		leaves = append(leaves, hl.Val{Kind: ':', N: n})
	}
	leaves = append(leaves, hl.Val{Kind: '$', Null: true})
	few := []hl.Val{hl.Bulk("a"), hl.Bulk("a\"\n2) \"b"), {Kind: '$', Null: true}, {Kind: ':', N: 1}, {Kind: '-', S: "e"}}
	run := func(name string, vs func() []hl.Val) {
		hl.Register("C27", hl.Scn{Name: "output/" + name, Seq: func(c *hl.Seq) {
			o := &outputs{map[string]string{}}
			for i, v := range vs() {
				if c.Late() {
					return
				}
				c.Try(func() string { return fmt.Sprintf("the reply %v", v) }, func() string { return o.check(v) })
				c.Step(1)
				c.States++
				if i%4001 == 99 {
					c.Sample("%v", v)
				}
			}
		}})
	}
	run("flat", func() []hl.Val { return trees(leaves, 1, hl.Pick(2, 3)) })
	run("nested", func() []hl.Val { return trees(few, 2, 2) })
	run("wide", func() []hl.Val { return trees(few[:3], 1, hl.Pick(8, 10)) })
	run("deep", func() []hl.Val { return append(trees(few[:1], 3, 2), trees(nil, 4, 1)...) })
	run("many", func() []hl.Val {
		var l []hl.Val
		for _, n := range []int{9, 10, 11, 99, 100, 101, 1000} {
			a := hl.Arr()
			for i := 0; i < n; i++ {
				a.A = append(a.A, hl.Bulk(fmt.Sprint("v", i)))
			}
			l = append(l, a, hl.Arr(a, hl.Bulk("x")), hl.Arr(hl.Arr(a.A[:n-1]...), a.A[n-1]))
		}
		return l
	})
}
