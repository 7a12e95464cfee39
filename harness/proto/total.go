package main

import (
	"errors"
	"fmt"
	"io"
	"strconv"
	"strings"

	"github.com/lxdlam/vertex/pkg/protocol"
	"github.com/lxdlam/vertex/vharness/hl"
)

// C08: the reader is total.

type verdict int

const (
	good   verdict = iota // a value must be returned, this one
	either                // this value or an error
	bad                   // an error must be returned
)

// judge says what the reader owes for the bytes. n is where the value ends (good and
// either only).
func judge(b string) (v hl.Val, n int, k verdict) {
	i := strings.Index(b, "\r\n")
	if i <= 0 {
		return v, 0, bad
	}
	head := b[1:i]
	n = i + 2
	v.Kind = b[0]
	canon := func(x int64) verdict {
		if strconv.FormatInt(x, 10) == head {
			return good
		}
		return either
	}
	switch b[0] {
	case '+', '-':
		v.S = head
		if strings.ContainsAny(head, "\r\n") {
			return v, n, either
		}
		return v, n, good
	case ':':
		x, err := strconv.ParseInt(head, 10, 64)
		if err != nil {
			return v, 0, bad
		}
		v.N = x
		return v, n, canon(x)
	case '$':
		x, err := strconv.ParseInt(head, 10, 64)
		if err != nil || x < -1 || x > int64(len(b)) {
			return v, 0, bad
		}
		k = canon(x)
		if x == -1 {
			v.Null = true
			return v, n, k
		}
		if int64(len(b)-n) < x+2 {
			return v, 0, bad
		}
		v.S = b[n : n+int(x)]
		n += int(x)
		if b[n:n+2] != "\r\n" {
			k = either
		}
		return v, n + 2, k
	case '*':
		x, err := strconv.ParseInt(head, 10, 64)
		if err != nil || x < -1 || x > int64(len(b)) {
			return v, 0, bad
		}
		k = canon(x)
		if x == -1 {
			v.Null = true
			return v, n, k
		}
		for j := int64(0); j < x; j++ {
			e, m, ek := judge(b[n:])
			if ek == bad {
				return v, 0, bad
			}
			if ek == either {
				k = either
			}
			v.A = append(v.A, e)
			n += m
		}
		return v, n, k
	}
	return v, 0, bad
}

// same compares an object with a value by content (its text may be the canonical one).
func same(o protocol.RedisObject, v hl.Val) string {
	if o == nil {
		return "nil without an error"
	}
	if brokenError(v) {
		return "" // how such an error shows its text is open
	}
	return look(o, v)
}

func brokenError(v hl.Val) bool {
	for _, e := range v.A {
		if brokenError(e) {
			return true
		}
	}
	return v.Kind == '-' && strings.ContainsAny(v.S, "\r\n")
}

// total runs the reader on the bytes: the values owed, one after the other, then an error.
func total(b string, end error) string {
	r := &chunks{data: b, end: end}
	rd := protocol.NewRESPReader(r)
	rest := b
	for {
		v, n, k := judge(rest)
		o, err := rd.ReadObject()
		if err == nil && o == nil {
			return "neither a value nor an error"
		}
		if err != nil {
			if k == good {
				return fmt.Sprintf("error %.200v instead of %.200v", err, v)
			}
			if rest == "" && !errors.Is(err, end) {
				return fmt.Sprintf("error %v at the end of the stream instead of %v", err, end)
			}
			if o != nil && fmt.Sprint(o) != "<nil>" {
				return fmt.Sprintf("both an error and %.200q", o.String())
			}
			return ""
		}
		if k == bad {
			return fmt.Sprintf("the bytes %.200q read as %.200q", rest, o.String())
		}
		if m := same(o, v); m != "" {
			return m
		}
		rest = rest[n:]
	}
}

func tryTotal(c *hl.Seq, b string) {
	c.Try(func() string { return fmt.Sprintf("%.300q", b) }, func() string { return total(b, io.EOF) })
	c.Transitions++
	c.States++
}

// enumerate all strings over alpha with the given first symbols.
func enumerate(c *hl.Seq, first string, alpha string, max int) {
	buf := []byte(first)
	var rec func()
	rec = func() {
		tryTotal(c, string(buf))
		if len(buf) == max || c.Late() {
			return
		}
		for i := 0; i < len(alpha); i++ {
			buf = append(buf, alpha[i])
			rec()
			buf = buf[:len(buf)-1]
		}
	}
	rec()
}

// words enumerates sequences of tokens.
func words(c *hl.Seq, first int, toks []string, max int) {
	var rec func(s string, d int)
	rec = func(s string, d int) {
		tryTotal(c, s)
		if d == max || c.Late() {
			return
		}
		for _, t := range toks {
			rec(s+t, d+1)
		}
	}
	rec(toks[first], 1)
}

func init() {
	// all byte values
	hl.Register("C08", hl.Scn{Name: "all-bytes", Seq: func(c *hl.Seq) {
		for _, p := range []string{"", "+", "-", ":", "$", "*", "$1\r\n", "*1\r\n", ":1", "$1", "*1", "+a\r", "$2\r\na", ":1\r"} {
			for x := 0; x < 256; x++ {
				for y := 0; y < 256; y++ {
					b := p + string([]byte{byte(x), byte(y)})
					tryTotal(c, b)
					if p != "" {
						tryTotal(c, b+"\r\n")
					}
				}
				if c.Late() {
					return
				}
			}
		}
		c.Sample("every pair of bytes after 14 beginnings, with and without a line end")
	}})
	hl.Register("C08", hl.Scn{Name: "numbers", Seq: func(c *hl.Seq) {
		var ns []string
		for _, x := range []string{"0", "1", "2", "3", "-0", "-1", "-2", "-3", "-4", "+1", "+0", "01", "007", "--1", "+-1", "", " 1", "1 ", " ", "1.0", "1e1", "0x1", "0b1", "1_0", "a", "\x00", "1\x00", "\xff", "１",
			"2147483646", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967294", "4294967295", "4294967296", "4294967297", "4294967298", "-4294967295", "-4294967296", "-4294967297",
			"9223372036854775804", "9223372036854775805", "9223372036854775806", "9223372036854775807", "9223372036854775808", "-9223372036854775807", "-9223372036854775808", "-9223372036854775809",
			"18446744073709551614", "18446744073709551615", "18446744073709551616", "18446744073709551617", "99999999999999999999", "-99999999999999999999", "1099511627776", "536870912", "1000000000",
			strings.Repeat("0", 30) + "1", "1" + strings.Repeat("0", 400), "-" + strings.Repeat("9", 70)} {
			ns = append(ns, x)
		}
		for _, k := range []string{":", "$", "*", "*1\r\n:", "*1\r\n$", "*1\r\n*", "*2\r\n:1\r\n*"} {
			for _, x := range ns {
				for _, t := range []string{"", "\r", "\n", "\r\n", "\r\n\r\n", "\r\na\r\n", "\r\nab\r\n", "\r\nabc\r\n", "\r\n:1\r\n", "\r\n:1\r\n:2\r\n", "\r\n$1\r\na\r\n", "\r\n+\r\n+\r\n+\r\n", "\r\n*0\r\n"} {
					tryTotal(c, k+x+t)
				}
			}
		}
		c.Sample("%d numbers in every place, with what may follow", len(ns))
	}})
	seeds := []string{
		hl.Cmd("SET", "a", "\r\n").Encode(), hl.Cmd("GET", "").Encode(), hl.Arr(hl.Arr(num(1), str("x")), null('$'), erv("E")).Encode(), hl.Bulk("0123456789a").Encode(),
		nest(4).Encode(), num(-9223372036854775808).Encode(), num(9223372036854775807).Encode(), str("OK").Encode() + erv("no").Encode() + null('*').Encode(), hl.Arr(hl.Bulk(""), hl.Arr(), null('*'), num(0)).Encode(),
	}
	for i, s := range seeds {
		s := s
		hl.Register("C08", hl.Scn{Name: fmt.Sprintf("mutations/%d", i), Seq: func(c *hl.Seq) {
			for p := 0; p <= len(s); p++ {
				tryTotal(c, s[:p]) // every prefix
				c.Try(func() string { return fmt.Sprintf("%q then a broken wire", s[:p]) }, func() string { return total(s[:p], errBroken) })
				if p < len(s) {
					tryTotal(c, s[:p]+s[p+1:])
				}
				for q := p + 1; q <= len(s); q++ { // every removal and repetition of a piece
					tryTotal(c, s[:p]+s[q:])
					tryTotal(c, s[:q]+s[p:])
				}
				for x := 0; x < 256; x++ {
					tryTotal(c, s[:p]+string([]byte{byte(x)})+s[p:])
					if p < len(s) {
						tryTotal(c, s[:p]+string([]byte{byte(x)})+s[p+1:])
					}
				}
			}
			if hl.Tier == "thorough" {
				set := "+-:$*019\r\n\x00\xff"
				for p := 0; p < len(s); p++ {
					for q := p + 1; q < len(s); q++ {
						for i := range set {
							for j := range set {
								b := []byte(s)
								b[p], b[q] = set[i], set[j]
								tryTotal(c, string(b))
							}
						}
					}
					if c.Late() {
						return
					}
				}
			}
			c.Sample("prefixes, pieces, insertions and substitutions of %q", s)
		}})
	}
	hl.Register("C08", hl.Scn{Name: "two-values", Seq: func(c *hl.Seq) {
		for _, x := range leaves {
			for _, y := range leaves {
				s := x.Encode() + y.Encode()
				for p := 0; p <= len(s); p++ {
					tryTotal(c, s[:p])
				}
				a := hl.Arr(x, y).Encode()
				for p := 0; p < len(a); p++ {
					tryTotal(c, a[:p])
				}
			}
			if c.Late() {
				return
			}
		}
		c.Sample("every prefix of every two leaves, in sequence and as an array")
	}})
	hl.Register("C08", hl.Scn{Name: "deep", Seq: func(c *hl.Seq) {
		for _, n := range []int{1, 10, 100, 1000, 1024, 1025, 1026, 5000, 20000, 100000, 400000, 3000000} {
			for _, t := range []string{"", "*", ":1\r\n", "*-1\r\n"} {
				if n > 100000 && t != "" {
					continue
				}
				b := strings.Repeat("*1\r\n", n) + t
				c.Note(fmt.Sprintf("%d nested arrays, then %q", n, t))
				c.Try(func() string { return fmt.Sprintf("%d nested arrays, then %q", n, t) }, func() string {
					r := &chunks{data: b, end: io.EOF}
					rd := protocol.NewRESPReader(r)
					o, err := rd.ReadObject()
					if err == nil && (t == "" || t == "*") {
						return "a value from an unfinished encoding"
					}
					if err == nil && o == nil {
						return "neither a value nor an error"
					}
					if err == nil && o.String() != b {
						return "the value differs from its encoding"
					}
					if err != nil && n <= 100 && t == ":1\r\n" {
						return fmt.Sprintf("error %.200v", err)
					}
					return ""
				})
				c.States++
			}
		}
		// long lines and strings that never end
		for _, n := range []int{4094, 4095, 4096, 70000, 1 << 20} {
			for _, h := range []string{"+", "-", ":", "$", "*", "$1000000000\r\n", "a", "\r", ":1", "$0"} {
				b := h + strings.Repeat("1", n)
				tryTotal(c, b)
				tryTotal(c, b+"\n")
				tryTotal(c, b+"\r\n")
			}
		}
		c.Sample("arrays nested up to 3000000 deep, lines up to 1 MiB")
	}})
	// the largest last
	const alpha = "+-:$*012\r\na"
	hl.Register("C08", hl.Scn{Name: "bytes/empty", Seq: func(c *hl.Seq) { tryTotal(c, "") }})
	for i := 0; i < len(alpha); i++ {
		f := alpha[i : i+1]
		hl.Register("C08", hl.Scn{Name: fmt.Sprintf("bytes/%q", f), Seq: func(c *hl.Seq) {
			enumerate(c, f, alpha, hl.Pick(7, 8))
			c.Sample("every string over %q up to length %d that starts with %q", alpha, hl.Pick(7, 8), f)
		}})
	}
	// after a well-formed beginning
	for _, p := range []string{"*1\r\n", "*2\r\n", "$2\r\n", "$1\r\n", "$-", "*2\r\n$1\r\n", "*2\r\n:1\r\n", "*1\r\n*1\r\n"} {
		p := p
		hl.Register("C08", hl.Scn{Name: fmt.Sprintf("after/%q", p), Seq: func(c *hl.Seq) {
			enumerate(c, p, alpha, len(p)+hl.Pick(6, 7))
			c.Sample("%q followed by every string over %q up to length %d", p, alpha, hl.Pick(6, 7))
		}})
	}
	toks := []string{"\r\n", "+", "-", ":", "$", "*", "*1\r\n", "*2\r\n", "$0\r\n", "$1\r\n", "$3\r\n", "-1\r\n", "-2\r\n", "1", "a", "\n", "\r", ":5\r\n", "$-1\r\n", "ab"}
	for i := range toks {
		i := i
		hl.Register("C08", hl.Scn{Name: fmt.Sprintf("tokens/%q", toks[i]), Seq: func(c *hl.Seq) {
			words(c, i, toks, hl.Pick(5, 6))
			c.Sample("every sequence of up to %d of %q that starts with %q", hl.Pick(5, 6), toks, toks[i])
		}})
	}
}
