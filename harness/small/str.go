package main

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"

	"github.com/lxdlam/vertex/pkg/container"
	"github.com/lxdlam/vertex/pkg/util"
	"github.com/lxdlam/vertex/vharness/hl"
)

// C26: comparison and string objects.

func allStrings(alpha string, max int) []string {
	l := []string{""}
	last := l
	for i := 0; i < max; i++ {
		var next []string
		for _, s := range last {
			for j := 0; j < len(alpha); j++ {
				next = append(next, s+alpha[j:j+1])
			}
		}
		l = append(l, next...)
		last = next
	}
	return l
}

func sign(x int) int {
	if x < 0 {
		return -1
	} else if x > 0 {
		return 1
	}
	return 0
}

func cmpCheck(a, b string) string {
	g := util.LexicalCompare(a, b)
	if sign(g) != bytes.Compare([]byte(a), []byte(b)) {
		return fmt.Sprintf("LexicalCompare(%.40q, %.40q) = %d", a, b, g)
	}
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			if g != i+1 && g != -i-1 {
				return fmt.Sprintf("LexicalCompare(%.40q, %.40q) = %d, first difference at %d", a, b, g, i+1)
			}
			break
		}
	}
	return ""
}

func lexSeq(c *hl.Seq) {
	l := allStrings("\x00a\x80\xff", hl.Pick(4, 5))
	for _, a := range l {
		for _, b := range l {
			c.Try(func() string { return "compare" }, func() string { return cmpCheck(a, b) })
		}
		c.Step(len(l))
		if c.Late() {
			return
		}
	}
	c.States += int64(len(l)) * int64(len(l))
	// every pair of bytes
	for a := 0; a < 256; a++ {
		for b := 0; b < 256; b++ {
			for _, pre := range []string{"", "x", "\xff\x00"} {
				x, y := pre+string([]byte{byte(a)}), pre+string([]byte{byte(b)})+"z"
				c.Try(func() string { return "compare" }, func() string {
					if m := cmpCheck(x, y); m != "" {
						return m
					}
					return cmpCheck(y, x)
				})
				c.Step(2)
			}
		}
	}
	c.States += 3 * 65536
	// very long strings
	for _, n := range []int{32767, 32768, 65535, 65536, 70000, 1 << 20} {
		base := strings.Repeat("q", n)
		for _, v := range []string{"", "q", "a", "z", base[:n-1], base + "a", base[:n-1] + "a", base[:n-1] + "z", base[:n/2] + "a" + base, base[:1] + "z"} {
			c.Try(func() string { return "compare" }, func() string {
				if m := cmpCheck(base, v); m != "" {
					return m
				}
				return cmpCheck(v, base)
			})
			c.Step(2)
			c.States++
		}
	}
	// long strings: first difference at every position, and proper prefixes
	for _, n := range []int{1, 127, 128, 129, 255, 256, 257, 300} {
		base := strings.Repeat("q", n)
		for i := 0; i <= n; i++ {
			for _, d := range []string{"a", "z", "\x00", "\xff", "aq", ""} {
				v := base[:i] + d
				if i < n && d != "" {
					v += base[i+1:]
				}
				c.Try(func() string { return "compare" }, func() string {
					if m := cmpCheck(base, v); m != "" {
						return m
					}
					return cmpCheck(v, base)
				})
				c.Step(2)
				c.States++
			}
		}
	}
}

var strSpecial = []string{"", "0", "-0", "+0", "5", "+5", "-5", "007", "10", "99", "100", "-1", "-10", "9223372036854775807", "9223372036854775806", "-9223372036854775808", "-9223372036854775807", "9223372036854775808", "-9223372036854775809", "18446744073709551615", "99999999999999999999", " 1", "1 ", "1.0", "1e3", "0x10", "1_000", "+", "-", "--1", "\x00", "1\x00", "a", "A", "ab", "a\r\nb", "\xff\xfe", "٣", "dummy string", "4294967296", "2147483648"}

var strDeltas = []int64{0, 1, -1, 5, -100, math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MinInt64 + 1, 1 << 32}

// strView compares every view of s with the value want
func strView(s *container.StringContainer, want string) string {
	if s.String() != want || string(s.Byte()) != want || s.Len() != len(want) || s.Key() != want {
		return fmt.Sprintf("text %q, bytes %q, length %d, key %q for %q", s.String(), s.Byte(), s.Len(), s.Key(), want)
	}
	o := container.NewString(string([]byte(want)))
	if s.Hash() != o.Hash() {
		return fmt.Sprintf("the hash of %q differs from that of an equal string", want)
	}
	if !s.Equals(o) || !o.Equals(s) || !s.Equals(s) {
		return fmt.Sprintf("%q is not equal to itself", want)
	}
	if s.CompareTo(o) != 0 || o.CompareTo(s) != 0 {
		return fmt.Sprintf("%q compares %d to itself", want, s.CompareTo(o))
	}
	for _, t := range []string{want + "0", want + "\x00", "x" + want, "0" + want} {
		x := container.NewString(t)
		if s.Equals(x) || x.Equals(s) || sign(s.CompareTo(x)) != strings.Compare(want, t) || sign(x.CompareTo(s)) != strings.Compare(t, want) {
			return fmt.Sprintf("%q against %q: equal %v, compare %d", want, t, s.Equals(x), s.CompareTo(x))
		}
	}
	for _, p := range hl.Collide {
		if strings.HasPrefix(want, p[0]) {
			t := p[1] + want[len(p[0]):]
			x := container.NewString(t)
			if s.Equals(x) || x.Equals(s) || sign(s.CompareTo(x)) != strings.Compare(want, t) {
				return fmt.Sprintf("%q against %q: equal %v, compare %d", want, t, s.Equals(x), s.CompareTo(x))
			}
		}
	}
	n, err := strconv.ParseInt(want, 10, 64)
	v, verr := s.Int()
	if s.IsInt() != (err == nil) || (verr == nil) != (err == nil) {
		return fmt.Sprintf("%q: IsInt %v, Int error %v", want, s.IsInt(), verr)
	}
	ob, oerr := s.AsIntObject()
	if err == nil {
		if v != n || oerr != nil || ob.Data() != n {
			return fmt.Sprintf("%q: Int %d, object %v %v", want, v, ob, oerr)
		}
	} else if oerr == nil {
		return fmt.Sprintf("%q has an integer object", want)
	}
	if s.AsSimpleStringObject().Data() != want || s.AsBulkStringObject().Data() != want {
		return fmt.Sprintf("%q: objects %q %q", want, s.AsSimpleStringObject().Data(), s.AsBulkStringObject().Data())
	}
	return ""
}

type strOp struct {
	kind byte // I D A
	d    int64
	t    string
}

func (o strOp) String() string {
	if o.kind == 'A' {
		return fmt.Sprintf("Append(%q)", o.t)
	}
	return fmt.Sprintf("%c(%d)", o.kind, o.d)
}

func strSeq(c *hl.Seq) {
	var alpha []strOp
	for _, d := range strDeltas {
		alpha = append(alpha, strOp{'I', d, ""}, strOp{'D', d, ""})
	}
	for _, t := range []string{"", "0", "7", "-", "x", "\xff"} {
		alpha = append(alpha, strOp{'A', 0, t})
	}
	starts := append([]string{}, strSpecial...)
	starts = append(starts, allStrings("01-", 3)...)
	for _, p := range hl.Collide {
		starts = append(starts, p[0], p[0]+"tail", p[0]+strings.Repeat("k", 80))
	}
	depth := hl.Pick(2, 3)
	for _, start := range starts {
		var path []strOp
		var rec func()
		rec = func() {
			if c.Late() {
				return
			}
			if len(path) > 0 || depth == 0 {
				c.Try(func() string { return fmt.Sprintf("%q then %v", start, path) }, func() string { return strRun(start, path) })
				c.Step(len(path))
				c.States++
			}
			if len(path) == depth {
				return
			}
			for _, o := range alpha {
				path = append(path, o)
				rec()
				path = path[:len(path)-1]
			}
		}
		rec()
	}
	c.Sample("%q then every sequence of %d operations out of %v", starts, depth, alpha)
}

func strRun(start string, path []strOp) string {
	s := container.NewString(start)
	want := start
	if m := strView(s, want); m != "" {
		return m
	}
	type old struct {
		s *container.StringContainer
		w string
	}
	var olds []old
	for _, o := range path {
		switch o.kind {
		case 'A':
			arg := container.NewString(o.t)
			n := s.Append(arg)
			olds = append(olds, old{s, want}, old{arg, o.t})
			s, want = n, want+o.t
		default:
			v, err := strconv.ParseInt(want, 10, 64)
			isInt := err == nil
			sum := new(big.Int)
			if isInt {
				if o.kind == 'I' {
					sum.Add(big.NewInt(v), big.NewInt(o.d))
				} else {
					sum.Sub(big.NewInt(v), big.NewInt(o.d))
				}
			}
			var got int64
			if o.kind == 'I' {
				got, err = s.Increase(o.d)
			} else {
				got, err = s.Decrease(o.d)
			}
			switch {
			case !isInt && err == nil:
				return fmt.Sprintf("%v on %q succeeded", o, want)
			case isInt && !sum.IsInt64() && err == nil:
				return fmt.Sprintf("%v on %q wrapped to %d", o, want, got)
			case isInt && sum.IsInt64():
				if err != nil || got != sum.Int64() {
					return fmt.Sprintf("%v on %q gave %d, %v", o, want, got, err)
				}
				want = sum.String()
				// zero change may leave the text as it was
				if sum.Int64() == v && s.String() != want {
					want = s.String()
					if n, e := strconv.ParseInt(want, 10, 64); e != nil || n != v {
						return fmt.Sprintf("%v turned the text into %q", o, want)
					}
				}
			}
		}
		if m := strView(s, want); m != "" {
			return fmt.Sprintf("after %v: %s", o, m)
		}
		for _, x := range olds {
			if m := strView(x.s, x.w); m != "" {
				return fmt.Sprintf("after %v an earlier string changed: %s", o, m)
			}
		}
	}
	return ""
}

// every range of small strings
func rangeSeq(c *hl.Seq) {
	for _, str := range []string{"", "a", "ab", "abc", "a\x00\xffd", "\xe4\xb8\xad1", "0123456789"} {
		for i := -len(str) - 2; i <= len(str)+2; i++ {
			for j := -len(str) - 2; j <= len(str)+2; j++ {
				i, j := i, j
				c.Try(func() string { return fmt.Sprintf("NewString(%q).GetRange(%d,%d)", str, i, j) }, func() string {
					s := container.NewString(str)
					r, err := s.GetRange(i, j)
					l, e := wantSlice(i, j, len(str))
					if l < 0 {
						if err == nil {
							return fmt.Sprintf("succeeded with %q", r.String())
						}
					} else {
						if err != nil {
							return err.Error()
						}
						if m := strView(r, str[l:e+1]); m != "" {
							return m
						}
					}
					return strView(s, str)
				})
				c.Step(1)
				c.States++
			}
		}
	}
}

func init() {
	hl.Register("C26", hl.Scn{Name: "compare", Seq: lexSeq}, hl.Scn{Name: "views", Seq: strSeq}, hl.Scn{Name: "range", Seq: rangeSeq})
}
