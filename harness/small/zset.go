package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/lxdlam/vertex/mc"
	"github.com/lxdlam/vertex/pkg/container"
	"github.com/lxdlam/vertex/vharness/hl"
)

// C30: sorted sets.

type zop struct {
	kind    string
	members []string
	scores  []float64
	level   int // how often the next draws let a new member rise
	miss    int64
}

func (o zop) String() string {
	switch o.kind {
	case "add":
		return fmt.Sprintf("Add(%v, %q; level %d)", o.scores, o.members, o.level)
	case "incr":
		return fmt.Sprintf("IncreaseBy(%q, %v; level %d)", o.members[0], o.scores[0], o.level)
	case "del":
		return fmt.Sprintf("Del(%q)", o.members)
	}
	return o.kind
}

// zset runs the real sorted set next to a map.
type zset struct {
	alpha []zop
	start []zop
	z     container.SortedSetContainer
	m     map[string]float64
}

func (x *zset) Reset() {
	mc.RandMenu = nil
	x.z, x.m = container.NewSortedSetContainer("z"), map[string]float64{}
	for _, o := range x.start {
		if w := x.do(o); w != "" {
			panic("start: " + w)
		}
	}
}
func (x *zset) NumOps() int         { return len(x.alpha) }
func (x *zset) OpName(i int) string { return x.alpha[i].String() }
func (x *zset) Do(i int) string     { return x.do(x.alpha[i]) }

func (x *zset) Hash() uint64 {
	var l []string
	for m, s := range x.m {
		l = append(l, fmt.Sprint(m, "=", s))
	}
	sort.Strings(l)
	return hl.Deep([]interface{}{x.z, l})
}

func strs(l []string) (r []*container.StringContainer) {
	for _, s := range l {
		r = append(r, container.NewString(s))
	}
	return
}

func (x *zset) order() []string {
	l := make([]string, 0, len(x.m))
	for m := range x.m {
		l = append(l, m)
	}
	sort.Slice(l, func(i, j int) bool {
		a, b := x.m[l[i]], x.m[l[j]]
		return a < b || a == b && l[i] < l[j]
	})
	return l
}

func (x *zset) do(o zop) string {
	k := 0
	mc.RandMenu = func(n int64) int64 {
		k++
		if k < o.level {
			return 0
		}
		if k > 1000 {
			return 3 % n
		}
		return (1 + o.miss) % n
	}
	defer func() { mc.RandMenu = nil }()
	switch o.kind {
	case "add":
		err := x.z.Add(append([]float64(nil), o.scores...), strs(o.members))
		if len(o.scores) != len(o.members) {
			if err == nil {
				return fmt.Sprintf("%v is accepted", o)
			}
			return x.same()
		}
		if err != nil {
			return fmt.Sprintf("%v: %v", o, err)
		}
		// a member that is already there keeps its score or takes the new one
		may := map[string][]float64{}
		for i, m := range o.members {
			old, ok := x.m[m]
			if _, again := may[m]; !again && ok {
				may[m] = append(may[m], old)
			}
			may[m] = append(may[m], o.scores[i])
		}
		for m, l := range may {
			s, err := x.z.Score(container.NewString(m))
			if err != nil {
				return fmt.Sprintf("after %v the score of %q: %v", o, m, err)
			}
			ok := false
			for _, v := range l {
				ok = ok || v == s
			}
			if !ok {
				return fmt.Sprintf("after %v the score of %q is %v", o, m, s)
			}
			x.m[m] = s
		}
	case "del":
		x.z.Del(strs(o.members))
		for _, m := range o.members {
			delete(x.m, m)
		}
	case "incr":
		m := o.members[0]
		s, err := x.z.IncreaseBy(container.NewString(m), o.scores[0])
		old, ok := x.m[m]
		if !ok {
			if err != container.ErrEntryNotFound {
				return fmt.Sprintf("%v of a missing member: %v, %v", o, s, err)
			}
			return x.same()
		}
		if err != nil || s != old+o.scores[0] {
			return fmt.Sprintf("%v on %v: %v, %v", o, old, s, err)
		}
		x.m[m] = s
	case "popmin", "popmax":
		f := x.z.PopMin
		l := x.order()
		w := ""
		if len(l) > 0 {
			w = l[0]
		}
		if o.kind == "popmax" {
			f = x.z.PopMax
			if len(l) > 0 {
				w = l[len(l)-1]
			}
		}
		e, err := f()
		if len(l) == 0 {
			if err != container.ErrSortedSetEmpty || e != nil {
				return fmt.Sprintf("%v of an empty set: %v, %v", o, e, err)
			}
			return x.same()
		}
		if err != nil || e == nil || e.String() != w {
			return fmt.Sprintf("%v returns %v, %v instead of %q", o, e, err, w)
		}
		delete(x.m, w)
	}
	return x.same()
}

// same compares everything that can be read.
func (x *zset) same() string {
	if x.z.Len() != len(x.m) {
		return fmt.Sprintf("length %d with %d members", x.z.Len(), len(x.m))
	}
	for i, m := range x.order() {
		s, err := x.z.Score(container.NewString(m))
		if err != nil || s != x.m[m] {
			return fmt.Sprintf("the score of %q is %v, %v instead of %v", m, s, err, x.m[m])
		}
		r, err := x.z.Rank(container.NewString(m))
		if err != nil || r != i {
			return fmt.Sprintf("the rank of %q is %d, %v instead of %d in %q", m, r, err, i, x.order())
		}
	}
	for _, m := range []string{"a", "b", "c", "missing", ""} {
		if _, ok := x.m[m]; ok {
			continue
		}
		if s, err := x.z.Score(container.NewString(m)); err != container.ErrEntryNotFound {
			return fmt.Sprintf("the score of %q, which is not there, is %v, %v", m, s, err)
		}
		if r, err := x.z.Rank(container.NewString(m)); err != container.ErrEntryNotFound {
			return fmt.Sprintf("the rank of %q, which is not there, is %v, %v", m, r, err)
		}
	}
	return ""
}

// Check empties the set from both ends.
func (x *zset) Check() string {
	for i := 0; len(x.m) > 0; i++ {
		k := "popmin"
		if i%3 == 2 {
			k = "popmax"
		}
		if w := x.do(zop{kind: k, level: 1}); w != "" {
			return "then " + k + ": " + w
		}
	}
	return x.do(zop{kind: "popmax", level: 1})
}

func zadd(level int, a ...interface{}) zop {
	o := zop{kind: "add", level: level}
	for _, x := range a {
		switch v := x.(type) {
		case string:
			o.members = append(o.members, v)
		case int:
			o.scores = append(o.scores, float64(v))
		case float64:
			o.scores = append(o.scores, v)
		}
	}
	return o
}

func zsearch(name string, starts [][]zop, alpha []zop, q, t int) {
	for i, st := range starts {
		st := st
		for first := 0; first < len(alpha); first += 8 {
			first := first
			hl.Register("C30", hl.Scn{Name: fmt.Sprintf("sorted/%s/%d/%d", name, i, first), Seq: func(c *hl.Seq) {
				x := &zset{alpha: alpha, start: st}
				var p [][]int
				for j := first; j < first+8 && j < len(alpha); j++ {
					p = append(p, []int{j})
				}
				c.BFS(x, p, hl.Pick(q, t)-1)
			}})
		}
	}
}

func init() {
	var one []zop
	for _, m := range []string{"a", "b", "c"} {
		for _, s := range []interface{}{1, 2} {
			for _, l := range []int{1, 2, 3} {
				one = append(one, zadd(l, s, m))
			}
		}
		one = append(one, zop{kind: "del", members: []string{m}})
	}
	for _, m := range []string{"a", "b"} {
		for _, d := range []float64{1, -1} {
			for _, l := range []int{1, 3} {
				one = append(one, zop{kind: "incr", members: []string{m}, scores: []float64{d}, level: l})
			}
		}
	}
	one = append(one, zop{kind: "popmin"}, zop{kind: "popmax"})
	full := []zop{{kind: "add"}, zadd(1, 1), zadd(2, "a"), zadd(1, 3, "a", "b"), zadd(1, 3, "a", 4), zadd(1, 1, "a", 2), zadd(2, 1, "a", 2, "b"), zadd(1, 2, "a", 1, "b", 1, "c"), zadd(3, 1, "b", 2, "b"), zadd(1, 2, "a", 2, "a", 1, "a"),
		zadd(1, math.Inf(1), "inf"), zadd(2, math.Inf(-1), "-inf"), zadd(1, math.MaxFloat64, "max"), zadd(2, -math.MaxFloat64, "min"), zadd(1, 5e-324, "tiny"), zadd(1, 0, "a"), zadd(2, math.Copysign(0, -1), "b"), zadd(1, 1, ""), zadd(2, 1, "a\x00"), zadd(1, 1, "aa"), zadd(1, 1, "\xff"), zadd(2, 1, "B"),
		zadd(1, 0.1, "10"), zadd(1, 0.2, "9"), zadd(40, 1, "c"), zadd(32, 2, "d"), zadd(33, 3, "e"),
		{kind: "del"}, {kind: "del", members: []string{"a", "b"}}, {kind: "del", members: []string{"b", "b", "missing"}}, {kind: "del", members: []string{""}},
		{kind: "incr", members: []string{"a"}, scores: []float64{0}}, {kind: "incr", members: []string{"a"}, scores: []float64{0.1}, level: 2}, {kind: "incr", members: []string{"b"}, scores: []float64{math.Inf(1)}, level: 2}, {kind: "incr", members: []string{"missing"}, scores: []float64{1}, level: 2}, {kind: "incr", members: []string{""}, scores: []float64{math.MaxFloat64}}, {kind: "incr", members: []string{"c"}, scores: []float64{-math.MaxFloat64}, level: 3},
		{kind: "popmin"}, {kind: "popmax"}}
	some := []zop{zadd(2, 1, "a"), zadd(1, 2, "b"), zadd(3, 2, "c")}
	zsearch("all", [][]zop{nil, some}, full, 4, 5)
	zsearch("levels", [][]zop{nil}, one, 5, 7)
	var top []zop
	for i, m := range []string{"a", "b", "c"} {
		for _, l := range []int{1, 30, 31, 32, 33} {
			top = append(top, zadd(l, i%2, m))
		}
		top = append(top, zop{kind: "del", members: []string{m}}, zop{kind: "incr", members: []string{m}, scores: []float64{1}, level: 31})
	}
	zsearch("top", [][]zop{nil}, top, 4, 6)
	zsearch("deep", [][]zop{nil, some}, []zop{zadd(1, 1, "a"), zadd(3, 2, "b"), zadd(2, 2, "c"), zadd(1, 3, "d"), {kind: "incr", members: []string{"b"}, scores: []float64{-1}, level: 2}, {kind: "incr", members: []string{"a"}, scores: []float64{1}, level: 1}, {kind: "del", members: []string{"c"}}, {kind: "popmin"}, {kind: "popmax"}}, 9, 12)
	hl.Register("C30", hl.Scn{Name: "sorted/many", Seq: zmany})
}

// zmany: larger sets, with every order of insertion and pattern of levels of a menu, taken
// apart in several ways.
func zmany(c *hl.Seq) {
	orders := map[string]func(i, n int) int{
		"up": func(i, n int) int { return i }, "down": func(i, n int) int { return n - i }, "inout": func(i, n int) int { return (i * 37) % n }, "ends": func(i, n int) int {
			if i%2 == 0 {
				return i
			}
			return 2*n - i
		}, "equal": func(i, n int) int { return 0 }, "few": func(i, n int) int { return i % 3 },
	}
	levels := map[string]func(i int) int{"one": func(i int) int { return 1 }, "two": func(i int) int { return 2 }, "ruler": func(i int) int {
		l := 1
		for i++; i%2 == 0; i /= 2 {
			l++
		}
		return l
	}, "cycle": func(i int) int { return i%5 + 1 }, "down": func(i int) int { return 9 - i%9 }, "top": func(i int) int { return 29 + i*3%5 }, "swing": func(i int) int { return []int{32, 1, 31, 2, 33, 30, 3}[i%7] }}
	parts := []string{"popmin", "popmax", "first", "last", "middle", "second"}
	for _, n := range []int{1, 2, 3, 7, 17, hl.Pick(40, 150)} {
		for on, of := range orders {
			for ln, lf := range levels {
				for _, part := range parts {
					n, of, lf, part := n, of, lf, part
					if c.Late() {
						return
					}
					c.Try(func() string {
						return fmt.Sprintf("%d members, scores %s, levels %s, then %s", n, on, ln, part)
					}, func() string {
						x := &zset{}
						x.Reset()
						for i := 0; i < n; i++ {
							if w := x.do(zop{kind: "add", members: []string{fmt.Sprintf("%03d%s", (i*29)%101, strings.Repeat("x", i%3))}, scores: []float64{float64(of(i, n))}, level: lf(i)}); w != "" {
								return w
							}
						}
						for i := 0; len(x.m) > 0; i++ {
							l := x.order()
							o := zop{kind: part}
							switch part {
							case "first":
								o = zop{kind: "del", members: l[:1]}
							case "last":
								o = zop{kind: "del", members: l[len(l)-1:]}
							case "middle":
								o = zop{kind: "del", members: l[len(l)/2 : len(l)/2+1]}
							case "second":
								// also moves a member
								if w := x.do(zop{kind: "incr", members: l[:1], scores: []float64{float64(n)}, level: lf(i)}); w != "" {
									return w
								}
								l = x.order()
								o = zop{kind: "del", members: l[len(l)/3 : len(l)/3+1]}
							}
							if w := x.do(o); w != "" {
								return w
							}
						}
						return ""
					})
					c.Step(2 * n)
					c.States += int64(n)
				}
			}
		}
	}
}
