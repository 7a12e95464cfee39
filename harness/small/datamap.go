package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/lxdlam/vertex/mc"
	"github.com/lxdlam/vertex/pkg/types"
	"github.com/lxdlam/vertex/vharness/hl"
)

// C20: the data maps.

var mapKinds = []struct {
	name string
	mk   func() types.DataMap
}{
	{"locked", func() types.DataMap { return types.NewLockedDataMap() }},
	{"sync", func() types.DataMap { return types.NewSyncDataMap() }},
	{"simple", func() types.DataMap { return types.NewSimpleDataMap() }},
}

type dmOp struct {
	kind byte // S G H R L
	key  string
	val  interface{}
}

func (o dmOp) String() string {
	switch o.kind {
	case 'S':
		return fmt.Sprintf("Set(%q,%v)", o.key, o.val)
	case 'G':
		return fmt.Sprintf("Get(%q)", o.key)
	case 'H':
		return fmt.Sprintf("Has(%q)", o.key)
	case 'R':
		return fmt.Sprintf("Remove(%q)", o.key)
	}
	return "Len()"
}

func (o dmOp) do(m types.DataMap) string {
	switch o.kind {
	case 'S':
		m.Set(o.key, o.val)
		return ""
	case 'G':
		v, ok := m.Get(o.key)
		return fmt.Sprintf("%v %v", v, ok)
	case 'H':
		return fmt.Sprint(m.Has(o.key))
	case 'R':
		m.Remove(o.key)
		return ""
	}
	return fmt.Sprint(m.Len())
}

// the sequential map, written as "key=value;..." with sorted keys
func dmStep(st string, op hl.Op) (string, bool) {
	o := op.In.(dmOp)
	m := map[string]string{}
	for _, kv := range strings.Split(st, ";") {
		if kv != "" {
			i := strings.IndexByte(kv, '=')
			m[kv[:i]] = kv[i+1:]
		}
	}
	want := ""
	switch o.kind {
	case 'S':
		m[o.key] = fmt.Sprint(o.val)
	case 'G':
		v, ok := m[o.key]
		if !ok {
			v = "<nil>"
		}
		want = fmt.Sprintf("%v %v", v, ok)
	case 'H':
		_, ok := m[o.key]
		want = fmt.Sprint(ok)
	case 'R':
		delete(m, o.key)
	case 'L':
		want = fmt.Sprint(len(m))
	}
	if want != op.Out.(string) {
		return "", false
	}
	var l []string
	for k, v := range m {
		l = append(l, k+"="+v)
	}
	sort.Strings(l)
	return strings.Join(l, ";"), true
}

var dmAlpha = []dmOp{
	{'S', "a", "1"}, {'S', "a", "2"}, {'S', "b", "3"}, {'G', "a", nil}, {'H', "a", nil}, {'R', "a", nil}, {'L', "", nil}, {'R', "b", nil}, {'G', "b", nil},
}

// every pair (triple) of programs whose first operations are fixed; the rest is chosen
func dmConc(mk func() types.DataMap, firsts []int, length int, alpha int) func() {
	return func() {
		m := mk()
		st := ""
		switch mc.Choose(3, 0) {
		case 1:
			m.Set("a", "0")
			st = "a=0"
		case 2:
			m.Set("a", "0")
			m.Set("b", "0")
			st = "a=0;b=0"
		}
		n := len(firsts)
		progs := make([][]dmOp, n)
		for i, f := range firsts {
			progs[i] = []dmOp{dmAlpha[f]}
			for len(progs[i]) < length {
				progs[i] = append(progs[i], dmAlpha[mc.Choose(alpha, 0)])
			}
		}
		hist := make([][]hl.Op, n)
		var ts []*mc.Task
		for g := 0; g < n; g++ {
			g := g
			ts = append(ts, mc.Spawn(func() {
				for _, o := range progs[g] {
					inv := mc.Stamp()
					out := o.do(m)
					hist[g] = append(hist[g], hl.Op{G: g, Inv: inv, Resp: mc.Stamp(), Name: "", In: o, Out: out})
				}
			}))
		}
		for _, t := range ts {
			t.Join()
		}
		var h []hl.Op
		for _, x := range hist {
			h = append(h, x...)
		}
		for _, o := range []dmOp{{'L', "", nil}, {'G', "a", nil}, {'H', "a", nil}, {'G', "b", nil}, {'H', "b", nil}, {'L', "", nil}} {
			inv := mc.Stamp()
			out := o.do(m)
			h = append(h, hl.Op{G: n, Inv: inv, Resp: mc.Stamp(), In: o, Out: out})
		}
		if !hl.Linearizable(h, st, dmStep) {
			mc.Fail("no order of the operations explains the results (initially {%s}): %v", st, h)
		}
	}
}

func init() {
	for _, k := range mapKinds[:2] {
		for a := 0; a < 7; a++ {
			for b := a; b < 7; b++ {
				hl.Register("C20", hl.Scn{Name: fmt.Sprintf("%s/2x1/%d,%d", k.name, a, b), Body: dmConc(k.mk, []int{a, b}, 1, 0), Quick: -5, Thorough: -5, Slow: -1, Race: 3})
				hl.Register("C20", hl.Scn{Name: fmt.Sprintf("%s/2x2/%d,%d", k.name, a, b), Body: dmConc(k.mk, []int{a, b}, 2, 7), Quick: 2, Thorough: 4})
				for c := b; c < 7; c++ {
					hl.Register("C20", hl.Scn{Name: fmt.Sprintf("%s/3x1/%d,%d,%d", k.name, a, b, c), Body: dmConc(k.mk, []int{a, b, c}, 1, 0), Quick: 3, Thorough: -5})
				}
			}
		}
		hl.Register("C20", hl.Scn{Name: k.name + "/3x2", Body: dmConc(k.mk, []int{0, 5, 2}, 2, 9), Quick: 1, Thorough: 3, Late: true})
	}
	hl.Register("C20", hl.Scn{Name: "sequential/agree", Seq: dmSeq}, hl.Scn{Name: "sequential/many", Seq: dmMany}, hl.Scn{Name: "sequential/values", Seq: dmValues})
}

func dmCheck(m types.DataMap, want map[string]interface{}, keys []string) string {
	if m.Len() != len(want) {
		return fmt.Sprintf("Len is %d, present keys %d", m.Len(), len(want))
	}
	for _, k := range keys {
		w, ok := want[k]
		v, has := m.Get(k)
		if has != ok || v != w {
			return fmt.Sprintf("Get(%q)=%v,%v want %v,%v", k, v, has, w, ok)
		}
		if m.Has(k) != ok {
			return fmt.Sprintf("Has(%q)=%v", k, !ok)
		}
	}
	return ""
}

// every sequence of Set and Remove up to the depth, all reads after each step
func dmSeq(c *hl.Seq) {
	keys := []string{"", "a", "A"}
	vals := []interface{}{1, nil, "x"}
	var alpha []dmOp
	for _, k := range keys {
		for _, v := range vals {
			alpha = append(alpha, dmOp{'S', k, v})
		}
		alpha = append(alpha, dmOp{'R', k, nil})
	}
	depth := hl.Pick(4, 6)
	var path []dmOp
	var rec func(d int)
	rec = func(d int) {
		if c.Late() {
			return
		}
		if len(path) == depth || d == depth {
			c.Try(func() string { return fmt.Sprint(path) }, func() string {
				ms := []types.DataMap{mapKinds[0].mk(), mapKinds[1].mk(), mapKinds[2].mk()}
				want := map[string]interface{}{}
				for _, o := range path {
					for i, m := range ms {
						o.do(m)
						if i == 0 {
							if o.kind == 'S' {
								want[o.key] = o.val
							} else {
								delete(want, o.key)
							}
						}
						if w := dmCheck(m, want, append(keys, "missing")); w != "" {
							return fmt.Sprintf("%s map after %v: %s", mapKinds[i].name, o, w)
						}
					}
				}
				return ""
			})
			c.Step(depth)
			c.States++
			return
		}
		for _, o := range alpha {
			path = append(path, o)
			rec(d + 1)
			path = path[:len(path)-1]
		}
	}
	rec(0)
	c.Sample("%v ...", alpha)
}

// many keys: grow to n, overwrite, shrink in two orders
func dmMany(c *hl.Seq) {
	for _, k := range mapKinds {
		for _, n := range []int{1, 2, 7, 8, 9, 64, 65, 300, 1000} {
			for order := 0; order < 3; order++ {
				k, n, order := k, n, order
				c.Try(func() string { return fmt.Sprintf("%s map, %d keys, order %d", k.name, n, order) }, func() string {
					m := k.mk()
					want := map[string]interface{}{}
					var keys []string
					for i := 0; i < n; i++ {
						key := fmt.Sprint("k", i*7919%n)
						keys = append(keys, key)
						m.Set(key, i)
						want[key] = i
						if m.Len() != len(want) {
							return fmt.Sprintf("Len %d after %d sets", m.Len(), len(want))
						}
					}
					if w := dmCheck(m, want, keys); w != "" {
						return w
					}
					for i, key := range keys {
						m.Set(key, -i)
						want[key] = -i
					}
					if w := dmCheck(m, want, keys); w != "" {
						return w
					}
					for i := range keys {
						j := i
						switch order {
						case 1:
							j = n - 1 - i
						case 2:
							j = (i*31 + 7) % n
						}
						m.Remove(keys[j])
						delete(want, keys[j])
						m.Remove(keys[j])
						if m.Len() != len(want) {
							return fmt.Sprintf("Len %d, %d present", m.Len(), len(want))
						}
					}
					return dmCheck(m, want, keys)
				})
				c.Step(4 * n)
				c.States++
			}
		}
	}
}

// values of every kind, also such that cannot be compared
func dmValues(c *hl.Seq) {
	values := []interface{}{nil, 0, "", false, []int{1}, []int(nil), map[string]int{"a": 1}, func() {}, (*int)(nil), struct{ f []int }{nil}, errors.New("e"), 1.5}
	show := func(v interface{}) string { return fmt.Sprintf("%T %v", v, v) }
	for _, k := range mapKinds {
		for i, a := range values {
			for j, b := range values {
				k, a, b := k, a, b
				c.Try(func() string { return fmt.Sprintf("%s map: the value %s, then %s", k.name, show(a), show(b)) }, func() string {
					m := k.mk()
					for _, v := range []interface{}{a, a, b, a} {
						m.Set("k", v)
						if got, ok := m.Get("k"); !ok || show(got) != show(v) {
							return fmt.Sprintf("Get gives %s %v", show(got), ok)
						}
						if !m.Has("k") || m.Len() != 1 {
							return fmt.Sprintf("Has gives %v, Len %d", m.Has("k"), m.Len())
						}
					}
					m.Set("", b)
					m.Remove("k")
					if got, ok := m.Get("k"); ok || got != nil || m.Has("k") || m.Len() != 1 || !m.Has("") {
						return fmt.Sprintf("removed, Get gives %s %v and Len %d", show(got), ok, m.Len())
					}
					return ""
				})
				c.Step(7)
				c.States++
				if i+j == 3 {
					c.Sample("%s: %s, %s", k.name, show(a), show(b))
				}
			}
		}
	}
}
