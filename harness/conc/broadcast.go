package main

import (
	"fmt"

	"github.com/lxdlam/vertex/mc"
	"github.com/lxdlam/vertex/pkg/concurrency"
	"github.com/lxdlam/vertex/vharness/hl"
)

// C19: a broadcast value.

func bcScenario(sets [][]interface{}, getters int, late bool) func() {
	return func() {
		b := concurrency.NewBroadCaster()
		got := make([][]interface{}, getters)
		var all []interface{}
		for _, s := range sets {
			all = append(all, s...)
		}
		var ts []*mc.Task
		for i := 0; i < getters; i++ {
			i := i
			ts = append(ts, mc.Spawn(func() {
				got[i] = append(got[i], b.Get())
				got[i] = append(got[i], b.Get())
			}))
		}
		var setters []*mc.Task
		for _, s := range sets {
			s := s
			setters = append(setters, mc.Spawn(func() {
				for _, v := range s {
					b.Set(v)
				}
			}))
		}
		if late {
			for _, t := range setters {
				t.Join()
			}
			v := b.Get()
			if !in(v, all) {
				mc.Fail("Get after the set returned %v, set were %v", v, all)
			}
		}
		for _, t := range append(ts, setters...) {
			t.Join()
		}
		for i := range got {
			for _, v := range got[i] {
				if !in(v, all) {
					mc.Fail("a getter returned %v, set were %v", v, all)
				}
			}
		}
		a, c := b.Get(), b.Get()
		if !in(a, all) || a != c {
			mc.Fail("settled value reads %v then %v, set were %v", a, c, all)
		}
	}
}

func in(v interface{}, all []interface{}) bool {
	for _, x := range all {
		if x == v {
			return true
		}
	}
	return false
}

func init() {
	type S = []interface{}
	for i, x := range []struct {
		sets    [][]interface{}
		getters int
	}{
		{[][]interface{}{{1}}, 1}, {[][]interface{}{{1}}, 3}, {[][]interface{}{{nil}}, 2}, {[][]interface{}{{1, 2}}, 2},
		{[][]interface{}{{1}, {2}}, 1}, {[][]interface{}{{1}, {2}}, 2}, {[][]interface{}{{nil}, {2}}, 2}, {[][]interface{}{{1}, {2}, {3}}, 1},
		{[][]interface{}{{1, 2}, {3}}, 1}, {[][]interface{}{{"a"}}, 0}, {[][]interface{}{{"a"}, {"b"}}, 0}, {[][]interface{}{{1}}, 4},
	} {
		for _, late := range []bool{false, true} {
			q := -3
			if x.getters == 4 {
				q = 1
			}
			hl.Register("C19", hl.Scn{Name: fmt.Sprintf("broadcast/%d/late=%v", i, late), Body: bcScenario(x.sets, x.getters, late), Quick: q, Thorough: -3, Race: 2})
		}
	}
	// without a value nobody returns
	hl.Register("C19", hl.Scn{Name: "broadcast/unset", Quick: -3, Thorough: -3, Body: func() {
		b := concurrency.NewBroadCaster()
		t1 := mc.Spawn(func() { b.Get() })
		t2 := mc.Spawn(func() { b.Get() })
		mc.Quiesce()
		if t1.Done() || t2.Done() {
			mc.Fail("a getter returned before any value was set")
		}
		b.Set(false)
		t1.Join()
		t2.Join()
	}})
	// many getters
	for _, n := range []int{5, 8, 9, 16, 17, 33, 65, 129, 300} {
		for _, v := range []interface{}{1, nil} {
			hl.Register("C19", hl.Scn{Name: fmt.Sprintf("broadcast/many/%d-%v", n, v), Body: bcScenario([][]interface{}{{v}, {v}}, n, n%2 == 1), Cfg: defaultOrder, Quick: 0, Thorough: 0, Slow: -1})
		}
	}
}
