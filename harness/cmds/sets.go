package main

import (
	"fmt"

	"github.com/lxdlam/vertex/vharness/model"
)

// C04: sets.

func setReads(m *model.DB) [][]string {
	var l [][]string
	el := map[string]bool{"x": true, "y": true, "nope": true, "": true}
	for _, s := range m.Sets {
		for x := range s {
			if len(el) < 30 {
				el[x] = true
			}
		}
	}
	for _, k := range []string{"a", "b", "miss"} {
		l = append(l, []string{"SCARD", k}, []string{"SMEMBERS", k}, []string{"SRANDMEMBER", k}, []string{"SRANDMEMBER", k, "2"}, []string{"SRANDMEMBER", k, "-1"}, []string{"SRANDMEMBER", k, "0"},
			[]string{"SRANDMEMBER", k, "100"}, []string{"SRANDMEMBER", k, maxI}, []string{"SRANDMEMBER", k, minI})
		for x := range el {
			l = append(l, []string{"SISMEMBER", k, x})
		}
		for _, j := range []string{"a", "b", "miss"} {
			l = append(l, []string{"SDIFF", k, j}, []string{"SINTER", k, j}, []string{"SUNION", k, j})
			l = append(l, []string{"SDIFF", k, j, "c"}, []string{"SINTER", k, j, "c"}, []string{"SUNION", k, j, "c"})
		}
		l = append(l, []string{"SDIFF", k}, []string{"SINTER", k}, []string{"SUNION", k})
	}
	return append(l, []string{"SDIFF", "a", "b", "a", "b"}, []string{"SINTER", "a", "a", "a"}, []string{"SUNION", "a", "b", "a", "c", "b"}, []string{"SMEMBERS", "a"}, []string{"SMEMBERS", "b"}, []string{"SMEMBERS", "c"})
}

func init() {
	alpha := ops(
		"SADD a x", "SADD a y", "sadd a x y z", "SADD a x x", "SADD a x y x y", "SADD a z x x", "SADD a _", "SADD b x", "SADD b y \\r\\n\\0 x", "SADD c z", "SADD _ x", "SADD a", "SADD",
		"SREM a x", "SREM a y x", "SREM a nope", "SREM a x x", "SREM a x x y", "SREM a y z z", "SREM a q z x z x", "SREM b x", "SREM miss x", "SREM a", "SREM _ x", "SREM a _", "SREM c z",
		"SCARD", "SMEMBERS a b", "SISMEMBER a", "SISMEMBER a x y", "SDIFF", "SINTER", "SUNION", "SPOP", "SPOP a 1 2", "SPOP a x", "SPOP a 1.5", "SRANDMEMBER", "SRANDMEMBER a b", "SRANDMEMBER a 1 2",
		"SPOP a", "SPOP b", "SPOP miss", "SPOP miss 2", "SPOP a 0", "SPOP a 2", "SPOP a -1", "SPOP a 100", "SPOP a "+maxI, "SPOP a "+minI, "SPOP b 2", "SRANDMEMBER miss", "SRANDMEMBER miss 1",
	)
	for _, s := range []string{"SPOP a", "SPOP a 2", "SPOP b", "SRANDMEMBER a", "SRANDMEMBER a 2"} {
		for _, ord := range []int{1, 2} {
			o := a(s)
			o.order = ord
			alpha = append(alpha, o)
		}
	}
	starts := [][][]string{nil, cmds("SADD a x y z", "SADD b y z w", "SADD c z"), cmds("SADD a x", "SREM a x", "SADD b x"), cmds("SADD a x y", "SADD b x y", "SADD c q"), cmds("SADD a _ 1 2", "SADD b _")}
	search("C04", "sets", alpha, starts, 4, 5, setReads)
	mk := func(n, m int) [][]string {
		c, d, e := []string{"SADD", "a"}, []string{"SADD", "b"}, []string{"SADD", "c"}
		for i := 0; i < n; i++ {
			c = append(c, fmt.Sprint("m", i))
		}
		for i := 0; i < m; i++ {
			d = append(d, fmt.Sprint("m", i*2))
			e = append(e, fmt.Sprint("m", i*3))
		}
		return [][]string{c, d, e}
	}
	big := ops("SPOP a 10", "SPOP a -250", "SPOP a 299", "SPOP a 300", "SPOP a 301", "SREM a m0 m1 m2 q", "SADD a m0 new", "SPOP b", "SRANDMEMBER a 150", "SRANDMEMBER a 299", "SRANDMEMBER a 300")
	single("C04", "big", [][][]string{mk(300, 150), mk(8, 9), mk(9, 8), mk(64, 1), mk(1, 64)}, big, setReads)
	// every outcome of the random source on small sets: all iteration orders of up to four
	// members (more in the thorough tier), every count
	var rnd []op
	for p := 0; p < 123; p++ {
		for _, s := range []string{"SPOP a", "SPOP a 1", "SPOP a 2", "SPOP a 3", "SPOP a -2", "SPOP a 4", "SPOP a 5", "SRANDMEMBER a", "SRANDMEMBER a 1", "SRANDMEMBER a 2", "SRANDMEMBER a -3", "SRANDMEMBER a 4", "SMEMBERS a", "SDIFF a b", "SINTER a b c", "SUNION b a"} {
			o := a(s)
			o.order = p
			rnd = append(rnd, o)
		}
	}
	single("C04", "random", [][][]string{cmds("SADD a x y z w v"), cmds("SADD a x y z w", "SADD b x w"), cmds("SADD a x y z", "SADD b y", "SADD c y z"), cmds("SADD a x y"), cmds("SADD a _"), mk(12, 6)}, rnd, setReads)
	var one []op
	for b := 0; b < 256; b++ {
		s := string([]byte{byte(b)})
		one = append(one, op{args: []string{"SADD", "a", s, s + s}}, op{args: []string{"SREM", "a", s, "x"}})
	}
	single("C04", "bytes", [][][]string{nil, cmds("SADD a x y")}, one, setReads)
}
