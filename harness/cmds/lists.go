package main

import (
	"fmt"

	"github.com/lxdlam/vertex/vharness/model"
)

// C02: lists.

func listReads(m *model.DB) [][]string {
	var l [][]string
	for _, k := range []string{"a", "b"} {
		n := len(m.Lists[k])
		l = append(l, []string{"LLEN", k}, []string{"LRANGE", k, "0", "-1"})
		seen := map[string]bool{}
		var pos []string
		add := func(i int) {
			if s := fmt.Sprint(i); !seen[s] {
				seen[s] = true
				pos = append(pos, s)
			}
		}
		if n <= 4 {
			for i := -n - 2; i <= n+2; i++ {
				add(i)
			}
		} else {
			for _, i := range []int{0, 1, 2, n / 2, n - 2, n - 1, n, n + 1, -1, -2, -n / 2, -n + 1, -n, -n - 1, -2*n - 1, -2 * n, 2 * n} {
				add(i)
			}
		}
		pos = append(pos, maxI, minI, "4294967296", "-4294967295")
		for _, i := range pos {
			l = append(l, []string{"LINDEX", k, i})
			for _, j := range pos {
				l = append(l, []string{"LRANGE", k, i, j})
			}
		}
	}
	return append(l, []string{"LLEN", "miss"}, []string{"LRANGE", "miss", "0", "-1"}, []string{"LINDEX", "miss", "0"})
}

func init() {
	const D = "dummy\\sstring"
	alpha := ops(
		"LPUSH a x", "LPUSH a x y", "RPUSH a x", "rpush a y _", "RPUSH a "+D, "RPUSH a 1 01 +1", "LREM a 0 1", "LSET a 0 007", "LINSERT a AFTER 1 1", "LPUSH b \\r\\n\\0", "LPUSH _ x", "LPUSH a",
		"LPOP a", "RPOP a", "LPOP b", "RPOP miss", "LPOP", "RPOP a b",
		"LINSERT a BEFORE x z", "LINSERT a after x z", "LINSERT a BeForE y "+D, "LINSERT a AFTER "+D+" q", "LINSERT a BEFORE "+D+" q", "LINSERT a AFTER nope z", "LINSERT a MIDDLE x z", "LINSERT miss BEFORE x z", "LINSERT a BEFORE x",
		"LSET a 0 s", "LSET a -1 t", "LSET a 1 x", "LSET a -2 _", "LSET a "+minI+" s", "LSET a "+maxI+" s", "LSET a x s", "LSET miss 0 s",
		"LREM a 0 x", "LREM a 1 x", "LREM a -1 x", "LREM a 2 x", "LREM a -2 x", "LREM a "+minI+" x", "LREM a "+maxI+" y", "LREM a 0 "+D, "LREM a -1 "+D, "LREM a 0 _", "LREM miss 1 x", "LREM a z x",
		"LTRIM a 0 -1", "LTRIM a 1 -1", "LTRIM a 0 -2", "LTRIM a 0 0", "LTRIM a -1 -1", "LTRIM a 1 1", "LTRIM a -2 "+maxI, "LTRIM a 5 9", "LTRIM a 2 1", "LTRIM a 0 -9", "LTRIM a "+minI+" -1", "LTRIM miss 0 0", "LTRIM a 0 x",
		"LRANGE a 0", "LRANGE a b c", "LINDEX a", "LINDEX a z", "LLEN", "LLEN a b",
	)
	starts := [][][]string{nil, cmds("RPUSH a x y x"), cmds("RPUSH a "+D+" x "+D, "RPUSH b q"), cmds("RPUSH a 1 2 3 4 5 6"), cmds("RPUSH a x", "LPOP a"), cmds("RPUSH a x x x x", "RPUSH b "+D)}
	search("C02", "lists", alpha, starts, 3, 4, listReads)
	search("C02", "deep", ops("LPUSH a x", "RPUSH a y", "RPUSH a x", "LPOP a", "RPOP a", "LINSERT a AFTER x z", "LINSERT a BEFORE y z", "LREM a 0 x", "LREM a -1 y", "LREM a 1 z", "LTRIM a 1 -1", "LTRIM a 0 -2", "LTRIM a 1 2", "LSET a -1 w", "LSET a 0 x"),
		[][][]string{nil, cmds("RPUSH a x y z x y z")}, 5, 7, listReads)

	// longer lists: every LTRIM, LREM, LSET and LINSERT position
	mk := func(n, mod int) [][]string {
		c := []string{"RPUSH", "a"}
		for i := 0; i < n; i++ {
			c = append(c, fmt.Sprint("e", i%mod))
		}
		return [][]string{c}
	}
	var pos []op
	N := 9
	for i := -N - 2; i <= N+2; i++ {
		for j := -N - 2; j <= N+2; j++ {
			pos = append(pos, op{args: []string{"LTRIM", "a", fmt.Sprint(i), fmt.Sprint(j)}})
		}
		pos = append(pos, op{args: []string{"LSET", "a", fmt.Sprint(i), "new"}})
		for e := 0; e < 4; e++ {
			pos = append(pos, op{args: []string{"LREM", "a", fmt.Sprint(i), fmt.Sprint("e", e)}})
		}
	}
	for e := 0; e < N+1; e++ {
		pos = append(pos, op{args: []string{"LINSERT", "a", "BEFORE", fmt.Sprint("e", e), "e0"}}, op{args: []string{"LINSERT", "a", "AFTER", fmt.Sprint("e", e), "e0"}})
	}
	single("C02", "positions", [][][]string{mk(N, 100), mk(N, 3), mk(N, 1), mk(N-1, 2), mk(2, 2), mk(1, 1)}, pos, listReads)
	big := ops("LPOP a", "RPOP a", "LTRIM a 100 150", "LTRIM a -300 -200", "LTRIM a 1 -2", "LREM a 0 e1", "LREM a 7 e1", "LREM a -7 e2", "LSET a 255 x", "LSET a 256 y", "LSET a -257 z", "LINSERT a BEFORE e6 w", "LINSERT a AFTER e299 w", "LPUSH a 1 2 3", "RPUSH b 1")
	single("C02", "big", [][][]string{mk(300, 7), mk(300, 1000), mk(1100, 5), mk(4100, 3)}, big, listReads)
}
