package main

import (
	"fmt"

	"github.com/lxdlam/vertex/vharness/model"
)

// The operations on several sets for all sets of up to four members, and commands on
// objects of every small number of elements.

func init() {
	var algebra []op
	for _, n := range []string{"SDIFF", "SINTER", "SUNION"} {
		for _, k := range []string{"a", "a a", "a b", "b a", "a b c", "a c b", "b a c", "c a b", "b c a", "a miss", "miss a", "a miss b", "a b a b", "a a b", "b b a c a"} {
			algebra = append(algebra, a(n+" "+k))
		}
	}
	members := []string{"w", "x", "y", "z"}
	sub := func(k string, bits int) []string {
		c := []string{"SADD", k}
		for i, m := range members {
			if bits>>i&1 == 1 {
				c = append(c, m)
			}
		}
		return c
	}
	var starts [][][]string
	for i := 0; i < 16; i++ {
		for j := 0; j < 16; j++ {
			for _, k := range []int{0, 2, 5, 15} {
				var st [][]string
				for n, b := range []int{i, j, k} {
					if c := sub(string(rune('a'+n)), b); len(c) > 2 {
						st = append(st, c)
					}
				}
				starts = append(starts, st)
			}
		}
	}
	members3 := append(members, "v")
	all := func(m *model.DB) [][]string {
		var l [][]string
		for _, k := range []string{"a", "b", "c", "miss"} {
			l = append(l, []string{"SCARD", k}, []string{"SMEMBERS", k})
			for _, x := range members3 {
				l = append(l, []string{"SISMEMBER", k, x})
			}
		}
		return l
	}
	single("C04", "algebra", starts, algebra, all)
	single("C05", "algebra", starts, algebra, all)

	// objects of every type under both names with n and m elements
	var many [][][]string
	for _, n := range []int{1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 300} {
		for _, m := range []int{1, 2, 5, 16, 64, 129} {
			sa, sb, la, lb, ha, hb := []string{"SADD", "a"}, []string{"SADD", "b"}, []string{"RPUSH", "a"}, []string{"RPUSH", "b"}, []string{"HSET", "a"}, []string{"HSET", "b"}
			for i := 0; i < n; i++ {
				e := fmt.Sprint(i)
				sa, la, ha = append(sa, e), append(la, e), append(ha, e, e+e)
			}
			for i := 0; i < m; i++ {
				e := fmt.Sprint(n/2 + i)
				sb, lb, hb = append(sb, e), append(lb, e), append(hb, e, e+e)
			}
			many = append(many, [][]string{{"SET", "a", "5"}, {"SET", "b", "x"}, sa, sb, la, lb, ha, hb})
		}
	}
	single("C05", "many", many, ops(
		"SDIFF a b", "SDIFF b a", "SINTER a b", "SINTER b a", "SUNION a b", "SUNION b a", "SUNION a miss b", "SMEMBERS a", "SRANDMEMBER a", "SRANDMEMBER a 8", "SRANDMEMBER a -8", "SPOP b 3", "SREM b 0 9", "SISMEMBER a 1", "SCARD b",
		"LRANGE a 0 -1", "LRANGE a 3 9", "LRANGE a -9 -3", "LINDEX a 3", "LINDEX a -3", "LLEN a", "LSET a 99999 q", "LTRIM b 1 1", "LTRIM b 8 2", "LREM b 2 8", "LPOP b", "RPOP b", "LINSERT a BEFORE nope x", "LINSERT b AFTER 16 x",
		"HGETALL a", "HKEYS a", "HVALS a", "HLEN a", "HMGET a 1 2 nope", "HSTRLEN a 2", "HDEL b 1 2", "HSET a", "HSET b 8 x", "MGET a b", "GET a", "GETRANGE b 0 -1", "STRLEN a", "EXISTS a b", "APPEND b q", "INCR a", "INCR b",
	), func(m *model.DB) [][]string {
		return append(cmds("SCARD a", "SCARD b", "SMEMBERS a", "SMEMBERS b", "LLEN a", "LLEN b", "LRANGE a 0 -1", "LRANGE b 0 -1", "HLEN a", "HLEN b", "HGETALL a", "HGETALL b", "GET a", "GET b"))
	})
}
