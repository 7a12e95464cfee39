package main

import (
	"fmt"
	"strings"

	"github.com/lxdlam/vertex/vharness/model"
)

// C01: strings.

func strReads(m *model.DB) [][]string {
	var l [][]string
	for _, k := range []string{"a", "b", ""} {
		l = append(l, []string{"GET", k}, []string{"StrLen", k}, []string{"exists", k})
		n := len(m.Str[k])
		pos := []string{"0", "-1", "1", "-2", fmt.Sprint(n), fmt.Sprint(n - 1), fmt.Sprint(-n), fmt.Sprint(-n - 1), fmt.Sprint(n / 2), fmt.Sprint(n + 1), maxI, minI}
		for _, i := range pos {
			for _, j := range pos {
				l = append(l, []string{"GETRANGE", k, i, j})
			}
		}
	}
	return append(l, []string{"MGET", "a", "b", "a", "", "miss"}, []string{"EXISTS", "a", "b", "a", "", "miss"}, []string{"MGET", "miss"}, []string{"MGET", "b"})
}

func init() {
	alpha := ops(
		"SET a 0", "set a 10", "SET a _", "SET a x\\r\\n\\0\\x", "SET a "+maxI, "SET a "+minI, "SET b 7", "SeT _ v",
		"MSET a 1 b 2", "MSET a 1 a 3", "MSET b _ _ 5 a \\x", "MSET a", "MSET", "MSET a 1 b",
		"APPEND a 1", "APPEND a _", "append a \\r\\n", "APPEND b -", "APPEND miss 0", "APPEND _ 1",
		"INCR a", "INCR b", "INCR miss", "INCR a 5", "INCRBY a 5", "INCRBY a -3", "INCRBY a "+maxI, "INCRBY a "+minI, "INCRBY a x", "INCRBY a _", "INCRBY b 1", "INCRBY a",
		"INCRBY a 1 1", "INCR", "DECR a", "DECR b", "DECRBY a 5", "DECRBY a "+maxI, "DECRBY a "+minI, "DECRBY a -1", "DECRBY a 1.5", "DECR miss", "DECRBY _ 2",
		"GET", "GET a b", "SET a", "SET a b c", "STRLEN", "GETRANGE a 0", "GETRANGE a x 1", "EXISTS", "MGET",
	)
	starts := [][][]string{nil, cmds("SET a 5", "SET b xyz"), cmds("MSET a " + maxI + " b " + minI), cmds("SET a +5", "SET b 007"), cmds("SET a -1", "SET b -0", "SET _ _"), cmds("SET a 9", "SET b 99")}
	search("C01", "strings", alpha, starts, 3, 4, strReads)
	// a smaller alphabet, deeper
	search("C01", "deep", ops("SET a 8", "SET b a", "APPEND a 1", "APPEND b 9", "INCR a", "DECRBY a 9", "INCR b", "MSET a 2 b a", "MSET b 0", "INCRBY b "+maxI, "APPEND a -"), [][][]string{nil}, 5, 7, strReads)

	// equal values under several keys stay apart
	search("C01", "equal", ops("SET a 5", "SET b 5", "MSET a 5 b 5", "MSET a 5 b 5 c 5", "MSET c 6 a 5 b 5", "SET c a", "SET a a", "SET b b", "INCR a", "INCR b", "DECR c", "INCRBY a 0", "APPEND a 5", "APPEND b 5", "APPEND c _", "MSET a a b a", "MSET a _ b _"),
		[][][]string{nil, cmds("MSET a 5 b 5 c 5"), cmds("MSET 5 5 a a b 5 c b")}, 5, 7, func(m *model.DB) [][]string {
			return append(cmds("MGET a b c 5 6", "STRLEN c", "GETRANGE c 0 -1", "GET c"), strReads(m)[:6]...)
		})

	// many keys and long values
	var many []string
	for i := 0; i < 300; i++ {
		many = append(many, fmt.Sprint("key", i), fmt.Sprint("v", i*i))
	}
	long := strings.Repeat("0123456789", 7000)
	big := [][][]string{{append([]string{"MSET"}, many...)}, {{"SET", "a", long}, {"SET", "b", long[:4096]}}}
	reads := func(m *model.DB) [][]string {
		l := [][]string{{"MGET"}, {"EXISTS"}}
		for k := range m.Str {
			l[0] = append(l[0], k)
			l[1] = append(l[1], k)
		}
		for k := range m.Str {
			l = append(l, []string{"GET", k}, []string{"STRLEN", k}, []string{"GETRANGE", k, "0", "-1"}, []string{"GETRANGE", k, "1", "300"}, []string{"GETRANGE", k, "4095", "4097"}, []string{"GETRANGE", k, "-5", "-2"})
		}
		return l
	}
	single("C01", "big", big, append(ops("APPEND a x", "APPEND key7 x", "SET key299 y", "MSET key0 1 key1 2 key2 3", "INCR key3", "SET a b", "APPEND b _"),
		op{args: []string{"APPEND", "b", long}}, op{args: []string{"SET", long, long}}, op{args: append([]string{"MSET"}, many[:100]...)}), reads)

	// every value of one byte, every pair of integers at the boundaries
	var one []op
	for b := 0; b < 256; b++ {
		s := string([]byte{byte(b)})
		one = append(one, op{args: []string{"SET", "a", s}}, op{args: []string{"SET", s, "v" + s}}, op{args: []string{"APPEND", "b", s + s}})
	}
	single("C01", "bytes", [][][]string{nil, cmds("SET a x", "SET b y")}, one, func(m *model.DB) [][]string {
		l := strReads(m)
		for k := range m.Str {
			l = append(l, []string{"GET", k})
		}
		return l
	})
	ints := f("0 1 -1 2 -2 9 10 -10 99 " + maxI + " " + minI + " 9223372036854775806 -9223372036854775807 4611686018427387904 -4611686018427387904 4294967296 2147483648 -2147483649 9223372036854775808 -9223372036854775809 18446744073709551616 00 -00 +1 1e1 0x1")
	var arith []op
	var st [][][]string
	for _, i := range ints {
		st = append(st, [][]string{{"SET", "a", i}})
		arith = append(arith, op{args: []string{"INCRBY", "a", i}}, op{args: []string{"DECRBY", "a", i}})
	}
	arith = append(arith, ops("INCR a", "DECR a", "APPEND a 0")...)
	single("C01", "arithmetic", st, arith, strReads)
}
