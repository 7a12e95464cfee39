package main

import (
	"fmt"
	"strings"

	"github.com/lxdlam/vertex/vharness/model"
)

// Values of every interesting size in every place of every command of the four types.

var sizeList = []int{0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 19, 20, 21, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097}

func sized(n int, c byte) string {
	s := strings.Repeat(string([]byte{c}), n)
	if n > 2 {
		s = s[:n-2] + "\n" + s[n-1:]
	}
	return s
}

func init() {
	var str, list, hash, set []op
	var st [][][]string
	sizes := append(append([]int{}, sizeList...), 65535, 65536, 65537)
	for _, n := range sizes {
		x, y, d := sized(n, 'x'), sized(n, 'y'), strings.Repeat("7", n)
		st = append(st, [][]string{{"SET", "a", x}, {"SET", "b", d}, {"RPUSH", "a", x, y, d}, {"HSET", "a", "f", x, x + "k", y, "g", d}, {"SADD", "a", x + "m", y + "m", d + "m"}})
	}
	o := func(l *[]op, a ...string) { *l = append(*l, op{args: a}) }
	for _, n := range sizeList {
		x, y, d := sized(n, 'x'), sized(n, 'y'), strings.Repeat("7", n)
		o(&str, "APPEND", "a", x)
		o(&str, "APPEND", "b", d)
		o(&str, "APPEND", y, x)
		o(&str, "MSET", "a", y, "b", x, x, y)
		o(&str, "GETRANGE", "a", fmt.Sprint(n), fmt.Sprint(n+n))
		o(&list, "LPUSH", "a", y, x)
		o(&list, "LREM", "a", "0", x)
		o(&list, "LINSERT", "a", "AFTER", x, y)
		o(&list, "LSET", "a", "1", y)
		o(&hash, "HSET", "a", x, y, "f", x)
		o(&hash, "HDEL", "a", x, x+"k", "f")
		o(&hash, "HSET", y+"key", x, d)
		o(&set, "SADD", "a", x+"m", d)
		o(&set, "SREM", "a", y+"m", d+"m", x)
		o(&set, "SADD", y+"key", x, y)
	}
	single("C01", "sizes", st, str, func(m *model.DB) [][]string {
		var l [][]string
		for k, v := range m.Str {
			n := len(v)
			l = append(l, []string{"GET", k}, []string{"STRLEN", k}, []string{"EXISTS", k}, []string{"GETRANGE", k, "1", fmt.Sprint(n - 2)}, []string{"GETRANGE", k, "-2", "-1"}, []string{"GETRANGE", k, "0", "63"})
		}
		return append(l, []string{"MGET", "a", "b", "c"})
	})
	single("C02", "sizes", st, list, func(m *model.DB) [][]string {
		return cmds("LRANGE a 0 -1", "LLEN a", "LINDEX a 0", "LINDEX a -1", "LINDEX a 1")
	})
	single("C03", "sizes", st, hash, func(m *model.DB) [][]string {
		l := cmds("HGETALL a", "HLEN a", "HGET a f", "HGET a g", "HSTRLEN a f", "HVALS a", "HKEYS a")
		for k, h := range m.Hashes {
			for f := range h {
				l = append(l, []string{"HGET", k, f}, []string{"HSTRLEN", k, f}, []string{"HMGET", k, "f", f})
			}
		}
		return l
	})
	single("C04", "sizes", st, set, func(m *model.DB) [][]string {
		l := cmds("SMEMBERS a", "SCARD a", "SUNION a a", "SINTER a a", "SDIFF a b")
		for k, h := range m.Sets {
			for f := range h {
				l = append(l, []string{"SISMEMBER", k, f})
			}
		}
		return l
	})
}
