package main

import (
	"fmt"
	"strings"

	"github.com/lxdlam/vertex/vharness/hl"
	"github.com/lxdlam/vertex/vharness/model"
)

// Requests with many arguments, databases with many keys, and keys, fields and elements
// that look alike.

var widths = []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 19, 20, 21, 24, 31, 32, 33, 40, 48, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 400, 511, 512, 513, 1000, 1023, 1024, 1025, 2049}

// lookalikes are families of different strings.
var lookalikes = func() [][]string {
	var l [][]string
	for _, n := range []int{4, 8, 15, 16, 31, 32, 33, 63, 64, 127, 128, 255, 256, 512, 1024, 4096} {
		p := strings.Repeat("k", n)
		l = append(l, []string{p, p + "1", p + "2", "1" + p, "2" + p, p + "1" + p, p + "2" + p})
	}
	for i := 0; i < len(hl.Collide); i += 2 {
		var f []string
		for _, c := range hl.Collide[i : i+2] {
			// longer texts that begin with them collide as well
			f = append(f, c[0], c[1], c[0]+strings.Repeat("k", 80), c[1]+strings.Repeat("k", 80))
		}
		l = append(l, f)
	}
	return append(l,
		[]string{"x", "X", "x ", " x", "x\n", "x\r\n", "x\x00", "\x00x", "x\t", "xx"},
		[]string{"", " ", "\n", "\r\n", "\x00", "\x00\x00", "\t", "\v", "\u00a0"},
		[]string{"1", "01", "+1", "1.0", "1e0", "0x1", "-1", "1 "},
		[]string{"0", "-0", "00", "+0", "0.0", "nil", "(nil)", "null", "-1", "$-1"},
		[]string{"e\u0301", "\u00e9", "\u00c9", "E\u0301", "e", "\xe9", "\xc3"},
		[]string{"\xff", "\xfe", "\xff\xff", "\ufffd", "\xc3\x28", "\xff\xfe"},
		[]string{"ß", "ss", "SS", "ẞ", "ſs"},
		[]string{"K", "k", "\u212a"},
		[]string{"a:b", "a::b", "a:b:", ":a:b", "a.b", "a/b", "a\\b", "a*", "a?", "[a]", "{a}b", "{a}c"},
		[]string{"\"a\"", "'a'", "a", "`a`", "%61", "\\x61", "&a", "#a", "$a", "@a"},
		[]string{"global", "anonymous", "Global", "glob", "global\x00", "anonymous1"},
	)
}()

func init() {
	num := func(p string, n int) []string {
		var l []string
		for i := 0; i < n; i++ {
			l = append(l, fmt.Sprint(p, i))
		}
		return l
	}
	pairs := func(k, v string, n int) []string {
		var l []string
		for i := 0; i < n; i++ {
			l = append(l, fmt.Sprint(k, i), fmt.Sprint(v, i))
		}
		return l
	}
	cat := func(l ...[]string) []string {
		var r []string
		for _, x := range l {
			r = append(r, x...)
		}
		return r
	}
	o := func(l *[]op, a ...[]string) { *l = append(*l, op{args: cat(a...)}) }
	w := func(s string) []string { return strings.Fields(s) }

	var str, list, hash, set []op
	for _, n := range widths {
		half := num("e", n)[n/2:]
		o(&str, w("MSET"), pairs("k", "v", n))
		o(&str, w("MSET"), pairs("k", "v", n), w("k0 again"))
		o(&str, w("MSET"), pairs("k", "v", n), w("odd"))
		o(&str, w("MGET"), num("k", n))
		o(&str, w("EXISTS"), num("k", n))
		o(&str, w("EXISTS"), num("k", n), num("k", n))
		o(&list, w("LPUSH a"), num("e", n))
		o(&list, w("RPUSH a"), num("e", n))
		o(&list, w("RPUSH new"), num("e", n), half)
		o(&list, w("LPUSH new"), num("e", n), num("e", n))
		o(&hash, w("HSET a"), pairs("f", "v", n))
		o(&hash, w("HSET a"), pairs("f", "v", n), w("f0 again"))
		o(&hash, w("HSET a"), pairs("f", "v", n), w("odd"))
		o(&hash, w("HDEL a"), num("f", n))
		o(&hash, w("HDEL a"), num("f", n)[n/2:], num("f", n))
		o(&hash, w("HMGET a"), num("f", n))
		o(&set, w("SADD a"), num("e", n))
		o(&set, w("SADD a"), half, num("e", n))
		o(&set, w("SREM a"), num("e", n))
		o(&set, w("SREM a"), half, half)
		for _, c := range []string{"SPOP a ", "SRANDMEMBER a ", "SRANDMEMBER a -", "SPOP a -"} {
			o(&set, w(c+fmt.Sprint(n)))
		}
	}
	limit := func(keys []string) []string {
		if len(keys) > 8 {
			return cat(keys[:4], keys[len(keys)-4:])
		}
		return keys
	}
	single("C01", "wide", [][][]string{nil, {cat(w("MSET"), pairs("k", "old", 40))}, {cat(w("MSET"), pairs("k", "5", 600))}}, str, func(m *model.DB) [][]string {
		var keys []string
		for k := range m.Str {
			keys = append(keys, k)
		}
		l := [][]string{cat(w("MGET none"), keys), cat(w("EXISTS"), keys, w("none"))}
		for _, k := range append(limit(keys), "odd", "k1", "k40") {
			l = append(l, []string{"GET", k}, []string{"STRLEN", k})
		}
		return l
	})
	single("C02", "wide", [][][]string{nil, cmds("RPUSH a x y"), {cat(w("RPUSH a"), num("old", 40))}}, list, func(m *model.DB) [][]string {
		return cmds("LLEN a", "LRANGE a 0 -1", "LINDEX a 0", "LINDEX a -1", "LINDEX a 33", "LINDEX a -33", "LRANGE new 0 -1", "LLEN new", "LRANGE a -40 40")
	})
	single("C03", "wide", [][][]string{nil, {cat(w("HSET a"), pairs("f", "old", 40))}, {cat(w("HSET a"), pairs("f", "o", 600))}}, hash, func(m *model.DB) [][]string {
		return cmds("HLEN a", "HGETALL a", "HKEYS a", "HVALS a", "HGET a f0", "HGET a f33", "HEXISTS a f8", "HEXISTS a odd", "HMGET a f0 f40 f2000 odd")
	})
	sets := func(m *model.DB) [][]string {
		return cmds("SCARD a", "SMEMBERS a", "SISMEMBER a e0", "SISMEMBER a e33", "SISMEMBER a x", "SUNION a none", "SINTER a a", "SDIFF a none")
	}
	single("C04", "wide", [][][]string{nil, {cat(w("SADD a"), num("e", 40))}, {cat(w("SADD a x"), num("e", 600))}}, set, sets)

	// operations on many sets: sets s0..s69 of every kind, in requests naming the first n,
	// the same one n times, or the last n
	var build [][]string
	for i := 0; i < 70; i++ {
		c := []string{"SADD", fmt.Sprint("s", i), "all"}
		for j := 0; j < 8; j++ {
			if (i*(j+3))%7 != 1 {
				c = append(c, fmt.Sprint("m", j))
			}
		}
		build = append(build, append(c, fmt.Sprint("own", i)))
	}
	build = append(build, w("SADD equal all m0 m1"), w("SADD equal2 m1 m0 all"), w("SADD equal3 all m1 m0"), w("SADD apart q"), cat(w("SADD owns"), num("own", 70), w("all")))
	var alg []op
	rep := func(s string, n int) []string { return strings.Fields(strings.Repeat(s+" ", n)) }
	for _, c := range []string{"SUNION", "SINTER", "SDIFF"} {
		for n := 1; n <= 70; n++ {
			if n > 12 && n != 15 && n != 16 && n != 17 && n != 31 && n != 32 && n != 33 && n < 63 {
				continue
			}
			l := num("s", n)
			o(&alg, []string{c}, l)
			o(&alg, []string{c}, l, w("apart"))
			o(&alg, []string{c}, w("owns"), l)
			o(&alg, []string{c}, w("apart"), l)
			o(&alg, []string{c}, l, w("missing"))
			o(&alg, []string{c}, num("s", 70)[70-n:])
			o(&alg, []string{c}, rep("equal", n), w("equal2 equal3"))
			o(&alg, []string{c}, rep("equal", n), w("apart"))
			o(&alg, []string{c}, w("equal apart s3"), rep("missing", n), w("equal2"))
			o(&alg, []string{c}, rep("equal equal2", n), w("equal3 s1"))
		}
	}
	few := func(m *model.DB) [][]string {
		return cmds("SMEMBERS s0", "SMEMBERS s69", "SCARD equal", "SMEMBERS equal", "SCARD apart", "SCARD missing")
	}
	single("C04", "wide-sets", [][][]string{build}, alg, few)

	// many keys
	var starts [][][]string
	for _, n := range []int{1, 3, 7, 8, 9, 15, 16, 17, 20, 21, 32, 33, 40, 41, 42, 64, 65, 100, 128, 129, 256, 257, 300} {
		var st [][]string
		for i := 0; i < n; i++ {
			k := fmt.Sprint("k", i)
			st = append(st, []string{"SET", k, fmt.Sprint(i)}, []string{"RPUSH", k, "e", fmt.Sprint("l", i)}, []string{"HSET", k, "f", fmt.Sprint("h", i)}, []string{"SADD", k, "e", fmt.Sprint("s", i)})
			if i%3 == 1 {
				// emptied objects
				st = append(st, []string{"LTRIM", k, "5", "4"}, []string{"HDEL", k, "f"}, []string{"SREM", k, "e", fmt.Sprint("s", i)})
			}
		}
		starts = append(starts, st)
	}
	everyKey := func(m *model.DB) [][]string {
		var l [][]string
		for k := range m.Str {
			l = append(l, []string{"GET", k})
		}
		for k := range m.Lists {
			l = append(l, []string{"LRANGE", k, "0", "-1"})
		}
		for k := range m.Hashes {
			l = append(l, []string{"HGETALL", k})
		}
		for k := range m.Sets {
			l = append(l, []string{"SMEMBERS", k}, []string{"SCARD", k})
		}
		return l
	}
	single("C05", "keys", starts, ops("SET new 1", "SET k0 2", "APPEND k1 z", "INCR k0", "MSET k0 5 new 6 k2 7", "RPUSH new a", "LPUSH k0 a", "LPOP k0", "LPOP k1", "HSET new f 1", "HSET k0 f 2", "HDEL k0 f", "SADD new a", "SADD k1 a", "SREM k0 e", "SPOP k2", "SPOP k0 9",
		"GET new", "LRANGE new 0 1", "HGETALL new", "SMEMBERS new", "SUNION k0 new k1", "SINTER k0 k2", "SDIFF k2 k0 new", "LTRIM k2 9 9"), everyKey)

	// alike
	var fams [][][]string
	for _, f := range lookalikes {
		var st [][]string
		for i, k := range f {
			st = append(st, []string{"SET", k, fmt.Sprint(i)}, []string{"RPUSH", k, "e", k, fmt.Sprint(i)}, []string{"HSET", k, "f", k, "n", fmt.Sprint(i)}, []string{"SADD", k, "e", fmt.Sprint(i), "m" + k})
		}
		st = append(st, cat(w("SADD in"), f), cat(w("RPUSH in"), f, f))
		h := w("HSET in")
		for i, k := range f {
			h = append(h, k, fmt.Sprint(i))
		}
		fams = append(fams, append(st, h))
	}
	for i, f := range lookalikes {
		var l []op
		for _, k := range f {
			o(&l, []string{"SET", k, "new"})
			o(&l, []string{"APPEND", k, k})
			o(&l, []string{"INCR", k})
			o(&l, []string{"MSET", k, "1", "other", k})
			o(&l, []string{"LPUSH", k, k})
			o(&l, []string{"RPOP", k})
			o(&l, []string{"LREM", "in", "0", k})
			o(&l, []string{"LREM", "in", "-1", k})
			o(&l, []string{"LINSERT", "in", "BEFORE", k, "here"})
			o(&l, []string{"LSET", "in", "0", k})
			o(&l, []string{"HSET", k, k, k})
			o(&l, []string{"HSET", "in", k, "new"})
			o(&l, []string{"HDEL", "in", k})
			o(&l, []string{"HDEL", k, "f"})
			o(&l, []string{"SADD", "in", k})
			o(&l, []string{"SREM", "in", k})
			o(&l, []string{"SREM", k, "e"})
			o(&l, []string{"SADD", k, k})
			o(&l, cat([]string{"SUNION"}, f))
			o(&l, []string{"SDIFF", k, "in", f[0]})
		}
		f := f
		single("C05", fmt.Sprint("alike/", i), fams[i:i+1], l, func(m *model.DB) [][]string {
			r := everyKey(m)
			for _, k := range f {
				r = append(r, []string{"HGET", "in", k}, []string{"SISMEMBER", "in", k}, []string{"HEXISTS", "in", k}, []string{"GET", k})
			}
			return r
		})
	}
}
