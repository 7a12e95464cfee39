package main

import (
	"fmt"

	"github.com/lxdlam/vertex/vharness/model"
)

// C03: hashes.

func hashReads(m *model.DB) [][]string {
	var l [][]string
	fields := map[string]bool{"f": true, "g": true, "nope": true, "": true}
	for _, h := range m.Hashes {
		for x := range h {
			fields[x] = true
		}
	}
	var fl []string
	for x := range fields {
		fl = append(fl, x)
	}
	if len(fl) > 40 {
		fl = fl[:40]
	}
	for _, k := range []string{"a", "b"} {
		l = append(l, []string{"HLEN", k}, []string{"HKEYS", k}, []string{"hvals", k}, []string{"HGETALL", k})
		for _, x := range fl {
			l = append(l, []string{"HGET", k, x}, []string{"HEXISTS", k, x}, []string{"HSTRLEN", k, x})
		}
		l = append(l, append([]string{"HMGET", k}, fl...), []string{"HMGET", k, "f", "nope", "f", "g"})
	}
	return append(l, []string{"HGETALL", "miss"}, []string{"HMGET", "miss", "f", "g"}, []string{"HLEN", "miss"})
}

func init() {
	alpha := ops(
		"HSET a f 1", "HSET a f 2", "HSET a g 1", "hset a f _", "HSET a _ v", "HSET a f 1 g 2", "HSET a f 1 f 2", "HSET a g \\r\\n\\0 h f", "HSET b f 9", "HSET b g f f g", "HSET _ f v", "HSET a", "HSET a f", "HSET a f 1 g", "HSET",
		"HDEL a f", "HDEL a g", "HDEL a f g", "HDEL a f f", "HDEL a f f g", "HDEL a g h h", "HSET a f +5 g 007", "HSET a h -0 h 18446744073709551616", "HSET a 01 1 1 01", "HDEL a 1", "HDEL a nope", "HDEL a nope f", "HDEL b f", "HDEL a _", "HDEL miss f", "HDEL a", "HDEL _ f", "HDEL a h g f",
		"HGET a", "HGET a f g", "HMGET a", "HEXISTS a", "HKEYS", "HKEYS a b", "HVALS", "HGETALL", "HSTRLEN a", "HLEN",
	)
	starts := [][][]string{nil, cmds("HSET a f 1 g 2 h 3"), cmds("HSET a f 1", "HSET b f 2"), cmds("HSET a f 1", "HDEL a f"), cmds("HSET a _ _ f f", "HSET b f g g f")}
	search("C03", "hashes", alpha, starts, 5, 7, hashReads)
	mk := func(n int) [][]string {
		c := []string{"HSET", "a"}
		for i := 0; i < n; i++ {
			c = append(c, fmt.Sprint("f", i), fmt.Sprint("v", i%5))
		}
		return [][]string{c}
	}
	big := ops("HSET a f0 x", "HSET a f299 x new y", "HDEL a f0", "HDEL a f1 f2 f3 nope f4", "HSET a new f1", "HDEL a f7", "HDEL a f8", "HSET b f0 1")
	for i := 0; i < 20; i++ {
		big = append(big, a(fmt.Sprintf("HDEL a f%d f%d", i, 19-i)), a(fmt.Sprintf("HSET a f%d _ f%d q", i, 18-i)))
	}
	single("C03", "big", [][][]string{mk(7), mk(8), mk(9), mk(16), mk(17), mk(300), mk(513)}, big, hashReads)
	var one []op
	for b := 0; b < 256; b++ {
		s := string([]byte{byte(b)})
		one = append(one, op{args: []string{"HSET", "a", s, s + "v"}}, op{args: []string{"HSET", "a", "f", s, "g", s + s, s, "x"}}, op{args: []string{"HDEL", "a", s, "f"}})
	}
	single("C03", "bytes", [][][]string{nil, cmds("HSET a f 1 a 2 0 3")}, one, hashReads)
	// enumerations under every iteration order
	var enum []op
	for p := 1; p < 27; p++ {
		for _, s := range []string{"HKEYS a", "HVALS a", "HGETALL a", "HDEL a f g", "HMGET a f g h"} {
			o := a(s)
			o.order = p
			enum = append(enum, o)
		}
	}
	single("C03", "orders", [][][]string{cmds("HSET a f 1 g 2 h 3 i 2"), mk(12)}, enum, hashReads)
}
