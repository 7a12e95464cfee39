package main

import (
	"github.com/lxdlam/vertex/vharness/model"
)

// C05: data types and keys do not influence each other; reads and refused commands change
// nothing.

func init() {
	keys := []string{"a", "b", "global", "anonymous", ""}
	reads := func(m *model.DB) [][]string {
		l := model.Reads(keys, []string{"x", "y", ""})
		return append(l, []string{"SUNION", "a", "b", "global", "anonymous"}, []string{"MGET", "a", "b", "global", "anonymous", ""})
	}
	effects := ops(
		"SET a x", "SET b 1", "SET global g", "SET anonymous 5", "SET _ e", "MSET a 1 global 2", "APPEND a y", "INCR b", "DECRBY a 2",
		"LPUSH a x", "RPUSH b x y", "RPUSH global x", "RPUSH anonymous z", "LPOP a", "RPOP b", "LINSERT a BEFORE x y", "LTRIM b 1 1", "LREM a 0 x", "LSET b 0 q",
		"HSET a x 1", "HSET b x y y x", "HSET global x x", "HSET anonymous y 1", "HDEL a x", "HDEL b y",
		"SADD a x y", "SADD b y", "SADD global x", "SADD anonymous x q", "SREM a x", "SPOP b", "SPOP a 1",
	)
	// reads and refused commands (the model says which)
	quiet := ops(
		"GET a", "MGET a b", "EXISTS a b", "STRLEN a", "GETRANGE a 0 1", "LLEN a", "LRANGE a 0 -1", "LINDEX a 0", "HGET a x", "HMGET a x y", "HKEYS a", "HVALS a", "HGETALL a", "HEXISTS a x", "HSTRLEN a x", "HLEN a",
		"SCARD a", "SMEMBERS a", "SISMEMBER a x", "SRANDMEMBER a", "SRANDMEMBER a 2", "SDIFF a b", "SINTER a b", "SUNION a b", "SDIFF b a", "SINTER a anonymous", "SUNION miss a", "SDIFF anonymous a",
		"SET a", "SET", "MSET a 1 b", "APPEND a", "INCR x y z", "INCRBY a q", "INCRBY a "+maxI, "DECRBY b "+minI, "INCR missing", "LPUSH a", "LINSERT a ASIDE x y", "LINSERT a BEFORE nope y", "LSET a 99 x", "LSET a q x", "LREM a q x", "LTRIM a 9 9", "LTRIM a q 1", "HSET a x", "HSET a x 1 y", "HDEL a", "SADD a", "SREM a", "SPOP a q", "SPOP a 0", "LPUSH _ x", "HSET _ x 1", "SADD _ x", "SREM _ x", "NOSUCH a", "_ a", "SREM miss x", "HDEL miss x", "LPOP miss", "SPOP miss",
	)
	full := cmds("SET a 5", "RPUSH a x y", "HSET a x 1 y 2", "SADD a x y", "SET b q", "RPUSH b y", "HSET b x 3", "SADD b y z", "RPUSH global g", "HSET global g 1", "SADD global g", "SADD anonymous x")
	starts := [][][]string{nil, full}
	search("C05", "types", append(append([]op{}, effects...), quiet...), starts, 3, 4, reads)
	search("C05", "mixed", append(append([]op{}, effects...), ops("SDIFF a b", "SINTER a b", "SUNION a b", "SUNION b a", "SMEMBERS a", "LRANGE a 0 -1", "HGETALL a", "MGET a b", "GET a", "SRANDMEMBER a 9")...), [][][]string{nil, cmds("SADD a x", "SADD b y")}, 4, 5, reads)
	// one command of every kind on every key in the full state
	var all []op
	for _, k := range []string{"a", "b", "global", "anonymous", "miss"} {
		for _, n := range model.Names {
			for _, args := range [][]string{{}, {"x"}, {"1"}, {"x", "y"}, {"0", "-1"}, {"1", "x"}, {"BEFORE", "x", "y"}, {"after", "y", "x"}, {"b"}, {"a", "b"}, {"x", "1", "y", "2"}, {"-1"}, {"2"}} {
				all = append(all, op{args: append([]string{n, k}, args...)})
			}
		}
	}
	single("C05", "every", starts, all, reads)
}
