// Package model is the reference model of the database: plain maps and slices, and what
// every command must reply.
package model

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"github.com/lxdlam/vertex/vharness/hl"
)

// DB is the content of the database.
type DB struct {
	Str    map[string]string
	Lists  map[string][]string
	Hashes map[string]map[string]string
	Sets   map[string]map[string]bool
}

func New() *DB {
	return &DB{map[string]string{}, map[string][]string{}, map[string]map[string]string{}, map[string]map[string]bool{}}
}

// Clone copies the database.
func (d *DB) Clone() *DB {
	n := New()
	for k, v := range d.Str {
		n.Str[k] = v
	}
	for k, v := range d.Lists {
		n.Lists[k] = append([]string(nil), v...)
	}
	for k, v := range d.Hashes {
		m := map[string]string{}
		for f, x := range v {
			m[f] = x
		}
		n.Hashes[k] = m
	}
	for k, v := range d.Sets {
		m := map[string]bool{}
		for f := range v {
			m[f] = true
		}
		n.Sets[k] = m
	}
	return n
}

// Canon is a canonical description of the content (absent and empty objects are alike).
func (d *DB) Canon() string {
	var l []string
	for k, v := range d.Str {
		l = append(l, fmt.Sprintf("s%q=%q", k, v))
	}
	for k, v := range d.Lists {
		if len(v) > 0 {
			l = append(l, fmt.Sprintf("l%q=%q", k, v))
		}
	}
	for k, v := range d.Hashes {
		for f, x := range v {
			l = append(l, fmt.Sprintf("h%q.%q=%q", k, f, x))
		}
	}
	for k, v := range d.Sets {
		for f := range v {
			l = append(l, fmt.Sprintf("t%q.%q", k, f))
		}
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

// Want is what a reply must be.
type Want struct {
	Kind  byte // '+' '$' ':' '*' exact (order matters for '*'); 'E' any error; 'B' unordered bulk array; 'P' unordered pairs; 'R' random members; 'r' one random member; '|' alternatives
	S     string
	N     int64
	Null  bool
	A     []Want
	Bag   []string
	Count int
	Pop   func([]string)
}

func (w Want) String() string {
	switch w.Kind {
	case '+':
		return "+" + w.S
	case '$':
		if w.Null {
			return "null"
		}
		return strconv.Quote(w.S)
	case ':':
		return strconv.FormatInt(w.N, 10)
	case '*':
		return fmt.Sprint(w.A)
	case 'E':
		return "an error"
	case 'B':
		return fmt.Sprintf("%q in any order", w.Bag)
	case 'P':
		return fmt.Sprintf("the pairs %q in any order", w.Bag)
	case 'R':
		return fmt.Sprintf("%d of %q", w.Count, w.Bag)
	case 'r':
		return fmt.Sprintf("one of %q", w.Bag)
	}
	return fmt.Sprint("one of ", w.A)
}

// Check compares a reply; "" if it is right. For a random removal it applies the outcome.
func (w Want) Check(v hl.Val) string {
	if !w.ok(v) {
		return fmt.Sprintf("replied %v, want %v", v, w)
	}
	return ""
}

func strs(v hl.Val) ([]string, bool) {
	if v.Kind != '*' {
		return nil, false
	}
	var l []string
	for _, x := range v.A {
		if x.Kind != '$' || x.Null {
			return nil, false
		}
		l = append(l, x.S)
	}
	return l, true
}

func sorted(l []string) []string {
	m := append([]string(nil), l...)
	sort.Strings(m)
	return m
}

func sameBag(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	x, y := sorted(a), sorted(b)
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}

func (w Want) ok(v hl.Val) bool {
	switch w.Kind {
	case '+':
		return v.Kind == '+' && v.S == w.S
	case '$':
		return v.Kind == '$' && v.Null == w.Null && v.S == w.S
	case ':':
		return v.Kind == ':' && v.N == w.N
	case 'E':
		return v.Kind == '-' && v.S != ""
	case '*':
		if v.Kind != '*' || len(v.A) != len(w.A) {
			return false
		}
		for i := range w.A {
			if !w.A[i].ok(v.A[i]) {
				return false
			}
		}
		return true
	case 'B':
		l, ok := strs(v)
		return ok && sameBag(l, w.Bag)
	case 'P':
		l, ok := strs(v)
		if !ok || len(l) != len(w.Bag) {
			return false
		}
		var a, b []string
		for i := 0; i+1 < len(l); i += 2 {
			a = append(a, strconv.Quote(l[i])+strconv.Quote(l[i+1]))
			b = append(b, strconv.Quote(w.Bag[i])+strconv.Quote(w.Bag[i+1]))
		}
		return sameBag(a, b)
	case 'R', 'r':
		var l []string
		if w.Kind == 'r' {
			if v.Kind != '$' {
				return false
			}
			if v.Null {
				if len(w.Bag) > 0 {
					return false
				}
			} else {
				l = []string{v.S}
			}
		} else {
			var ok bool
			if l, ok = strs(v); !ok || len(l) != w.Count {
				return false
			}
		}
		have := map[string]bool{}
		for _, x := range w.Bag {
			have[x] = true
		}
		for _, x := range l {
			if !have[x] {
				return false
			}
			delete(have, x) // distinct
		}
		if w.Pop != nil {
			w.Pop(l)
		}
		return true
	case '|':
		for _, a := range w.A {
			if a.ok(v) {
				return true
			}
		}
		return false
	}
	return false
}

func num(n int) Want        { return Want{Kind: ':', N: int64(n)} }
func bulk(s string) Want    { return Want{Kind: '$', S: s} }
func either(a ...Want) Want { return Want{Kind: '|', A: a} }

var (
	null = Want{Kind: '$', Null: true}
	okay = Want{Kind: '+', S: "OK"}
	fail = Want{Kind: 'E'}
	zero = Want{Kind: ':'}
)

// Resolve is the resolution of a range.
func Resolve(l, r int64, n int) (int, int, bool) {
	size := int64(n)
	if l < 0 {
		l += size
	}
	if r < 0 {
		r += size
	}
	if l < 0 || r < 0 || l >= size || l > r {
		return 0, 0, false
	}
	if r >= size {
		r = size - 1
	}
	return int(l), int(r), true
}

func at(i int64, n int) (int, bool) {
	if i < 0 {
		i += int64(n)
	}
	if i < 0 || i >= int64(n) {
		return 0, false
	}
	return int(i), true
}

func members(m map[string]bool) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// Modifies tells whether a command may change the data.
func Modifies(name string) bool {
	switch strings.ToLower(name) {
	case "set", "mset", "append", "incr", "incrby", "decr", "decrby", "lpush", "rpush", "lpop", "rpop", "linsert", "ltrim", "lrem", "lset", "hset", "hdel", "sadd", "srem", "spop":
		return true
	}
	return false
}

// Names lists every command.
var Names = strings.Fields("set get mset mget exists strlen append incr incrby decr decrby getrange lpop rpop lindex linsert llen lpush rpush lrange ltrim lrem lset hset hget hexists hdel hmget hkeys hvals hgetall hstrlen hlen sadd srem sismember smembers srandmember spop sdiff sinter sunion scard")

// Exec executes a command (name and arguments) and returns what the reply must be.
func (d *DB) Exec(args ...string) Want {
	if len(args) == 0 {
		return fail
	}
	name, a := strings.ToLower(args[0]), args[1:]
	n := len(a)
	i64 := func(i int) (int64, bool) {
		v, err := strconv.ParseInt(a[i], 10, 64)
		return v, err == nil
	}
	switch name {
	case "set":
		if n != 2 {
			return fail
		}
		d.Str[a[0]] = a[1]
		return okay
	case "get":
		if n != 1 {
			return fail
		}
		if v, ok := d.Str[a[0]]; ok {
			return bulk(v)
		}
		return null
	case "mset":
		if n == 0 || n%2 != 0 {
			return fail
		}
		for i := 0; i < n; i += 2 {
			d.Str[a[i]] = a[i+1]
		}
		return okay
	case "mget":
		if n == 0 {
			return fail
		}
		w := Want{Kind: '*'}
		for _, k := range a {
			if v, ok := d.Str[k]; ok {
				w.A = append(w.A, bulk(v))
			} else {
				w.A = append(w.A, null)
			}
		}
		return w
	case "exists":
		if n == 0 {
			return fail
		}
		c := 0
		for _, k := range a {
			if _, ok := d.Str[k]; ok {
				c++
			}
		}
		return num(c)
	case "strlen":
		if n != 1 {
			return fail
		}
		return num(len(d.Str[a[0]]))
	case "append":
		if n != 2 {
			return fail
		}
		d.Str[a[0]] += a[1]
		return num(len(d.Str[a[0]]))
	case "incr", "incrby", "decr", "decrby":
		if n == 0 || n > 2 && strings.HasSuffix(name, "by") {
			return fail
		}
		delta := big.NewInt(1)
		if n == 2 && strings.HasSuffix(name, "by") {
			v, ok := i64(1)
			if !ok {
				return fail
			}
			delta = big.NewInt(v)
		}
		s, ok := d.Str[a[0]]
		if !ok {
			return fail
		}
		v, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			return fail
		}
		r := new(big.Int)
		if name[0] == 'i' {
			r.Add(big.NewInt(v), delta)
		} else {
			r.Sub(big.NewInt(v), delta)
		}
		if !r.IsInt64() {
			return fail
		}
		d.Str[a[0]] = r.String()
		return Want{Kind: ':', N: r.Int64()}
	case "getrange":
		if n != 3 {
			return fail
		}
		l, ok1 := i64(1)
		r, ok2 := i64(2)
		if !ok1 || !ok2 {
			return fail
		}
		v := d.Str[a[0]]
		if x, y, ok := Resolve(l, r, len(v)); ok {
			return bulk(v[x : y+1])
		}
		return either(bulk(""), null)

	case "lpush", "rpush":
		if n < 2 || a[0] == "" {
			return fail
		}
		l := d.Lists[a[0]]
		for _, x := range a[1:] {
			if name[0] == 'l' {
				l = append([]string{x}, l...)
			} else {
				l = append(l, x)
			}
		}
		d.Lists[a[0]] = l
		return num(len(l))
	case "lpop", "rpop":
		if n != 1 {
			return fail
		}
		l := d.Lists[a[0]]
		if len(l) == 0 {
			return null
		}
		if name[0] == 'l' {
			d.Lists[a[0]] = append([]string(nil), l[1:]...)
			return bulk(l[0])
		}
		d.Lists[a[0]] = append([]string(nil), l[:len(l)-1]...)
		return bulk(l[len(l)-1])
	case "lindex":
		if n != 2 {
			return fail
		}
		i, ok := i64(1)
		if !ok {
			return fail
		}
		l := d.Lists[a[0]]
		if p, ok := at(i, len(l)); ok {
			return bulk(l[p])
		}
		return null
	case "llen":
		if n != 1 {
			return fail
		}
		return num(len(d.Lists[a[0]]))
	case "linsert":
		if n != 4 {
			return fail
		}
		after := strings.ToLower(a[1]) == "after"
		if !after && strings.ToLower(a[1]) != "before" {
			return fail
		}
		l := d.Lists[a[0]]
		for i, x := range l {
			if x == a[2] {
				p := i
				if after {
					p++
				}
				m := append([]string(nil), l[:p]...)
				m = append(m, a[3])
				d.Lists[a[0]] = append(m, l[p:]...)
				return num(len(l) + 1)
			}
		}
		if len(l) == 0 {
			return either(zero, num(-1))
		}
		return num(-1)
	case "lrange", "ltrim":
		if n != 3 {
			return fail
		}
		i, ok1 := i64(1)
		j, ok2 := i64(2)
		if !ok1 || !ok2 {
			return fail
		}
		l := d.Lists[a[0]]
		x, y, ok := Resolve(i, j, len(l))
		if name == "ltrim" {
			if ok {
				d.Lists[a[0]] = append([]string(nil), l[x:y+1]...)
			}
			return okay
		}
		w := Want{Kind: '*'}
		if ok {
			for _, s := range l[x : y+1] {
				w.A = append(w.A, bulk(s))
			}
		}
		return w
	case "lrem":
		if n != 3 {
			return fail
		}
		c, ok := i64(1)
		if !ok {
			return fail
		}
		l := d.Lists[a[0]]
		var total int
		for _, x := range l {
			if x == a[2] {
				total++
			}
		}
		lo, hi := 0, total // occurrences removed: [lo,hi)
		if c > 0 && c < int64(total) {
			hi = int(c)
		}
		if c < 0 && c > -int64(total) {
			lo = total + int(c)
		}
		var m []string
		k := 0
		for _, x := range l {
			if x == a[2] {
				k++
				if k-1 >= lo && k-1 < hi {
					continue
				}
			}
			m = append(m, x)
		}
		if _, ok := d.Lists[a[0]]; ok {
			d.Lists[a[0]] = m
		}
		return num(hi - lo)
	case "lset":
		if n != 3 {
			return fail
		}
		i, ok := i64(1)
		if !ok {
			return fail
		}
		l := d.Lists[a[0]]
		p, ok := at(i, len(l))
		if !ok {
			return fail
		}
		m := append([]string(nil), l...)
		m[p] = a[2]
		d.Lists[a[0]] = m
		return okay

	case "hset":
		if n < 3 || n%2 != 1 || a[0] == "" {
			return fail
		}
		h := d.Hashes[a[0]]
		if h == nil {
			h = map[string]string{}
			d.Hashes[a[0]] = h
		}
		b := len(h)
		for i := 1; i < n; i += 2 {
			h[a[i]] = a[i+1]
		}
		return num(len(h) - b)
	case "hget", "hexists", "hstrlen":
		if n != 2 {
			return fail
		}
		v, ok := d.Hashes[a[0]][a[1]]
		var w Want
		switch {
		case name == "hget" && ok:
			w = bulk(v)
		case name == "hget":
			w = null
		case name == "hstrlen":
			w = num(len(v))
		case ok:
			w = num(1)
		default:
			w = zero
		}
		if a[1] == "" {
			return either(w, fail)
		}
		return w
	case "hdel":
		if n < 2 {
			return fail
		}
		c := 0
		for _, f := range a[1:] {
			if _, ok := d.Hashes[a[0]][f]; ok {
				delete(d.Hashes[a[0]], f)
				c++
			}
		}
		return num(c)
	case "hmget":
		if n < 2 {
			return fail
		}
		w := Want{Kind: '*'}
		for _, f := range a[1:] {
			if v, ok := d.Hashes[a[0]][f]; ok {
				w.A = append(w.A, bulk(v))
			} else {
				w.A = append(w.A, null)
			}
		}
		return w
	case "hkeys", "hvals", "hgetall", "hlen":
		if n != 1 {
			return fail
		}
		w := Want{Kind: 'B'}
		for f, v := range d.Hashes[a[0]] {
			switch name {
			case "hkeys":
				w.Bag = append(w.Bag, f)
			case "hvals":
				w.Bag = append(w.Bag, v)
			case "hgetall":
				w.Kind = 'P'
				w.Bag = append(w.Bag, f, v)
			}
		}
		if name == "hlen" {
			return num(len(d.Hashes[a[0]]))
		}
		return w

	case "sadd":
		if n < 2 || a[0] == "" {
			return fail
		}
		s := d.Sets[a[0]]
		if s == nil {
			s = map[string]bool{}
			d.Sets[a[0]] = s
		}
		b := len(s)
		for _, x := range a[1:] {
			s[x] = true
		}
		return num(len(s) - b)
	case "srem":
		if n < 2 {
			return fail
		}
		if a[0] == "" {
			return either(fail, zero)
		}
		c := 0
		for _, x := range a[1:] {
			if d.Sets[a[0]][x] {
				delete(d.Sets[a[0]], x)
				c++
			}
		}
		return num(c)
	case "sismember":
		if n != 2 {
			return fail
		}
		w := zero
		if d.Sets[a[0]][a[1]] {
			w = num(1)
		}
		if a[1] == "" {
			return either(w, fail)
		}
		return w
	case "smembers":
		if n != 1 {
			return fail
		}
		return Want{Kind: 'B', Bag: members(d.Sets[a[0]])}
	case "scard":
		if n != 1 {
			return fail
		}
		return num(len(d.Sets[a[0]]))
	case "spop", "srandmember":
		if n != 1 && n != 2 {
			return fail
		}
		s := d.Sets[a[0]]
		w := Want{Kind: 'r', Bag: members(s), Count: 1}
		if n == 2 {
			c, ok := i64(1)
			if !ok {
				return fail
			}
			w.Kind = 'R'
			w.Count = len(s)
			if c >= 0 && c < int64(len(s)) {
				w.Count = int(c)
			}
			if c < 0 && c > -int64(len(s)) {
				w.Count = int(-c)
			}
		}
		if name == "spop" {
			w.Pop = func(l []string) {
				for _, x := range l {
					delete(s, x)
				}
			}
		}
		if n == 2 && w.Count > 0 {
			if c, _ := i64(1); c == math.MinInt64 {
				none := w // the one number without an absolute value
				none.Count = 0
				return either(w, none)
			}
		}
		return w
	case "sdiff", "sinter", "sunion":
		if n == 0 {
			return fail
		}
		r := map[string]bool{}
		for x := range d.Sets[a[0]] {
			r[x] = true
		}
		for _, k := range a[1:] {
			switch name {
			case "sdiff":
				for x := range d.Sets[k] {
					delete(r, x)
				}
			case "sunion":
				for x := range d.Sets[k] {
					r[x] = true
				}
			default:
				for x := range r {
					if !d.Sets[k][x] {
						delete(r, x)
					}
				}
			}
		}
		return Want{Kind: 'B', Bag: members(r)}
	}
	return fail
}

// Reads lists read commands that together show the whole content of the given keys; elems
// are the fields and members to ask for one by one.
func Reads(keys, elems []string) [][]string {
	var l [][]string
	for _, k := range keys {
		l = append(l, []string{"GET", k}, []string{"STRLEN", k}, []string{"EXISTS", k},
			[]string{"LLEN", k}, []string{"LRANGE", k, "0", "-1"},
			[]string{"HLEN", k}, []string{"HGETALL", k},
			[]string{"SCARD", k}, []string{"SMEMBERS", k})
		for _, e := range elems {
			l = append(l, []string{"HGET", k, e}, []string{"SISMEMBER", k, e})
		}
	}
	return l
}
