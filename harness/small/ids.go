package main

import (
	"fmt"
	"net"

	"github.com/lxdlam/vertex/mc"
	"github.com/lxdlam/vertex/pkg/concurrency"
	"github.com/lxdlam/vertex/pkg/container"
	"github.com/lxdlam/vertex/pkg/log"
	"github.com/lxdlam/vertex/pkg/network"
	"github.com/lxdlam/vertex/pkg/protocol"
	"github.com/lxdlam/vertex/pkg/util"
	"github.com/lxdlam/vertex/vharness/hl"
)

// C36: identifiers and random generators.

// makers of identifiers
var makers = []struct {
	name string
	id   func() string
}{
	{"uuid", util.GenNewUUID},
	{"event", func() string { return concurrency.NewEvent("t", 1, nil).ID() }},
	{"event-source", func() string { return concurrency.NewEventWithSource("t", "s", nil, nil).ID() }},
	{"log", func() string {
		return log.NewLog("set", 1, []protocol.RedisObject{protocol.NewSimpleRedisString("set")}).Id
	}},
	{"conn", func() string {
		_, sock := mc.Pipe()
		var n net.Conn = sock
		c := network.NewConn(n)
		id := c.ID()
		_ = c.Close()
		return id
	}},
}

func flip(u [16]byte, bit int) [16]byte {
	u[bit/8] ^= 1 << (bit % 8)
	return u
}

// fixed: bits of a random UUID that tell its version and variant
func fixed(bit int) bool {
	return bit/8 == 6 && bit%8 >= 4 || bit/8 == 8 && bit%8 >= 6
}

func init() {
	hl.Register("C36", hl.Scn{Name: "draws", Seq: func(c *hl.Seq) {
		var bases [][16]byte
		for _, b := range []byte{0, 0xff, 0x55, 0xaa, 0x0f, 0x80} {
			var u [16]byte
			for i := range u {
				u[i] = b
			}
			bases = append(bases, u)
		}
		bases = append(bases, [16]byte{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16})
		for _, m := range makers {
			m := m
			for _, u := range bases {
				u := u
				// draws that differ from each other in one or two bits
				draws := [][16]byte{u}
				for bit := 0; bit < 128; bit++ {
					if !fixed(bit) {
						draws = append(draws, flip(u, bit))
					}
				}
				for start := 0; start < len(draws); start++ {
					start := start
					c.Try(func() string {
						return fmt.Sprintf("%s: entropy %x and everything that differs in a bit, from number %d on", m.name, u, start)
					}, func() string {
						return hl.Under(func() string {
							k := 0
							mc.Entropy = func() (x [16]byte, ok bool) {
								k++
								if k <= len(draws) {
									return draws[(start+k-1)%len(draws)], true
								}
								for i := range x {
									x[i] = u[i] ^ byte(k>>(i%4*8)) ^ 0x30
								}
								return x, true
							}
							seen := map[string]int{}
							for i := range draws {
								id := m.id()
								if j, ok := seen[id]; ok || id == "" {
									return fmt.Sprintf("the identifiers %d and %d are both %q", j, i, id)
								}
								seen[id] = i
							}
							return ""
						})
					})
					c.Step(len(draws))
					c.States++
				}
			}
		}
	}})
	hl.Register("C36", hl.Scn{Name: "failing", Seq: func(c *hl.Seq) {
		// every pattern of a failing entropy source
		const n = 8
		for _, m := range makers {
			m := m
			for pat := 0; pat < 1<<n; pat++ {
				pat := pat
				c.Try(func() string { return fmt.Sprintf("%s: the entropy source fails as %0*b", m.name, n, pat) }, func() string {
					return hl.Under(func() string {
						k, d := 0, 0
						mc.Entropy = func() ([16]byte, bool) {
							d++
							return [16]byte{15: byte(d), 14: byte(d >> 8), 3: byte(d / 2)}, pat>>k&1 == 0
						}
						seen := map[string]int{}
						for k = 0; k < n; k++ {
							id := m.id()
							if j, ok := seen[id]; ok || id == "" {
								return fmt.Sprintf("the identifiers %d and %d are both %q", j, k, id)
							}
							seen[id] = k
						}
						return ""
					})
				})
				c.Step(n)
				c.States++
			}
		}
	}})
	hl.Register("C36", hl.Scn{Name: "many", Seq: func(c *hl.Seq) {
		for _, step := range []int{0, 2, 9, 12} {
			step := step
			c.Try(func() string { return fmt.Sprintf("many draws that differ in the bytes from %d on", step) }, func() string {
				return hl.Under(func() string {
					d := uint32(0)
					mc.Entropy = func() ([16]byte, bool) {
						d++
						var u [16]byte
						for i := 0; i < 4; i++ {
							u[step+i] = byte(d >> (8 * i))
						}
						return u, true
					}
					seen := map[string]bool{}
					for i := 0; i < 70000; i++ {
						id := util.GenNewUUID()
						if seen[id] {
							return fmt.Sprintf("identifier number %d is %q again", i, id)
						}
						seen[id] = true
					}
					return ""
				})
			})
			c.Step(1)
		}
	}})
	// from several goroutines
	for i, m := range makers {
		for _, fail := range []bool{false, true} {
			for _, n := range []int{2, 3} {
				m, fail, n, other := m, fail, n, makers[(i+1)%len(makers)]
				hl.Register("C36", hl.Scn{Name: fmt.Sprintf("ids/%s/%d/%v", m.name, n, fail), Body: func() {
					if fail {
						mc.Entropy = func() ([16]byte, bool) { return [16]byte{}, false }
					}
					ids := make([][]string, n)
					var ts []*mc.Task
					for k := 0; k < n; k++ {
						k := k
						ts = append(ts, mc.Spawn(func() {
							ids[k] = append(ids[k], m.id())
							ids[k] = append(ids[k], other.id())
							ids[k] = append(ids[k], m.id())
						}))
					}
					for _, t := range ts {
						t.Join()
					}
					seen := map[string]bool{}
					for _, l := range ids {
						for _, id := range l {
							if seen[id] || id == "" {
								mc.Fail("the identifier %q is given twice", id)
							}
							seen[id] = true
						}
					}
				}, Quick: 3, Thorough: 5, Race: 2, Cfg: mc.Config{BlockCost: 1}})
			}
		}
	}
	// random generators
	use := []struct {
		name string
		do   func(k int)
	}{
		{"global", func(k int) {
			r := util.GetGlobalRandom()
			r.Int()
			r.Intn(7)
			r.Float64()
		}},
		{"own", func(k int) {
			r := util.GetNewRandom()
			r.Int63()
			r.Perm(3)
		}},
		{"set", func(k int) {
			z := container.NewSortedSetContainer(fmt.Sprint(k))
			_ = z.Add([]float64{1, 2}, []*container.StringContainer{container.NewString("a"), container.NewString("b")})
			if v, err := z.IncreaseBy(container.NewString("a"), 2); err != nil || v != 3 {
				mc.Fail("increased to (%v, %v)", v, err)
			}
			if v, err := z.PopMin(); err != nil || v.String() != "b" || z.Len() != 1 {
				mc.Fail("the minimum is (%v, %v)", v, err)
			}
		}},
	}
	for i := range use {
		for j := i; j < len(use); j++ {
			for _, n := range []int{2, 3} {
				a, b, n := use[i], use[j], n
				hl.Register("C36", hl.Scn{Name: fmt.Sprintf("random/%s-%s/%d", a.name, b.name, n), Body: func() {
					mc.RandMenu = func(n int64) int64 { return 1 }
					defer func() { mc.RandMenu = nil }()
					var ts []*mc.Task
					g := make([]interface{}, n)
					for k := 0; k < n; k++ {
						k := k
						ts = append(ts, mc.Spawn(func() {
							if k == 0 {
								a.do(k)
							} else {
								b.do(k)
							}
							g[k] = util.GetGlobalRandom()
						}))
					}
					for _, t := range ts {
						t.Join()
					}
					for k := range g {
						if g[k] != g[0] {
							mc.Fail("there are two global generators")
						}
					}
				}, Quick: 3, Thorough: 5, Race: 2, Cfg: mc.Config{BlockCost: 1}})
			}
		}
	}
	for _, n := range []int{1, 2, 3} {
		n := n
		hl.Register("C36", hl.Scn{Name: fmt.Sprintf("seeds/%d", n), Body: func() {
			_ = util.GetGlobalRandom()
			var seeds []int64
			mc.RandSeeds = func(x int64) { seeds = append(seeds, x) }
			next := int64(0)
			mc.RandMenu = func(m int64) int64 { next++; return next * 1000003 % m }
			defer func() { mc.RandMenu, mc.RandSeeds = nil, nil }()
			var ts []*mc.Task
			for k := 0; k < n; k++ {
				ts = append(ts, mc.Spawn(func() {
					for i := 0; i < 6/n; i++ {
						if r := util.GetNewRandom(); r == nil || r == util.GetGlobalRandom() {
							mc.Fail("a new generator is none")
						}
					}
				}))
			}
			for _, t := range ts {
				t.Join()
			}
			seen := map[int64]bool{}
			for _, x := range seeds {
				if seen[x] {
					mc.Fail("two generators have the seed %d", x)
				}
				seen[x] = true
			}
		}, Quick: 3, Thorough: 5, Race: 2, Cfg: mc.Config{BlockCost: 1}})
	}
	hl.Register("C36", hl.Scn{Name: "seeds/many", Seq: func(c *hl.Seq) {
		n := int64(hl.Pick(1<<17, 1<<20))
		c.Try(func() string { return fmt.Sprint(n, " generators, one after the other") }, func() string {
			return hl.Under(func() string {
				_ = util.GetGlobalRandom()
				seen := map[int64]bool{}
				twice := ""
				mc.RandSeeds = func(x int64) {
					if seen[x] && twice == "" {
						twice = fmt.Sprintf("the generators up to number %d share a seed", len(seen)+1)
					}
					seen[x] = true
				}
				next := int64(0)
				mc.RandMenu = func(m int64) int64 { next++; return next * 1000003 % m } // different as long as there are different ones
				defer func() { mc.RandMenu, mc.RandSeeds = nil, nil }()
				for i := int64(0); i < n && twice == ""; i++ {
					_ = util.GetNewRandom()
				}
				return twice
			})
		})
		c.Step(int(n))
		c.States++
	}})
}
