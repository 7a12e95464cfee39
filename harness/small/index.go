package main

import (
	"fmt"
	"math"

	"github.com/lxdlam/vertex/pkg/util"
	"github.com/lxdlam/vertex/vharness/hl"
)

// C24: index and range resolution, for every length of a set and every pair of integers
// of a set that covers each case of the definition on both sides of each boundary.

func idxInts(size int, small int) []int {
	m := map[int]bool{}
	var l []int
	add := func(vs ...int) {
		for _, v := range vs {
			if !m[v] {
				m[v] = true
				l = append(l, v)
			}
		}
	}
	for i := -small; i <= small; i++ {
		add(i)
	}
	for _, b := range []int{size, -size, math.MaxInt64, math.MinInt64, 1 << 31, -1 << 31, 1 << 32, -1 << 32, 1 << 15, 1 << 16, 1 << 62, -1 << 62, math.MaxInt64 - size, math.MinInt64 + size, size / 2, -size / 2} {
		for d := -2; d <= 2; d++ {
			v := b + d
			if (d > 0) == (v > b) || d == 0 {
				add(v)
			}
		}
	}
	return l
}

func wantIndex(i, size int) int {
	if i >= 0 {
		if i < size {
			return i
		}
		return -1
	}
	// i in [-size, -1]; no overflow: -i-1 >= 0
	if -(i + 1) < size {
		return size - 1 + (i + 1)
	}
	return -1
}

func wantSlice(l, r, size int) (int, int) {
	left := wantIndex(l, size)
	if left < 0 {
		return -1, -1
	}
	right := r
	if r < 0 {
		right = wantIndex(r, size)
		if right < 0 {
			return -1, -1
		}
	} else if right >= size {
		right = size - 1
	}
	// start exceeding the (unclipped) end
	if left > right {
		return -1, -1
	}
	return left, right
}

func idxSeq(c *hl.Seq) {
	var sizes []int
	for i := 0; i <= hl.Pick(24, 60); i++ {
		sizes = append(sizes, i)
	}
	sizes = append(sizes, 127, 128, 255, 256, 1000, 1<<15, 1<<16, 1<<31-1, 1<<31, 1<<32, 1<<62, math.MaxInt64-1, math.MaxInt64)
	for _, size := range sizes {
		ints := idxInts(size, hl.Pick(28, 64))
		for _, i := range ints {
			i := i
			c.Try(func() string { return fmt.Sprintf("NewIndex(%d).Resolve(%d)", i, size) }, func() string {
				x := util.NewIndex(i)
				for k := 0; k < 2; k++ {
					if g, w := x.Resolve(size), wantIndex(i, size); g != w {
						return fmt.Sprintf("%d, want %d", g, w)
					}
				}
				// the same index against another length
				if g, w := x.Resolve(3), wantIndex(i, 3); g != w {
					return fmt.Sprintf("then Resolve(3) = %d, want %d", g, w)
				}
				return ""
			})
			for _, j := range ints {
				j := j
				c.Try(func() string { return fmt.Sprintf("NewSlice(%d,%d).Resolve(%d)", i, j, size) }, func() string {
					s := util.NewSlice(i, j)
					wl, wr := wantSlice(i, j, size)
					for k := 0; k < 2; k++ {
						if l, r := s.Resolve(size); l != wl || r != wr {
							return fmt.Sprintf("%d,%d, want %d,%d", l, r, wl, wr)
						}
					}
					wl, wr = wantSlice(i, j, 2)
					if l, r := s.Resolve(2); l != wl || r != wr {
						return fmt.Sprintf("then Resolve(2) = %d,%d, want %d,%d", l, r, wl, wr)
					}
					return ""
				})
			}
			c.Step(len(ints) + 1)
			c.States += int64(len(ints) + 1)
			if c.Late() {
				return
			}
		}
		c.Sample("length %d: %d integers, all pairs", size, len(ints))
	}
}

func init() { hl.Register("C24", hl.Scn{Name: "resolve", Seq: idxSeq}) }
