package mc

// Source is math/rand.Source.
type Source interface {
	Int63() int64
	Seed(seed int64)
}

// Source64 is math/rand.Source64.
type Source64 interface {
	Source
	Uint64() uint64
}

// src is a source; it is not safe for concurrent use, as math/rand's are not.
type src struct{ state [1]byte }

// RandSeeds, if set, gets the seed of every source.
var RandSeeds func(seed int64)

func (x *src) use() {
	if RaceBuild {
		raceWrite(up(&x.state[0]), 1)
	}
}

// randN is the number of outcomes that the draw in progress has, 0: all.
func randN() *int64 {
	if s != nil && s.cur != nil {
		return &s.cur.randN
	}
	return &noRandN
}

var noRandN int64

func (x *src) Int63() int64 {
	x.use()
	if n := *randN(); n > 0 {
		return RandChoice(n)
	}
	return RandChoice(1 << 62)
}
func (x *src) Uint64() uint64 { return uint64(x.Int63()) }
func (x *src) Seed(seed int64) {
	x.use()
	if RandSeeds != nil {
		RandSeeds(seed)
	}
}

func NewSource(seed int64) Source {
	if RandSeeds != nil {
		RandSeeds(seed)
	}
	return &src{}
}

// Rand is math/rand.Rand: every draw is an explored choice (or a fixed outcome when
// random outcomes are not explored).
type Rand struct{ src Source }

func NewRand(s Source) *Rand { return &Rand{src: s} }

// draw gives a number in [0,n) by way of the source, which may be the program's own.
func (r *Rand) draw(n int64) int64 {
	switch x := r.src.(type) {
	case nil: // the package's own generator is safe for concurrent use
		return RandChoice(n)
	case *src:
		x.use()
		return RandChoice(n)
	default:
		if n <= 0 {
			panic("invalid argument to random")
		}
		*randN() = n
		v := x.Int63()
		*randN() = 0
		if v < 0 || v >= n {
			v = int64(uint64(v) % uint64(n))
		}
		return v
	}
}

// RandMenu, if set, decides every draw outside an exploration: it gets the number of
// outcomes and returns one.
var RandMenu func(n int64) int64

// RandDraws counts draws.
var RandDraws int

// RandChoice returns a number in [0,n).
func RandChoice(n int64) int64 {
	if n <= 0 {
		panic("invalid argument to random")
	}
	RandDraws++
	if RandMenu != nil {
		r := RandMenu(n)
		if r < 0 || r >= n {
			r = 0
		}
		return r
	}
	if s != nil && !s.abort && s.cfg.RandCost != 0 {
		k := n
		if k > 6 {
			k = 6
		}
		c := s.cfg.RandCost
		if c < 0 {
			c = 0
		}
		r := int64(Choose(int(k), c))
		if r == k-1 {
			r = n - 1
		}
		return r
	}
	if RandDraws > 200 {
		// keep rejection sampling from looping for ever
		return int64(uint64(RandDraws) * 2654435761 % uint64(n))
	}
	return 0
}

func (r *Rand) Int() int             { return int(r.draw(1 << 62)) }
func (r *Rand) Intn(n int) int       { return int(r.draw(int64(n))) }
func (r *Rand) Int31() int32         { return int32(r.draw(1 << 30)) }
func (r *Rand) Int31n(n int32) int32 { return int32(r.draw(int64(n))) }
func (r *Rand) Int63() int64         { return r.draw(1 << 62) }
func (r *Rand) Int63n(n int64) int64 { return r.draw(n) }
func (r *Rand) Uint32() uint32       { return uint32(r.draw(1 << 30)) }
func (r *Rand) Uint64() uint64       { return uint64(r.draw(1 << 62)) }
func (r *Rand) Float64() float64     { return float64(r.draw(4)) / 4 }
func (r *Rand) Float32() float32     { return float32(r.draw(4)) / 4 }
func (r *Rand) Seed(seed int64) {
	if r.src != nil {
		r.src.Seed(seed)
	}
}
func (r *Rand) Perm(n int) []int {
	m := make([]int, n)
	for i := 0; i < n; i++ {
		j := r.Intn(i + 1)
		m[i] = m[j]
		m[j] = i
	}
	return m
}
func (r *Rand) Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, r.Intn(i+1))
	}
}
func (r *Rand) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(r.draw(256))
	}
	return len(p), nil
}
func (r *Rand) NormFloat64() float64 { return 0 }
func (r *Rand) ExpFloat64() float64  { return 0 }

var globalR Rand

func RandIntn(n int) int                     { return globalR.Intn(n) }
func RandInt() int                           { return globalR.Int() }
func RandInt31() int32                       { return globalR.Int31() }
func RandInt31n(n int32) int32               { return globalR.Int31n(n) }
func RandInt63() int64                       { return globalR.Int63() }
func RandInt63n(n int64) int64               { return globalR.Int63n(n) }
func RandUint32() uint32                     { return globalR.Uint32() }
func RandFloat64() float64                   { return globalR.Float64() }
func RandFloat32() float32                   { return globalR.Float32() }
func RandPerm(n int) []int                   { return globalR.Perm(n) }
func RandShuffle(n int, swap func(i, j int)) { globalR.Shuffle(n, swap) }
func RandSeed(seed int64)                    {}
func RandRead(p []byte) (int, error)         { return globalR.Read(p) }
