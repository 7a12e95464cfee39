package mc

// atomics: each operation is one step.

type aobj struct {
	o  hobj
	ra byte
}

var atomObjs = map[any]*aobj{}

// atom returns the bookkeeping object of an address.
func atom(p any) *aobj {
	raceDisable()
	o := atomObjs[p]
	if o == nil {
		o = &aobj{}
		atomObjs[p] = o
	}
	raceEnable()
	return o
}

func atomOp(p any, write bool) bool {
	if s == nil {
		return true
	}
	if s.abort {
		return false
	}
	what := "atomic.load"
	if write {
		what = "atomic.rmw"
	}
	s.point(what, nil)
	a := atom(p)
	if write {
		s.cur.write(&a.o, 0x201)
		raceAcquire(up(&a.ra))
		raceReleaseMerge(up(&a.ra))
	} else {
		s.cur.read(&a.o, 0x202)
		raceAcquire(up(&a.ra))
	}
	return true
}

func AddInt32(p *int32, d int32) int32 {
	if atomOp(p, true) {
		*p += d
	}
	return *p
}
func AddInt64(p *int64, d int64) int64 {
	if atomOp(p, true) {
		*p += d
	}
	return *p
}
func AddUint32(p *uint32, d uint32) uint32 {
	if atomOp(p, true) {
		*p += d
	}
	return *p
}
func AddUint64(p *uint64, d uint64) uint64 {
	if atomOp(p, true) {
		*p += d
	}
	return *p
}
func LoadInt32(p *int32) int32    { atomOp(p, false); return *p }
func LoadInt64(p *int64) int64    { atomOp(p, false); return *p }
func LoadUint32(p *uint32) uint32 { atomOp(p, false); return *p }
func LoadUint64(p *uint64) uint64 { atomOp(p, false); return *p }
func StoreInt32(p *int32, v int32) {
	if atomOp(p, true) {
		*p = v
	}
}
func StoreInt64(p *int64, v int64) {
	if atomOp(p, true) {
		*p = v
	}
}
func StoreUint32(p *uint32, v uint32) {
	if atomOp(p, true) {
		*p = v
	}
}
func StoreUint64(p *uint64, v uint64) {
	if atomOp(p, true) {
		*p = v
	}
}
func SwapInt32(p *int32, v int32) int32 {
	o := *p
	if atomOp(p, true) {
		o = *p
		*p = v
	}
	return o
}
func SwapInt64(p *int64, v int64) int64 {
	o := *p
	if atomOp(p, true) {
		o = *p
		*p = v
	}
	return o
}
func SwapUint32(p *uint32, v uint32) uint32 {
	o := *p
	if atomOp(p, true) {
		o = *p
		*p = v
	}
	return o
}
func SwapUint64(p *uint64, v uint64) uint64 {
	o := *p
	if atomOp(p, true) {
		o = *p
		*p = v
	}
	return o
}
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	if !atomOp(p, true) || *p != o {
		return false
	}
	*p = n
	return true
}
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	if !atomOp(p, true) || *p != o {
		return false
	}
	*p = n
	return true
}
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	if !atomOp(p, true) || *p != o {
		return false
	}
	*p = n
	return true
}
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	if !atomOp(p, true) || *p != o {
		return false
	}
	*p = n
	return true
}

type AInt32 struct{ v int32 }

func (a *AInt32) Load() int32                    { return LoadInt32(&a.v) }
func (a *AInt32) Store(x int32)                  { StoreInt32(&a.v, x) }
func (a *AInt32) Add(d int32) int32              { return AddInt32(&a.v, d) }
func (a *AInt32) Swap(x int32) int32             { return SwapInt32(&a.v, x) }
func (a *AInt32) CompareAndSwap(o, n int32) bool { return CompareAndSwapInt32(&a.v, o, n) }

type AInt64 struct{ v int64 }

func (a *AInt64) Load() int64                    { return LoadInt64(&a.v) }
func (a *AInt64) Store(x int64)                  { StoreInt64(&a.v, x) }
func (a *AInt64) Add(d int64) int64              { return AddInt64(&a.v, d) }
func (a *AInt64) Swap(x int64) int64             { return SwapInt64(&a.v, x) }
func (a *AInt64) CompareAndSwap(o, n int64) bool { return CompareAndSwapInt64(&a.v, o, n) }

type AUint32 struct{ v uint32 }

func (a *AUint32) Load() uint32                    { return LoadUint32(&a.v) }
func (a *AUint32) Store(x uint32)                  { StoreUint32(&a.v, x) }
func (a *AUint32) Add(d uint32) uint32             { return AddUint32(&a.v, d) }
func (a *AUint32) Swap(x uint32) uint32            { return SwapUint32(&a.v, x) }
func (a *AUint32) CompareAndSwap(o, n uint32) bool { return CompareAndSwapUint32(&a.v, o, n) }

type AUint64 struct{ v uint64 }

func (a *AUint64) Load() uint64                    { return LoadUint64(&a.v) }
func (a *AUint64) Store(x uint64)                  { StoreUint64(&a.v, x) }
func (a *AUint64) Add(d uint64) uint64             { return AddUint64(&a.v, d) }
func (a *AUint64) Swap(x uint64) uint64            { return SwapUint64(&a.v, x) }
func (a *AUint64) CompareAndSwap(o, n uint64) bool { return CompareAndSwapUint64(&a.v, o, n) }

type ABool struct{ v uint32 }

func b2u(b bool) uint32 {
	if b {
		return 1
	}
	return 0
}
func (a *ABool) Load() bool                    { return LoadUint32(&a.v) != 0 }
func (a *ABool) Store(x bool)                  { StoreUint32(&a.v, b2u(x)) }
func (a *ABool) Swap(x bool) bool              { return SwapUint32(&a.v, b2u(x)) != 0 }
func (a *ABool) CompareAndSwap(o, n bool) bool { return CompareAndSwapUint32(&a.v, b2u(o), b2u(n)) }

type AValue struct{ v any }

func (a *AValue) Load() any { atomOp(a, false); return a.v }
func (a *AValue) Store(x any) {
	if x == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	if atomOp(a, true) {
		a.v = x
	}
}
func (a *AValue) Swap(x any) any {
	o := a.v
	if atomOp(a, true) {
		o = a.v
		a.v = x
	}
	return o
}
func (a *AValue) CompareAndSwap(o, n any) bool {
	if !atomOp(a, true) || a.v != o {
		return false
	}
	a.v = n
	return true
}

type APointer[T any] struct{ a AValue }

func (p *APointer[T]) Load() *T {
	x, _ := p.a.Load().(*T)
	return x
}
func (p *APointer[T]) Store(x *T) { p.a.Store(x) }
func (p *APointer[T]) Swap(x *T) *T {
	o, _ := p.a.Swap(x).(*T)
	return o
}
func (p *APointer[T]) CompareAndSwap(o, n *T) bool {
	if cur := p.Load(); cur != o {
		return false
	}
	p.a.Store(n)
	return true
}
