package mc

import (
	"errors"
	"fmt"
	"io"
	"os"
	"reflect"
	"sort"
	"strings"

	uuid "github.com/satori/go.uuid"
)

// resetEnv puts the environment stand-ins back to their initial state.
func resetEnv() {
	if s != nil {
		panic("mc: resetEnv during an execution")
	}
	fsys = newFS()
	nets = newNet()
	tmpN = 0
	stampN = 0
	RandDraws = 0
	uuidN, noRandN = 0, 0
	Entropy, RandSeeds = nil, nil
	ExitCode = -1
	sigs = nil
	FSFault, FSWatch, FSDelay, NetFault, ListenFault, ReadChunk = nil, nil, nil, nil, nil, nil
	if len(atomObjs) > 0 {
		atomObjs = map[any]*aobj{}
	}
	Stderr.closed, Stdout.closed = false, false
	resetStd()
	resetProcs()
}

func init() {
	if fsys == nil {
		fsys = newFS()
	}
	nets = newNet()
}

// ---- process

// ExitCode is the status of an os.Exit, or -1.
var ExitCode = -1

// ExitHook, if set, runs a program's os.Exit; the goroutine goes no further then.
var ExitHook func(code int)

type never struct{}

func (never) ready(g *G) bool { return false }

// Exit is os.Exit: the execution is over, or, with a hook, the goroutine stays where it is.
func Exit(code int) {
	if s == nil {
		os.Exit(code)
	}
	if s.abort {
		return
	}
	ExitCode = code
	if p := s.cur.proc; p != nil && p.id > 0 {
		if p.exit != nil {
			p.exit(code)
		}
		s.point("exit", nil)
		p.end()
		s.point("exited", never{})
		goexit()
	}
	if ExitHook != nil {
		ExitHook(code)
		s.point("exited", never{})
		goexit()
	}
	s.failNow("exit", fmt.Sprintf("the program called os.Exit(%d)", code))
}

type notify struct {
	c    *Chan[os.Signal]
	sigs []os.Signal // none: all
	p    *Proc
}

var sigs []notify

// SignalNotify is signal.Notify.
func SignalNotify(c *Chan[os.Signal], sig ...os.Signal) {
	sigs = append(sigs, notify{c, sig, curProc()})
}

// SignalStop is signal.Stop.
func SignalStop(c *Chan[os.Signal]) {
	var l []notify
	for _, x := range sigs {
		if x.c != c {
			l = append(l, x)
		}
	}
	sigs = l
}

// Signal delivers a signal to the program as the runtime does: without blocking. A signal
// that the program does not catch kills it.
func Signal(sig os.Signal) {
	if !deliver(sig, nil) && s != nil && !s.abort {
		s.failNow("exit", fmt.Sprintf("the signal %v killed the program", sig))
	}
}

// deliver reports whether the program, or with nil any, catches the signal.
func deliver(sig os.Signal, p *Proc) bool {
	caught := false
	for _, n := range append([]notify(nil), sigs...) {
		if p != nil && n.p != p {
			continue
		}
		is := len(n.sigs) == 0
		for _, x := range n.sigs {
			is = is || x == sig
		}
		if !is || sig == os.Kill {
			continue
		}
		caught = true
		if s != nil && !s.abort {
			s.point("signal", nil)
			s.cur.write(&n.c.c.o, 0x801)
		}
		if n.c.c.canSend() {
			n.c.c.doSend(any(sig))
		}
	}
	return caught
}

// ---- uuid

var uuidN uint64

// Entropy, if set, decides every draw of the entropy source: the bytes, or that it fails.
var Entropy func() ([16]byte, bool)

var errEntropy = errors.New("entropy source failed")

func draw16() (u [16]byte, ok bool) {
	if Entropy != nil {
		return Entropy()
	}
	var x uint64
	if s != nil && !s.abort {
		s.cur.uuidN++
		x = mix(uint64(s.cur.id)+1, s.cur.uuidN)
	} else {
		uuidN++
		x = mix(0xabcdef, uuidN)
	}
	y := mix(x, 0x1234567)
	for i := 0; i < 8; i++ {
		u[i] = byte(x >> (8 * i))
		u[8+i] = byte(y >> (8 * i))
	}
	return u, true
}

// NewV4 is uuid.NewV4: it panics without entropy.
func NewV4() uuid.UUID {
	u, ok := draw16()
	if !ok {
		panic(errEntropy)
	}
	u[6] = (u[6] & 0x0f) | 0x40
	u[8] = (u[8] & 0x3f) | 0x80
	return u
}

// NewV1 is uuid.NewV1: the time and a sequence number tell all of them apart.
func NewV1() uuid.UUID {
	var u uuid.UUID
	var x uint64
	if s != nil && !s.abort {
		s.cur.uuidN++
		x = uint64(s.cur.id+1)<<32 | s.cur.uuidN
	} else {
		uuidN++
		x = uuidN
	}
	for i := 0; i < 6; i++ {
		u[i] = byte(x >> (8 * i))
	}
	u[6] = 0x10
	u[8] = 0x80
	return u
}

// CryptoRead is crypto/rand.Read.
func CryptoRead(p []byte) (int, error) {
	for n := 0; n < len(p); n += 16 {
		u, ok := draw16()
		if !ok {
			return n, errEntropy
		}
		if RaceBuild {
			raceWrite(up(&p[n]), len(p[n:]))
		}
		copy(p[n:], u[:])
	}
	return len(p), nil
}

type cryptoReader struct{}

func (cryptoReader) Read(p []byte) (int, error) { return CryptoRead(p) }

// CryptoReader is crypto/rand.Reader.
var CryptoReader io.Reader = cryptoReader{}

// ---- map iteration

// MapOrder selects the iteration order of maps: 0 ascending, 1 descending, 2 rotated by
// half, 3+p the p-th permutation of the first six keys.
var MapOrder int

// MapMenu, if set, selects the order of every iteration by itself.
var MapMenu func() int

// MapIt iterates over a map in a fixed order.
type MapIt[K comparable, V any] struct {
	m  map[K]V
	ks []K
	i  int
}

func sortKeys[K comparable](ks []K) {
	if len(ks) < 2 {
		return
	}
	switch x := any(ks).(type) {
	case []string:
		sort.Strings(x)
	case []int:
		sort.Ints(x)
	default:
		rv := reflect.ValueOf(ks[0])
		switch rv.Kind() {
		case reflect.String:
			sort.SliceStable(ks, func(i, j int) bool { return reflect.ValueOf(ks[i]).String() < reflect.ValueOf(ks[j]).String() })
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			sort.SliceStable(ks, func(i, j int) bool { return reflect.ValueOf(ks[i]).Int() < reflect.ValueOf(ks[j]).Int() })
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			sort.SliceStable(ks, func(i, j int) bool { return reflect.ValueOf(ks[i]).Uint() < reflect.ValueOf(ks[j]).Uint() })
		default:
			if strings.HasPrefix(rv.Kind().String(), "ptr") {
				return
			}
			sort.SliceStable(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
		}
	}
	permute(ks)
}

// permute reorders keys as selected.
func permute[K any](ks []K) {
	n := len(ks)
	order := MapOrder
	if MapMenu != nil {
		order = MapMenu()
	}
	if p := order - 3; p > 0 {
		k := n
		if k > 6 {
			k = 6
		}
		for i := 0; i < k-1; i++ {
			j := i + p%(k-i)
			p /= k - i
			ks[i], ks[j] = ks[j], ks[i]
		}
	}
	switch order {
	case 1:
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			ks[i], ks[j] = ks[j], ks[i]
		}
	case 2:
		r := append(append([]K(nil), ks[n/2:]...), ks[:n/2]...)
		copy(ks, r)
	}
}

func newIt[K comparable, V any](m map[K]V) *MapIt[K, V] {
	it := &MapIt[K, V]{m: m}
	if len(m) > 0 {
		it.ks = make([]K, 0, len(m))
		for k := range m {
			it.ks = append(it.ks, k)
		}
		sortKeys(it.ks)
	}
	return it
}

// Range3 starts an iteration with key and value variables.
func Range3[K comparable, V any](m map[K]V) (k K, v V, it *MapIt[K, V]) { return k, v, newIt(m) }

// Range2 starts an iteration with a key variable.
func Range2[K comparable, V any](m map[K]V) (k K, it *MapIt[K, V]) { return k, newIt(m) }

// Range2V starts an iteration with a value variable.
func Range2V[K comparable, V any](m map[K]V) (v V, it *MapIt[K, V]) { return v, newIt(m) }

// Range1 starts an iteration.
func Range1[K comparable, V any](m map[K]V) *MapIt[K, V] { return newIt(m) }

// Next stores the next key and value (nil pointers are skipped).
func (it *MapIt[K, V]) Next(k *K, v *V) bool {
	for it.i < len(it.ks) {
		x := it.ks[it.i]
		it.i++
		y, ok := it.m[x]
		if !ok {
			continue
		}
		if k != nil {
			*k = x
		}
		if v != nil {
			*v = y
		}
		return true
	}
	return false
}

// Zero sets *p to its zero value.
func Zero[T any](p *T) {
	var z T
	*p = z
}
