package hl

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"unsafe"

	"github.com/lxdlam/vertex/mc"
)

// Deep hashes everything reachable from a value, unexported fields included, up to the
// identity of pointers. Two values with equal hashes behave alike.
func Deep(x interface{}) uint64 {
	d := &deep{seen: map[unsafe.Pointer]uint64{}, h: 14695981039346656037}
	d.walk(reflect.ValueOf(x), 0)
	return d.h
}

// Size counts everything reachable from a value: objects, entries and bytes. It is 0 in the
// build with the race detector, which would take the look for the program's own.
func Size(x interface{}) int {
	if mc.RaceBuild {
		return 0
	}
	d := &deep{seen: map[unsafe.Pointer]uint64{}}
	d.walk(reflect.ValueOf(x), 0)
	return d.n
}

type deep struct {
	seen map[unsafe.Pointer]uint64
	h    uint64
	n    int
}

func (d *deep) u(x uint64) {
	d.h ^= x
	d.h *= 1099511628211
	d.h ^= d.h >> 29
	d.h *= 0xbf58476d1ce4e5b9
	d.h ^= d.h >> 32
}

func (d *deep) str(s string) {
	d.n += len(s)
	d.u(uint64(len(s)) + 77)
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	d.u(h)
}

func (d *deep) ref(p unsafe.Pointer) bool {
	if n, ok := d.seen[p]; ok {
		d.u(n)
		return false
	}
	d.n++
	d.seen[p] = uint64(len(d.seen)) + 1
	d.u(0x5eed)
	return true
}

var mcMap = reflect.TypeOf(mc.Map{})

func (d *deep) walk(v reflect.Value, depth int) {
	if depth > 100000 {
		panic("harness: value nested too deeply")
	}
	if !v.IsValid() {
		d.u(1)
		return
	}
	t := v.Type()
	if strings.HasSuffix(t.PkgPath(), "/vertex/mc") {
		if t == mcMap && v.CanAddr() {
			m := (*mc.Map)(unsafe.Pointer(v.UnsafeAddr()))
			type kv struct {
				k string
				v interface{}
			}
			var l []kv
			m.Range(func(k, v interface{}) bool { l = append(l, kv{fmt.Sprintf("%T%v", k, k), v}); return true })
			sort.Slice(l, func(i, j int) bool { return l[i].k < l[j].k })
			d.n += len(l)
			for _, x := range l {
				d.str(x.k)
				d.walk(reflect.ValueOf(x.v), depth+1)
			}
		}
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			d.u(3)
		} else {
			d.u(2)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		d.u(uint64(v.Int()) + 11)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		d.u(v.Uint() + 13)
	case reflect.Float32, reflect.Float64:
		d.u(math.Float64bits(v.Float()))
	case reflect.String:
		d.str(v.String())
	case reflect.Ptr:
		if v.IsNil() {
			d.u(5)
			return
		}
		if d.ref(unsafe.Pointer(v.Pointer())) {
			d.walk(v.Elem(), depth+1)
		}
	case reflect.Interface:
		if v.IsNil() {
			d.u(7)
			return
		}
		e := v.Elem()
		d.str(e.Type().String())
		d.walk(e, depth+1)
	case reflect.Struct:
		d.u(uint64(v.NumField()) + 101)
		for i := 0; i < v.NumField(); i++ {
			d.walk(v.Field(i), depth+1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			d.walk(v.Index(i), depth+1)
		}
	case reflect.Slice:
		d.n += v.Len()
		d.u(uint64(v.Len()) + 1001)
		if v.IsNil() || v.Cap() == 0 {
			return
		}
		d.u(uint64(v.Cap()))
		if d.ref(unsafe.Pointer(v.Pointer())) || v.Len() > 0 {
			if t.Elem().Kind() == reflect.Uint8 {
				d.str(string(v.Bytes()))
				return
			}
			for i := 0; i < v.Len(); i++ {
				d.walk(v.Index(i), depth+1)
			}
		}
	case reflect.Map:
		d.n += v.Len()
		d.u(uint64(v.Len()) + 10007)
		if v.IsNil() || !d.ref(unsafe.Pointer(v.Pointer())) {
			return
		}
		type kv struct {
			s    string
			k, v reflect.Value
		}
		l := make([]kv, 0, v.Len())
		for it := v.MapRange(); it.Next(); {
			k := it.Key()
			s := ""
			if k.Kind() == reflect.String {
				s = k.String()
			} else {
				s = fmt.Sprintf("%v", k)
			}
			l = append(l, kv{s, k, it.Value()})
		}
		sort.Slice(l, func(i, j int) bool { return l[i].s < l[j].s })
		for _, x := range l {
			d.str(x.s)
			d.walk(x.v, depth+1)
		}
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		if v.IsNil() {
			d.u(17)
		} else {
			d.u(19)
		}
	}
}
