package hl

import "fmt"

// Op is a completed operation of a concurrent history.
type Op struct {
	G         int    // goroutine
	Inv, Resp int    // real-time stamps
	Name      string // what was called
	In        interface{}
	Out       interface{}
}

func (o Op) String() string {
	return fmt.Sprintf("g%d[%d-%d] %s(%v)=%v", o.G, o.Inv, o.Resp, o.Name, o.In, o.Out)
}

// Linearizable looks for an order of the operations that respects real time and that the
// sequential model accepts; step returns the next states after op in state st (states are
// comparable strings).
func Linearizable(h []Op, init string, step func(st string, op Op) (string, bool)) bool {
	n := len(h)
	type key struct {
		done uint64
		st   string
	}
	dead := map[key]bool{}
	var rec func(done uint64, st string) bool
	rec = func(done uint64, st string) bool {
		if done == 1<<uint(n)-1 {
			return true
		}
		k := key{done, st}
		if dead[k] {
			return false
		}
		min := 1 << 30
		for i := 0; i < n; i++ {
			if done>>uint(i)&1 == 0 && h[i].Resp < min {
				min = h[i].Resp
			}
		}
		for i := 0; i < n; i++ {
			if done>>uint(i)&1 == 1 || h[i].Inv > min {
				continue
			}
			if ns, ok := step(st, h[i]); ok && rec(done|1<<uint(i), ns) {
				return true
			}
		}
		dead[k] = true
		return false
	}
	return rec(0, init)
}
