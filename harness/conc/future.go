package main

import (
	"errors"
	"fmt"
	"time"

	"github.com/lxdlam/vertex/mc"
	"github.com/lxdlam/vertex/pkg/concurrency"
	"github.com/lxdlam/vertex/vharness/hl"
)

// C15: one outcome, seen by everyone.

type futObs struct {
	kind       string // "value", "cancelled", "timeout", "cancel-ok", "cancel-cancelled", "cancel-fulfilled", "odd"
	msg        string
	from, to   int // stamps
	start, end time.Duration
	limit      time.Duration
}

var errTask = errors.New("task failed")

type futTask struct {
	name  string
	val   interface{}
	err   error
	delay time.Duration // <0: never finishes
}

var futTasks = []futTask{
	{"value", 42, nil, 0},
	{"nil", nil, nil, 0},
	{"error", nil, errTask, 0},
	{"both", "partial", errTask, 0},
	{"slow", 7, nil, 5 * time.Millisecond},
	{"endless", nil, nil, -1},
}

type futActor struct {
	name string
	ops  []string
}

// stamps are only taken where a timed wait has to be ordered against the others
func futOp(f concurrency.Future, t futTask, op string, timed bool) futObs {
	o := futObs{}
	if timed && len(op) == 5 {
		o.from = mc.Stamp()
	}
	o.start = mc.Elapsed()
	check := func(err error) {
		switch {
		case err == nil:
			o.kind = "value"
		case err == concurrency.ErrCancelled:
			o.kind = "cancelled"
		case err == concurrency.ErrTimeout:
			o.kind = "timeout"
		default:
			o.kind = "odd"
			o.msg = fmt.Sprintf("unexpected error %v", err)
		}
	}
	switch op {
	case "cancel":
		switch err := f.Cancel(); err {
		case nil:
			o.kind = "cancel-ok"
		case concurrency.ErrCancelled:
			o.kind = "cancel-cancelled"
		case concurrency.ErrFulfilled:
			o.kind = "cancel-fulfilled"
		default:
			o.kind = "odd"
			o.msg = fmt.Sprintf("Cancel returned %v", err)
		}
	case "get":
		v, err := f.Get()
		if err == concurrency.ErrCancelled {
			o.kind = "cancelled"
			if v != nil {
				o.kind, o.msg = "odd", fmt.Sprintf("cancelled future gave %v", v)
			}
		} else if v == t.val && err == t.err {
			o.kind = "value"
		} else {
			o.kind, o.msg = "odd", fmt.Sprintf("Get returned (%v, %v), the task gave (%v, %v)", v, err, t.val, t.err)
		}
	case "wait":
		check(f.Wait())
		if o.kind == "timeout" {
			o.kind, o.msg = "odd", "Wait reported a timeout"
		}
	case "wait0":
		o.limit = 0
		check(f.WaitFor(0))
	case "wait1":
		o.limit = time.Millisecond
		check(f.WaitFor(o.limit))
	case "wait9":
		o.limit = 9 * time.Millisecond
		check(f.WaitFor(o.limit))
	}
	o.end = mc.Elapsed()
	if timed {
		o.to = mc.Stamp()
	}
	return o
}

func futCheck(t futTask, obs []futObs) {
	okCancels, val, canc := 0, 0, 0
	for _, o := range obs {
		switch o.kind {
		case "odd":
			mc.Fail("%s", o.msg)
		case "cancel-ok":
			okCancels++
		case "value", "cancel-fulfilled":
			val++
		case "cancelled", "cancel-cancelled":
			canc++
		}
	}
	if okCancels > 1 {
		mc.Fail("%d cancellations succeeded", okCancels)
	}
	if okCancels > 0 && val > 0 {
		mc.Fail("a cancellation succeeded although the result was delivered: %v", kinds(obs))
	}
	if val > 0 && canc > 0 {
		mc.Fail("some saw the result and some a cancellation: %v", kinds(obs))
	}
	if canc > 0 && okCancels == 0 {
		mc.Fail("a cancellation was reported although none succeeded: %v", kinds(obs))
	}
	for _, o := range obs {
		if o.kind != "timeout" {
			continue
		}
		if o.end-o.start < o.limit {
			mc.Fail("timeout after %v of a limit of %v", o.end-o.start, o.limit)
		}
		for _, p := range obs {
			if p.kind == "timeout" || p.kind == "cancel-fulfilled" || p.kind == "cancel-cancelled" {
				// a refused Cancel may be ahead of the one who is about to wake the waiters
				continue
			}
			if p.to < o.from || (p.end < o.start+o.limit && p.to < o.to && o.limit > 0) {
				mc.Fail("timeout although the outcome existed before the limit passed (%s known at %v, waited from %v for %v)", p.kind, p.end, o.start, o.limit)
			}
		}
	}
}

func kinds(obs []futObs) []string {
	var r []string
	for _, o := range obs {
		r = append(r, o.kind)
	}
	return r
}

func futScenario(t futTask, actors [][]string) func() {
	timed := false
	for _, a := range actors {
		for _, o := range a {
			timed = timed || len(o) == 5
		}
	}
	return func() {
		runs := 0
		never := mc.MakeChan[int]()
		f := concurrency.NewFuture(concurrency.NewTask(func() (interface{}, error) {
			runs++
			if t.delay > 0 {
				mc.Sleep(t.delay)
			} else if t.delay < 0 {
				never.Recv()
			}
			return t.val, t.err
		}))
		res := make([][]futObs, len(actors))
		var ts []*mc.Task
		for i := range actors {
			i := i
			ts = append(ts, mc.Spawn(func() {
				for _, op := range actors[i] {
					res[i] = append(res[i], futOp(f, t, op, timed))
				}
			}))
		}
		for _, x := range ts {
			x.Join()
		}
		var all []futObs
		for _, r := range res {
			all = append(all, r...)
		}
		// the outcome stays what it is
		all = append(all, futOp(f, t, "wait", timed), futOp(f, t, "get", timed), futOp(f, t, "wait0", timed), futOp(f, t, "cancel", timed))
		futCheck(t, all)
		if runs > 1 || (t.delay >= 0 && runs == 0 && all[len(all)-4].kind == "value") {
			mc.Fail("the task ran %d times", runs)
		}
	}
}

func init() {
	acts := [][]string{
		{"cancel"}, {"get"}, {"wait"}, {"wait1"}, {"wait9"}, {"cancel", "get"}, {"cancel", "cancel"}, {"get", "cancel"}, {"wait0", "get"}, {"wait1", "cancel", "wait"},
	}
	name := func(a []string) string {
		s := ""
		for i, x := range a {
			if i > 0 {
				s += "+"
			}
			s += x
		}
		return s
	}
	hasCancel := func(as ...[]string) bool {
		for _, a := range as {
			for _, x := range a {
				if x == "cancel" {
					return true
				}
			}
		}
		return false
	}
	blocksFirst := func(a []string) bool { return a[0] == "get" || a[0] == "wait" }
	add := func(t futTask, late bool, as ...[]string) {
		if t.delay < 0 {
			ok := false
			for _, a := range as {
				if hasCancel(a) && !(blocksFirst(a) || a[0] == "wait0") {
					ok = true
				}
			}
			if !ok {
				return
			}
		}
		n := "future/" + t.name
		for _, a := range as {
			n += "/" + name(a)
		}
		race, timed := 0, 0
		if t.name == "value" {
			race = 3
		}
		for _, a := range as {
			for _, o := range a {
				if len(o) == 5 {
					timed = 1
				}
			}
		}
		q := 4
		if len(as) == 3 {
			q = 2
			if race > 0 {
				race = 2
			}
		}
		q -= timed
		hl.Register("C15", hl.Scn{Name: n, Body: futScenario(t, as), Cfg: mc.Config{EarlyCost: 1, BlockCost: 0, SelCost: 0}, Quick: q, Thorough: -q - 2, Race: race, Late: late})
	}
	for _, t := range futTasks {
		for i, a := range acts {
			for k := i; k < len(acts); k++ {
				simple := t.name == "nil" || t.name == "error" || t.name == "both"
				if simple && len(a)+len(acts[k]) > 2 {
					continue
				}
				add(t, false, a, acts[k])
				for l := k; l < len(acts); l++ {
					if simple || len(a) > 1 || len(acts[k]) > 1 || len(acts[l]) > 2 {
						continue
					}
					if a[0] == acts[k][0] && acts[k][0] == acts[l][0] && a[0] != "cancel" {
						continue
					}
					add(t, len(acts[l]) > 1, a, acts[k], acts[l])
				}
			}
		}
	}
	// many users of one future
	for _, t := range futTasks {
		if t.delay < 0 {
			continue
		}
		for _, n := range []int{5, 9, 17, 33, 65, 129} {
			var as [][]string
			for i := 0; i < n; i++ {
				as = append(as, [][]string{{"get"}, {"wait"}, {"get", "wait"}, {"wait9"}}[i%4])
			}
			hl.Register("C15", hl.Scn{Name: fmt.Sprintf("future/%s/many/%d", t.name, n), Body: futScenario(t, as), Cfg: defaultOrder, Quick: 0, Thorough: 0, Slow: -1})
			var cs [][]string
			for i := 0; i < n; i++ {
				cs = append(cs, [][]string{{"get"}, {"cancel"}, {"wait"}, {"cancel", "get"}}[i%4])
			}
			hl.Register("C15", hl.Scn{Name: fmt.Sprintf("future/%s/many-cancel/%d", t.name, n), Body: futScenario(t, cs), Cfg: defaultOrder, Quick: 0, Thorough: 0, Slow: -1})
		}
	}
	// what a task gives is never taken for what happened to the future
	for i, x := range []struct {
		v   interface{}
		err error
	}{
		{1, concurrency.ErrCancelled}, {nil, concurrency.ErrCancelled}, {2, concurrency.ErrTimeout}, {nil, concurrency.ErrFulfilled}, {nil, fmt.Errorf("x {%w}", concurrency.ErrCancelled)},
		{concurrency.ErrCancelled, nil}, {[]int{1}, nil}, {[]int(nil), errTask}, {func() {}, nil}, {(*int)(nil), nil}, {map[string]int{}, errTask}, {false, nil}, {"", nil}, {0, nil},
	} {
		x := x
		for _, delay := range []time.Duration{0, 5 * time.Millisecond} {
			delay := delay
			hl.Register("C15", hl.Scn{Name: fmt.Sprintf("future/gives/%d/%v", i, delay), Cfg: defaultOrder, Quick: 0, Thorough: 0, Slow: -1, Body: func() {
				f := concurrency.NewFuture(concurrency.NewTask(func() (interface{}, error) {
					if delay > 0 {
						mc.Sleep(delay)
					}
					return x.v, x.err
				}))
				for k := 0; k < 2; k++ {
					v, err := f.Get()
					if fmt.Sprintf("%T %v", v, v) != fmt.Sprintf("%T %v", x.v, x.v) || err != x.err {
						mc.Fail("Get gives (%v, %v), the task gave (%v, %v)", v, err, x.v, x.err)
					}
					if err := f.Wait(); err != nil {
						mc.Fail("Wait gives %v, the task gave (%v, %v)", err, x.v, x.err)
					}
					if err := f.WaitFor(time.Second); err != nil {
						mc.Fail("WaitFor gives %v, the task gave (%v, %v)", err, x.v, x.err)
					}
					if err := f.Cancel(); err != concurrency.ErrFulfilled {
						mc.Fail("Cancel gives %v, the task gave (%v, %v)", err, x.v, x.err)
					}
				}
			}})
		}
	}
	// limits of every size
	for _, d := range []time.Duration{-time.Hour, -1, 0, 1, 999, 500 * time.Microsecond, 1500 * time.Microsecond, time.Second - 1, time.Second, 61 * time.Second, time.Hour, 25 * time.Hour, 400 * 24 * time.Hour, 1 << 60} {
		d := d
		for _, how := range []string{"timeout", "value", "cancelled"} {
			how := how
			if how != "timeout" && d < 999 {
				continue
			}
			hl.Register("C15", hl.Scn{Name: fmt.Sprintf("future/limit/%d/%s", d, how), Cfg: defaultOrder, Quick: 0, Thorough: 0, Slow: -1, Body: func() {
				gate := mc.MakeChan[int]()
				f := concurrency.NewFuture(concurrency.NewTask(func() (interface{}, error) {
					gate.Recv()
					return 1, nil
				}))
				var err error
				var took time.Duration
				t := mc.Spawn(func() {
					t0 := mc.Elapsed()
					err = f.WaitFor(d)
					took = mc.Elapsed() - t0
				})
				want, after := concurrency.ErrTimeout, d
				switch how {
				case "timeout":
					t.Join()
				case "value":
					want, after = nil, d/10*9
					mc.RunFor(after)
					gate.Send(1)
				case "cancelled":
					want, after = concurrency.ErrCancelled, d/10*9
					mc.RunFor(after)
					if e := f.Cancel(); e != nil {
						mc.Fail("Cancel gives %v", e)
					}
				}
				t.Join()
				if after < 0 {
					after = 0
				}
				if err != want || took < after {
					mc.Fail("a wait of %v gives %v after %v, expected %v after %v", d, err, took, want, after)
				}
			}})
		}
	}
}
