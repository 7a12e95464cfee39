package main

import (
	"errors"
	"fmt"

	"github.com/lxdlam/vertex/mc"
	"github.com/lxdlam/vertex/pkg/types"
	"github.com/lxdlam/vertex/pkg/util"
	"github.com/lxdlam/vertex/vharness/hl"
)

// C28: pipelines.

// the context of a run carries its log
type plRun struct{ calls []string }

// kinds of steps
const (
	plNew  = iota // returns a new context
	plSame        // returns the context it got
	plNil         // returns a nil context without an error
	plErr         // returns a new context and an error
	plErrN        // returns a nil context and an error
	plErrS        // returns the context it got and an error
	plKinds
)

type plCtx struct {
	types.DataMap
	name string
}

type plHarness struct {
	errs map[int]error
	cur  *plRun
	sch  bool
}

func (h *plHarness) step(id, kind int, runOf func(types.DataMap) *plRun) util.Handler {
	return func(in types.DataMap) (types.DataMap, error) {
		if h.sch {
			mc.Gosched()
		}
		r := runOf(in)
		r.calls = append(r.calls, fmt.Sprintf("%d(%s)", id, ctxName(in)))
		out := &plCtx{types.NewSimpleDataMap(), fmt.Sprintf("%s>%d", ctxName(in), id)}
		if in != nil {
			if v, ok := in.Get("run"); ok {
				out.Set("run", v)
			}
		}
		switch kind {
		case plNew:
			return out, nil
		case plSame:
			return in, nil
		case plNil:
			return nil, nil
		case plErr:
			return out, h.errs[id]
		case plErrN:
			return nil, h.errs[id]
		}
		return in, h.errs[id]
	}
}

func ctxName(d types.DataMap) string {
	if d == nil {
		return "nil"
	}
	if c, ok := d.(*plCtx); ok {
		return c.name
	}
	return fmt.Sprintf("%T", d)
}

// what a run must do
func plWant(kinds []int, in string) (calls []string, out string, errStep int) {
	out, errStep = in, -1
	for i, k := range kinds {
		calls = append(calls, fmt.Sprintf("%d(%s)", i, out))
		switch k {
		case plNew, plErr:
			out = fmt.Sprintf("%s>%d", out, i)
		case plNil, plErrN:
			out = "nil"
		}
		if k >= plErr {
			return calls, out, i
		}
	}
	return
}

func plCheck(p util.Pipeline, h *plHarness, kinds []int, in types.DataMap) string {
	h.cur = &plRun{}
	out, err := p.Run(in)
	calls, wout, wstep := plWant(kinds, ctxName(in))
	if fmt.Sprint(h.cur.calls) != fmt.Sprint(calls) {
		return fmt.Sprintf("called %v, want %v", h.cur.calls, calls)
	}
	if ctxName(out) != wout {
		return fmt.Sprintf("returned %s, want %s", ctxName(out), wout)
	}
	if wstep < 0 && err != nil || wstep >= 0 && err != h.errs[wstep] {
		return fmt.Sprintf("error %v, want that of step %d", err, wstep)
	}
	return ""
}

func newH() *plHarness {
	h := &plHarness{errs: map[int]error{}}
	for i := 0; i < 40; i++ {
		h.errs[i] = fmt.Errorf("step %d failed", i)
	}
	return h
}

func plSeq(c *hl.Seq) {
	depth := hl.Pick(4, 6)
	var kinds []int
	var rec func()
	rec = func() {
		if c.Late() {
			return
		}
		c.Try(func() string { return fmt.Sprintf("steps %v", kinds) }, func() string {
			h := newH()
			cur := func(types.DataMap) *plRun { return h.cur }
			// built in one chain; run three times
			p := util.NewPipeline()
			for i, k := range kinds {
				p = p.AddHandler(h.step(i, k, cur))
			}
			for i := 0; i < 3; i++ {
				var in types.DataMap = &plCtx{types.NewSimpleDataMap(), fmt.Sprint("in", i)}
				if i == 2 {
					in = nil
				}
				if m := plCheck(p, h, kinds, in); m != "" {
					return fmt.Sprintf("run %d: %s", i, m)
				}
			}
			// a run after each extension
			q := util.NewPipeline()
			for i := 0; ; i++ {
				if m := plCheck(q, h, kinds[:i], &plCtx{types.NewSimpleDataMap(), "x"}); m != "" {
					return fmt.Sprintf("extended to %d steps: %s", i, m)
				}
				if i == len(kinds) {
					break
				}
				if r := q.AddHandler(h.step(i, kinds[i], cur)); r == nil {
					return "AddHandler returned nil"
				}
			}
			// two pipelines do not share steps
			if m := plCheck(util.NewPipeline(), h, nil, &plCtx{types.NewSimpleDataMap(), "y"}); m != "" {
				return "an empty pipeline: " + m
			}
			return ""
		})
		c.Step(4 + len(kinds))
		c.States++
		if len(kinds) == depth {
			return
		}
		for k := 0; k < plKinds; k++ {
			kinds = append(kinds, k)
			rec()
			kinds = kinds[:len(kinds)-1]
		}
	}
	rec()
	c.Sample("every list of up to %d steps out of %d kinds", depth, plKinds)
	// long pipelines with the failure at every position
	for _, n := range []int{8, 9, 16, 17, 33, 40} {
		for f := -1; f < n; f++ {
			for _, fk := range []int{plErr, plErrN, plErrS} {
				ks := make([]int, n)
				if f >= 0 {
					ks[f] = fk
				}
				c.Try(func() string { return fmt.Sprintf("steps %v", ks) }, func() string {
					h := newH()
					p := util.NewPipeline()
					for i, k := range ks {
						p.AddHandler(h.step(i, k, func(types.DataMap) *plRun { return h.cur }))
					}
					for i := 0; i < 2; i++ {
						if m := plCheck(p, h, ks, &plCtx{types.NewSimpleDataMap(), "x"}); m != "" {
							return m
						}
					}
					return ""
				})
				c.Step(2)
				c.States++
			}
		}
	}
}

// concurrent runs of one pipeline, and of a pipeline per goroutine
func plConc(kinds []int, runs int, shared bool) func() {
	return func() {
		h := newH()
		h.sch = true
		runOf := func(in types.DataMap) *plRun {
			v, _ := in.Get("run")
			return v.(*plRun)
		}
		build := func() util.Pipeline {
			p := util.NewPipeline()
			for i, k := range kinds {
				p.AddHandler(h.step(i, k, runOf))
			}
			return p
		}
		p := build()
		var ts []*mc.Task
		for g := 0; g < runs; g++ {
			g := g
			ts = append(ts, mc.Spawn(func() {
				q := p
				if !shared {
					q = build()
				}
				in := &plCtx{types.NewSimpleDataMap(), fmt.Sprint("in", g)}
				r := &plRun{}
				in.Set("run", r)
				out, err := q.Run(in)
				calls, wout, wstep := plWant(kinds, in.name)
				if fmt.Sprint(r.calls) != fmt.Sprint(calls) {
					mc.Fail("run %d called %v, want %v", g, r.calls, calls)
				}
				if ctxName(out) != wout {
					mc.Fail("run %d returned %s, want %s", g, ctxName(out), wout)
				}
				if wstep < 0 && err != nil || wstep >= 0 && !errors.Is(err, h.errs[wstep]) {
					mc.Fail("run %d: error %v, want that of step %d", g, err, wstep)
				}
			}))
		}
		for _, t := range ts {
			t.Join()
		}
	}
}

func init() {
	hl.Register("C28", hl.Scn{Name: "lists", Seq: plSeq})
	for i, ks := range [][]int{{}, {plNew}, {plNew, plNew}, {plNew, plErr, plNew}, {plSame, plNew, plSame}, {plErrS, plNew}} {
		for _, shared := range []bool{true, false} {
			hl.Register("C28", hl.Scn{Name: fmt.Sprintf("concurrent/%d/2/shared=%v", i, shared), Body: plConc(ks, 2, shared), Quick: -4, Thorough: -4, Race: 3})
			hl.Register("C28", hl.Scn{Name: fmt.Sprintf("concurrent/%d/3/shared=%v", i, shared), Body: plConc(ks, 3, shared), Quick: 3, Thorough: -4})
		}
	}
}
