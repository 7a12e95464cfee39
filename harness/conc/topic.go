package main

import (
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/lxdlam/vertex/mc"
	"github.com/lxdlam/vertex/pkg/concurrency"
	"github.com/lxdlam/vertex/vharness/hl"
)

// C17: topics.

// pubsub is what the scenarios need, offered by a bare topic and by the event bus.
type pubsub interface {
	sub(name string) concurrency.Receiver
	subOpt(name string, size int, d time.Duration) concurrency.Receiver
	pub(data interface{}, err error) concurrency.Future
	remove()
}

type bareTopic struct{ t concurrency.Topic }

func (b bareTopic) sub(n string) concurrency.Receiver { return b.t.Subscribe(n) }
func (b bareTopic) subOpt(n string, size int, d time.Duration) concurrency.Receiver {
	return b.t.SubscribeWithOptions(n, size, d)
}
func (b bareTopic) pub(data interface{}, err error) concurrency.Future {
	return b.t.Publish(concurrency.NewEvent("T", data, err))
}
func (b bareTopic) remove() {
	topicRemoved = true
	b.t.Remove()
}

type busTopic struct{ e concurrency.EventBus }

func (b busTopic) sub(n string) concurrency.Receiver {
	r, err := b.e.Subscribe("T", n)
	if err != nil {
		mc.Fail("Subscribe: %v", err)
	}
	return r
}
func (b busTopic) subOpt(n string, size int, d time.Duration) concurrency.Receiver {
	r, err := b.e.SubscribeWithOptions("T", n, size, d)
	if err != nil {
		mc.Fail("SubscribeWithOptions: %v", err)
	}
	return r
}
func (b busTopic) pub(data interface{}, err error) concurrency.Future {
	return b.e.Publish("T", data, err)
}
func (b busTopic) remove() {
	topicRemoved = true
	if !b.e.RemoveTopic("T") {
		mc.Fail("RemoveTopic reported that the topic does not exist")
	}
}

// topicRemoved tells whether this execution has begun to remove the topic of its pubsub.
var topicRemoved bool

func newPubsub(bus bool) pubsub {
	topicRemoved = false
	if !bus {
		return bareTopic{concurrency.NewTopic("T")}
	}
	e := concurrency.GetEventBus()
	if !e.NewTopic("T") {
		mc.Fail("NewTopic on a fresh bus reported false")
	}
	return busTopic{e}
}

// inbox is a subscriber that keeps receiving.
type inbox struct {
	r      concurrency.Receiver
	got    []int
	notice int
	closed bool
	t      *mc.Task
}

func listen(r concurrency.Receiver) *inbox {
	b := &inbox{r: r}
	b.t = mc.Spawn(func() {
		for {
			e, err := r.Receive()
			if err != nil {
				b.closed = true
				return
			}
			b.take(e)
		}
	})
	return b
}

func (b *inbox) take(e concurrency.Event) {
	if e.Error() != nil {
		if errors.Is(e.Error(), concurrency.ErrTopicRemoved) {
			if e.Topic() != "T" {
				mc.Fail("the removal notice names topic %q", e.Topic())
			}
			if !topicRemoved {
				mc.Fail("a removal notice although nobody removed the topic")
			}
			b.notice++
			return
		}
		mc.Fail("event with error %v", e.Error())
	}
	if e.Topic() != "T" || e.ID() == "" {
		mc.Fail("the event was altered")
	}
	b.got = append(b.got, e.Data().(int))
}

func (b *inbox) count(ev int) int {
	n := 0
	for _, x := range b.got {
		if x == ev {
			n++
		}
	}
	return n
}

func result(f concurrency.Future) int {
	v, err := f.Get()
	if err != nil {
		mc.Fail("the publish result is error %v", err)
	}
	n, ok := v.(int)
	if !ok {
		mc.Fail("the publish result is %T", v)
	}
	return n
}

const settle = 60 * time.Millisecond

// tLive: live subscribers, closed ones, slow ones; several publishers. live ones get
// every event exactly once, the count is exact.
func tLive(bus bool, live, closed, slow, buffered int, pubs []int, sync bool) func() {
	return func() {
		p := newPubsub(bus)
		var in []*inbox
		for i := 0; i < live; i++ {
			in = append(in, listen(p.sub(fmt.Sprintf("live%d", i))))
		}
		for i := 0; i < closed; i++ {
			p.sub(fmt.Sprintf("closed%d", i)).Close()
		}
		for i := 0; i < slow; i++ {
			p.sub(fmt.Sprintf("slow%d", i))
		}
		var buf []concurrency.Receiver
		for i := 0; i < buffered; i++ {
			buf = append(buf, p.subOpt(fmt.Sprintf("buf%d", i), 100, 10*time.Millisecond))
		}
		var ts []*mc.Task
		total := 0
		for i, n := range pubs {
			i, n := i, n
			total += n
			ts = append(ts, mc.Spawn(func() {
				var fs []concurrency.Future
				for k := 0; k < n; k++ {
					f := p.pub(i*100+k, nil)
					if sync {
						if c := result(f); c != live+buffered {
							mc.Fail("the publish result is %d, %d subscribers were ready", c, live+buffered)
						}
					} else {
						fs = append(fs, f)
					}
				}
				for _, f := range fs {
					if c := result(f); c > live+buffered || (c < live+buffered && !(n > 1 || len(pubs) > 1)) {
						mc.Fail("the publish result is %d, %d subscribers were ready", c, live+buffered)
					} else if c < live+buffered && live+buffered > 0 {
						// several deliveries in flight at one unbuffered receiver still fit its time limit
						mc.Fail("the publish result is %d, %d subscribers were ready", c, live+buffered)
					}
				}
			}))
		}
		for _, t := range ts {
			t.Join()
		}
		mc.RunFor(settle)
		for bi, b := range in {
			if len(b.got) != total {
				mc.Fail("subscriber %d received %d of %d events", bi, len(b.got), total)
			}
			for i, n := range pubs {
				last := -1
				for k := 0; k < n; k++ {
					if b.count(i*100+k) != 1 {
						mc.Fail("subscriber %d received event %d %d times", bi, i*100+k, b.count(i*100+k))
					}
				}
				if sync {
					for _, x := range b.got {
						if x/100 == i {
							if x < last {
								mc.Fail("events published one after the other arrived out of order: %v", b.got)
							}
							last = x
						}
					}
				}
			}
		}
		for i, r := range buf {
			b := &inbox{}
			for k := 0; k < total; k++ {
				e, err := r.Receive()
				if err != nil {
					mc.Fail("buffered subscriber: %v", err)
				}
				b.take(e)
			}
			for j, n := range pubs {
				for k := 0; k < n; k++ {
					if b.count(j*100+k) != 1 {
						mc.Fail("buffered subscriber %d received event %d %d times", i, j*100+k, b.count(j*100+k))
					}
				}
			}
		}
	}
}

// tTimely: with deliveries that may run out of time, the count still equals what arrives.
func tTimely(bus bool, live int, pubs int) func() {
	return func() {
		p := newPubsub(bus)
		var in []*inbox
		for i := 0; i < live; i++ {
			in = append(in, listen(p.sub(fmt.Sprintf("live%d", i))))
		}
		for k := 0; k < pubs; k++ {
			c := result(p.pub(k, nil))
			mc.RunFor(settle)
			n := 0
			for _, b := range in {
				x := b.count(k)
				if x > 1 {
					mc.Fail("event %d was received %d times by one subscriber", k, x)
				}
				n += x
			}
			if n != c {
				mc.Fail("the publish result is %d but %d subscribers received the event", c, n)
			}
		}
	}
}

// tClosing: one of the subscribers closes while an event is published.
func tClosing(bus bool, live, closing int) func() {
	return func() {
		p := newPubsub(bus)
		var in []*inbox
		for i := 0; i < live; i++ {
			in = append(in, listen(p.sub(fmt.Sprintf("live%d", i))))
		}
		var cl []*inbox
		for i := 0; i < closing; i++ {
			cl = append(cl, listen(p.sub(fmt.Sprintf("closing%d", i))))
		}
		var ts []*mc.Task
		for _, b := range cl {
			b := b
			ts = append(ts, mc.Spawn(func() { b.r.Close() }))
		}
		c := result(p.pub(1, nil))
		for _, t := range ts {
			t.Join()
		}
		mc.RunFor(settle)
		n := 0
		for i, b := range in {
			if b.count(1) != 1 {
				mc.Fail("subscriber %d received the event %d times", i, b.count(1))
			}
			n++
		}
		for _, b := range cl {
			if b.count(1) > 1 {
				mc.Fail("a closing subscriber received the event %d times", b.count(1))
			}
			n += b.count(1)
		}
		if c != n {
			mc.Fail("the publish result is %d but %d subscribers received the event", c, n)
		}
		if c := result(p.pub(2, nil)); c != live {
			mc.Fail("after the closes the publish result is %d with %d subscribers", c, live)
		}
		mc.RunFor(settle)
		for _, b := range cl {
			if b.count(2) != 0 {
				mc.Fail("an event was delivered to a subscriber that had unsubscribed")
			}
		}
		for i, b := range in {
			if b.count(2) != 1 || len(b.got) != 2 {
				mc.Fail("subscriber %d received %v", i, b.got)
			}
		}
	}
}

// tResub: a name is subscribed again (after a close, or without one) while events are
// published; the new subscription stays.
func tResub(bus, closeFirst bool, pubs, others, late int) func() {
	return func() {
		p := newPubsub(bus)
		sub := p.sub
		if late >= 10 {
			late := late // with options
			sub = func(n string) concurrency.Receiver { return p.subOpt(n, late/10-1, 10*time.Millisecond) }
		}
		var in []*inbox
		for i := 0; i < others; i++ {
			in = append(in, listen(p.sub(fmt.Sprintf("live%d", i))))
		}
		old := sub("name")
		var ob *inbox
		if closeFirst {
			old.Close()
		} else {
			ob = listen(old)
		}
		var ts []*mc.Task
		for i := 0; i < pubs; i++ {
			i := i
			ts = append(ts, mc.Spawn(func() { result(p.pub(i, nil)) }))
		}
		if late%10 == 1 {
			mc.Quiesce()
		} else if late%10 == 2 && pubs > 0 {
			// as soon as one result is there
			ts[0].Join()
		}
		nb := listen(sub("name"))
		for _, t := range ts {
			t.Join()
		}
		mc.RunFor(settle)
		for i := 0; i < pubs; i++ {
			for _, b := range in {
				if b.count(i) != 1 {
					mc.Fail("another subscriber received event %d %d times", i, b.count(i))
				}
			}
			if nb.count(i) > 1 {
				mc.Fail("the new subscription received event %d %d times", i, nb.count(i))
			}
		}
		if c := result(p.pub(1000, nil)); c != others+1 {
			mc.Fail("after the re-subscription the publish result is %d, %d subscribers are ready", c, others+1)
		}
		mc.RunFor(settle)
		if nb.count(1000) != 1 {
			mc.Fail("the new subscription received the later event %d times", nb.count(1000))
		}
		if ob != nil && ob.count(1000) != 0 {
			mc.Fail("the replaced subscription received a later event")
		}
		for _, b := range in {
			if b.count(1000) != 1 {
				mc.Fail("another subscriber received the later event %d times", b.count(1000))
			}
		}
	}
}

// tRemove: the removal notice reaches every ready subscriber, once.
func tRemove(bus bool, live, closed, slow, pubs int) func() {
	return func() {
		p := newPubsub(bus)
		var in []*inbox
		for i := 0; i < live; i++ {
			in = append(in, listen(p.sub(fmt.Sprintf("live%d", i))))
		}
		for i := 0; i < closed; i++ {
			p.sub(fmt.Sprintf("closed%d", i)).Close()
		}
		for i := 0; i < slow; i++ {
			p.sub(fmt.Sprintf("slow%d", i))
		}
		var ts []*mc.Task
		missing := 0
		for i := 0; i < pubs; i++ {
			i := i
			ts = append(ts, mc.Spawn(func() {
				v, err := p.pub(i, nil).Get()
				if err != nil {
					if !bus || !errors.Is(err, concurrency.ErrNoSuchTopic) {
						mc.Fail("publish: %v", err)
					}
					missing++
				} else if v.(int) != live {
					mc.Fail("the publish result is %v, %d subscribers were ready", v, live)
				}
			}))
		}
		p.remove()
		for _, b := range in {
			_ = b
		}
		for _, t := range ts {
			t.Join()
		}
		mc.RunFor(settle)
		for i, b := range in {
			if b.notice != 1 {
				mc.Fail("subscriber %d received %d removal notices", i, b.notice)
			}
			if len(b.got) != pubs-missing {
				mc.Fail("subscriber %d received %d events, %d were published", i, len(b.got), pubs-missing)
			}
		}
	}
}

// tMixed: subscribers of all kinds in a given order (l live, s slow, c closed, b buffered)
// are sent an event with or without an error, perhaps the removal notice; the ready ones get
// it, and those that were only slow get the next one.
func tMixed(bus bool, kinds string, errs string, remove bool) func() {
	return func() {
		p := newPubsub(bus)
		mine := errors.New("mine")
		type subscr struct {
			kind byte
			r    concurrency.Receiver
			evs  []concurrency.Event
		}
		var l []*subscr
		live := func(s *subscr) {
			mc.Spawn(func() {
				for {
					e, err := s.r.Receive()
					if err != nil {
						return
					}
					s.evs = append(s.evs, e)
				}
			})
		}
		ready := 0
		for i := range kinds {
			s := &subscr{kind: kinds[i]}
			n := fmt.Sprintf("%c%d", kinds[i], i)
			if s.kind == 'b' {
				s.r = p.subOpt(n, 10, 10*time.Millisecond)
			} else {
				s.r = p.sub(n)
			}
			switch s.kind {
			case 'c':
				s.r.Close()
			case 'l':
				live(s)
			}
			if s.kind == 'l' || s.kind == 'b' {
				ready++
			}
			l = append(l, s)
		}
		send := func(i int, want int) {
			var err error
			if errs[i] == 'e' {
				err = mine
			}
			if c := result(p.pub(i, err)); c != want {
				mc.Fail("event %d: the publish result is %d, %d subscribers were ready", i, c, want)
			}
		}
		for i := 0; i+1 < len(errs); i++ {
			send(i, ready)
		}
		mc.RunFor(settle)
		// now the slow ones listen as well
		for _, s := range l {
			if s.kind == 's' || s.kind == 'b' {
				live(s)
			}
			if s.kind == 's' {
				ready++
			}
		}
		mc.Quiesce()
		last := len(errs) - 1
		send(last, ready)
		if remove {
			p.remove()
		}
		mc.RunFor(settle)
		for _, s := range l {
			var got []string
			for _, e := range s.evs {
				switch {
				case e.Topic() != "T" || e.ID() == "":
					mc.Fail("the event was altered")
				case errors.Is(e.Error(), concurrency.ErrTopicRemoved):
					got = append(got, "removed")
				case (e.Error() == mine) != (errs[e.Data().(int)] == 'e') || e.Error() != nil && e.Error() != mine:
					mc.Fail("event %v arrived with error %v", e.Data(), e.Error())
				default:
					got = append(got, fmt.Sprint(e.Data()))
				}
			}
			var want []string
			if s.kind == 'l' || s.kind == 'b' {
				for i := 0; i < last; i++ {
					want = append(want, fmt.Sprint(i))
				}
			}
			if s.kind != 'c' {
				want = append(want, fmt.Sprint(last))
				if remove {
					want = append(want, "removed")
				}
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				mc.Fail("subscriber %c received %v, it should have received %v", s.kind, got, want)
			}
		}
	}
}

func init() {
	add := func(name string, body func(), q, t int, early int) {
		hl.Register("C17", hl.Scn{Name: "topic/" + name, Body: body, Cfg: mc.Config{EarlyCost: early, BlockCost: 1}, Quick: q + 1, Thorough: t + 1, Race: 2})
	}
	for _, bus := range []bool{false, true} {
		n := map[bool]string{false: "bare/", true: "bus/"}[bus]
		for _, x := range []struct {
			live, closed, slow, buf int
			pubs                    []int
			sync                    bool
			q, t                    int
		}{
			{1, 0, 0, 0, []int{1}, true, 3, 5},
			{2, 0, 0, 0, []int{1}, true, 2, 4},
			{3, 0, 0, 0, []int{1}, true, 1, 3},
			{1, 0, 0, 0, []int{2}, true, 2, 4},
			{1, 0, 0, 0, []int{2}, false, 2, 4},
			{1, 0, 0, 0, []int{1, 1}, true, 2, 3},
			{2, 0, 0, 0, []int{1, 1}, true, 1, 2},
			{0, 0, 0, 1, []int{2}, true, 2, 4},
			{1, 0, 0, 1, []int{1}, true, 2, 3},
			{0, 1, 0, 0, []int{1}, true, 3, 5},
			{1, 1, 0, 0, []int{2}, true, 2, 3},
			{1, 2, 0, 0, []int{1}, true, 2, 3},
			{1, 3, 0, 0, []int{1, 1}, true, 1, 2},
			{0, 2, 0, 0, []int{1, 1}, true, 1, 3},
			{1, 0, 1, 0, []int{1}, true, 2, 3},
			{1, 1, 1, 0, []int{2}, true, 1, 2},
			{0, 0, 1, 0, []int{1}, true, 3, 5},
			{0, 0, 0, 0, []int{2}, true, 3, 5},
		} {
			add(fmt.Sprintf("%slive/%d-%d-%d-%d-%v-%v", n, x.live, x.closed, x.slow, x.buf, x.pubs, x.sync), tLive(bus, x.live, x.closed, x.slow, x.buf, x.pubs, x.sync), x.q, x.t, 0)
		}
		for _, k := range []string{"l", "s", "b", "sl", "cl", "ls", "lc", "scl", "csl", "scs", "bsl", "slc"} {
			for _, e := range []string{"en", "ne"} {
				q := map[int]int{1: 2, 2: 1, 3: 0}[len(k)]
				add(fmt.Sprintf("%smixed/%s-%s", n, k, e), tMixed(bus, k, e, len(k) == 2), q, q+1, 0)
			}
		}
		add(n+"mixed/sl-nen", tMixed(bus, "sl", "nen", false), 1, 2, 0)
		add(n+"timely/1", tTimely(bus, 1, 2), 2, 4, 1)
		add(n+"timely/2", tTimely(bus, 2, 1), 2, 3, 1)
		add(n+"closing/1-1", tClosing(bus, 1, 1), 2, 3, 0)
		add(n+"closing/0-2", tClosing(bus, 0, 2), 2, 3, 0)
		add(n+"closing/0-1", tClosing(bus, 0, 1), 3, 4, 0)
		for _, cf := range []bool{true, false} {
			add(fmt.Sprintf("%sresub/1-0-closed=%v-2", n, cf), tResub(bus, cf, 1, 0, 2), 3, 5, 0)
			for _, opt := range []int{10, 30} {
				add(fmt.Sprintf("%sresub/options-%d-closed=%v-0", n, opt/10-1, cf), tResub(bus, cf, 1, 0, opt), 3, 4, 0)
				add(fmt.Sprintf("%sresub/options-%d-closed=%v-2", n, opt/10-1, cf), tResub(bus, cf, 1, 0, opt+2), 3, 5, 0)
			}
			for late := 0; late < 2; late++ {
				add(fmt.Sprintf("%sresub/1-0-closed=%v-%d", n, cf, late), tResub(bus, cf, 1, 0, late), 3, 4, 0)
				add(fmt.Sprintf("%sresub/2-0-closed=%v-%d", n, cf, late), tResub(bus, cf, 2, 0, late), 1, 3, 0)
				add(fmt.Sprintf("%sresub/1-1-closed=%v-%d", n, cf, late), tResub(bus, cf, 1, 1, late), 1, 2, 0)
			}
		}
		for _, x := range [][3]int{{4, 0, 1}, {7, 1, 2}, {8, 0, 0}, {9, 2, 9}, {16, 0, 1}, {17, 17, 0}, {33, 5, 5}, {70, 3, 64}, {130, 130, 0}, {300, 1, 1}} {
			hl.Register("C17", hl.Scn{Name: fmt.Sprintf("topic/%smany/%v", n, x), Body: tLive(bus, x[0], x[1], 0, x[2], []int{2}, true), Cfg: defaultOrder, Quick: 0, Thorough: 0, Slow: -1})
		}
		for _, k := range []int{17, 33, 65, 100} {
			hl.Register("C17", hl.Scn{Name: fmt.Sprintf("topic/%slong/%d", n, k), Body: tLive(bus, 2, 1, 0, 1, []int{k}, true), Cfg: defaultOrder, Quick: 0, Thorough: 0, Slow: -1})
		}
		add(n+"remove/1", tRemove(bus, 1, 0, 0, 0), 3, 4, 0)
		add(n+"remove/2-1-1", tRemove(bus, 2, 1, 1, 0), 1, 2, 0)
		add(n+"remove/1-1-0-1", tRemove(bus, 1, 1, 0, 1), 2, 3, 0)
		add(n+"remove/1-0-0-2", tRemove(bus, 1, 0, 0, 2), 1, 2, 0)
		add(n+"remove/0-0-1", tRemove(bus, 0, 0, 1, 0), 3, 4, 0)
	}
}

// C18: the event bus.

type busOp struct {
	kind, name string
}

func busScenario(plan [][]busOp, listenerOf string) func() {
	return func() {
		var hist []hl.Op
		buses := make([]concurrency.EventBus, len(plan))
		var lis *inbox
		if listenerOf != "" {
			e := concurrency.GetEventBus()
			if !e.NewTopic(listenerOf) {
				mc.Fail("NewTopic on a fresh bus reported false")
			}
			r, err := e.Subscribe(listenerOf, "L")
			if err != nil {
				mc.Fail("Subscribe: %v", err)
			}
			lis = staying(r)
		}
		ops := make([][]hl.Op, len(plan))
		type stay struct {
			*inbox
			g, k int
		}
		var stays []stay
		var ts []*mc.Task
		for g := range plan {
			g := g
			ts = append(ts, mc.Spawn(func() {
				e := concurrency.GetEventBus()
				buses[g] = e
				for k, o := range plan[g] {
					inv := mc.Stamp()
					var out interface{}
					switch o.kind {
					case "new":
						out = e.NewTopic(o.name)
					case "remove":
						out = e.RemoveTopic(o.name)
					case "exist":
						out = e.ExistTopic(o.name)
					case "sub":
						r, err := e.Subscribe(o.name, fmt.Sprintf("s%d-%d", g, k))
						out = busErr(err, r == nil)
						if r != nil {
							r.Close()
						}
					case "subopt":
						r, err := e.SubscribeWithOptions(o.name, fmt.Sprintf("s%d-%d", g, k), 3, 10*time.Millisecond)
						out = busErr(err, r == nil)
						if r != nil {
							r.Close()
						}
					case "stay", "stayopt":
						// a subscriber that goes on listening
						var r concurrency.Receiver
						var err error
						if o.kind == "stay" {
							r, err = e.Subscribe(o.name, fmt.Sprintf("s%d-%d", g, k))
						} else {
							r, err = e.SubscribeWithOptions(o.name, fmt.Sprintf("s%d-%d", g, k), 3, 10*time.Millisecond)
						}
						out = busErr(err, r == nil)
						if r != nil {
							stays = append(stays, stay{inbox: staying(r), g: g, k: k})
						}
					case "pub", "pubsrc":
						var f concurrency.Future
						if o.kind == "pub" {
							f = e.Publish(o.name, g*100+k, nil)
						} else {
							f = e.PublishWithSource(o.name, "src", g*100+k, nil)
						}
						resp := mc.Stamp() // the topic is looked up before Publish returns
						_, err := f.Get()
						ops[g] = append(ops[g], hl.Op{G: g, Inv: inv, Resp: resp, Name: o.kind, In: o.name, Out: busErr(err, false)})
						continue
					}
					ops[g] = append(ops[g], hl.Op{G: g, Inv: inv, Resp: mc.Stamp(), Name: o.kind, In: o.name, Out: out})
				}
			}))
		}
		for _, t := range ts {
			t.Join()
		}
		e := concurrency.GetEventBus()
		for _, b := range buses {
			if b != e {
				mc.Fail("two users got different event buses")
			}
		}
		for _, o := range ops {
			hist = append(hist, o...)
		}
		names := map[string]bool{}
		for _, p := range plan {
			for _, o := range p {
				names[o.name] = true
			}
		}
		var ns []string
		for n := range names {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			inv := mc.Stamp()
			out := e.ExistTopic(n)
			hist = append(hist, hl.Op{G: 99, Inv: inv, Resp: mc.Stamp(), Name: "exist", In: n, Out: out})
		}
		init := ""
		if listenerOf != "" {
			init = "[" + listenerOf + "]"
		}
		if !hl.Linearizable(hist, init, busStep) {
			mc.Fail("no order of the operations explains the history: %v", hist)
		}
		if lis != nil || len(stays) > 0 {
			mc.RunFor(settle)
		}
		for _, b := range stays {
			sub := ops[b.g][b.k]
			must, may := false, false
			for _, o := range hist {
				if o.In != sub.In {
					continue
				}
				if o.Name == "remove" && o.Out == true && o.Resp > sub.Inv {
					may = true
					must = must || o.Inv > sub.Resp
				}
				if o.Name == "exist" && o.G == 99 && o.Out == false {
					must = true // the topic that was subscribed to is gone
				}
			}
			if b.notice > 1 || must && b.notice != 1 || !may && b.notice != 0 {
				mc.Fail("a subscriber got %d removal notices (removed after it subscribed: %v): %v", b.notice, must, hist)
			}
		}
		if lis != nil {
			removed := 0
			pub := 0
			for _, o := range hist {
				if o.In == listenerOf && o.Name == "remove" && o.Out == true {
					removed++
				}
				if o.In == listenerOf && strings.HasPrefix(o.Name, "pub") && o.Out == "ok" {
					pub++
				}
			}
			if removed > 0 && lis.notice != 1 {
				mc.Fail("the topic was removed and its subscriber got %d notices", lis.notice)
			}
			if removed == 0 && lis.notice != 0 {
				mc.Fail("a removal notice although the topic was not removed")
			}
			if len(lis.got) > pub {
				mc.Fail("more events (%d) than successful publishes (%d)", len(lis.got), pub)
			}
		}
	}
}

// staying keeps receiving and remembers what came.
func staying(r concurrency.Receiver) *inbox {
	b := &inbox{r: r}
	b.t = mc.Spawn(func() {
		for {
			e, err := r.Receive()
			if err != nil {
				return
			}
			if errors.Is(e.Error(), concurrency.ErrTopicRemoved) {
				b.notice++
			} else {
				b.got = append(b.got, e.Data().(int))
			}
		}
	})
	return b
}

func busErr(err error, nilRecv bool) interface{} {
	if err == nil {
		if nilRecv {
			return "nil receiver"
		}
		return "ok"
	}
	if errors.Is(err, concurrency.ErrNoSuchTopic) {
		return "missing"
	}
	return err.Error()
}

func busStep(st string, o hl.Op) (string, bool) {
	k := "[" + o.In.(string) + "]"
	has := strings.Contains(st, k)
	switch o.Name {
	case "new":
		if o.Out == has {
			return st, false
		}
		if has {
			return st, true
		}
		l := strings.SplitAfter(st, "]")
		l = append(l, k)
		sort.Strings(l)
		return strings.Join(l, ""), true
	case "remove":
		if o.Out != has {
			return st, false
		}
		if has {
			return strings.Replace(st, k, "", 1), true
		}
		return st, true
	case "exist":
		return st, o.Out == has
	default:
		return st, o.Out == map[bool]string{true: "ok", false: "missing"}[has]
	}
}

func init() {
	N := func(s string) []busOp {
		var r []busOp
		for _, x := range strings.Fields(s) {
			i := strings.IndexByte(x, ':')
			r = append(r, busOp{x[:i], x[i+1:]})
		}
		return r
	}
	add := func(name, listener string, q, t int, plan ...string) {
		var p [][]busOp
		for _, x := range plan {
			p = append(p, N(x))
		}
		if strings.Count(strings.Join(plan, " "), "pub") >= 2 && q > 1 || len(plan) == 3 && q == 2 && listener != "" {
			q--
			t--
		}
		hl.Register("C18", hl.Scn{Name: "bus/" + name + "/" + strings.Join(plan, "|"), Body: busScenario(p, listener), Cfg: mc.Config{BlockCost: 1}, Quick: q + 1, Thorough: t + 1, Race: 2})
	}
	ops := []string{"new:a", "remove:a", "exist:a", "sub:a", "pub:a"}
	// every pair of two-step and one-step programs over one topic
	for _, o1 := range ops {
		for _, o2 := range ops {
			for _, o3 := range ops {
				if strings.Compare(o1, o3) > 0 && o2 == o3 {
					continue
				}
				q := 2
				add("one", "", q, 4, o1+" "+o2, o3)
				add("one-listened", "a", q-1, 3, o1+" "+o2, o3)
			}
		}
	}
	for i, o1 := range ops {
		for j := i; j < len(ops); j++ {
			for k := j; k < len(ops); k++ {
				add("three", "", 2, 3, o1, ops[j], ops[k])
				add("three-listened", "a", 1, 3, o1, ops[j], ops[k])
			}
		}
	}
	for _, st := range []string{"stay:a", "stayopt:a"} {
		add("stays", "a", 2, 3, st, "remove:a")
		add("stays", "a", 1, 3, st, "remove:a new:a")
		add("stays", "a", 1, 2, st+" "+st, "remove:a")
		add("stays", "a", 1, 2, st, "remove:a", "new:a")
		add("stays", "a", 1, 2, st+" remove:a", "pub:a")
		add("stays", "", 1, 3, "new:a "+st, "new:a remove:a")
	}
	for _, o1 := range []string{"subopt:a", "pubsrc:a"} {
		for _, o2 := range ops {
			add("one", "", 2, 4, "new:a "+o1, o2)
			add("one-listened", "a", 1, 3, o1, o2)
		}
	}
	add("two", "", 2, 3, "new:a new:b remove:a", "exist:b sub:a")
	add("two", "", 2, 3, "new:a remove:b", "new:b remove:a")
	add("two", "", 2, 3, "new:a pub:b", "new:b pub:a")
	add("two", "", 2, 3, "new: exist:a", "new:a exist:")
	add("four", "", 1, 2, "new:a", "new:a", "remove:a", "exist:a")
	add("two-listened", "a", 1, 2, "pub:a pub:a", "remove:a new:a")
	add("two-listened", "a", 1, 2, "remove:a new:a pub:a", "pub:a")

	// what an event carries
	hl.Register("C18", hl.Scn{Name: "bus/fields", Cfg: mc.Config{BlockCost: 1}, Quick: 2, Thorough: 3, Body: func() {
		e := concurrency.GetEventBus()
		e.NewTopic("x")
		e.NewTopic("y")
		r, _ := e.Subscribe("x", "sub")
		ry, _ := e.SubscribeWithOptions("y", "sub", 5, time.Millisecond)
		myErr := errors.New("mine")
		done := mc.Spawn(func() {
			if v, err := e.Publish("x", 1, nil).Get(); v != 1 || err != nil {
				mc.Fail("Publish gave (%v, %v)", v, err)
			}
			if v, err := e.PublishWithSource("x", "src", nil, myErr).Get(); v != 1 || err != nil {
				mc.Fail("PublishWithSource gave (%v, %v)", v, err)
			}
			if v, err := e.PublishWithSource("z", "src", nil, myErr).Get(); v != nil || err != concurrency.ErrNoSuchTopic {
				mc.Fail("PublishWithSource to a missing topic gave (%v, %v)", v, err)
			}
			if v, err := e.PublishWithSource("y", "s2", "data", nil).Get(); v != 1 || err != nil {
				mc.Fail("PublishWithSource gave (%v, %v)", v, err)
			}
		})
		a, err := r.Receive()
		if err != nil || a.Data() != 1 || a.Error() != nil || a.Topic() != "x" || a.Source() != "anonymous" {
			mc.Fail("event %+v, %v", a, err)
		}
		b, err := r.Receive()
		if err != nil || b.Data() != nil || b.Error() != myErr || b.Topic() != "x" || b.Source() != "src" {
			mc.Fail("event %+v, %v", b, err)
		}
		c, err := ry.Receive()
		if err != nil || c.Data() != "data" || c.Error() != nil || c.Topic() != "y" || c.Source() != "s2" {
			mc.Fail("event %+v, %v", c, err)
		}
		if a.ID() == b.ID() || a.ID() == "" || b.ID() == c.ID() {
			mc.Fail("events share an id")
		}
		done.Join()
		if r, err := e.SubscribeWithOptions("z", "sub", 1, time.Millisecond); r != nil || err != concurrency.ErrNoSuchTopic {
			mc.Fail("SubscribeWithOptions on a missing topic gave %v", err)
		}
	}})

	// many topics next to each other
	for _, n := range []int{1, 7, 8, 9, 15, 16, 17, 33, 64, 65, 100, 300} {
		n := n
		hl.Register("C18", hl.Scn{Name: fmt.Sprintf("bus/many/%d", n), Cfg: defaultOrder, Quick: 0, Thorough: 0, Slow: -1, Body: func() {
			e := concurrency.GetEventBus()
			name := func(i int) string { return fmt.Sprintf("topic %d", i) }
			var in []*inbox
			for i := 0; i < n; i++ {
				if e.ExistTopic(name(i)) || !e.NewTopic(name(i)) || !e.ExistTopic(name(i)) || e.NewTopic(name(i)) {
					mc.Fail("creating topic %d of %d went wrong", i, n)
				}
				r, err := e.Subscribe(name(i), "s")
				if err != nil {
					mc.Fail("subscribing to topic %d: %v", i, err)
				}
				in = append(in, staying(r))
			}
			for i := n - 1; i >= 0; i-- {
				if v, err := e.Publish(name(i), i, nil).Get(); v != 1 || err != nil {
					mc.Fail("publishing to topic %d of %d gave (%v, %v)", i, n, v, err)
				}
			}
			for i := 0; i < n; i += 2 {
				if !e.RemoveTopic(name(i)) || e.ExistTopic(name(i)) || e.RemoveTopic(name(i)) {
					mc.Fail("removing topic %d of %d went wrong", i, n)
				}
			}
			mc.RunFor(settle)
			for i := 0; i < n; i++ {
				if e.ExistTopic(name(i)) != (i%2 == 1) {
					mc.Fail("topic %d of %d exists: %v", i, n, i%2 == 0)
				}
				if len(in[i].got) != 1 || in[i].got[0] != i || in[i].notice != 1-i%2 {
					mc.Fail("the subscriber of topic %d of %d received %v and %d notices", i, n, in[i].got, in[i].notice)
				}
			}
		}})
	}
	// every combination of data and error arrives as it was published
	hl.Register("C18", hl.Scn{Name: "bus/payloads", Cfg: defaultOrder, Quick: 0, Thorough: 0, Slow: -1, Body: func() {
		e := concurrency.GetEventBus()
		e.NewTopic("x")
		r, _ := e.SubscribeWithOptions("x", "s", 64, 10*time.Millisecond)
		type box struct{ n int }
		datas := []interface{}{nil, 0, 1, "", "text", false, []int(nil), &box{3}, (*box)(nil), errors.New("as data"), map[string]int{"a": 1}}
		errs := []error{nil, errors.New("mine"), concurrency.ErrNoSuchTopic, concurrency.ErrTopicRemoved, concurrency.ErrChannelClosed}
		for _, d := range datas {
			for _, x := range errs {
				for _, src := range []string{"-", "", "a source", "anonymous"} {
					var f concurrency.Future
					if src == "-" {
						f = e.Publish("x", d, x)
					} else {
						f = e.PublishWithSource("x", src, d, x)
					}
					if v, err := f.Get(); v != 1 || err != nil {
						mc.Fail("publishing (%v, %v) from %q gave (%v, %v)", d, x, src, v, err)
					}
					if src == "-" {
						src = "anonymous"
					}
					ev, err := r.Receive()
					if err != nil || !reflect.DeepEqual(ev.Data(), d) || ev.Error() != x || ev.Source() != src || ev.Topic() != "x" {
						mc.Fail("(%v, %v) from %q arrived as (%v, %v) from %q, err=%v", d, x, src, ev.Data(), ev.Error(), ev.Source(), err)
					}
				}
			}
		}
	}})
	// names that are nearly alike, of topics and of subscribers
	names := []string{"", " ", "a", "A", " a", "a ", "a\x00", "a\n", "\xff", "\xfe", "\u00e4", "a\u0308", "a/b", "a.b", "a*", "*", strings.Repeat("a", 40), strings.Repeat("a", 41), strings.Repeat("a", 300), strings.Repeat("a", 300) + "b"}
	hl.Register("C18", hl.Scn{Name: "bus/names", Cfg: defaultOrder, Quick: 0, Thorough: 0, Slow: -1, Body: func() {
		e := concurrency.GetEventBus()
		var in []*inbox
		for _, n := range names {
			if e.ExistTopic(n) || !e.NewTopic(n) || !e.ExistTopic(n) || e.NewTopic(n) {
				mc.Fail("creating the topic %q next to the others went wrong", n)
			}
			r, err := e.Subscribe(n, "s")
			if err != nil {
				mc.Fail("subscribing to the topic %q: %v", n, err)
			}
			in = append(in, staying(r))
		}
		for i, n := range names {
			if v, err := e.Publish(n, i, nil).Get(); v != 1 || err != nil {
				mc.Fail("publishing to the topic %q gave (%v, %v)", n, v, err)
			}
		}
		for i, n := range names {
			if i%2 == 0 && (!e.RemoveTopic(n) || e.ExistTopic(n) || e.RemoveTopic(n)) {
				mc.Fail("removing the topic %q went wrong", n)
			}
		}
		mc.RunFor(settle)
		for i, n := range names {
			if e.ExistTopic(n) != (i%2 == 1) {
				mc.Fail("the topic %q exists: %v", n, i%2 == 0)
			}
			if len(in[i].got) != 1 || in[i].got[0] != i || in[i].notice != 1-i%2 {
				mc.Fail("the subscriber of the topic %q received %v and %d notices", n, in[i].got, in[i].notice)
			}
		}
	}})
	hl.Register("C17", hl.Scn{Name: "topic/names", Cfg: defaultOrder, Quick: 0, Thorough: 0, Slow: -1, Body: func() {
		e := concurrency.GetEventBus()
		e.NewTopic("x")
		var in []*inbox
		var rs []concurrency.Receiver
		for i, n := range names {
			var r concurrency.Receiver
			if i%2 == 0 {
				r, _ = e.Subscribe("x", n)
			} else {
				r, _ = e.SubscribeWithOptions("x", n, i%3, 10*time.Millisecond)
			}
			rs = append(rs, r)
			in = append(in, staying(r))
		}
		if v, err := e.Publish("x", 0, nil).Get(); v != len(names) || err != nil {
			mc.Fail("publishing to %d subscribers with different names gave (%v, %v)", len(names), v, err)
		}
		n := len(names)
		for i := range names {
			if i%3 == 0 {
				rs[i].Close()
				n--
			}
		}
		mc.Quiesce()
		if v, err := e.Publish("x", 1, nil).Get(); v != n || err != nil {
			mc.Fail("publishing to the %d subscribers that are left gave (%v, %v)", n, v, err)
		}
		mc.RunFor(settle)
		for i, name := range names {
			if want := 2 - (3-i%3)/3; len(in[i].got) != want {
				mc.Fail("the subscriber %q received %v, expected %d events", name, in[i].got, want)
			}
		}
	}})
}
