package main

import (
	"fmt"
	"os"
	"strings"
	"syscall"
	"time"
	_ "unsafe"

	client "github.com/lxdlam/vertex/cmd/client/vmain"
	server "github.com/lxdlam/vertex/cmd/server/vmain"
	"github.com/lxdlam/vertex/mc"
	"github.com/lxdlam/vertex/pkg/replication"
	"github.com/lxdlam/vertex/vharness/hl"
	"github.com/lxdlam/vertex/vharness/model"
	"github.com/lxdlam/vertex/vharness/srv"
)

// C35: the server program and the client program together.

// zapExit is how the logging library ends the program after a fatal entry.
//
//go:linkname zapExit go.uber.org/zap/internal/exit.real
var zapExit func()

const replicaPort = 9999

// database is where the server program keeps its data.
const database = "database.vpf"

// run is a program that runs.
type run struct {
	p    *mc.Proc
	over bool
	code int
	how  string
}

// launch starts a program.
func launch(f func()) *run {
	r := &run{}
	zapExit = func() { mc.Exit(1) }
	r.p = mc.NewProc(func() {
		defer func() {
			if x := recover(); x != nil {
				r.over, r.code, r.how = true, 2, fmt.Sprint("panic ", x)
			}
		}()
		f()
		r.over, r.how = true, "return"
	}, func(code int) { r.over, r.code, r.how = true, code, endOf(code) })
	return r
}

// words splits a line; the lines here quote nothing inside quotes.
func words(line string) []string {
	var r []string
	for i, part := range strings.Split(line, "\"") {
		if i%2 == 1 {
			r = append(r, part)
		} else {
			r = append(r, strings.Fields(part)...)
		}
	}
	return r
}

// raw is a reply that must come; "" if its text is free.
func raw(w model.Want) string {
	switch w.Kind {
	case '+':
		return "+" + w.S + "\r\n"
	case ':':
		return fmt.Sprintf(":%d\r\n", w.N)
	case '$':
		if w.Null {
			return "$-1\r\n"
		}
		return hl.Bulk(w.S).Encode()
	case '*':
		s := fmt.Sprintf("*%d\r\n", len(w.A))
		for _, x := range w.A {
			s += raw(x)
		}
		return s
	case 'E':
		return ""
	}
	mc.Fail("harness: the reply %v is not determined", w)
	return ""
}

// session runs the client program on lines and judges what it prints.
func session(db *model.DB, lines []string, quit bool) {
	before := len(mc.StdoutGet())
	mc.StdinNew()
	r := launch(client.Main)
	in := ""
	for _, l := range lines {
		in += l + "\n"
	}
	if quit {
		in += "quit\nSET never 1\n"
	}
	mc.StdinFeed(in)
	if !quit {
		mc.StdinEnd()
	}
	r.p.Join()
	out := mc.StdoutGet()[before:]
	if r.how != "return" {
		mc.Fail("the client program ends with %s %d, after %.300q", r.how, r.code, out)
	}
	rest := out
	for _, l := range lines {
		want := raw(db.Exec(words(l)...))
		if !strings.HasPrefix(rest, prompt) {
			mc.Fail("before %q the output is %.300q", l, out)
		}
		rest = rest[len(prompt):]
		i := strings.Index(rest, "\n"+prompt)
		if i < 0 {
			mc.Fail("after %q the output is %.300q", l, out)
		}
		got := rest[:i]
		rest = rest[i+1:]
		if want == "" && !strings.HasPrefix(got, "Server error: ") || want != "" && got != strings.TrimRight(shown(want), "\n") {
			mc.Fail("%q gives %.200q, not %.200q (in %q)", l, got, want, lines)
		}
	}
	if rest != prompt {
		mc.Fail("the session ends with %.200q", rest)
	}
}

// serve starts the server program.
func serve() *run {
	r := launch(server.Main)
	mc.Quiesce()
	if r.over {
		mc.Fail("the server program ends: %s %d, %.300q", r.how, r.code, mc.StderrGet())
	}
	for _, p := range []int{port, replicaPort} {
		if !mc.Listening(p) {
			mc.Fail("the server program does not listen on port %d", p)
		}
	}
	return r
}

// endOf tells how a program that called os.Exit ended: with 0, that is like returning.
func endOf(code int) string {
	if code == 0 {
		return "return"
	}
	return "exit"
}

// finish stops it.
func finish(r *run, sig os.Signal) {
	r.p.Signal(sig)
	r.p.Join()
	if r.how != "return" {
		mc.Fail("after %v the server program ends with %s %d", sig, r.how, r.code)
	}
	for _, p := range []int{port, replicaPort} {
		if mc.Listening(p) {
			mc.Fail("the server program is over and port %d is open", p)
		}
	}
	for _, f := range mc.FSList() {
		if f != database && f != "vertex.log" {
			mc.Fail("the server program leaves the file %s", f)
		}
	}
}

// life is a server program that is started again and again.
type life struct {
	parts  [][]string // the lines of each session; the server is stopped in between
	quit   bool
	sig    os.Signal
	beside int // 1: another server program is started beside it, in the first part
}

func (p life) body() {
	db := model.New()
	for i, part := range p.parts {
		mc.Calm(true)
		r := serve()
		mc.Calm(false)
		session(db, part, p.quit)
		if p.beside == i+1 {
			before, _ := mc.FSGet(database)
			x := launch(server.Main)
			o := srv.Dial(port)
			if o == nil {
				mc.Fail("the server program does not accept")
			}
			for _, l := range look {
				if v, err := o.Cmd(words(l)...); err != nil {
					mc.Fail("beside a second server program, %q gets no reply: %v", l, err)
				} else if e := db.Exec(words(l)...).Check(v); e != "" {
					mc.Fail("beside a second server program, %q: %s", l, e)
				}
			}
			o.Close()
			mc.Quiesce()
			if !x.over || x.code == 0 {
				mc.Fail("a second server program ends with %q %d", x.how, x.code)
			}
			if after, _ := mc.FSGet(database); string(before) != string(after) {
				mc.Fail("a second server program changes the database file")
			}
			session(db, []string{"SET b after", "RPUSH l after"}, p.quit)
		}
		finish(r, p.sig)
	}
	mc.Calm(true)
	// a last look, and what a replica gets
	r := serve()
	session(db, look, true)
	c, err := mc.HDial(replicaPort)
	if err != nil {
		mc.Fail("a replica cannot connect: %v", err)
	}
	logs, err := replication.NewReplica(c).Receive()
	if err != nil {
		mc.Fail("a replica gets an error: %v", err)
	}
	n := 0
	for _, part := range p.parts {
		for _, l := range part {
			if model.Modifies(strings.ToUpper(words(l)[0])) {
				n++
			}
		}
	}
	if p.beside > 0 {
		n += 2
	}
	if len(logs) > n {
		mc.Fail("a replica gets %d records of %d commands", len(logs), n)
	}
	finish(r, p.sig)
}

// death is a session during which one of the programs is killed before its n-th step, once
// or again in the next session.
type death struct {
	lines  []string
	from   int
	client bool // the client program is killed, not the server program
	again  bool
	sig    os.Signal
}

// replies are what the client program printed up to where it is cut off.
func (p death) replies(db *model.DB, out string) int {
	n := 0
	for _, l := range p.lines {
		if !strings.HasPrefix(out, prompt) {
			break
		}
		out = out[len(prompt):]
		want := raw(db.Exec(words(l)...))
		i := strings.Index(out, "\n")
		if i < 0 {
			break
		}
		if w := strings.TrimRight(shown(want), "\n") + "\n"; strings.HasPrefix(out, w) {
			out = out[len(w):]
			n++
			continue
		}
		break
	}
	rest := strings.TrimPrefix(out, prompt)
	for _, x := range strings.Split(strings.TrimSuffix(rest, "\n"), "\n") {
		x = strings.TrimPrefix(x, prompt)
		if x != "" && !strings.HasPrefix(x, "Read from server meets an error!") && !strings.HasPrefix(x, "Write to server failed!") {
			mc.Fail("when it is cut off the client program prints %.200q", out)
		}
	}
	return n
}

// after are the reads after the first n lines.
func (p death) after(n int) string {
	db := model.New()
	for _, l := range p.lines[:n] {
		db.Exec(words(l)...)
	}
	s := ""
	for _, l := range look {
		s += shown(raw(db.Exec(words(l)...)))
	}
	return s
}

func (p death) body() {
	mc.Calm(true)
	r := serve()
	var done []string // lines that the server program has executed
	durable := 0      // so many of them it found when it started
	for round := 0; round < 2; round++ {
		before := len(mc.StdoutGet())
		mc.StdinNew()
		mc.Calm(false)
		cl := launch(client.Main)
		if round == 0 || p.again {
			n := p.from + mc.ChooseN(5, 0)
			if p.client {
				cl.p.KillAfter(n)
			} else {
				r.p.KillAfter(n)
			}
			p.from = 1 + 2*round
		}
		mc.StdinFeed(strings.Join(p.lines, "\n") + "\n")
		mc.StdinEnd()
		cl.p.Join()
		mc.Quiesce()
		mc.Calm(true)
		r.p.KillAfter(0)
		if cl.over && cl.how != "return" && cl.code != 1 && cl.how[:5] != "panic" {
			mc.Fail("the client program ends with %s %d", cl.how, cl.code)
		}
		if strings.HasPrefix(cl.how, "panic") && !r.p.Dead() {
			mc.Fail("the client program ends with a %s", cl.how)
		}
		told := 0
		{
			db := model.New()
			for _, l := range done {
				db.Exec(words(l)...)
			}
			told = p.replies(db, mc.StdoutGet()[before:])
		}
		if !p.client && !r.p.Dead() && told < len(p.lines) {
			mc.Fail("the client program was told only %d replies: %.300q", told, mc.StdoutGet()[before:])
		}
		was := r.p.Dead()
		if was {
			if r.over {
				mc.Fail("the server program ends with %s %d", r.how, r.code)
			}
			r = serve()
		}
		// which of the lines are there
		o := srv.Dial(port)
		if o == nil {
			mc.Fail("the server program does not accept")
		}
		got := ""
		for _, l := range look {
			v, err := o.Cmd(words(l)...)
			if err != nil {
				mc.Fail("%q gets no reply: %v", l, err)
			}
			got += shown(v.Encode())
		}
		o.Close()
		// some start of all lines, of those that an earlier start of the server program
		// found at least those
		all := append(append([]string{}, done...), p.lines...)
		least := len(done) + told
		if was {
			least = durable
		}
		found := false
		for n := least; n <= len(all) && !found; n++ {
			if (death{lines: all}).after(n) == got {
				found = true
				done = all[:n]
			}
		}
		if was {
			durable = len(done)
		}
		if !found {
			mc.Fail("after %d replies of %q and then a kill the data is %.300q", told, p.lines, got)
		}
	}
	finish(r, p.sig)
}

var look = []string{"GET a", "GET b", "LRANGE l 0 -1", "HGET h f", "HGET h \"g g\"", "SISMEMBER s x", "SCARD s", "GET \"\""}

func init() {
	menu := []string{"SET a 1", "SET a \"x  y\"", "SET \"\" b", "INCR a", "APPEND a \"\"", "DEL a", "GETSET b a", "MSET a 2 b 3",
		"RPUSH l 1 \"2 2\" 3", "LPOP l", "LTRIM l 1 1", "LSET l 0 z", "HSET h f 1", "HSET h \"g g\" \"\" f 2", "HDEL h f", "SADD s x y", "SREM s x", "LPUSH a x", "NOSUCH a", "set", "sEt b low", "lpush l \"\""}
	sigs := []os.Signal{syscall.SIGTERM, os.Interrupt}
	lives := func(c *hl.Seq, first string) {
		var rec func(lines []string, n int)
		rec = func(lines []string, n int) {
			if len(lines) > 0 {
				for cut := 0; cut < 1<<(len(lines)-1); cut++ {
					if c.Late() {
						return
					}
					p := life{quit: len(lines)%2 == 0, sig: sigs[cut%2], parts: [][]string{nil}}
					for i, l := range lines {
						if i > 0 && cut>>(i-1)&1 == 1 {
							p.parts = append(p.parts, nil)
						}
						p.parts[len(p.parts)-1] = append(p.parts[len(p.parts)-1], l)
					}
					c.Try(func() string { return fmt.Sprintf("the sessions %q", p.parts) }, func() string {
						return hl.Under(func() string { p.body(); return "" })
					})
					c.Step(1)
					c.States++
				}
			}
			if n == 0 {
				return
			}
			for _, x := range menu {
				rec(append(append([]string{}, lines...), x), n-1)
			}
		}
		rec([]string{first}, hl.Pick(2, 3))
	}
	for i, first := range menu {
		first := first
		hl.Register("C35", hl.Scn{Name: fmt.Sprintf("lives/%d", i), Seq: func(c *hl.Seq) { lives(c, first) }})
	}
	// a second server program when the file ends in the middle of a record
	hl.Register("C35", hl.Scn{Name: "beside-large", Seq: func(c *hl.Seq) {
		for _, size := range []int{10, 1000, 2000, 3990, 4000, 4010, 4020, 4030, 4040, 4090, 5000, 20000} {
			for n := 1; n <= hl.Pick(4, 8); n++ {
				for k := 0; k < 2; k++ {
					var l []string
					for i := 0; i < n; i++ {
						l = append(l, fmt.Sprintf("SET k%d %s", i, strings.Repeat("x", size)), "RPUSH l y")
					}
					l = append(l, "GET k0")
					p := life{parts: [][]string{l, {"RPUSH l z"}}, sig: sigs[k], quit: k == 1, beside: 1 + k}
					c.Try(func() string {
						return fmt.Sprintf("%d commands of %d bytes, then another server program in life %d", n, size, p.beside)
					}, func() string {
						return hl.Under(func() string { p.body(); return "" })
					})
					c.Step(1)
					c.States++
				}
			}
		}
	}})
	// a server program that nobody uses, or uses rarely, for a long time
	hl.Register("C35", hl.Scn{Name: "long", Seq: func(c *hl.Seq) {
		for k, gap := range []time.Duration{time.Minute, time.Hour + time.Second, 26 * time.Hour, 24 * time.Hour * 8} {
			for _, quit := range []bool{false, true} {
				gap, quit, sig := gap, quit, sigs[k%2]
				c.Try(func() string { return fmt.Sprintf("sessions %v apart", gap) }, func() string {
					return hl.Under(func() string {
						db := model.New()
						r := serve()
						for _, l := range [][]string{{"SET a 1", "RPUSH l x"}, {"GET a", "INCR a"}, look} {
							mc.RunFor(gap)
							if r.over {
								mc.Fail("the server program ends by itself: %s %d", r.how, r.code)
							}
							session(db, l, quit)
						}
						mc.RunFor(gap)
						finish(r, sig)
						r = serve()
						session(db, look, true)
						finish(r, sig)
						return ""
					})
				})
				c.Step(1)
				c.States++
			}
		}
	}})
	two := [][]string{{"SET a 1", "RPUSH l x y"}, {"INCR a"}}
	for _, x := range []struct {
		name string
		p    life
		q, t int
	}{
		{"restart", life{parts: two, sig: syscall.SIGTERM}, 1, 2},
		{"quit", life{parts: two[:1], sig: os.Interrupt, quit: true}, 1, 2},
		{"beside", life{parts: two[:1], sig: os.Interrupt, beside: 1}, 1, 2},
		{"beside-later", life{parts: two, sig: syscall.SIGTERM, beside: 2}, 1, 2},
	} {
		x := x
		hl.Register("C35", hl.Scn{Name: "schedule/" + x.name, Body: func() { x.p.body() }, Quick: x.q, Thorough: x.t, Slow: 1, Cfg: mc.Config{BlockCost: 1}})
	}
	deaths := [][]string{
		{"SET a 1", "RPUSH l x y", "INCR a"},
		{"LPUSH l 1", "HSET h f v", "LPUSH l " + strings.Repeat("L", 4090), "SADD s x"},
		{"SET b " + strings.Repeat("b", 3990), "APPEND a 7", "SET b " + strings.Repeat("c", 4100)},
	}
	for i, l := range deaths {
		for _, who := range []string{"server", "client"} {
			for from := 1; from < 41; from += 5 {
				p := death{lines: l, from: from, client: who == "client", sig: sigs[i%2]}
				hl.Register("C35", hl.Scn{Name: fmt.Sprintf("killed/%s/%d/%d", who, i, from), Body: func() { p.body() }, Quick: 1 - i%2, Thorough: 2, Slow: -1, Late: from > 25, Cfg: mc.Config{BlockCost: 1}})
				q := p
				q.again = true
				hl.Register("C35", hl.Scn{Name: fmt.Sprintf("killed-again/%s/%d/%d", who, i, from), Body: func() { q.body() }, Quick: 0, Thorough: 1, Slow: -1, Late: from > 25, Cfg: mc.Config{BlockCost: 1}})
			}
		}
	}
}
