package main

import (
	"fmt"
	"net"
	"strings"
	"time"

	"github.com/lxdlam/vertex/cmd/client/internal"
	program "github.com/lxdlam/vertex/cmd/client/vmain"
	"github.com/lxdlam/vertex/mc"
	"github.com/lxdlam/vertex/pkg/protocol"
	"github.com/lxdlam/vertex/vharness/hl"
	"github.com/lxdlam/vertex/vharness/srv"
)

// C32: a session of the client program. The harness types lines and plays the server, or runs
// the real one.

const port = 6789
const prompt = ">>> "

// answer is what the server does about a request.
type answer struct {
	raw   string        // the reply
	end   string        // what follows: "", "eof", "reset"
	chunk int           // >0: in pieces of this size
	late  time.Duration // it comes after this time
}

func (a answer) String() string {
	return fmt.Sprintf("%.60q%s/%d/%v", a.raw, a.end, a.chunk, a.late)
}

// good reports whether the client gets a whole reply.
func (a answer) good() bool {
	v, _, err := hl.Decode(a.raw)
	return err == nil && v.Kind != 0
}

type typed struct {
	lines []string
	end   string // "": the input ends after a newline, "cut": without one, "open": it does not end
	style string // "once", "prompt": each line after a prompt, "bytes": in small pieces
}

// shown is how the client renders a reply.
func shown(raw string) string {
	o, err := protocol.Parse(strings.NewReader(raw))
	if err != nil {
		mc.Fail("harness: %v", err)
	}
	return internal.FormatOutput(o)
}

// ended is how a session went.
type ended struct {
	over bool
	code int
	how  string
}

// start runs the client program.
func start() (*ended, *mc.Task) {
	e := &ended{}
	mc.ExitHook = func(code int) { e.over, e.code, e.how = true, code, endOf(code) }
	t := mc.Spawn(func() {
		defer func() {
			if r := recover(); r != nil {
				e.over, e.code, e.how = true, 2, fmt.Sprint("panic ", r)
			}
		}()
		program.Main()
		e.over, e.how = true, "return"
	})
	return e, t
}

// keyboard types.
func keyboard(t typed) {
	all := ""
	for i, l := range t.lines {
		if i < len(t.lines)-1 || t.end != "cut" {
			l += "\n"
		}
		all += l
		if t.style == "prompt" {
			mc.StdinFeed(l)
			mc.Quiesce()
		}
	}
	switch t.style {
	case "once":
		mc.StdinFeed(all)
	case "bytes":
		for n := 1; len(all) > 0; n = n%3 + 1 {
			if n > len(all) {
				n = len(all)
			}
			mc.StdinFeed(all[:n])
			all = all[n:]
			mc.Quiesce()
		}
	}
	if t.end != "open" {
		mc.StdinEnd()
	}
}

// talk is one session with the harness as the server; the answers are used in turn, the last
// one again and again.
func talk(t typed, answers []answer) {
	l, err := mc.ListenTCP("tcp", &net.TCPAddr{Port: port})
	if err != nil {
		mc.Fail("harness: %v", err)
	}
	// what is to be sent and shown
	type step struct {
		line    string
		req     string // what is sent; "" if nothing
		ans     answer
		refused bool
	}
	var steps []step
	quit, broken := false, false
	n := 0
	for _, line := range t.lines {
		if line == "quit" || line == "QUIT" {
			quit = true
			break
		}
		st := step{line: line}
		if r, err := internal.FormatInput(line); err != nil {
			st.refused = true
		} else {
			st.req = r
			if !broken {
				st.ans = answers[len(answers)-1]
				if n < len(answers) {
					st.ans = answers[n]
				}
				n++
				broken = broken || !st.ans.good() || st.ans.end != ""
			}
		}
		steps = append(steps, st)
	}
	pieces := 0
	mc.ReadChunk = func(c *mc.Conn, avail int) int {
		if a, ok := c.RemoteAddr().(*net.TCPAddr); ok && a.Port == port && pieces > 0 && avail > pieces {
			return pieces
		}
		return avail
	}
	var reqs []string
	var outAt []string
	mc.Spawn(func() {
		x, err := l.Accept()
		if err != nil {
			return
		}
		c := &srv.Client{C: x.(*mc.Conn)}
		for {
			v, err := c.Recv()
			if err != nil {
				if err != srv.ErrClosed {
					mc.Fail("what the client sends is no request: %v", err)
				}
				_ = c.C.Close()
				return
			}
			reqs = append(reqs, v.Encode())
			outAt = append(outAt, mc.StdoutGet())
			if len(reqs) > n {
				mc.Fail("%d requests are sent, the last is %.200q", len(reqs), v.Encode())
			}
			a := answers[len(answers)-1]
			if len(reqs) <= len(answers) {
				a = answers[len(reqs)-1]
			}
			raw := a.raw
			pieces = a.chunk
			if a.late > 0 {
				mc.Sleep(a.late)
				if raw != "" {
					// one byte now, the others later
					_ = c.Send(raw[:1])
					raw = raw[1:]
					mc.Sleep(a.late)
				}
			}
			if raw != "" {
				_ = c.Send(raw)
			}
			switch a.end {
			case "eof":
				_ = c.C.Close()
				return
			case "reset":
				c.C.Reset()
				return
			}
		}
	})
	e, _ := start()
	keyboard(t)
	mc.Quiesce()
	for _, a := range answers {
		if a.late > 0 {
			mc.RunFor(24 * time.Hour)
			break
		}
	}
	out := mc.StdoutGet()
	if !broken && len(reqs) != n {
		mc.Fail("%d of %d requests are sent; the output is %.300q", len(reqs), n, out)
	}
	for i := range reqs {
		k := 0
		for _, st := range steps {
			if st.req == "" {
				continue
			}
			if k == i && st.req != reqs[i] {
				mc.Fail("for the line %.200q %.200q is sent", st.line, reqs[i])
			}
			k++
		}
	}
	// the output between the prompts
	seg := strings.Split(out, prompt)
	if seg[0] != "" {
		mc.Fail("the output starts with %.200q", seg[0])
	}
	seg = seg[1:]
	fail := false
	r := 0
	for i, st := range steps {
		if i >= len(seg) {
			mc.Fail("there is no prompt for the line %.200q; the output is %.300q", st.line, out)
		}
		got := seg[i]
		if strings.TrimSpace(got) == "" {
			mc.Fail("nothing is said about the line %.200q; the output is %.300q", st.line, out)
		}
		if st.refused || fail {
			for _, a := range answers {
				if a.good() && strings.TrimRight(got, "\n") == shown(a.raw) {
					mc.Fail("the line %.200q, for which no reply came, is followed by %.200q", st.line, got)
				}
			}
			if fail && e.over && i == len(seg)-1 {
				break
			}
			continue
		}
		if r < len(outAt) {
			if want := prompt + strings.Join(seg[:i], prompt) + prompt; i > 0 && outAt[r] != want || i == 0 && outAt[r] != prompt {
				mc.Fail("when the request of the line %.200q came the output was %.300q", st.line, outAt[r])
			}
		}
		r++
		// a reset may overtake the reply
		lost := st.ans.good() && st.ans.end == "reset" && strings.TrimRight(got, "\n") != strings.TrimRight(shown(st.ans.raw), "\n")
		if lost || !st.ans.good() {
			fail = true
			for _, a := range answers {
				if a.good() && strings.TrimRight(got, "\n") == shown(a.raw) {
					mc.Fail("the reply to the line %.200q is broken and %.200q is printed", st.line, got)
				}
			}
			if e.over && i == len(seg)-1 {
				break
			}
			continue
		}
		if strings.TrimRight(got, "\n") != strings.TrimRight(shown(st.ans.raw), "\n") || !strings.HasSuffix(got, "\n") {
			mc.Fail("the reply to the line %.200q is %.200q, printed is %.200q", st.line, shown(st.ans.raw), got)
		}
		if st.ans.end != "" {
			fail = true
			// an end that comes with the reply shows at the next line
		}
	}
	if quit || t.end != "open" {
		if !e.over {
			mc.Fail("the session does not end; the output is %.300q", out)
		}
	} else if !fail && e.over {
		mc.Fail("the session ends (%s): the output is %.300q", e.how, out)
	}
	if !fail {
		if e.over && (e.how != "return" && (e.how != "exit" || e.code != 0)) {
			mc.Fail("the session ends with %s, code %d", e.how, e.code)
		}
		if want := len(steps) + 1; len(seg) != want || strings.TrimSpace(seg[len(seg)-1]) != "" {
			mc.Fail("the output is %.300q for %d lines", out, len(steps))
		}
	} else if strings.HasPrefix(e.how, "panic") {
		mc.Fail("the session ends with a crash: %s", e.how)
	}
}

var lines = []string{"GET a", "SET a \"x y\"", "", "\"open", "quit", "QUIT", "x quit", "Quit 1", "\"\" é"}

var answers = []answer{
	{raw: "+OK\r\n"}, {raw: "$3\r\nx\r\n\r\n"}, {raw: "$-1\r\n"}, {raw: ":-7\r\n", chunk: 1}, {raw: "$2\r\nab\r\n", late: time.Second}, {raw: "+LATE\r\n", late: time.Hour}, {raw: "-ERR no\r\n", chunk: 3}, {raw: "*0\r\n"}, {raw: "*2\r\n$0\r\n\r\n*1\r\n:1\r\n", chunk: 2},
	{raw: "", end: "eof"}, {raw: "", end: "reset"}, {raw: "$5\r\nab", end: "eof"}, {raw: "*2\r\n:1\r\n", end: "reset"}, {raw: "?x\r\n"}, {raw: "TTL expired", end: "eof"}, {raw: "+OK\r\n", end: "eof"}, {raw: ":1\r\n", end: "reset"}, {raw: "+OK\r\nTTL expired", end: "eof"},
}

func init() {
	styles := []string{"once", "prompt", "bytes"}
	ends := []string{"", "cut", "open"}
	under := func(c *hl.Seq, t typed, as []answer) {
		if c.Late() {
			return
		}
		c.Try(func() string {
			q := []string{}
			for _, l := range t.lines {
				q = append(q, fmt.Sprintf("%.60q", l))
			}
			return fmt.Sprintf("the lines %v (%s, %s), the answers %v", q, t.style, t.end, as)
		}, func() string {
			return hl.Under(func() string { talk(t, as); return "" })
		})
		c.Step(1)
		c.States++
	}
	// every short sequence of lines and answers
	hl.Register("C32", hl.Scn{Name: "lines", Seq: func(c *hl.Seq) {
		var rec func(l []string, n int)
		rec = func(l []string, n int) {
			for _, s := range styles {
				for _, e := range ends {
					if e == "cut" && (len(l) == 0 || l[len(l)-1] == "") {
						continue
					}
					under(c, typed{l, e, s}, answers[:1])
					under(c, typed{l, e, s}, []answer{{raw: "$3\r\nx\r\n\r\n"}, {raw: ":1\r\n", chunk: 1}, {raw: "-e\r\n"}, {raw: "*0\r\n"}})
				}
			}
			if n == 0 {
				return
			}
			for _, x := range lines {
				rec(append(append([]string{}, l...), x), n-1)
			}
		}
		rec(nil, hl.Pick(4, 5))
	}})
	for fi, first := range []string{"GET a", "\"open"} {
		first := first
		hl.Register("C32", hl.Scn{Name: fmt.Sprint("answers/", fi), Seq: func(c *hl.Seq) {
			var rec func(as []answer, n int)
			rec = func(as []answer, n int) {
				if len(as) > 0 {
					for _, s := range styles {
						for _, e := range ends {
							under(c, typed{[]string{first, "SET b 1", "GET b", "LRANGE l 0 -1"}, e, s}, as)
							under(c, typed{[]string{"GET a", first, "quit"}, e, s}, as)
						}
					}
				}
				if n == 0 {
					return
				}
				for _, x := range answers {
					rec(append(append([]answer{}, as...), x), n-1)
				}
			}
			rec(nil, hl.Pick(2, 3))
		}})
	}
	// every byte at every end of a line and of a reply
	hl.Register("C32", hl.Scn{Name: "bytes", Seq: func(c *hl.Seq) {
		more := []string{"", " ", "\t", ";", "\\", "'", "#", "\x00", "\x1b", "\x80", "\xff", "\"", "%", "~", "\v", "\u00a0", "\ufeff"}
		for b := 0; b < 256; b++ {
			if b == '\n' || b == '\r' {
				continue
			}
			x := string([]byte{byte(b)})
			for _, m := range more {
				for _, s := range []string{"once", "prompt"} {
					under(c, typed{[]string{"SET a b" + m + x, x + m + "GET a", "GET " + x + m + x + " b", x + m}, "", s},
						[]answer{{raw: "$" + fmt.Sprint(len(x+m)) + "\r\n" + x + m + "\r\n"}, {raw: "*2\r\n" + hl.Bulk(m+x).Encode() + hl.Bulk(x+x).Encode()}, {raw: ":1\r\n"}, {raw: "+OK\r\n"}})
				}
			}
		}
	}})
	hl.Register("C32", hl.Scn{Name: "long", Seq: func(c *hl.Seq) {
		for _, n := range []int{4090, 4096, 8192, 65520, 65530, 65531, 65532, 65533, 65534, 65535, 65536, 65537, 131072, 1 << 20} {
			for _, s := range []string{"once", "prompt"} {
				for _, e := range ends {
					x := strings.Repeat("x", n)
					for _, m := range []int{0, 3, 8} {
						under(c, typed{[]string{"SET a " + x[m:], "GET a", "SET b \"" + x[m:], "GET b"}, e, s}, []answer{{raw: "+OK\r\n"}, {raw: "$" + fmt.Sprint(n) + "\r\n" + x + "\r\n"}, {raw: ":1\r\n"}})
						under(c, typed{[]string{"GET c", "SET a \"" + x[m:] + "\""}, e, s}, []answer{{raw: "$" + fmt.Sprint(n) + "\r\n" + x + "\r\n", chunk: n / 3}, {raw: ":1\r\n"}})
					}
				}
			}
		}
	}})
	hl.Register("C32", hl.Scn{Name: "no-server", Seq: func(c *hl.Seq) {
		for _, end := range []bool{false, true} {
			end := end
			c.Try(func() string { return "there is no server" }, func() string {
				return hl.Under(func() string {
					mc.StdinFeed("GET a\n")
					if end {
						mc.StdinEnd()
					}
					e, _ := start()
					mc.Quiesce()
					if !e.over || e.how == "return" && mc.StdoutGet() == "" && mc.StderrGet() == "" {
						return fmt.Sprintf("the client ends without a word (%v)", e)
					}
					return ""
				})
			})
			c.Step(1)
			c.States++
		}
	}})
	// every schedule of the client, the keyboard and the server
	for _, x := range []struct {
		name string
		t    typed
		as   []answer
	}{
		{"good", typed{[]string{"GET a", "\"open", "SET b 1"}, "", "once"}, []answer{{raw: "*2\r\n:1\r\n:2\r\n"}, {raw: "+OK\r\n"}}},
		{"quit", typed{[]string{"GET a", "quit", "GET b"}, "open", "once"}, []answer{{raw: ":1\r\n"}}},
		{"eof", typed{[]string{"GET a", "GET b"}, "", "once"}, []answer{{raw: ":1\r\n", end: "eof"}}},
		{"bye", typed{[]string{"GET a", "GET b"}, "open", "once"}, []answer{{raw: ":1\r\nTTL expired", end: "reset"}}},
		{"cut", typed{[]string{"GET a", "GET b"}, "cut", "once"}, []answer{{raw: "$4\r\nab", end: "reset"}}},
	} {
		x := x
		hl.Register("C32", hl.Scn{Name: "schedule/" + x.name, Quick: 5, Thorough: -1, Body: func() { talk(x.t, x.as) }})
	}
	// with the real server and other clients
	for _, others := range []int{0, 1} {
		others := others
		hl.Register("C32", hl.Scn{Name: fmt.Sprintf("server/%d", others), Quick: 1, Thorough: 2, Slow: 1, Cfg: mc.Config{BlockCost: 1}, Body: func() {
			mc.Calm(true)
			s := srv.Start(srv.Conf(""))
			if s == nil {
				mc.Fail("the server does not start")
			}
			mc.Quiesce()
			mc.Calm(false)
			ls := []string{"SET a \"x y\"", "GET a", "RPUSH l a \"b c\" d", "LRANGE l 0 -1", "NOSUCH", "quit"}
			want := prompt
			for _, raw := range []string{"+OK\r\n", "$3\r\nx y\r\n", ":3\r\n", "*3\r\n$1\r\na\r\n$3\r\nb c\r\n$1\r\nd\r\n", "-ERR no such command\r\n"} {
				want += shown(raw) + "\n" + prompt
			}
			mc.StdinFeed(strings.Join(ls, "\n") + "\n")
			var ts []*mc.Task
			for i := 0; i < others; i++ {
				ts = append(ts, mc.Spawn(func() {
					if c := srv.Dial(port); c != nil {
						c.Must("SET", "z", "1")
						c.Close()
					}
				}))
			}
			e, t := start()
			t.Join()
			for _, t := range ts {
				t.Join()
			}
			if out := mc.StdoutGet(); out != want || e.how != "return" {
				mc.Fail("the output is %q (%s), not %q", out, e.how, want)
			}
		}})
	}
}
