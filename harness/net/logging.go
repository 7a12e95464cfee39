package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"strings"
	"syscall"
	"time"
	_ "unsafe"

	"github.com/lxdlam/vertex/mc"
	"github.com/lxdlam/vertex/pkg/common"
	"github.com/lxdlam/vertex/pkg/log"
	"github.com/lxdlam/vertex/vharness/hl"
	"github.com/lxdlam/vertex/vharness/srv"
)

// C33: the log.

// zapExit is how the logging library ends the program after a fatal entry.
//
//go:linkname zapExit go.uber.org/zap/internal/exit.real
var zapExit func()

const logFile = "/vertex.log"

// lcall is a call that logs.
type lcall struct {
	level string
	text  string // the message
	do    func() error
	name  string
	kind  string // "error", "panic", "fatal"
}

var levels = []string{"debug", "info", "warn", "error", "panic", "fatal"}

func rank(level string) int {
	for i, l := range levels {
		if l == level {
			return i
		}
	}
	return -1
}

var cause = errors.New("the cause")

// lcalls are all calls, each with several messages.
func lcalls() []lcall {
	var r []lcall
	none := func(f func(string)) func(string) error { return func(m string) error { f(m); return nil } }
	nonef := func(f func(string, ...interface{})) func(string, ...interface{}) error {
		return func(m string, a ...interface{}) error { f(m, a...); return nil }
	}
	for _, x := range []struct {
		level string
		f     func(string) error
		ff    func(string, ...interface{}) error
		kind  string
	}{
		{"debug", none(common.Debug), nonef(common.Debugf), ""},
		{"info", none(common.Info), nonef(common.Infof), ""},
		{"warn", none(common.Warn), nonef(common.Warnf), ""},
		{"error", common.Error, common.Errorf, "error"},
		{"panic", none(common.Panic), nonef(common.Panicf), "panic"},
		{"fatal", none(common.Fatal), nonef(common.Fatalf), "fatal"},
	} {
		x := x
		add := func(name, text string, do func() error) {
			r = append(r, lcall{x.level, text, do, x.level + "/" + name, x.kind})
		}
		add("plain", "a 100% \"plain\" é", func() error { return x.f("a 100% \"plain\" é") })
		add("no-args", "no args", func() error { return x.ff("no args") })
		add("percent", "50% of 7", func() error { return x.ff("50%% of %d", 7) })
		add("one", "one <v>", func() error { return x.ff("one <%s>", "v") })
		add("two", "two <v> 17", func() error { return x.ff("two <%s> %d", "v", 17) })
		add("percent-arg", "of 100%d %s %! %v|%%", func() error { return x.ff("of %s|%%%%", "100%d %s %! %v") })
		add("kinds", "kinds [1 2] nil=<nil> map[a:1] 0x1f the cause", func() error {
			return x.ff("kinds %v nil=%v %+v %#x %s", []int{1, 2}, nil, map[string]int{"a": 1}, 31, cause)
		})
		if x.kind == "error" {
			add("wrap", "wrap {the cause}", func() error { return x.ff("wrap {%w}", cause) })
		}
	}
	return r
}

// entries splits the log into messages by level; what is unusable ends the execution.
func entry(line string, debug bool) (level, text string) {
	if !debug {
		m := map[string]interface{}{}
		if err := json.Unmarshal([]byte(line), &m); err != nil {
			mc.Fail("the log line %.300q is no entry: %v", line, err)
		}
		level, _ = m["level"].(string)
		text, _ = m["msg"].(string)
		return level, text
	}
	f := strings.SplitN(line, "\t", 4)
	if len(f) < 4 {
		mc.Fail("the log line %.300q is no entry", line)
	}
	return strings.ToLower(f[1]), f[3]
}

type lplan struct {
	debug bool
	level string // of the configuration
	old   string // what the file holds at first
	calls []lcall
}

func (p lplan) min() int {
	if p.debug {
		return 0
	}
	switch p.level {
	case "WARN":
		return 2
	case "ERROR":
		return 3
	case "FATAL":
		return 5
	}
	return 1
}

// perform makes a call and judges what it returns.
func perform(c lcall) {
	var err error
	var rec interface{}
	func() {
		defer func() { rec = recover() }()
		err = c.do()
	}()
	if c.kind == "error" {
		if err == nil || err.Error() != c.text {
			mc.Fail("%s returns the error %v, not %q", c.name, err, c.text)
		}
		if strings.HasSuffix(c.name, "wrap") && !errors.Is(err, cause) {
			mc.Fail("%s: the error does not wrap its cause", c.name)
		}
	}
	if c.kind == "panic" {
		if rec == nil || fmt.Sprint(rec) != c.text {
			mc.Fail("%s panics with %v, not %q", c.name, rec, c.text)
		}
	} else if rec != nil {
		mc.Fail("%s panics: %v", c.name, rec)
	}
}

func (p lplan) body() {
	if p.old != "" {
		mc.FSPut(logFile, []byte(p.old))
	}
	exited := false
	zapExit = func() { mc.Exit(1) }
	mc.ExitHook = func(code int) {
		exited = true
		if code == 0 {
			mc.Fail("a fatal entry ends the program with code 0")
		}
	}
	common.InitLog(common.Config{LogPath: logFile, LogLevel: p.level}, p.debug)
	var want []lcall
	for i, c := range p.calls {
		c := c
		before, _ := mc.FSGet(logFile)
		done := false
		mc.Spawn(func() {
			perform(c)
			done = true
		})
		mc.Quiesce()
		after, _ := mc.FSGet(logFile)
		logged := rank(c.level) >= p.min()
		if logged {
			want = append(want, c)
		}
		switch {
		case !logged && len(after) != len(before):
			mc.Fail("%s at level %q writes %.300q", c.name, p.level, after[len(before):])
		case logged && len(after) == len(before):
			mc.Fail("%s at level %q writes nothing", c.name, p.level)
		}
		if c.kind == "fatal" {
			if !exited || done {
				mc.Fail("%s does not end the program", c.name)
			}
			if e := mc.StderrGet(); !strings.HasSuffix(e, c.text+"\n") {
				mc.Fail("%s says %.300q on the standard error", c.name, e)
			}
			if i != len(p.calls)-1 {
				mc.Fail("harness: a fatal entry is not the last one")
			}
		} else if exited || !done {
			mc.Fail("%s does not return", c.name)
		}
	}
	common.ShutdownLog()
	mc.Quiesce()
	text, _ := mc.FSGet(logFile)
	if !strings.HasPrefix(string(text), p.old) {
		mc.Fail("what the file held is gone: %.300q", text)
	}
	text = text[len(p.old):]
	if len(text) > 0 && text[len(text)-1] != '\n' {
		mc.Fail("the log ends in the middle of a line: %.300q", text)
	}
	lines := strings.Split(strings.TrimSuffix(string(text), "\n"), "\n")
	if len(text) == 0 {
		lines = nil
	}
	for i, c := range want {
		if i >= len(lines) {
			mc.Fail("%s is not in the log: %.300q", c.name, text)
		}
		level, msg := entry(lines[i], p.debug)
		if level != c.level || msg != c.text {
			mc.Fail("%s, to be logged as %q at level %s, is %q at level %s", c.name, c.text, c.level, msg, level)
		}
		if c.kind == "fatal" {
			return // followed by the stack
		}
	}
	if len(lines) != len(want) {
		mc.Fail("%d calls give %d lines: %.300q", len(want), len(lines), text)
	}
	if n := mc.NumLive(); n > 0 {
		mc.Fail("something goes on after the log is shut down: %s", mc.Blocked())
	}
}

// many logs from several goroutines, with time passing and with faults of the file.
type mplan struct {
	debug bool
	n     int           // goroutines
	each  int           // entries of each
	wait  time.Duration // between them
	fault int           // the write that fails: 1.. (0: none)
	part  bool          // after half of it
}

func (p mplan) body() {
	var dirty time.Duration = -1
	late := func() {
		if p.wait > 0 && dirty >= 0 && mc.Elapsed()-dirty > 30*time.Second {
			mc.Fail("an entry of %s is not synced at %s", dirty, mc.Elapsed())
		}
	}
	writes := 0
	failed := false
	half := ""
	mc.FSWatch = func(op mc.FSOp) {
		if failed && half == "" && op.Op == "write" {
			half = string(op.Data)
		}
	}
	mc.FSFault = func(op, path string, size int) (int, error) {
		if path != logFile {
			return -1, nil
		}
		switch op {
		case "sync":
			late()
			dirty = -1
		case "write":
			writes++
			if dirty < 0 {
				dirty = mc.Elapsed()
			}
			if writes == p.fault {
				failed = true
				if p.part {
					return size / 2, syscall.ENOSPC
				}
				return 0, syscall.ENOSPC
			}
		}
		return -1, nil
	}
	common.InitLog(common.Config{LogPath: logFile, LogLevel: "INFO"}, p.debug)
	var ts []*mc.Task
	for g := 0; g < p.n; g++ {
		g := g
		ts = append(ts, mc.Spawn(func() {
			for i := 0; i < p.each; i++ {
				switch (g + i) % 3 {
				case 0:
					common.Infof("entry %d of %d", i, g)
				case 1:
					common.Warn(fmt.Sprintf("entry %d of %d", i, g))
				case 2:
					_ = common.Errorf("entry %d of %d", i, g)
				}
				if p.wait > 0 {
					mc.Sleep(p.wait)
				}
			}
		}))
	}
	for _, t := range ts {
		t.Join()
	}
	if p.wait > 0 {
		mc.RunFor(31 * time.Second)
		late()
	}
	_ = common.Error("the last one")
	common.ShutdownLog()
	if dirty >= 0 {
		mc.Fail("what is in the log is not synced at the shutdown")
	}
	mc.Quiesce()
	if n := mc.NumLive(); n > 0 {
		mc.Fail("something goes on after the log is shut down: %s", mc.Blocked())
	}
	text, _ := mc.FSGet(logFile)
	lines := strings.Split(strings.TrimSuffix(string(text), "\n"), "\n")
	next := make([]int, p.n)
	last := false
	for i, l := range lines {
		if i == 0 && failed && p.part {
			// it begins with what was written of the failed one
			l = l[len(half):]
		}
		_, msg := entry(l, p.debug)
		if msg == "the last one" {
			last = true
			if i != len(lines)-1 {
				mc.Fail("the entry %q is not the last one", msg)
			}
			continue
		}
		a, g := 0, 0
		if n, err := fmt.Sscanf(msg, "entry %d of %d", &a, &g); n != 2 || err != nil || g >= p.n {
			mc.Fail("there is an entry %.200q", msg)
		}
		if a != next[g] && !(failed && a == next[g]+1) {
			mc.Fail("the entry %q comes when %d entries of %d are there", msg, next[g], g)
		}
		next[g] = a + 1
	}
	if !failed {
		for g, n := range next {
			if n != p.each {
				mc.Fail("%d of %d entries of %d are there", n, p.each, g)
			}
		}
		if !last {
			mc.Fail("the last entry is not there")
		}
	}
}

var recID = 0

// record is an entry of a database file.
func record(name string, args ...string) string {
	recID++
	v := &log.VertexLog{Id: fmt.Sprint("id", recID), Name: name, Time: int64(recID)}
	for _, a := range args {
		v.Arguments = append(v.Arguments, []byte(hl.Bulk(a).Encode()))
	}
	b, err := log.PackLog(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// wplan is a server with a log; every line is well-formed.
type wplan struct {
	cmds    [][]string
	file    string // content of the database file at first
	faults  bool   // writes to it fail
	replica bool
	master  string
	stop    string
}

func (p wplan) body() {
	zapExit = func() { mc.Exit(1) }
	mc.ExitHook = func(int) {}
	mc.Calm(true)
	if p.file != "" {
		mc.FSPut(srv.File, []byte(p.file))
	}
	if p.faults {
		mc.FSFault = func(op, path string, size int) (int, error) {
			if path == srv.File && op == "write" {
				return size / 2, syscall.ENOSPC
			}
			return -1, nil
		}
	}
	common.InitLog(common.Config{LogPath: logFile}, true)
	cfg := srv.Conf(srv.File)
	if p.replica {
		cfg.EnableReplica, cfg.ReplicaPort = true, srv.ReplicaPort
	}
	if p.master == "live" {
		mcfg := common.Config{Port: 7001, EnableReplica: true, ReplicaPort: 7002, DatabaseFile: "/m.log"}
		mc.FSPut("/m.log", []byte(p.file))
		mc.NewProc(func() {
			if m := srv.New(mcfg); m != nil {
				m.S.Serve()
			}
		}, nil)
		mc.Quiesce()
		cfg.MasterAddress = "127.0.0.1:7002"
	} else {
		cfg.MasterAddress = p.master
	}
	started := false
	t := mc.Spawn(func() {
		s := srv.Start(cfg)
		if s == nil {
			return
		}
		started = true
		s.T.Join()
	})
	mc.Quiesce()
	mc.Calm(false)
	if started {
		c := srv.Dial(srv.Port)
		if c == nil {
			mc.Fail("nobody listens")
		}
		for _, cmd := range p.cmds {
			if cmd[0] == "\x00raw" {
				_ = c.Send(cmd[1])
				mc.Quiesce()
				continue
			}
			if _, err := c.Cmd(cmd...); err != nil {
				break
			}
		}
		c.Close()
		mc.Quiesce()
		mc.Calm(true)
		mc.RunFor(time.Second)
		if p.stop == "term" {
			mc.Signal(os.Interrupt)
			t.Join()
		}
	}
	text, _ := mc.FSGet(logFile)
	for _, l := range strings.Split(strings.TrimSuffix(string(text), "\n"), "\n") {
		if i := strings.Index(l, "%!"); i >= 0 {
			mc.Fail("the log holds the line %.300q", l)
		}
	}
	if started {
		if len(text) == 0 {
			mc.Fail("a server with a log writes nothing into it")
		}
		addr := ""
		for _, l := range strings.Split(string(text), "\n") {
			if i := strings.Index(l, " is join"); i >= 0 {
				addr = l[strings.LastIndex(l[:i], " ")+1 : i]
			}
		}
		if strings.ContainsAny(addr, "[]") && !strings.Contains(addr, ":") {
			mc.Fail("a client is logged as %q", addr)
		}
	}
}

func init() {
	calls := lcalls()
	hl.Register("C33", hl.Scn{Name: "calls", Seq: func(c *hl.Seq) {
		for _, debug := range []bool{false, true} {
			for _, level := range []string{"INFO", "WARN", "ERROR", "FATAL", "DEBUG", ""} {
				for _, old := range []string{"", "older line\n", strings.Repeat("an older line\n", 6000)} {
					var rec func(cs []lcall, n int)
					rec = func(cs []lcall, n int) {
						if c.Late() {
							return
						}
						p := lplan{debug, level, old, append([]lcall{}, cs...)}
						c.Try(func() string {
							var names []string
							for _, x := range cs {
								names = append(names, x.name)
							}
							return fmt.Sprintf("debug=%v level=%q old=%q: %v", debug, level, old, names)
						}, func() string {
							return hl.Under(func() string { p.body(); return "" })
						})
						c.Step(1)
						c.States++
						if n == 0 || len(cs) > 0 && cs[len(cs)-1].kind == "fatal" {
							return
						}
						for _, x := range calls {
							rec(append(cs, x), n-1)
						}
					}
					rec(nil, hl.Pick(2, 3))
				}
			}
		}
	}})
	// many calls, equal and different, at once and over time, long messages
	for _, level := range []string{"INFO", "WARN", "ERROR", ""} {
		level := level
		hl.Register("C33", hl.Scn{Name: "many/" + level, Seq: func(c *hl.Seq) {
			debug := level == ""
			big := map[string]string{}
			for _, n := range []int{1, 255, 256, 1023, 1024, 4095, 4096, 4097, 65535, 65536, 70000, 1 << 20} {
				big[fmt.Sprintf("size/%d", n)] = strings.Repeat("\"m\\é", n/5) + strings.Repeat("x", n-n/5*5)
			}
			try := func(name string, debug bool, level string, cs []lcall, gap time.Duration) {
				p := lplan{debug: debug, level: level}
				c.Try(func() string {
					return fmt.Sprintf("debug=%v level=%q: %d calls %s, %v apart", debug, level, len(cs), name, gap)
				}, func() string {
					return hl.Under(func() string {
						zapExit = func() { mc.Exit(1) }
						common.InitLog(common.Config{LogPath: logFile, LogLevel: level}, debug)
						var want []lcall
						for _, x := range cs {
							perform(x)
							if rank(x.level) >= p.min() {
								want = append(want, x)
							}
							if gap > 0 {
								mc.RunFor(gap)
							}
						}
						text, _ := mc.FSGet(logFile)
						lines := strings.SplitAfter(string(text), "\n")
						if n := len(lines) - 1; n != len(want) || lines[n] != "" {
							return fmt.Sprintf("%d calls give %d lines", len(want), n)
						}
						for i, x := range want {
							if l, m := entry(strings.TrimSuffix(lines[i], "\n"), debug); l != x.level || m != x.text {
								return fmt.Sprintf("call %d, %s, is logged as %.100q at level %s", i, x.name, m, l)
							}
						}
						return ""
					})
				})
				c.Step(len(cs))
				c.States++
			}
			var some []lcall
			for _, x := range calls {
				if x.kind != "fatal" {
					some = append(some, x)
				}
			}
			for _, n := range []int{101, hl.Pick(300, 1000), hl.Pick(1000, 5000)} {
				for _, gap := range []time.Duration{0, 7 * time.Second} {
					if c.Late() {
						return
					}
					for i, x := range some {
						if i%5 != n%3 {
							continue
						}
						var cs, turn []lcall
						for k := 0; k < n; k++ {
							cs = append(cs, x)
							turn = append(turn, some[(i+k*7)%len(some)])
						}
						try("of "+x.name, debug, level, cs, gap)
						try("in turn from "+x.name, debug, level, turn, gap)
					}
				}
			}
			for name, text := range big {
				text := text
				var cs []lcall
				for k := 0; k < 3; k++ {
					for _, x := range []struct {
						level, kind string
						f           func(string)
						ff          func(string, ...interface{})
					}{{"debug", "", common.Debug, common.Debugf}, {"info", "", common.Info, common.Infof}, {"warn", "", common.Warn, common.Warnf}, {"panic", "panic", common.Panic, common.Panicf}} {
						x := x
						cs = append(cs, lcall{x.level, text, func() error { x.f(text); return nil }, name, x.kind},
							lcall{x.level, text, func() error { x.ff("%s", text); return nil }, name, x.kind})
					}
					cs = append(cs, lcall{"error", text, func() error { return common.Error(text) }, name, "error"},
						lcall{"error", text, func() error { return common.Errorf("%s", text) }, name, "error"})
				}
				try("of "+name, debug, level, cs, 0)
			}
		}})
	}
	// without a log nothing is written and nothing breaks
	hl.Register("C33", hl.Scn{Name: "no-log", Seq: func(c *hl.Seq) {
		for _, x := range calls {
			x := x
			if x.kind == "fatal" {
				continue
			}
			c.Try(func() string { return "without InitLog: " + x.name }, func() string {
				return hl.Under(func() string {
					perform(x)
					if l := mc.FSList(); len(l) > 0 || len(mc.FSOps()) > 0 {
						return fmt.Sprintf("files are written: %v", l)
					}
					return ""
				})
			})
			c.Step(1)
			c.States++
		}
	}})
	for _, debug := range []bool{false, true} {
		for _, x := range []struct {
			name string
			p    mplan
			q, t int
		}{
			{"two", mplan{n: 2, each: 2}, 4, -1},
			{"three", mplan{n: 3, each: 1}, 3, 5},
			{"slow", mplan{n: 2, each: 2, wait: 20 * time.Second}, 3, 5},
			{"slower", mplan{n: 1, each: 3, wait: 40 * time.Second}, 3, 5},
			{"often", mplan{n: 1, each: 40, wait: 19 * time.Second}, 1, 2},
			{"fault", mplan{n: 2, each: 2, fault: 2}, 3, 5},
			{"torn", mplan{n: 2, each: 2, fault: 1, part: true}, 3, 5},
		} {
			x := x
			x.p.debug = debug
			hl.Register("C33", hl.Scn{Name: fmt.Sprintf("schedule/%s/%v", x.name, debug), Body: func() { x.p.body() }, Quick: x.q, Thorough: x.t, Race: 2})
		}
	}
	set := hl.Cmd("SET", "a", "1").Encode()
	good := record("SET", "a", "1") + record("LPUSH", "l", "x")
	for name, p := range map[string]wplan{
		"commands":    {cmds: [][]string{{"SET", "a", "1"}, {"GET", "a"}, {"NOSUCH"}, {"LPUSH", "a", "x"}, {"LLEN", "a"}, {"HSET", "h", "f"}}, stop: "term"},
		"bad-request": {cmds: [][]string{srv.Raw("*1\r\n:1\r\n"), srv.Raw(set), srv.Raw("$x\r\n")}, stop: "term"},
		"cut-request": {cmds: [][]string{srv.Raw(set + set[:9])}},
		"no-disk":     {cmds: [][]string{{"SET", "a", "1"}, {"SET", "a", "2"}}, faults: true, stop: "term"},
		"restart":     {file: good, cmds: [][]string{{"GET", "a"}}, stop: "term"},
		"cut-file":    {file: good[:len(good)-3], cmds: [][]string{{"GET", "a"}}},
		"bad-file":    {file: good[:20] + "\xff\xff\xff\xff" + good[24:], cmds: [][]string{{"GET", "a"}}},
		"odd-file":    {file: record("NOSUCH", "a") + record("LPUSH", "l") + record("SET", "a", "1") + record("LPUSH", "a", "1") + good, cmds: [][]string{{"GET", "a"}}},
		"replica":     {file: good, replica: true, cmds: [][]string{{"GET", "a"}}, stop: "term"},
		"no-master":   {master: "127.0.0.1:7002", cmds: [][]string{{"GET", "a"}}, stop: "term"},
		"bad-master":  {master: "x", cmds: [][]string{{"GET", "a"}}, stop: "term"},
		"slave":       {master: "live", file: good, cmds: [][]string{{"GET", "a"}}, stop: "term"},
	} {
		p := p
		hl.Register("C33", hl.Scn{Name: "server/" + name, Body: func() { p.body() }, Quick: 1, Thorough: 2, Slow: 1, Cfg: mc.Config{BlockCost: 1}})
	}
}
