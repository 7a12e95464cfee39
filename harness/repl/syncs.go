package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"net"
	"os"
	"strings"

	"github.com/lxdlam/vertex/mc"
	"github.com/lxdlam/vertex/pkg/log"
	"github.com/lxdlam/vertex/pkg/replication"
	"github.com/lxdlam/vertex/vharness/hl"
	"github.com/lxdlam/vertex/vharness/srv"
)

// C14: syncs under every schedule of writers, other syncs and the stop.

// plan is a scenario of a master over its file.
type plan struct {
	writers  [][]string // arguments that each writer logs, in order
	replicas []string   // what each replica does: "read", "leave" (closes at once), "deaf" (does not read until the end), "half" (reads a bit and leaves)
	stop     string     // "end", "now" (while everything runs), "twice"
	nofile   bool
	flushing bool // the file is flushed by somebody else too
	fault    *fault
}

// fault makes one operation on a file fail.
type fault struct {
	op string
	n  int // the n-th such operation after the master runs
	k  int // bytes written first
}

var errFault = errors.New("input/output error")

func record(arg string) []byte {
	b, err := log.PackLog(&log.VertexLog{Name: "SET", Index: 1, Arguments: [][]byte{[]byte(arg)}})
	if err != nil {
		mc.Fail("PackLog: %v", err)
	}
	return b
}

type got struct {
	what    string
	refused bool
	acked   []string // logged before it connected
	data    []byte
	err     error
}

// stream decodes what a replica received: the arguments of the records; complete says
// whether it is a whole transfer.
func stream(b []byte) (args []string, complete bool, bad string) {
	if len(b) < 4 {
		return nil, false, ""
	}
	n := int(binary.LittleEndian.Uint32(b))
	if len(b)-4 < n {
		return nil, false, ""
	}
	if len(b)-4 > n {
		return nil, true, fmt.Sprintf("%d bytes after the announced %d", len(b)-4-n, n)
	}
	logs, err := log.ParseLog(bytes.NewReader(b[4:]))
	if err != nil {
		return nil, true, fmt.Sprintf("a complete transfer of %d bytes does not parse: %v", n, err)
	}
	for _, l := range logs {
		if len(l.GetArguments()) == 0 {
			return nil, true, "a record without arguments"
		}
		args = append(args, string(l.GetArguments()[len(l.GetArguments())-1]))
	}
	return args, true, ""
}

const dbFile = "/db.log"

func (p plan) body() {
	addr := &net.TCPAddr{Port: srv.ReplicaPort}
	m := replication.NewMaster(addr)
	if m == nil {
		mc.Fail("no master")
	}
	var pf *log.PersistentFile
	if !p.nofile {
		f, err := mc.OpenFile(dbFile, os.O_RDWR|os.O_APPEND|os.O_CREATE, 0755)
		if err != nil {
			mc.Fail("open: %v", err)
		}
		pf = log.NewPersistentFile(f)
		m.SetFile(pf, dbFile)
	}
	m.Start()
	if p.fault != nil {
		n := 0
		mc.FSFault = func(op, path string, size int) (int, error) {
			if op != p.fault.op {
				return -1, nil
			}
			if n++; n-1 != p.fault.n {
				return -1, nil
			}
			return p.fault.k, errFault
		}
		defer func() { mc.FSFault = nil }()
	}
	var acked []string
	var ts []*mc.Task
	for _, w := range p.writers {
		w := w
		ts = append(ts, mc.Spawn(func() {
			for _, a := range w {
				if _, err := pf.Write(record(a)); err == nil {
					acked = append(acked, a)
				}
			}
		}))
	}
	if p.flushing {
		ts = append(ts, mc.Spawn(func() { _ = pf.Flush() }))
	}
	gots := make([]*got, len(p.replicas))
	for i, r := range p.replicas {
		g := &got{what: r}
		gots[i] = g
		ts = append(ts, mc.Spawn(func() {
			g.acked = append([]string(nil), acked...)
			c, err := mc.HDial(srv.ReplicaPort)
			if err != nil {
				g.refused = true
				return
			}
			switch g.what {
			case "leave":
				_ = c.Close()
				return
			case "reset":
				c.Reset()
				return
			case "deaf":
				c.Peer().LimitOut(2)
				mc.RunFor(1)
				_ = c.Close()
				return
			case "stall":
				// never reads: only the stop ends this
				c.Peer().LimitOut(2)
				return
			}
			b := make([]byte, 1<<14)
			for {
				n, err := c.Read(b)
				g.data = append(g.data, b[:n]...)
				if err != nil {
					g.err = err
					break
				}
				if g.what == "half" && len(g.data) > 0 {
					break
				}
			}
			_ = c.Close()
		}))
	}
	stopped := false
	if p.stop != "end" {
		ts = append(ts, mc.Spawn(func() { m.Stop() }))
		if p.stop == "twice" {
			ts = append(ts, mc.Spawn(func() { m.Stop() }))
		}
		stopped = true
	}
	for _, t := range ts {
		t.Join()
	}
	if !stopped {
		// every sync is over before the stop
		mc.Quiesce()
		for _, g := range p.replicas {
			if g == "stall" {
				stopped = true
			}
		}
		if !stopped {
			p.released("after the syncs")
		}
	}
	m.Stop()
	mc.Quiesce()
	if mc.Listening(srv.ReplicaPort) {
		mc.Fail("the master still listens after its stop")
	}
	if n := mc.NumLive(); n != 0 {
		mc.Fail("after the stop these still run: %s", mc.Blocked())
	}
	p.released("after the stop")
	if c, err := mc.HDial(srv.ReplicaPort); err == nil {
		_ = c
		mc.Fail("the stopped master accepts a replica")
	}
	if p.nofile {
		for _, g := range gots {
			if len(g.data) > 0 {
				mc.Fail("a master without a file sent %d bytes", len(g.data))
			}
		}
		return
	}
	if err := pf.Flush(); err != nil && p.fault == nil {
		mc.Fail("flush: %v", err)
	}
	final, _ := mc.FSGet(dbFile)
	logs, err := log.ParseLog(bytes.NewReader(final))
	if err != nil && p.fault == nil {
		mc.Fail("the file does not parse: %v", err)
	}
	var order []string
	for _, l := range logs {
		order = append(order, string(l.GetArguments()[0]))
	}
	for _, g := range gots {
		args, complete, bad := stream(g.data)
		if bad != "" {
			mc.Fail("%s", bad)
		}
		if !complete {
			if g.what == "read" && !g.refused && p.stop == "end" && p.fault == nil {
				mc.Fail("a replica got only %d bytes (%v)", len(g.data), g.err)
			}
			continue
		}
		if len(args) > len(order) || fmt.Sprint(args) != fmt.Sprint(order[:len(args)]) {
			mc.Fail("a replica got %d records that are no prefix of the log", len(args))
		}
		for _, a := range g.acked {
			found := false
			for _, x := range args {
				found = found || x == a
			}
			if !found {
				mc.Fail("a replica got %d records without %.20q, which was logged before it connected", len(args), a)
			}
		}
	}
}

// released checks that syncs left nothing open.
func (p plan) released(when string) {
	for _, c := range mc.ServerConns() {
		if !c.IsClosed() {
			mc.Fail("%s a connection is still open", when)
		}
	}
	for _, f := range mc.FSOpen() {
		if f != dbFile {
			mc.Fail("%s the file %s is still open", when, f)
		}
	}
	n := 0
	for _, f := range mc.FSOpen() {
		if f == dbFile {
			n++
		}
	}
	if n > 1 {
		mc.Fail("%s the database file is still open for a sync", when)
	}
	if p.fault != nil && p.fault.op == "remove" {
		return
	}
	for _, f := range mc.FSList() {
		if strings.HasPrefix(f, "/tmp/") {
			mc.Fail("%s the temporary file %s is still there", when, f)
		}
	}
}

func init() {
	L := strings.Repeat("L", 4090)
	for _, x := range []struct {
		name string
		p    plan
		q, t int
		bc   int
	}{
		{"one", plan{writers: [][]string{{"a", "b"}}, replicas: []string{"read"}, stop: "end"}, 4, 6, 1},
		{"large", plan{writers: [][]string{{"a", L, "b"}}, replicas: []string{"read"}, stop: "end"}, 4, 6, 1},
		{"writers", plan{writers: [][]string{{"a", L}, {"b"}}, replicas: []string{"read"}, stop: "end", flushing: true}, 3, 5, 1},
		{"two", plan{writers: [][]string{{"a", "b"}}, replicas: []string{"read", "read"}, stop: "end"}, 3, 5, 1},
		{"three", plan{writers: [][]string{{"a"}}, replicas: []string{"read", "read", "read"}, stop: "end"}, 3, 4, 1},
		{"stop", plan{writers: [][]string{{"a"}}, replicas: []string{"read"}, stop: "now"}, 4, 6, 1},
		{"stop-two", plan{writers: [][]string{{"a"}}, replicas: []string{"read", "read"}, stop: "now"}, 3, 5, 1},
		{"stop-twice", plan{replicas: []string{"read"}, stop: "twice"}, 4, 6, 1},
		{"stop-stall", plan{writers: [][]string{{"a"}}, replicas: []string{"stall"}, stop: "now"}, 4, 6, 1},
		{"stall", plan{writers: [][]string{{L}}, replicas: []string{"stall", "read"}, stop: "end"}, 3, 5, 1},
		{"leave", plan{writers: [][]string{{L, L + "2"}}, replicas: []string{"leave", "read"}, stop: "end"}, 3, 5, 1},
		{"reset", plan{writers: [][]string{{"a"}}, replicas: []string{"reset", "read"}, stop: "end"}, 3, 5, 1},
		{"half", plan{writers: [][]string{{L, L + "2"}}, replicas: []string{"half", "read"}, stop: "end"}, 3, 5, 1},
		{"deaf", plan{writers: [][]string{{L}}, replicas: []string{"deaf", "read"}, stop: "end"}, 3, 5, 1},
		{"nofile", plan{nofile: true, replicas: []string{"read", "read"}, stop: "now"}, 3, 4, 1},
		{"nobody", plan{nofile: true, stop: "twice"}, 4, -1, 0},
	} {
		p := x.p
		hl.Register("C14", hl.Scn{Name: "sync/" + x.name, Body: func() { p.body() }, Quick: x.q, Thorough: x.t, Race: 2, Cfg: mc.Config{BlockCost: x.bc}})
	}
	// a file operation of a sync fails
	for _, op := range []string{"open", "read", "write", "seek", "stat", "close", "remove"} {
		for n := 0; n < 3; n++ {
			for _, k := range []int{0, 3} {
				if k > 0 && op != "write" {
					continue
				}
				p := plan{writers: [][]string{{"a", "b"}}, replicas: []string{"read", "read"}, stop: "end", fault: &fault{op, n, k}}
				if op == "write" || op == "stat" {
					q := plan{writers: [][]string{{"a", L[:1400], "b"}}, replicas: []string{"read"}, stop: "end", fault: &fault{op, n, k * 41}}
					hl.Register("C14", hl.Scn{Name: fmt.Sprintf("sync/fault-large/%s/%d/%d", op, n, k), Body: func() { q.body() }, Quick: 2, Thorough: 4, Cfg: mc.Config{BlockCost: 1}})
				}
				hl.Register("C14", hl.Scn{Name: fmt.Sprintf("sync/fault/%s/%d/%d", op, n, k), Body: func() { p.body() }, Quick: 2, Thorough: 4, Cfg: mc.Config{BlockCost: 1}})
			}
		}
	}
}
