// Package srv drives a running server from a harness, over the in-memory network.
package srv

import (
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"

	"github.com/lxdlam/vertex/mc"
	"github.com/lxdlam/vertex/pkg/common"
	"github.com/lxdlam/vertex/pkg/network"
	"github.com/lxdlam/vertex/vharness/hl"
	"github.com/lxdlam/vertex/vharness/model"
)

// Port and ReplicaPort are where servers listen unless said otherwise.
const (
	Port        = 6789
	ReplicaPort = 6800
	File        = "/db.log"
)

// Srv is a started server.
type Srv struct {
	S    network.Server
	T    *mc.Task // Serve
	Port int
}

// Conf is the usual configuration.
func Conf(file string) common.Config { return common.Config{Port: Port, DatabaseFile: file} }

// New prepares a server; nil if it refuses to.
func New(c common.Config) *Srv {
	s := network.NewServer()
	if s == nil || !s.Init(c) {
		return nil
	}
	return &Srv{S: s, Port: c.Port}
}

// Serve lets the server serve; end runs when serving has returned.
func (x *Srv) Serve(end func()) {
	x.T = mc.Spawn(func() {
		x.S.Serve()
		if end != nil {
			end()
		}
	})
}

// Start starts a server; nil if it refuses to.
func Start(c common.Config) *Srv {
	x := New(c)
	if x != nil {
		x.Serve(nil)
	}
	return x
}

// Stop stops the server and waits until serving has returned.
func (x *Srv) Stop() {
	x.S.Stop()
	x.T.Join()
}

// Client is a client of the server.
type Client struct {
	C   *mc.Conn
	buf []byte
	eof bool
}

// Dial connects to the server; nil if it is refused.
func Dial(port int) *Client {
	c, err := mc.HDial(port)
	if err != nil {
		return nil
	}
	return &Client{C: c}
}

// Send writes raw bytes.
func (c *Client) Send(raw string) error {
	_, err := c.C.Write([]byte(raw))
	return err
}

// ErrClosed means the server closed the connection.
var ErrClosed = errors.New("the connection is closed")

// bye is sent when a connection is closed; a reply that was on its way may follow it
const bye = "TTL expired"

// Recv reads one reply. At the end of the connection it returns ErrClosed; the farewell
// text that the server sends on closing is not a reply.
func (c *Client) Recv() (hl.Val, error) {
	for {
		if len(c.buf) > 0 {
			v, n, err := hl.Decode(string(c.buf))
			if err == nil {
				c.buf = c.buf[n:]
				return v, nil
			}
			if err != hl.ErrShort && !strings.HasPrefix(bye, string(c.buf)) && !strings.HasPrefix(string(c.buf), bye) {
				return v, fmt.Errorf("the bytes %.200q are not a reply: %v", c.buf, err)
			}
		}
		if c.eof {
			if len(c.buf) == 0 || strings.HasPrefix(string(c.buf), bye) {
				return hl.Val{}, ErrClosed
			}
			return hl.Val{}, fmt.Errorf("the connection ends with %.200q", c.buf)
		}
		b := make([]byte, 1<<16)
		n, err := c.C.Read(b)
		c.buf = append(c.buf, b[:n]...)
		if err != nil {
			if err != io.EOF {
				// reset
			}
			c.eof = true
		}
	}
}

// Cmd sends a command and reads its reply.
func (c *Client) Cmd(args ...string) (hl.Val, error) {
	if err := c.Send(hl.Cmd(args...).Encode()); err != nil {
		return hl.Val{}, ErrClosed
	}
	return c.Recv()
}

// Must is Cmd for set-up: it fails the execution when there is no reply.
func (c *Client) Must(args ...string) hl.Val {
	v, err := c.Cmd(args...)
	if err != nil {
		mc.Fail("%q got no reply: %v", args, err)
	}
	return v
}

// Raw is a request given as bytes, for lists of commands.
func Raw(s string) []string { return []string{"\x00raw", s} }

// Bytes encodes a request.
func Bytes(cmd []string) string {
	if len(cmd) == 2 && cmd[0] == "\x00raw" {
		return cmd[1]
	}
	return hl.Cmd(cmd...).Encode()
}

// All sends commands in one piece and reads the replies.
func (c *Client) All(cmds [][]string) ([]hl.Val, error) {
	var b strings.Builder
	for _, x := range cmds {
		b.WriteString(Bytes(x))
	}
	if err := c.Send(b.String()); err != nil {
		return nil, ErrClosed
	}
	var l []hl.Val
	for _, x := range cmds {
		v, err := c.Recv()
		if err != nil {
			return l, fmt.Errorf("%.200q: %v", x, err)
		}
		l = append(l, v)
	}
	return l, nil
}

// Close closes the client's end.
func (c *Client) Close() { _ = c.C.Close() }

// Norm writes a reply so that replies that mean the same are equal: unordered ones are
// sorted, absent and empty arrays are alike.
func Norm(cmd []string, v hl.Val) string {
	if v.Kind == '*' {
		var l []string
		switch strings.ToUpper(cmd[0]) {
		case "SMEMBERS", "HKEYS", "HVALS", "SUNION", "SINTER", "SDIFF":
			for _, x := range v.A {
				l = append(l, x.String())
			}
			sort.Strings(l)
		case "HGETALL":
			for i := 0; i+1 < len(v.A); i += 2 {
				l = append(l, v.A[i].String()+"="+v.A[i+1].String())
			}
			sort.Strings(l)
			if len(v.A)%2 != 0 {
				l = append(l, "odd")
			}
		default:
			for _, x := range v.A {
				l = append(l, x.String())
			}
		}
		return fmt.Sprint(l)
	}
	if v.Kind == '-' {
		return "error"
	}
	return v.String()
}

// Dump reads everything about the keys through the server.
func (c *Client) Dump(keys, elems []string) (string, error) {
	return c.Reads(model.Reads(keys, elems))
}

// Reads executes read commands and returns their replies as text.
func (c *Client) Reads(cmds [][]string) (string, error) {
	l, err := c.All(cmds)
	if err != nil {
		return "", err
	}
	var b strings.Builder
	for i, v := range l {
		fmt.Fprintf(&b, "%q: %s\n", cmds[i], Norm(cmds[i], v))
	}
	return b.String(), nil
}

// Diff is the first line in which two dumps differ.
func Diff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(x) || i < len(y); i++ {
		var p, q string
		if i < len(x) {
			p = x[i]
		}
		if i < len(y) {
			q = y[i]
		}
		if p != q {
			return fmt.Sprintf("%.300s  <>  %.300s", p, q)
		}
	}
	return ""
}

// Draws makes random draws and the order in which a map is iterated over differ from one
// time to the next; n moves the start. It returns what undoes it.
func Draws(n int) func() {
	k, o := int64(n), int64(n)
	mc.RandMenu = func(m int64) int64 { k = (k*5 + 3) % (1 << 40); return (k >> 2) % m }
	mc.MapMenu = func() int { o = (o*5 + 3) % (1 << 40); return int((o >> 2) % 9) }
	return func() { mc.RandMenu, mc.MapMenu = nil, nil }
}
