package mc

import (
	"errors"
	"io"
	"net"
	"os"
	"sort"
	"strconv"
	"time"
)

// An in-memory network: listeners and byte-stream connections. Every operation is one
// step. Writes are taken whole; reads return what is there.

type netState struct {
	o         hobj
	listeners map[int]*TCPListener
	port      int
	conns     []*Conn
	nextAddr  int
}

var nets *netState

func newNet() *netState { return &netState{listeners: map[int]*TCPListener{}, port: 40000} }

// ListenFault, if set, makes a listen on the port fail.
var ListenFault func(port int) error

// NetFault, if set, is asked before each read, write and close of the server side of a
// connection; for writes n is how many bytes get through first.
var NetFault func(op string, c *Conn, size int) (n int, err error)

// DialFault, if set, is asked before each read and write of a connection that was dialled.
var DialFault func(op string, c *Conn, size int) error

// ReadChunk, if set, limits how many bytes a read returns.
var ReadChunk func(c *Conn, avail int) int

// TCPListener is net.TCPListener.
type TCPListener struct {
	o      hobj
	ra     byte
	port   int
	proc   *Proc
	ip     net.IP
	q      []*Conn
	closed bool
	errs   []error
	dl     int64 // deadline, 0: none
}

type accCond struct{ l *TCPListener }

func (c accCond) ready(g *G) bool {
	return c.l.closed || len(c.l.q) > 0 || len(c.l.errs) > 0 || (c.l.dl != 0 && s.clock >= c.l.dl)
}

func opErr(op string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Err: err}
}

func ListenTCP(network string, a *net.TCPAddr) (*TCPListener, error) {
	port := 0
	var ip net.IP
	if a != nil {
		port = a.Port
		ip = a.IP
	}
	if s != nil {
		if s.abort {
			return nil, errAborted
		}
		s.point("listen", nil)
		s.cur.write(&nets.o, 0x701)
	}
	if port == 0 {
		nets.port++
		port = nets.port
	}
	if port < 0 || port > 65535 {
		return nil, opErr("listen", errors.New("invalid port"))
	}
	if ListenFault != nil {
		if err := ListenFault(port); err != nil {
			return nil, opErr("listen", err)
		}
	}
	if l := nets.listeners[port]; l != nil && !l.closed {
		return nil, opErr("listen", errors.New("bind: address already in use"))
	}
	l := &TCPListener{port: port, ip: ip, proc: curProc()}
	nets.listeners[port] = l
	return l, nil
}

// Listen is net.Listen.
func Listen(network, addr string) (net.Listener, error) {
	_, p, err := net.SplitHostPort(addr)
	if err != nil {
		return nil, err
	}
	n, err := strconv.Atoi(p)
	if err != nil {
		return nil, err
	}
	return ListenTCP(network, &net.TCPAddr{Port: n})
}

func (l *TCPListener) Accept() (net.Conn, error) {
	if l == nil {
		return nil, opErr("accept", os.ErrInvalid)
	}
	if s == nil {
		panic("mc: Accept outside a controlled execution")
	}
	if s.abort {
		goexit()
	}
	s.point("accept", accCond{l})
	s.cur.write(&l.o, 0x711)
	if l.closed {
		return nil, opErr("accept", net.ErrClosed)
	}
	if len(l.errs) > 0 {
		err := l.errs[0]
		l.errs = l.errs[1:]
		return nil, opErr("accept", err)
	}
	if l.dl != 0 && s.clock >= l.dl {
		return nil, opErr("accept", os.ErrDeadlineExceeded)
	}
	c := l.q[0]
	l.q = l.q[1:]
	c.proc = curProc()
	raceAcquire(up(&c.in.ra))
	return c, nil
}

func (l *TCPListener) AcceptTCP() (*Conn, error) {
	c, err := l.Accept()
	if err != nil {
		return nil, err
	}
	return c.(*Conn), nil
}

func (l *TCPListener) Close() error {
	if l == nil {
		return opErr("close", os.ErrInvalid)
	}
	if s != nil {
		if s.abort {
			return nil
		}
		s.point("lclose", nil)
		s.cur.write(&l.o, 0x712)
	}
	if l.closed {
		return opErr("close", net.ErrClosed)
	}
	l.close()
	return nil
}

func (l *TCPListener) close() {
	l.closed = true
	for _, c := range l.q {
		// nobody accepts them any more: the kernel resets them
		c.in.closeW()
		c.out.closeW()
		c.in.readerGone = true
		c.out.readerGone = true
		c.closed = true
	}
	l.q = nil
}

func (l *TCPListener) Addr() net.Addr { return &net.TCPAddr{IP: l.ip, Port: l.port} }

func (l *TCPListener) SetDeadline(t time.Time) error {
	if l.closed {
		return opErr("set", net.ErrClosed)
	}
	l.dl = deadline(t, &l.o)
	return nil
}

// pipe is one direction of a connection.
type pipe struct {
	o          hobj
	ra         byte
	buf        []byte
	wclosed    bool // no more bytes will come
	readerGone bool // bytes written go nowhere
	reset      bool
	total      int
	capLimit   int // 0: unlimited
	exact      bool
	writer     *G // in the middle of a write that did not fit
}

func (p *pipe) closeW() { p.wclosed = true }

// Conn is one end of a connection; it implements net.Conn.
type Conn struct {
	in, out *pipe
	local   net.Addr
	remote  net.Addr
	closed  bool
	peer    *Conn
	rd, wd  int64 // deadlines, 0: none
	server  bool
	id      int
	closes  int
	proc    *Proc
	writes  [][]byte // server side: every write, for the harness
	o       hobj
}

type rdCond struct{ c *Conn }

func (r rdCond) ready(g *G) bool {
	c := r.c
	return c.closed || len(c.in.buf) > 0 || c.in.wclosed || c.in.reset || (c.rd != 0 && s.clock >= c.rd)
}

type wrCond struct{ c *Conn }

func (r wrCond) ready(g *G) bool {
	c := r.c
	if c.out.writer != nil && c.out.writer != g && !c.closed {
		return false
	}
	return c.closed || c.out.capLimit == 0 || len(c.out.buf) < c.out.capLimit || c.out.readerGone || c.out.reset || (c.wd != 0 && s.clock >= c.wd)
}

func newPair(ra, la net.Addr) (client, server *Conn) {
	a, b := &pipe{}, &pipe{}
	nets.nextAddr++
	client = &Conn{in: b, out: a, local: ra, remote: la, id: nets.nextAddr}
	server = &Conn{in: a, out: b, local: la, remote: ra, server: true, id: nets.nextAddr}
	client.peer, server.peer = server, client
	nets.conns = append(nets.conns, server)
	return
}

// Pipe makes a connected pair outside any listener: the harness keeps the first end.
func Pipe() (client, server *Conn) {
	nets.port++
	return newPair(&net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: nets.port}, &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1})
}

// Dial is net.Dial.
func Dial(network, addr string) (net.Conn, error) {
	_, p, err := net.SplitHostPort(addr)
	if err != nil {
		return nil, opErr("dial", err)
	}
	n, err := strconv.Atoi(p)
	if err != nil {
		return nil, opErr("dial", err)
	}
	c, err := dial(n)
	if err != nil {
		return nil, err
	}
	return c, nil
}

func DialTimeout(network, addr string, d time.Duration) (net.Conn, error) { return Dial(network, addr) }

// Dialer is net.Dialer; a dial here succeeds or is refused at once.
type Dialer struct {
	Timeout       time.Duration
	Deadline      time.Time
	LocalAddr     net.Addr
	DualStack     bool
	FallbackDelay time.Duration
	KeepAlive     time.Duration
}

func (d *Dialer) Dial(network, addr string) (net.Conn, error) { return Dial(network, addr) }

func (d *Dialer) DialContext(ctx Context, network, addr string) (net.Conn, error) {
	if err := ctx.Err(); err != nil {
		return nil, opErr("dial", err)
	}
	return Dial(network, addr)
}

// ListenConfig is net.ListenConfig.
type ListenConfig struct {
	KeepAlive time.Duration
}

func (c *ListenConfig) Listen(ctx Context, network, addr string) (net.Listener, error) {
	if err := ctx.Err(); err != nil {
		return nil, opErr("listen", err)
	}
	return Listen(network, addr)
}

func DialTCP(network string, l, r *net.TCPAddr) (*Conn, error) { return dial(r.Port) }

var errRefused = errors.New("connect: connection refused")

func dial(port int) (*Conn, error) {
	if s != nil {
		if s.abort {
			goexit()
		}
		s.point("dial", nil)
		s.cur.write(&nets.o, 0x721)
	}
	l := nets.listeners[port]
	if l == nil || l.closed {
		return nil, opErr("dial", errRefused)
	}
	if s != nil {
		s.cur.write(&l.o, 0x722)
	}
	nets.port++
	c, sv := newPair(&net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: nets.port}, &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port})
	raceReleaseMerge(up(&sv.in.ra))
	l.q = append(l.q, sv)
	c.proc = curProc()
	return c, nil
}

// HDial is Dial for harnesses.
func HDial(port int) (*Conn, error) { return dial(port) }

// Listening reports whether somebody listens on the port.
func Listening(port int) bool {
	l := nets.listeners[port]
	return l != nil && !l.closed
}

type listenCond int

func (p listenCond) ready(g *G) bool { return Listening(int(p)) }

// AwaitListener waits until somebody listens on the port.
func AwaitListener(port int) {
	if s == nil {
		return
	}
	if s.abort {
		goexit()
	}
	s.point("await", listenCond(port))
	s.cur.write(&nets.o, 0x724)
}

// InjectAcceptError makes the next accept on the port fail once.
func InjectAcceptError(port int, err error) {
	if l := nets.listeners[port]; l != nil {
		l.errs = append(l.errs, err)
		if s != nil && !s.abort {
			s.cur.write(&l.o, 0x723)
		}
	}
}

// ServerConns are the server ends of all connections made so far.
func ServerConns() []*Conn { return nets.conns }

func (c *Conn) Read(b []byte) (int, error) {
	if s == nil {
		return c.readNow(b)
	}
	if s.abort {
		return 0, io.EOF
	}
	s.point("net.read", rdCond{c})
	s.cur.write(&c.in.o, 0x731)
	return c.readNow(b)
}

func (c *Conn) readNow(b []byte) (int, error) {
	if c.closed {
		return 0, opErr("read", net.ErrClosed)
	}
	if c.server && NetFault != nil {
		if _, err := NetFault("read", c, len(b)); err != nil {
			return 0, opErr("read", err)
		}
	}
	if !c.server && DialFault != nil {
		if err := DialFault("read", c, len(b)); err != nil {
			return 0, opErr("read", err)
		}
	}
	if len(b) == 0 {
		return 0, nil
	}
	if s != nil && c.rd != 0 && s.clock >= c.rd {
		return 0, opErr("read", os.ErrDeadlineExceeded)
	}
	if c.in.reset {
		return 0, opErr("read", errors.New("connection reset by peer"))
	}
	if len(c.in.buf) > 0 {
		raceAcquire(up(&c.in.ra))
		src := c.in.buf
		if c.server && ReadChunk != nil {
			k := ReadChunk(c, len(src))
			if k >= 1 && k < len(src) {
				src = src[:k]
			}
		}
		n := cp(b, src)
		c.in.buf = c.in.buf[n:]
		return n, nil
	}
	if c.in.wclosed {
		return 0, io.EOF
	}
	panic("mc: net read blocks outside a controlled execution")
}

func (c *Conn) Write(b []byte) (int, error) {
	if RaceBuild && len(b) > 0 {
		raceRead(up(&b[0]), len(b))
	}
	if s != nil {
		if s.abort {
			return len(b), nil
		}
		s.point("net.write", wrCond{c})
		s.cur.write(&c.out.o, 0x741)
	}
	if c.closed {
		return 0, opErr("write", net.ErrClosed)
	}
	n := len(b)
	var ferr error
	if c.server && NetFault != nil {
		if k, err := NetFault("write", c, len(b)); err != nil {
			if k < 0 {
				k = 0
			}
			n, ferr = k, err
		}
	}
	if !c.server && DialFault != nil {
		if err := DialFault("write", c, len(b)); err != nil {
			return 0, opErr("write", err)
		}
	}
	if s != nil && c.wd != 0 && s.clock >= c.wd {
		return 0, opErr("write", os.ErrDeadlineExceeded)
	}
	if c.out.reset {
		return 0, opErr("write", errors.New("broken pipe"))
	}
	if c.out.readerGone {
		// the peer has closed: the first write still succeeds, then the pipe is broken
		c.out.reset = true
		return len(b), nil
	}
	if room := c.out.capLimit - len(c.out.buf); s != nil && c.out.exact && c.out.capLimit > 0 && ferr == nil && room < n {
		// what fits goes out, the rest waits
		raceReleaseMerge(up(&c.out.ra))
		if c.server {
			c.writes = append(c.writes, append([]byte(nil), b[:room]...))
		}
		c.out.buf = append(append([]byte(nil), c.out.buf...), b[:room]...)
		c.out.total += room
		c.out.writer = s.cur
		k, err := c.Write(b[room:])
		c.out.writer = nil
		return room + k, err
	}
	raceReleaseMerge(up(&c.out.ra))
	if c.server {
		c.writes = append(c.writes, append([]byte(nil), b[:n]...))
	}
	c.out.buf = append(append([]byte(nil), c.out.buf...), b[:n]...)
	c.out.total += n
	if ferr != nil {
		return n, opErr("write", ferr)
	}
	return n, nil
}

func (c *Conn) Close() error {
	if s != nil {
		if s.abort {
			return nil
		}
		s.point("net.close", nil)
		s.cur.write(&c.in.o, 0x751)
		s.cur.write(&c.out.o, 0x752)
	}
	c.closes++
	if c.closed {
		return opErr("close", net.ErrClosed)
	}
	c.closed = true
	c.out.closeW()
	c.in.readerGone = true
	if c.server && NetFault != nil {
		if _, err := NetFault("close", c, 0); err != nil {
			return opErr("close", err)
		}
	}
	return nil
}

// CloseWrite half-closes the connection.
func (c *Conn) CloseWrite() error {
	if s != nil {
		if s.abort {
			return nil
		}
		s.point("net.closewrite", nil)
		s.cur.write(&c.out.o, 0x753)
	}
	c.out.closeW()
	return nil
}
func (c *Conn) CloseRead() error { return nil }

// Reset aborts the connection from the client side.
func (c *Conn) Reset() {
	if s != nil {
		if s.abort {
			return
		}
		s.point("net.reset", nil)
		s.cur.write(&c.in.o, 0x754)
		s.cur.write(&c.out.o, 0x755)
	}
	c.closed = true
	c.out.buf = nil
	c.out.reset = true
	c.in.reset = true
	c.out.wclosed = true
}

func (c *Conn) LocalAddr() net.Addr  { return c.local }
func (c *Conn) RemoteAddr() net.Addr { return c.remote }

// deadline is one step on the object it is set for.
func deadline(t time.Time, o *hobj) int64 {
	if s != nil && !s.abort {
		s.point("deadline", nil)
		s.cur.write(o, 0x756)
	}
	if t.IsZero() {
		return 0
	}
	d := t.UnixNano()
	if s != nil && !s.abort && d > s.clock {
		// a timer with no effect of its own: it only makes time pass at quiescence
		s.addTimer(&timer{at: d})
	}
	if d <= 0 {
		d = 1
	}
	return d
}

func (c *Conn) SetDeadline(t time.Time) error {
	if err := c.SetReadDeadline(t); err != nil {
		return err
	}
	return c.SetWriteDeadline(t)
}

func (c *Conn) SetReadDeadline(t time.Time) error {
	if c.closed {
		return opErr("set", net.ErrClosed)
	}
	c.rd = deadline(t, &c.in.o)
	return nil
}

func (c *Conn) SetWriteDeadline(t time.Time) error {
	if c.closed {
		return opErr("set", net.ErrClosed)
	}
	c.wd = deadline(t, &c.out.o)
	return nil
}

func (c *Conn) SetKeepAlive(b bool) error                { return nil }
func (c *Conn) SetKeepAlivePeriod(d time.Duration) error { return nil }
func (c *Conn) SetNoDelay(b bool) error                  { return nil }
func (c *Conn) SetLinger(n int) error                    { return nil }
func (c *Conn) SetReadBuffer(n int) error                { return nil }
func (c *Conn) SetWriteBuffer(n int) error               { return nil }

// ---- harness views

// Writes returns every write made on this end (server ends only).
func (c *Conn) Writes() [][]byte { return c.writes }

// Closes counts the Close calls on this end.
func (c *Conn) Closes() int { return c.closes }

// IsClosed reports whether this end was closed.
func (c *Conn) IsClosed() bool { return c.closed }

// Peer is the other end.
func (c *Conn) Peer() *Conn { return c.peer }

// Avail returns the bytes that can be read now and whether the stream has ended after them.
func (c *Conn) Avail() ([]byte, bool) {
	if s != nil && !s.abort {
		s.cur.write(&c.in.o, 0x761)
	}
	return append([]byte(nil), c.in.buf...), c.in.wclosed || c.in.reset
}

// Take consumes and returns everything readable now.
func (c *Conn) Take() []byte {
	if s != nil && !s.abort {
		s.cur.write(&c.in.o, 0x762)
	}
	b := append([]byte(nil), c.in.buf...)
	c.in.buf = nil
	return b
}

// Inject appends bytes to what the other end reads, without a scheduling point.
func (c *Conn) Inject(b []byte) {
	raceReleaseMerge(up(&c.out.ra))
	c.out.buf = append(append([]byte(nil), c.out.buf...), b...)
}

// LimitOut bounds how many unread bytes this end's writes may leave in flight.
func (c *Conn) LimitOut(n int) { c.out.capLimit = n }

// LimitExact is LimitOut for writes that go out in parts as there is room.
func (c *Conn) LimitExact(n int) { c.out.capLimit, c.out.exact = n, true }

// Interfaces is net.Interfaces.
func Interfaces() ([]net.Interface, error) { return nil, errors.New("mc: no interfaces") }

// OpenPorts lists the ports that are listened on.
func OpenPorts() []int {
	var r []int
	for p, l := range nets.listeners {
		if !l.closed {
			r = append(r, p)
		}
	}
	sort.Ints(r)
	return r
}
