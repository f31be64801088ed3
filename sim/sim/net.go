package sim

import (
	"context"
	"io"
	"net"
	"os"
	"runtime"
	"sort"
	"strconv"
	"syscall"
	"time"
	"unsafe"
)

// Simulated TCP.

type chunk struct {
	at int64
	b  []byte
}

type mark struct {
	off int64
	fn  func()
}

// pipe is one direction of a connection.
type pipe struct {
	chunks   []chunk
	size     int
	window   int
	lastAt   int64
	finAt    int64 // 0: open
	rstAt    int64
	rclosed  bool // reader gone
	wclosed  bool
	rq, wq   WaitQ
	written  int64
	consumed int64
	marks    []mark
	onClose  []func() // when the reader goes away
	lat      int64
	nsPerKB  int64
	seg      int
}

func (p *pipe) flushMarks(all bool) {
	for len(p.marks) > 0 && (all || p.marks[0].off <= p.consumed) {
		m := p.marks[0]
		p.marks = p.marks[1:]
		m.fn()
	}
}

// Conn is one end of a simulated connection.
type Conn struct {
	rd, wr        *pipe
	local, remote *net.TCPAddr
	node          int32
	closed        bool
	rdl, wdl      int64
	id            int
	Host          string
}

type LinkCfg struct {
	Lat     int64 // ns one way
	NsPerKB int64 // transmission time per KiB
	Seg     int   // largest piece handed to a read; 0: 64 KiB
	Window  int
}

type Listener struct {
	addr   *net.TCPAddr
	node   int32
	q      []*Conn
	wq     WaitQ
	closed bool
	key    string
}

type Host struct {
	Name  string
	IP    net.IP
	Serve func(c *Conn)
	Link  LinkCfg
	// DialFault decides about one connection attempt:
	// "", refused, dns, blackhole, slow
	DialFault func() string
}

type Net struct {
	hosts     map[string]*Host
	listeners map[string]*Listener
	conns     map[*Conn]bool
	nextPort  int
	nextID    int
	Dials     int
	Dialed    map[string]int // by address
}

func NewNet() *Net {
	return &Net{hosts: map[string]*Host{}, listeners: map[string]*Listener{}, conns: map[*Conn]bool{}, nextPort: 40000}
}

func (n *Net) AddHost(h *Host) *Host {
	h.IP = net.IPv4(10, 0, 1, byte(len(n.hosts)+1))
	n.hosts[h.Name] = h
	return h
}

func opErr(op string, c *Conn, err error) error {
	var a net.Addr
	if c != nil {
		a = c.remote
	}
	return &net.OpError{Op: op, Net: "tcp", Addr: a, Err: err}
}

func newPipe(l LinkCfg) *pipe {
	if l.Seg <= 0 {
		l.Seg = 65536
	}
	if l.Window <= 0 {
		l.Window = 256 << 10
	}
	return &pipe{window: l.Window, lat: l.Lat, nsPerKB: l.NsPerKB, seg: l.Seg}
}

// Pair makes a connection; a belongs to process na, b to nb.
func (n *Net) Pair(l LinkCfg, na, nb int32, la, lb *net.TCPAddr) (a, b *Conn) {
	p, q := newPipe(l), newPipe(l)
	n.nextID++
	a = &Conn{rd: p, wr: q, local: la, remote: lb, node: na, id: n.nextID}
	b = &Conn{rd: q, wr: p, local: lb, remote: la, node: nb, id: n.nextID}
	n.conns[a], n.conns[b] = true, true
	return
}

// enter and leave enclose the operations of a descriptor: the simulator's
// accesses are invisible to the race detector, operations on one descriptor
// are ordered.
func (c *Conn) enter() {
	runtime.SimRaceSync(unsafe.Pointer(c))
	runtime.SimEnter()
}

func (c *Conn) leave() {
	runtime.SimLeave()
	runtime.SimRaceSync(unsafe.Pointer(c))
}

func (c *Conn) check() {
	runtime.SimCheckDead()
}

func (c *Conn) Read(b []byte) (int, error) {
	c.enter()
	n, err := c.read(b)
	c.leave()
	runtime.SimRaceWrote(b[:n])
	return n, err
}

func (c *Conn) read(b []byte) (int, error) {
	runtime.SimYield()
	p := c.rd
	for {
		now := Now()
		if c.closed {
			return 0, opErr("read", c, net.ErrClosed)
		}
		if c.rdl != 0 && now >= c.rdl {
			return 0, opErr("read", c, os.ErrDeadlineExceeded)
		}
		if p.rstAt != 0 && now >= p.rstAt {
			return 0, opErr("read", c, os.NewSyscallError("read", syscall.ECONNRESET))
		}
		if len(b) == 0 {
			return 0, nil
		}
		var next int64
		if len(p.chunks) > 0 {
			h := &p.chunks[0]
			if h.at <= now {
				k := copy(b, h.b)
				if k == len(h.b) {
					p.chunks = p.chunks[1:]
				} else {
					h.b = h.b[k:]
				}
				p.size -= k
				p.consumed += int64(k)
				p.flushMarks(false)
				p.wq.WakeAll()
				return k, nil
			}
			next = h.at
		} else if p.finAt != 0 {
			if p.finAt <= now {
				return 0, io.EOF
			}
			next = p.finAt
		}
		for _, t := range []int64{p.rstAt, c.rdl} {
			if t != 0 && (next == 0 || t < next) {
				next = t
			}
		}
		p.rq.WaitUntil(next)
		c.check()
	}
}

func (c *Conn) Write(b []byte) (int, error) {
	runtime.SimRaceRead(b)
	c.enter()
	defer c.leave()
	runtime.SimYield()
	p := c.wr
	done := 0
	for {
		now := Now()
		switch {
		case c.closed || p.wclosed:
			return done, opErr("write", c, net.ErrClosed)
		case c.wdl != 0 && now >= c.wdl:
			return done, opErr("write", c, os.ErrDeadlineExceeded)
		case c.rd.rstAt != 0 && now >= c.rd.rstAt:
			return done, opErr("write", c, os.NewSyscallError("write", syscall.ECONNRESET))
		case p.rclosed:
			return done, opErr("write", c, os.NewSyscallError("write", syscall.EPIPE))
		}
		if done == len(b) {
			return done, nil
		}
		room := p.window - p.size
		if room <= 0 {
			p.wq.WaitUntil(c.wdl)
			c.check()
			continue
		}
		k := min(room, len(b)-done, p.seg)
		at := max(p.lastAt, now+p.lat) + p.nsPerKB*int64(k)/1024
		p.lastAt = at
		p.chunks = append(p.chunks, chunk{at, append([]byte(nil), b[done:done+k]...)})
		p.size += k
		p.written += int64(k)
		done += k
		p.rq.WakeAll()
	}
}

// Mark calls fn once the peer has read everything written so far or closed.
func (c *Conn) Mark(fn func(full bool)) {
	p := c.wr
	off := p.written
	p.marks = append(p.marks, mark{off, func() { fn(p.consumed >= off) }})
	p.flushMarks(p.rclosed)
}

// OnPeerClose calls fn when the peer closes the connection.
func (c *Conn) OnPeerClose(fn func()) {
	if c.wr.rclosed {
		fn()
		return
	}
	c.wr.onClose = append(c.wr.onClose, fn)
}

func (c *Conn) Close() error {
	c.enter()
	defer c.leave()
	if c.closed {
		return opErr("close", c, net.ErrClosed)
	}
	c.shut()
	return nil
}

func (c *Conn) shut() {
	c.closed = true
	now := Now()
	if c.wr.finAt == 0 {
		c.wr.finAt = max(c.wr.lastAt, now+c.wr.lat)
	}
	c.wr.wclosed = true
	c.rd.rclosed = true
	c.rd.chunks = nil
	c.rd.size = 0
	c.rd.flushMarks(true)
	for _, f := range c.rd.onClose {
		f()
	}
	c.rd.onClose = nil
	delete(W.Net.conns, c)
	for _, q := range []*WaitQ{&c.rd.rq, &c.rd.wq, &c.wr.rq, &c.wr.wq} {
		q.WakeAll()
	}
}

// CloseWrite sends FIN.
func (c *Conn) CloseWrite() error {
	c.enter()
	defer c.leave()
	if c.wr.finAt == 0 {
		c.wr.finAt = max(c.wr.lastAt, Now()+c.wr.lat)
	}
	c.wr.wclosed = true
	c.wr.rq.WakeAll()
	return nil
}

// Reset aborts the connection; data in flight is lost.
func (c *Conn) Reset() {
	c.wr.rstAt = Now() + c.wr.lat
	c.wr.chunks = nil
	c.shut()
}

func (c *Conn) LocalAddr() net.Addr  { return c.local }
func (c *Conn) RemoteAddr() net.Addr { return c.remote }

func dl(t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	d := time.Until(t)
	x := Now() + int64(d)
	if x <= 0 {
		x = 1
	}
	return x
}

func (c *Conn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}

func (c *Conn) SetReadDeadline(t time.Time) error {
	c.enter()
	defer c.leave()
	c.rdl = dl(t)
	c.rd.rq.WakeAll()
	return nil
}

func (c *Conn) SetWriteDeadline(t time.Time) error {
	c.enter()
	defer c.leave()
	c.wdl = dl(t)
	c.wr.wq.WakeAll()
	return nil
}

func (c *Conn) Closed() bool { return c.closed }

// PeerClosed reports whether the other side is gone.
func (c *Conn) PeerClosed() bool { return c.wr.rclosed }

// WaitPeerClosed waits until the peer closed the connection or d passed.
func (c *Conn) WaitPeerClosed(d time.Duration) bool {
	end := Now() + int64(d)
	for !c.wr.rclosed && !c.closed {
		if !c.wr.wq.WaitUntil(end) {
			return false
		}
	}
	return true
}

// WaitDrained waits until the peer has read everything.
func (c *Conn) WaitDrained(d time.Duration) {
	end := Now() + int64(d)
	for !c.wr.rclosed && !c.closed && c.wr.size > 0 {
		if !c.wr.wq.WaitUntil(end) {
			return
		}
	}
}

func (n *Net) nodeDied(id int32) {
	var l []*Conn
	for c := range n.conns {
		if c.node == id {
			l = append(l, c)
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	for _, c := range l {
		c.Reset()
	}
	keys := []string{}
	for k := range n.listeners {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if l := n.listeners[k]; l.node == id {
			l.Close()
		}
	}
}

// CloseHost drops all connections to an upstream host (crash of upstream).
func (n *Net) ResetHost(name string) int {
	var l []*Conn
	for c := range n.conns {
		if c.Host == name && c.node == 0 {
			l = append(l, c)
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	for _, c := range l {
		c.Reset()
	}
	return len(l)
}

func (l *Listener) Accept() (net.Conn, error) {
	runtime.SimEnter()
	defer runtime.SimLeave()
	for {
		runtime.SimYield()
		if l.closed {
			return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.addr, Err: net.ErrClosed}
		}
		if len(l.q) > 0 {
			c := l.q[0]
			l.q = l.q[1:]
			return c, nil
		}
		l.wq.Wait()
		runtime.SimCheckDead()
	}
}

func (l *Listener) Close() error {
	runtime.SimEnter()
	defer runtime.SimLeave()
	if l.closed {
		return nil
	}
	l.closed = true
	delete(W.Net.listeners, l.key)
	for _, c := range l.q {
		c.Reset()
	}
	l.q = nil
	l.wq.WakeAll()
	return nil
}

func (l *Listener) Addr() net.Addr { return l.addr }

func simListen(ctx context.Context, network, address string) (net.Listener, error) {
	runtime.SimEnter()
	defer runtime.SimLeave()
	_, port, err := net.SplitHostPort(address)
	if err != nil {
		return nil, &net.OpError{Op: "listen", Net: network, Err: err}
	}
	pn, err := strconv.Atoi(port)
	if err != nil {
		return nil, &net.OpError{Op: "listen", Net: network, Err: err}
	}
	n := W.Net
	if n.listeners[port] != nil {
		return nil, &net.OpError{Op: "listen", Net: network, Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
	}
	l := &Listener{addr: &net.TCPAddr{IP: net.IPv4(10, 0, 0, 1), Port: pn}, node: runtime.SimNode(), key: port}
	n.listeners[port] = l
	return l, nil
}

// Connect opens a client connection from the harness to a listening process.
func (n *Net) Connect(port string, link LinkCfg) *Conn {
	l := n.listeners[port]
	if l == nil {
		return nil
	}
	n.nextPort++
	a, b := n.Pair(link, 0, l.node, &net.TCPAddr{IP: net.IPv4(10, 0, 2, 1), Port: n.nextPort}, l.addr)
	l.q = append(l.q, b)
	l.wq.WakeAll()
	return a
}

func simDial(d *net.Dialer, ctx context.Context, network, address string) (net.Conn, error) {
	runtime.SimEnter()
	defer runtime.SimLeave()
	runtime.SimYield()
	n := W.Net
	n.Dials++
	if n.Dialed == nil {
		n.Dialed = map[string]int{}
	}
	n.Dialed[address]++
	host, port, err := net.SplitHostPort(address)
	if err != nil {
		return nil, &net.OpError{Op: "dial", Net: network, Err: err}
	}
	h := n.hosts[host]
	fault := ""
	if h == nil {
		fault = "dns"
	} else if h.DialFault != nil {
		fault = h.DialFault()
	}
	if h != nil && port == "443" {
		fault = "refused" // no TLS here
	}
	lat := int64(1e6)
	if h != nil {
		lat = 2*h.Link.Lat + 1000
	}
	var end int64
	if d != nil && d.Timeout > 0 {
		end = Now() + int64(d.Timeout)
	}
	wait := lat
	switch fault {
	case "blackhole":
		wait = 130e9 // TCP SYN retries give up
	case "slow":
		wait = 3e9
	}
	timeout := false
	if end > 0 && Now()+wait > end {
		wait = end - Now()
		timeout = true
	}
	tm := time.NewTimer(time.Duration(wait))
	select {
	case <-ctx.Done():
		tm.Stop()
		return nil, &net.OpError{Op: "dial", Net: network, Err: ctx.Err()}
	case <-tm.C:
	}
	if fault != "" {
		W.Fault("dial-" + fault)
	}
	if timeout || fault == "blackhole" {
		return nil, &net.OpError{Op: "dial", Net: network, Err: os.ErrDeadlineExceeded}
	}
	switch fault {
	case "refused":
		return nil, &net.OpError{Op: "dial", Net: network, Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)}
	case "dns":
		return nil, &net.OpError{Op: "dial", Net: network, Err: &net.DNSError{Err: "no such host", Name: host, IsNotFound: true}}
	}
	pn, _ := strconv.Atoi(port)
	n.nextPort++
	a, b := n.Pair(h.Link, runtime.SimNode(), 0,
		&net.TCPAddr{IP: net.IPv4(10, 0, 0, 1), Port: n.nextPort}, &net.TCPAddr{IP: h.IP, Port: pn})
	a.Host, b.Host = host, host
	GoSim(func() { h.Serve(b) })
	return a, nil
}

func installNet() {
	net.SimDial = simDial
	net.SimListen = simListen
}
