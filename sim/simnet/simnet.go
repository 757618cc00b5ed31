// Package simnet is the network of a simulation: byte streams between dialers
// and listeners with seeded delays and fragmentation, cuts, stalls, refused
// and hanging dials. It takes the place of the operating system's network
// through the hook in net.Dialer.
package simnet

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"sync"
	"syscall"
	"time"

	"verifsim/plan"
)

// Net is a network.
type Net struct {
	mu        sync.Mutex // never held when taking another
	listeners map[string]func(*Conn)
	conns     []*Conn
	rmu       sync.Mutex // innermost
	rnd       *plan.Rand
	hosts     map[string]*host
	nextPort  int

	// Latency of a chunk is Base plus up to Jitter; a chunk has at most Frag
	// bytes (0: whatever was written).
	Base, Jitter time.Duration
	Frag         int
	Fault        func(kind string)
}

type host struct {
	down   bool // dials are refused
	silent bool // dials hang
	stall  time.Time
}

// New makes a network and puts it in place.
func New(seed uint64) *Net {
	n := &Net{rnd: plan.NewRand(seed), listeners: map[string]func(*Conn){}, hosts: map[string]*host{}, nextPort: 40000, Fault: func(string) {}}
	net.SimDial = n.dial
	return n
}

func (n *Net) host(addr string) *host {
	h := n.hosts[addr]
	if h == nil {
		h = &host{}
		n.hosts[addr] = h
	}
	return h
}

// Listen serves an address; serve runs in a goroutine of its own for every
// connection.
func (n *Net) Listen(addr string, serve func(*Conn)) {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.listeners[addr] = serve
}

// SetDown refuses dials to an address, or accepts them again.
func (n *Net) SetDown(addr string, down bool) {
	n.rmu.Lock()
	defer n.rmu.Unlock()
	n.host(addr).down = down
}

// SetSilent makes dials to an address hang until their deadline.
func (n *Net) SetSilent(addr string, silent bool) {
	n.rmu.Lock()
	defer n.rmu.Unlock()
	n.host(addr).silent = silent
}

// Cut breaks the connections to an address (all of them, or those for which
// keep does not hold); what was under way is lost.
func (n *Net) Cut(addr string) int {
	k := 0
	for _, c := range n.to(addr) {
		if !c.dead() {
			k++
			c.Break()
		}
	}
	return k
}

// to gives the connections to an address.
func (n *Net) to(addr string) []*Conn {
	n.mu.Lock()
	defer n.mu.Unlock()
	var l []*Conn
	for _, c := range n.conns {
		if c.Addr == addr {
			l = append(l, c)
		}
	}
	return l
}

// Stall holds back all that is sent to and from an address for a while.
func (n *Net) Stall(addr string, d time.Duration) {
	t := time.Now().Add(d)
	n.rmu.Lock()
	if h := n.host(addr); h.stall.Before(t) {
		h.stall = t
	}
	n.rmu.Unlock()
	for _, c := range n.to(addr) {
		c.out.delay(t)
		c.in.delay(t)
	}
}

func (n *Net) dial(ctx context.Context, d *net.Dialer, network, address string) (net.Conn, error) {
	fail := func(err error) error { return &net.OpError{Op: "dial", Net: network, Err: err} }
	var timeout <-chan time.Time
	if d.Timeout > 0 {
		t := time.NewTimer(d.Timeout)
		defer t.Stop()
		timeout = t.C
	}
	if !d.Deadline.IsZero() {
		t := time.NewTimer(time.Until(d.Deadline))
		defer t.Stop()
		timeout = t.C
	}
	n.rmu.Lock()
	lat := n.latency()
	n.rmu.Unlock()
	wait := time.NewTimer(lat)
	defer wait.Stop()
	select {
	case <-wait.C:
	case <-ctx.Done():
		return nil, fail(ctx.Err())
	case <-timeout:
		return nil, fail(os.ErrDeadlineExceeded)
	}
	n.rmu.Lock()
	h := *n.host(address)
	n.rmu.Unlock()
	if h.silent {
		n.Fault("dial without answer")
		select {
		case <-ctx.Done():
			return nil, fail(ctx.Err())
		case <-timeout:
			return nil, fail(os.ErrDeadlineExceeded)
		case <-time.After(2 * time.Minute):
			return nil, fail(syscall.ETIMEDOUT)
		}
	}
	n.mu.Lock()
	serve := n.listeners[address]
	if serve == nil || h.down {
		n.mu.Unlock()
		n.Fault("dial refused")
		return nil, fail(syscall.ECONNREFUSED)
	}
	n.nextPort++
	a, b := n.pair(address, n.nextPort)
	n.conns = append(n.conns, a)
	n.mu.Unlock()
	go serve(b)
	return a, nil
}

// latency needs rmu.
func (n *Net) latency() time.Duration {
	d := n.Base
	if n.Jitter > 0 {
		d += time.Duration(n.rnd.N(int(n.Jitter)))
	}
	return d
}

func (n *Net) pair(address string, port int) (client, server *Conn) {
	ab, ba := newPipe(n, address), newPipe(n, address)
	ca, sa := addr(fmt.Sprintf("10.0.0.1:%d", port)), addr(address)
	client = &Conn{Addr: address, Port: port, n: n, in: ba, out: ab, local: ca, remote: sa}
	server = &Conn{Addr: address, Port: port, n: n, in: ab, out: ba, local: sa, remote: ca}
	return client, server
}

// Conns gives the number of connections to an address that are still open on
// the client's side.
func (n *Net) Conns(addr string) int {
	k := 0
	for _, c := range n.to(addr) {
		if !c.dead() {
			k++
		}
	}
	return k
}

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

// Conn is one end of a connection.
type Conn struct {
	Addr          string // of the listener
	Port          int    // of the client
	n             *Net
	in, out       *pipe
	local, remote addr
	once          sync.Once
	mu            sync.Mutex
	closed        bool
}

func (c *Conn) dead() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed || c.in.isBroken() || c.out.isBroken()
}

// Closed tells whether this end was closed or the connection broken.
func (c *Conn) Closed() bool { return c.dead() }

// Break resets the connection for both ends.
func (c *Conn) Break() {
	c.in.breakIt()
	c.out.breakIt()
}

func (c *Conn) Read(b []byte) (int, error)  { return c.in.read(b) }
func (c *Conn) Write(b []byte) (int, error) { return c.out.write(b) }
func (c *Conn) Close() error {
	c.mu.Lock()
	was := c.closed
	c.closed = true
	c.mu.Unlock()
	if was {
		return net.ErrClosed
	}
	c.out.finish()
	c.in.closeRead()
	return nil
}
func (c *Conn) LocalAddr() net.Addr  { return c.local }
func (c *Conn) RemoteAddr() net.Addr { return c.remote }
func (c *Conn) SetDeadline(t time.Time) error {
	c.in.setReadDeadline(t)
	c.out.setWriteDeadline(t)
	return nil
}
func (c *Conn) SetReadDeadline(t time.Time) error  { c.in.setReadDeadline(t); return nil }
func (c *Conn) SetWriteDeadline(t time.Time) error { c.out.setWriteDeadline(t); return nil }

// window is how much may be under way in one direction.
const window = 1 << 20

type chunk struct {
	at time.Time
	b  []byte
}

type pipe struct {
	n       *Net
	addr    string
	mu      sync.Mutex
	chunks  []chunk
	size    int
	last    time.Time // arrival of the last chunk
	fin     bool      // the writer is done
	noRead  bool      // the reader is gone
	broken  bool
	readDL  time.Time
	writeDL time.Time
	change  chan struct{}
}

func newPipe(n *Net, addr string) *pipe {
	return &pipe{n: n, addr: addr, change: make(chan struct{})}
}

func (p *pipe) changed() {
	close(p.change)
	p.change = make(chan struct{})
}

func (p *pipe) isBroken() bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.broken
}

func (p *pipe) breakIt() {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.broken = true
	p.chunks, p.size = nil, 0
	p.changed()
}

func (p *pipe) finish() {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.fin = true
	p.changed()
}

func (p *pipe) closeRead() {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.noRead = true
	p.changed()
}

func (p *pipe) setReadDeadline(t time.Time) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.readDL = t
	p.changed()
}

func (p *pipe) setWriteDeadline(t time.Time) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.writeDL = t
	p.changed()
}

func (p *pipe) delay(t time.Time) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for i := range p.chunks {
		if p.chunks[i].at.Before(t) {
			p.chunks[i].at = t
		}
	}
	if p.last.Before(t) {
		p.last = t
	}
	p.changed()
}

var errReset = &net.OpError{Op: "read", Net: "tcp", Err: syscall.ECONNRESET}

// wait needs mu and gives it up while waiting.
func (p *pipe) wait(until time.Time) {
	ch := p.change
	p.mu.Unlock()
	if until.IsZero() {
		<-ch
	} else {
		t := time.NewTimer(time.Until(until))
		select {
		case <-ch:
		case <-t.C:
		}
		t.Stop()
	}
	p.mu.Lock()
}

func (p *pipe) read(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for {
		now := time.Now()
		switch {
		case p.noRead:
			return 0, &net.OpError{Op: "read", Net: "tcp", Err: net.ErrClosed}
		case p.broken:
			return 0, errReset
		case !p.readDL.IsZero() && !now.Before(p.readDL):
			return 0, &net.OpError{Op: "read", Net: "tcp", Err: os.ErrDeadlineExceeded}
		case len(b) == 0:
			return 0, nil
		case len(p.chunks) > 0 && !p.chunks[0].at.After(now):
			c := &p.chunks[0]
			k := copy(b, c.b)
			c.b = c.b[k:]
			p.size -= k
			if len(c.b) == 0 {
				p.chunks = p.chunks[1:]
			}
			p.changed()
			return k, nil
		case len(p.chunks) == 0 && p.fin:
			return 0, io.EOF
		}
		until := p.readDL
		if len(p.chunks) > 0 && (until.IsZero() || p.chunks[0].at.Before(until)) {
			until = p.chunks[0].at
		}
		p.wait(until)
	}
}

func (p *pipe) write(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	n := 0
	for {
		switch {
		case p.fin:
			return n, &net.OpError{Op: "write", Net: "tcp", Err: net.ErrClosed}
		case p.broken || p.noRead:
			return n, &net.OpError{Op: "write", Net: "tcp", Err: syscall.EPIPE}
		case !p.writeDL.IsZero() && !time.Now().Before(p.writeDL):
			return n, &net.OpError{Op: "write", Net: "tcp", Err: os.ErrDeadlineExceeded}
		case len(b) == 0:
			return n, nil
		case p.size < window:
			k := len(b)
			p.n.rmu.Lock()
			if f := p.n.Frag; f > 0 && k > f {
				k = p.n.rnd.Range(1, f)
			}
			at := time.Now().Add(p.n.latency())
			if s := p.n.host(p.addr).stall; at.Before(s) {
				at = s
			}
			p.n.rmu.Unlock()
			if at.Before(p.last) {
				at = p.last
			}
			p.last = at
			p.chunks = append(p.chunks, chunk{at, append([]byte(nil), b[:k]...)})
			p.size += k
			b = b[k:]
			n += k
			p.changed()
			continue
		}
		p.wait(p.writeDL)
	}
}

// IsTimeout tells deadline errors.
func IsTimeout(err error) bool {
	var ne net.Error
	return errors.As(err, &ne) && ne.Timeout()
}

// Stalled tells whether traffic to and from an address is held back.
func (n *Net) Stalled(addr string) bool {
	n.rmu.Lock()
	defer n.rmu.Unlock()
	return n.host(addr).stall.After(time.Now())
}
