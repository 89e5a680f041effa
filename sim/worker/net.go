package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"sync"
	"syscall"
	"time"
)

// simNet is the simulated network: names resolve to handlers, connections are
// pairs of in-memory byte streams with latency and faults.
type simNet struct {
	e        *Env
	mu       sync.Mutex
	handlers map[string]func(*conn, int)
	dials    map[string]int
	dialPlan func(addr string, n int) (fault string, lat time.Duration)
	conns    []*conn // client ends
	base     time.Duration
	jitter   time.Duration
}

func newNet(e *Env) *simNet {
	n := &simNet{e: e, handlers: map[string]func(*conn, int){}, dials: map[string]int{}, base: 200 * time.Microsecond, jitter: 300 * time.Microsecond}
	net.SimDial = n.dial
	return n
}

type simAddr string

func (a simAddr) Network() string { return "tcp" }
func (a simAddr) String() string  { return string(a) }

func opErr(op, addr string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Addr: simAddr(addr), Err: err}
}

func (n *simNet) dial(ctx context.Context, network, addr string) (net.Conn, error) {
	n.mu.Lock()
	k := n.dials[addr]
	n.dials[addr] = k + 1
	h := n.handlers[addr]
	n.mu.Unlock()
	lat := n.base + time.Duration(mix(n.e.P.Seed, strHash(addr), uint64(k), 7)%uint64(n.jitter+1))
	fault := ""
	if n.dialPlan != nil {
		f, l := n.dialPlan(addr, k)
		fault, lat = f, lat+l
	}
	n.e.Logf("dial %s #%d %s", addr, k, fault)
	if fault == "hang" {
		n.e.Fault("dial-hang")
		<-ctx.Done()
		return nil, opErr("dial", addr, ctxNetErr(ctx))
	}
	t := time.NewTimer(lat)
	defer t.Stop()
	select {
	case <-t.C:
	case <-ctx.Done():
		return nil, opErr("dial", addr, ctxNetErr(ctx))
	}
	switch fault {
	case "refuse":
		n.e.Fault("dial-refused")
		return nil, opErr("dial", addr, os.NewSyscallError("connect", syscall.ECONNREFUSED))
	case "dns":
		n.e.Fault("dns-notfound")
		return nil, opErr("dial", addr, &net.DNSError{Err: "no such host", Name: addr, IsNotFound: true})
	case "dnstemp":
		n.e.Fault("dns-temporary")
		return nil, opErr("dial", addr, &net.DNSError{Err: "server misbehaving", Name: addr, IsTemporary: true})
	case "timeout":
		n.e.Fault("dial-timeout")
		return nil, opErr("dial", addr, os.NewSyscallError("connect", syscall.ETIMEDOUT))
	}
	if h == nil {
		return nil, opErr("dial", addr, &net.DNSError{Err: "no such host", Name: addr, IsNotFound: true})
	}
	c, s := n.pair(addr, k)
	go h(s, k)
	return c, nil
}

func ctxNetErr(ctx context.Context) error {
	if errors.Is(ctx.Err(), context.DeadlineExceeded) {
		return os.ErrDeadlineExceeded
	}
	return errors.New("operation was canceled")
}

// stream is one direction of a connection.
type stream struct {
	mu     sync.Mutex
	segs   []seg
	last   time.Duration // arrival of the last segment
	eof    bool
	rst    error
	notify chan struct{}
	rclose bool // reader closed
}

type seg struct {
	at   time.Duration
	data []byte
	eof  bool
	rst  error
}

func newStream() *stream { return &stream{notify: make(chan struct{})} }

func (s *stream) wake() {
	close(s.notify)
	s.notify = make(chan struct{})
}

type conn struct {
	n       *simNet
	addr    string
	client  bool
	id      int
	in      *stream
	out     *stream
	mu      sync.Mutex
	rdl     time.Time
	wdl     time.Time
	closed  bool
	cnt     uint64
	peer    *conn
	OnClose func()
}

func (n *simNet) pair(addr string, k int) (*conn, *conn) {
	a, b := newStream(), newStream()
	n.mu.Lock()
	id := len(n.conns)
	c := &conn{n: n, addr: addr, client: true, id: id, in: a, out: b}
	s := &conn{n: n, addr: addr, id: id, in: b, out: a}
	c.peer, s.peer = s, c
	n.conns = append(n.conns, c)
	n.mu.Unlock()
	return c, s
}

func (n *simNet) now() time.Duration { return n.e.Now() }

func (c *conn) latency() time.Duration {
	c.cnt++
	side := uint64(0)
	if c.client {
		side = 1
	}
	return c.n.base + time.Duration(mix(c.n.e.P.Seed, strHash(c.addr), uint64(c.id), side, c.cnt)%uint64(c.n.jitter+1))
}

// IsClosed reports whether this end was closed.
func (c *conn) IsClosed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed
}

func (c *conn) Read(p []byte) (int, error) {
	for {
		c.mu.Lock()
		closed, dl := c.closed, c.rdl
		c.mu.Unlock()
		if closed {
			return 0, opErr("read", c.addr, net.ErrClosed)
		}
		now := time.Now()
		if !dl.IsZero() && !now.Before(dl) {
			return 0, opErr("read", c.addr, os.ErrDeadlineExceeded)
		}
		s := c.in
		s.mu.Lock()
		t := c.n.now()
		for len(s.segs) > 0 && s.segs[0].at <= t {
			g := &s.segs[0]
			if g.rst != nil {
				err := g.rst
				s.mu.Unlock()
				return 0, opErr("read", c.addr, err)
			}
			if g.eof {
				s.mu.Unlock()
				return 0, io.EOF
			}
			if len(g.data) == 0 {
				s.segs = s.segs[1:]
				continue
			}
			if len(p) == 0 {
				s.mu.Unlock()
				return 0, nil
			}
			n := copy(p, g.data)
			g.data = g.data[n:]
			if len(g.data) == 0 {
				s.segs = s.segs[1:]
			}
			s.mu.Unlock()
			return n, nil
		}
		var wait time.Duration = -1
		if len(s.segs) > 0 {
			wait = s.segs[0].at - t
		}
		notify := s.notify
		s.mu.Unlock()
		if !dl.IsZero() {
			if d := dl.Sub(now); wait < 0 || d < wait {
				wait = d
			}
		}
		if wait < 0 {
			<-notify
			continue
		}
		tm := time.NewTimer(wait)
		select {
		case <-notify:
		case <-tm.C:
		}
		tm.Stop()
	}
}

func (c *conn) Write(p []byte) (int, error) {
	c.mu.Lock()
	closed := c.closed
	lat := c.latency()
	c.mu.Unlock()
	if closed {
		return 0, opErr("write", c.addr, net.ErrClosed)
	}
	c.out.mu.Lock()
	defer c.out.mu.Unlock()
	if c.out.rclose {
		return 0, opErr("write", c.addr, os.NewSyscallError("write", syscall.EPIPE))
	}
	at := c.n.now() + lat
	if at < c.out.last {
		at = c.out.last
	}
	c.out.last = at
	c.out.segs = append(c.out.segs, seg{at: at, data: append([]byte(nil), p...)})
	c.out.wake()
	return len(p), nil
}

func (c *conn) end(g seg) {
	c.mu.Lock()
	if c.closed {
		c.mu.Unlock()
		return
	}
	c.closed = true
	lat := c.latency()
	f := c.OnClose
	c.mu.Unlock()
	c.out.mu.Lock()
	at := c.n.now() + lat
	if at < c.out.last {
		at = c.out.last
	}
	g.at = at
	c.out.last = at
	c.out.segs = append(c.out.segs, g)
	c.out.wake()
	c.out.mu.Unlock()
	c.in.mu.Lock()
	c.in.rclose = true
	c.in.wake()
	c.in.mu.Unlock()
	if f != nil {
		f()
	}
}

// Close closes the connection gracefully.
func (c *conn) Close() error {
	c.end(seg{eof: true})
	return nil
}

// Reset aborts the connection: the peer sees a connection reset.
func (c *conn) Reset() {
	c.end(seg{rst: os.NewSyscallError("read", syscall.ECONNRESET)})
}

func (c *conn) LocalAddr() net.Addr  { return simAddr("sim") }
func (c *conn) RemoteAddr() net.Addr { return simAddr(c.addr) }
func (c *conn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	c.SetWriteDeadline(t)
	return nil
}
func (c *conn) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	c.rdl = t
	c.mu.Unlock()
	c.in.mu.Lock()
	c.in.wake()
	c.in.mu.Unlock()
	return nil
}
func (c *conn) SetWriteDeadline(t time.Time) error {
	c.mu.Lock()
	c.wdl = t
	c.mu.Unlock()
	return nil
}

func (c *conn) String() string { return fmt.Sprintf("conn%d(%s)", c.id, c.addr) }
