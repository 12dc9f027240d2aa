// Package net replaces the standard package in instrumented code with an in-memory network
// whose operations are scheduling points.
package net

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	real "net"
	"os"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/sttp/goapi/vdrv/vsched"
)

type (
	Conn       = real.Conn
	Listener   = real.Listener
	PacketConn = real.PacketConn
	Addr       = real.Addr
	Error      = real.Error
	OpError    = real.OpError
	AddrError  = real.AddrError
	DNSError   = real.DNSError
	TCPAddr    = real.TCPAddr
	UDPAddr    = real.UDPAddr
	IP         = real.IP
	IPNet      = real.IPNet
	IPMask     = real.IPMask
	IPAddr     = real.IPAddr
	Buffers    = real.Buffers
)

var (
	ErrClosed      = real.ErrClosed
	SplitHostPort  = real.SplitHostPort
	JoinHostPort   = real.JoinHostPort
	LookupPort     = real.LookupPort
	ParseIP        = real.ParseIP
	ParseCIDR      = real.ParseCIDR
	IPv4           = real.IPv4
	ResolveUDPAddr = func(network, address string) (*UDPAddr, error) { return resolve(network, address) }
	ResolveTCPAddr = func(network, address string) (*TCPAddr, error) {
		u, err := resolve(network, address)
		if err != nil {
			return nil, err
		}
		return &TCPAddr{IP: u.IP, Port: u.Port, Zone: u.Zone}, nil
	}
)

func resolve(network, address string) (*UDPAddr, error) {
	host, port, err := real.SplitHostPort(address)
	if err != nil {
		return nil, err
	}
	n, err := strconv.Atoi(port)
	if err != nil || n < 0 || n > 65535 {
		return nil, errors.New("invalid port " + port)
	}
	if host == "" {
		return &UDPAddr{Port: n}, nil
	}
	host, zone, _ := strings.Cut(host, "%")
	ip := real.ParseIP(host)
	if ip == nil {
		// A name
		ip, zone = real.IPv4(127, 0, 0, 1), ""
	}
	return &UDPAddr{IP: ip, Port: n, Zone: zone}, nil
}

// State of the network of the current run.
var (
	listeners map[int]*TCPListener
	udps      map[int]*UDPConn
	nconn     int
	// DialHook decides the fate of each outgoing connection attempt.
	DialHook func(address string) (accept bool, delay time.Duration)
	// DialDone is told the result.
	DialDone func(address string, ok bool)
	// OnBind is told the address of listening sockets opened by the subscriber.
	OnBind func(address string)
	// OnListen is told of listening sockets opened and closed by the subscriber.
	OnListen func(port int, open bool)
	// OnClose is told when the subscriber closes a connection.
	OnClose func(id int)
	// OnWrite is told each frame (with its length) that the subscriber has written to a connection.
	OnWrite func(id int, b []byte)
	// WriteLimit bounds the bytes the peer may leave unread before writes block (0: no bound).
	WriteLimit int
	// Accepted receives the publisher's end of each dialed connection.
	Accepted []*TCPConn
	all      []*TCPConn
)

// Reset clears the network.
func Reset() {
	listeners = map[int]*TCPListener{}
	udps = map[int]*UDPConn{}
	nconn = 0
	DialHook, DialDone, OnBind, OnListen, OnClose, OnWrite = nil, nil, nil, nil, nil, nil
	WriteLimit = 0
	Accepted = nil
	all = nil
}

// NextID is the id the next connection gets.
func NextID() int { return nconn + 1 }

// Open lists the ids of connections whose subscriber end is open.
func Open() []int {
	r := []int{}
	for _, c := range all {
		if !c.closed {
			r = append(r, c.ID)
		}
	}
	return r
}

// OpenUDP counts open datagram sockets.
func OpenUDP() int { return len(udps) }

// Listening reports whether something listens on the port.
func Listening(port int) bool { _, ok := listeners[port]; return ok }

type queue struct {
	segs  [][]byte
	bytes int
	eof   bool
	reset bool
}

// TCPConn is one end of an in-memory connection.
type TCPConn struct {
	frame  []byte // written by the subscriber, not yet a whole frame
	ID     int
	in     *queue
	out    *queue
	peer   *TCPConn
	closed bool
	local  *TCPAddr
	remote *TCPAddr
	sub    bool
	rdl    int64
	Sent   int
	Got    int
}

func pair(remote *TCPAddr) (*TCPConn, *TCPConn) {
	nconn++
	a, b := &queue{}, &queue{}
	l := &TCPAddr{IP: real.IPv4(127, 0, 0, 1), Port: 40000 + nconn}
	x := &TCPConn{ID: nconn, in: a, out: b, local: l, remote: remote, sub: true}
	y := &TCPConn{ID: nconn, in: b, out: a, local: remote, remote: l}
	x.peer, y.peer = y, x
	all = append(all, x)
	return x, y
}

type timeoutError struct{}

func (timeoutError) Error() string   { return "i/o timeout" }
func (timeoutError) Timeout() bool   { return true }
func (timeoutError) Temporary() bool { return true }

func (c *TCPConn) opErr(op string, err error) error {
	return &OpError{Op: op, Net: "tcp", Source: c.local, Addr: c.remote, Err: err}
}

func (c *TCPConn) Read(b []byte) (int, error) {
	vsched.Op()
	if vsched.Aborted() {
		return 0, io.EOF
	}
	dl := func() bool { return c.rdl != 0 && vsched.Now() >= c.rdl }
	vsched.Block("read", func() bool {
		return c.closed || len(c.in.segs) > 0 || c.in.eof || c.in.reset || dl()
	})
	switch {
	case c.closed:
		return 0, c.opErr("read", ErrClosed)
	case c.in.reset:
		return 0, c.opErr("read", errors.New("connection reset by peer"))
	case len(b) == 0:
		return 0, nil
	case len(c.in.segs) > 0:
		s := c.in.segs[0]
		n := copy(b, s)
		if n == len(s) {
			c.in.segs = c.in.segs[1:]
		} else {
			c.in.segs[0] = s[n:]
		}
		c.in.bytes -= n
		c.Got += n
		return n, nil
	case c.in.eof:
		return 0, io.EOF
	}
	return 0, c.opErr("read", timeoutError{})
}

func (c *TCPConn) Write(b []byte) (int, error) {
	vsched.Op()
	if vsched.Aborted() {
		return 0, ErrClosed
	}
	if WriteLimit > 0 && c.sub {
		vsched.Block("write", func() bool {
			return c.closed || c.peer.closed || c.out.bytes == 0 || c.out.bytes+len(b) <= WriteLimit
		})
	}
	if c.closed {
		return 0, c.opErr("write", ErrClosed)
	}
	if c.peer.closed || c.out.reset {
		return 0, c.opErr("write", errors.New("broken pipe"))
	}
	if c.sub && OnWrite != nil {
		c.frame = append(c.frame, b...)
		for len(c.frame) >= 4 {
			n := 4 + int(binary.BigEndian.Uint32(c.frame))
			if n > len(c.frame) {
				break
			}
			f := c.frame[:n:n]
			c.frame = c.frame[n:]
			OnWrite(c.ID, f)
		}
	}
	if len(b) > 0 {
		c.out.segs = append(c.out.segs, append([]byte(nil), b...))
		c.out.bytes += len(b)
		c.Sent += len(b)
	}
	return len(b), nil
}

func (c *TCPConn) Close() error {
	vsched.Op()
	if c.closed {
		return c.opErr("close", ErrClosed)
	}
	c.closed = true
	c.out.eof = true
	if c.sub && OnClose != nil && !vsched.Aborted() {
		OnClose(c.ID)
	}
	return nil
}

// Abort closes the connection so that the peer sees a reset and loses unread data.
func (c *TCPConn) Abort() {
	c.closed = true
	c.out.reset = true
	c.out.segs = nil
}

// PeerClosed reports whether the other end was closed.
func (c *TCPConn) PeerClosed() bool { return c.peer.closed }

// Pending is the number of bytes the other end has not read.
func (c *TCPConn) Pending() int { return c.out.bytes }

func (c *TCPConn) LocalAddr() Addr  { return c.local }
func (c *TCPConn) RemoteAddr() Addr { return c.remote }
func (c *TCPConn) SetDeadline(t time.Time) error {
	return c.SetReadDeadline(t)
}
func (c *TCPConn) SetReadDeadline(t time.Time) error {
	if t.IsZero() {
		c.rdl = 0
		return nil
	}
	c.rdl = int64(t.Sub(vsched.Base))
	if c.rdl == 0 {
		c.rdl = 1
	}
	vsched.AfterFunc(time.Duration(c.rdl-vsched.Now()), func() {})
	return nil
}
func (c *TCPConn) SetWriteDeadline(t time.Time) error     { return nil }
func (c *TCPConn) CloseRead() error                       { return nil }
func (c *TCPConn) CloseWrite() error                      { c.out.eof = true; return nil }
func (c *TCPConn) SetNoDelay(bool) error                  { return nil }
func (c *TCPConn) SetKeepAlive(bool) error                { return nil }
func (c *TCPConn) SetKeepAlivePeriod(time.Duration) error { return nil }
func (c *TCPConn) SetReadBuffer(int) error                { return nil }
func (c *TCPConn) SetWriteBuffer(int) error               { return nil }
func (c *TCPConn) SetLinger(int) error                    { return nil }

func Dial(network, address string) (Conn, error) {
	vsched.Op()
	if vsched.Aborted() {
		return nil, ErrClosed
	}
	u, err := resolve(network, address)
	if err != nil {
		return nil, &OpError{Op: "dial", Net: network, Err: err}
	}
	ok, delay := false, time.Duration(0)
	if DialHook != nil {
		ok, delay = DialHook(address)
	}
	if delay > 0 {
		done := false
		vsched.AfterFunc(delay, func() { done = true })
		vsched.Block("dial", func() bool { return done })
		if vsched.Aborted() {
			return nil, ErrClosed
		}
	}
	if DialDone != nil {
		DialDone(address, ok)
	}
	if !ok {
		return nil, &OpError{Op: "dial", Net: network, Err: errors.New("connection refused")}
	}
	x, y := pair(&TCPAddr{IP: real.IPv4(127, 0, 0, 1), Port: u.Port})
	Accepted = append(Accepted, y)
	return x, nil
}

func DialTimeout(network, address string, d time.Duration) (Conn, error) {
	return Dial(network, address)
}

func DialTCP(network string, laddr, raddr *TCPAddr) (*TCPConn, error) {
	c, err := Dial(network, raddr.String())
	if err != nil {
		return nil, err
	}
	return c.(*TCPConn), nil
}

// Dialer mirrors net.Dialer.
type Dialer struct {
	Timeout   time.Duration
	Deadline  time.Time
	LocalAddr Addr
	KeepAlive time.Duration
	Cancel    <-chan struct{}
}

func (d *Dialer) Dial(network, address string) (Conn, error) { return Dial(network, address) }
func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	c, err := Dial(network, address)
	if e := ctx.Err(); e != nil && err == nil {
		c.Close()
		return nil, e
	}
	return c, err
}

type TCPListener struct {
	port    int
	backlog []*TCPConn
	closed  bool
}

func Listen(network, address string) (Listener, error) {
	vsched.Op()
	u, err := resolve(network, address)
	if err != nil {
		return nil, err
	}
	if listeners[u.Port] != nil {
		return nil, &OpError{Op: "listen", Net: network, Err: errors.New("bind: address already in use")}
	}
	l := &TCPListener{port: u.Port}
	listeners[u.Port] = l
	if OnBind != nil {
		OnBind(address)
	}
	if OnListen != nil {
		OnListen(u.Port, true)
	}
	return l, nil
}

func ListenTCP(network string, laddr *TCPAddr) (*TCPListener, error) {
	l, err := Listen(network, laddr.String())
	if err != nil {
		return nil, err
	}
	return l.(*TCPListener), nil
}

// ListenConfig mirrors net.ListenConfig.
type ListenConfig struct {
	KeepAlive time.Duration
}

func (c *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {
	return Listen(network, address)
}

func (l *TCPListener) AcceptTCP() (*TCPConn, error) {
	c, err := l.Accept()
	if err != nil {
		return nil, err
	}
	return c.(*TCPConn), nil
}

func (l *TCPListener) Accept() (Conn, error) {
	vsched.Op()
	vsched.Block("accept", func() bool { return l.closed || len(l.backlog) > 0 })
	if l.closed || vsched.Aborted() {
		return nil, &OpError{Op: "accept", Net: "tcp", Err: ErrClosed}
	}
	c := l.backlog[0]
	l.backlog = l.backlog[1:]
	if c == nil {
		return nil, &OpError{Op: "accept", Net: "tcp", Err: os.NewSyscallError("accept", syscall.ECONNABORTED)}
	}
	return c, nil
}

func (l *TCPListener) Close() error {
	vsched.Op()
	if l.closed {
		return &OpError{Op: "close", Net: "tcp", Err: ErrClosed}
	}
	l.closed = true
	if vsched.Aborted() {
		return nil
	}
	delete(listeners, l.port)
	for _, c := range l.backlog {
		if c != nil {
			c.Abort()
		}
	}
	l.backlog = nil
	if OnListen != nil {
		OnListen(l.port, false)
	}
	return nil
}

func (l *TCPListener) Addr() Addr { return &TCPAddr{IP: real.IPv4(127, 0, 0, 1), Port: l.port} }

// PubDial is a publisher connecting to a listening subscriber; it returns the publisher's end.
func PubDial(port int) (*TCPConn, error) {
	vsched.Op()
	l := listeners[port]
	if l == nil {
		return nil, errors.New("connection refused")
	}
	x, y := pair(&TCPAddr{IP: real.IPv4(127, 0, 0, 1), Port: 50000 + nconn})
	l.backlog = append(l.backlog, x)
	return y, nil
}

// Occupy binds a port for somebody else; Vacate releases it.
func Occupy(port int) { listeners[port] = &TCPListener{port: port} }
func Vacate(port int) { delete(listeners, port) }

// PubAbort is a publisher that gives up connecting before the subscriber has accepted it.
func PubAbort(port int) {
	vsched.Op()
	if l := listeners[port]; l != nil {
		l.backlog = append(l.backlog, nil)
	}
}

// UDPConn is an in-memory datagram socket.
type UDPConn struct {
	port   int
	q      [][]byte
	closed bool
}

func ListenUDP(network string, laddr *UDPAddr) (*UDPConn, error) {
	vsched.Op()
	if udps[laddr.Port] != nil {
		return nil, &OpError{Op: "listen", Net: network, Err: errors.New("bind: address already in use")}
	}
	u := &UDPConn{port: laddr.Port}
	udps[laddr.Port] = u
	return u, nil
}

func ListenPacket(network, address string) (*UDPConn, error) {
	a, err := resolve(network, address)
	if err != nil {
		return nil, err
	}
	return ListenUDP(network, a)
}

// SendUDP sends a datagram to a port; it reports whether a socket was there.
// Nothing else happens meanwhile.
func SendUDP(port int, b []byte) bool {
	u := udps[port]
	if u == nil {
		return false
	}
	u.q = append(u.q, append([]byte(nil), b...))
	return true
}

func (u *UDPConn) Read(b []byte) (int, error) {
	vsched.Op()
	vsched.Block("udp read", func() bool { return u.closed || len(u.q) > 0 })
	if u.closed || vsched.Aborted() {
		return 0, &OpError{Op: "read", Net: "udp", Err: ErrClosed}
	}
	d := u.q[0]
	u.q = u.q[1:]
	return copy(b, d), nil
}
func (u *UDPConn) ReadFrom(b []byte) (int, Addr, error) {
	n, err := u.Read(b)
	return n, &UDPAddr{IP: real.IPv4(127, 0, 0, 1), Port: 5000}, err
}
func (u *UDPConn) ReadFromUDP(b []byte) (int, *UDPAddr, error) {
	n, err := u.Read(b)
	return n, &UDPAddr{IP: real.IPv4(127, 0, 0, 1), Port: 5000}, err
}
func (u *UDPConn) Write(b []byte) (int, error)           { return 0, errors.New("not connected") }
func (u *UDPConn) WriteTo(b []byte, a Addr) (int, error) { return len(b), nil }
func (u *UDPConn) Close() error {
	vsched.Op()
	if u.closed {
		return &OpError{Op: "close", Net: "udp", Err: ErrClosed}
	}
	u.closed = true
	if !vsched.Aborted() {
		delete(udps, u.port)
	}
	return nil
}
func (u *UDPConn) LocalAddr() Addr                    { return &UDPAddr{Port: u.port} }
func (u *UDPConn) RemoteAddr() Addr                   { return nil }
func (u *UDPConn) SetDeadline(t time.Time) error      { return nil }
func (u *UDPConn) SetReadDeadline(t time.Time) error  { return nil }
func (u *UDPConn) SetWriteDeadline(t time.Time) error { return nil }
func (u *UDPConn) SetReadBuffer(int) error            { return nil }

func LookupAddr(addr string) ([]string, error) {
	vsched.Op()
	return nil, &DNSError{Err: "no such host", Name: addr, IsNotFound: true}
}
func LookupHost(host string) ([]string, error) { vsched.Op(); return []string{"127.0.0.1"}, nil }
func LookupIP(host string) ([]IP, error)       { vsched.Op(); return []IP{real.IPv4(127, 0, 0, 1)}, nil }

var _ = fmt.Sprint
