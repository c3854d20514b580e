// Package net is the simulated network as the agent sees it: UDP and TCP client sockets and name
// resolution. The peers live in the harness.
package net

import (
	gocontext "context"
	"errors"
	"io"
	gonet "net"
	"os"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verifsim/simrt"
)

// N is the network of the current run (set by the harness).
var N *Network

type Network struct {
	// Resolve maps a host name; delay in ns.
	Resolve func(host string) (ip string, delay int64, err error)
	// UDP is called for every datagram handed to the kernel. stall blocks the caller first.
	UDP func(c *UDPConn, b []byte) (stall int64, err error)
	// Held says whether a write that is to stall for very long still stalls.
	Held func() bool
	// Dial decides a TCP connection attempt: after delay, err or a peer. delay<0: never answers.
	Dial             func(addr string) (delay int64, err error, accept func(c *TCPConn))
	UDPOpen, TCPOpen int
	nconn            int
	Conns            []*TCPConn
	UDPs             []*UDPConn
}

func opErr(op, network string, addr gonet.Addr, err error) error {
	return &gonet.OpError{Op: op, Net: network, Addr: addr, Err: err}
}

func splitHP(a string) (string, int, error) {
	h, p, err := gonet.SplitHostPort(a)
	if err != nil {
		return "", 0, err
	}
	n, e := strconv.Atoi(p)
	if e != nil || n < 0 || n > 65535 {
		return "", 0, &gonet.AddrError{Err: "invalid port", Addr: p}
	}
	return h, n, nil
}

// first is the address to use of several: an IPv4 one if there is any.
func first(l []gonet.IP) gonet.IP {
	for _, ip := range l {
		if ip.To4() != nil {
			return ip
		}
	}
	if len(l) > 0 {
		return l[0]
	}
	return nil
}

func parseIPs(s string) (l []gonet.IP) {
	for _, x := range strings.Split(s, ",") {
		if ip := gonet.ParseIP(x); ip != nil {
			l = append(l, ip)
		}
	}
	return
}

func lookup(h string) (gonet.IP, error) {
	l, err := lookupAll(h)
	return first(l), err
}

func lookupAll(h string) ([]gonet.IP, error) {
	simrt.Y(0)
	if h == "" {
		return nil, nil
	}
	if ip := gonet.ParseIP(h); ip != nil {
		return []gonet.IP{ip}, nil
	}
	ips, delay, err := N.Resolve(h)
	if delay > 0 {
		simrt.Sleep(delay)
	}
	if err != nil {
		return nil, err
	}
	return parseIPs(ips), nil
}

func ResolveUDPAddr(network, a string) (*gonet.UDPAddr, error) {
	h, p, err := splitHP(a)
	if err != nil {
		return nil, err
	}
	ip, err := lookup(h)
	if err != nil {
		return nil, err
	}
	return &gonet.UDPAddr{IP: ip, Port: p}, nil
}
func ResolveTCPAddr(network, a string) (*gonet.TCPAddr, error) {
	h, p, err := splitHP(a)
	if err != nil {
		return nil, err
	}
	ip, err := lookup(h)
	if err != nil {
		return nil, err
	}
	return &gonet.TCPAddr{IP: ip, Port: p}, nil
}
func ResolveIPAddr(network, a string) (*gonet.IPAddr, error) {
	ip, err := lookup(a)
	if err != nil {
		return nil, err
	}
	return &gonet.IPAddr{IP: ip}, nil
}
func LookupHost(h string) ([]string, error) {
	l, err := lookupAll(h)
	if err != nil {
		return nil, err
	}
	var out []string
	for _, ip := range l {
		out = append(out, ip.String())
	}
	return out, nil
}
func LookupIP(h string) ([]gonet.IP, error) {
	return lookupAll(h)
}
func InterfaceAddrs() ([]gonet.Addr, error) {
	return []gonet.Addr{&gonet.IPNet{IP: gonet.IPv4(10, 0, 0, 9), Mask: gonet.CIDRMask(24, 32)}}, nil
}

var ErrDNS = func(h string, timeout bool) error {
	return &gonet.DNSError{Err: "no such host", Name: h, IsNotFound: !timeout, IsTimeout: timeout}
}

// ---------------------------------------------------------------- UDP

type UDPConn struct {
	laddr, raddr *gonet.UDPAddr
	closed       bool
	ID           int
	Opened       int64
	w            []*simrt.Waiter
	wdl          int64
	Proc         int
}

func DialUDP(network string, l, r *gonet.UDPAddr) (*UDPConn, error) {
	simrt.Y(0)
	if r == nil {
		return nil, opErr("dial", network, nil, errors.New("missing address"))
	}
	N.nconn++
	N.UDPOpen++
	c := &UDPConn{laddr: &gonet.UDPAddr{IP: gonet.IPv4(10, 0, 0, 9), Port: 40000 + N.nconn}, raddr: r, ID: N.nconn, Opened: simrt.Now(), Proc: simrt.Cur().Proc}
	if c.raddr.IP == nil {
		c.raddr = &gonet.UDPAddr{IP: gonet.IPv4(127, 0, 0, 1), Port: r.Port}
	}
	N.UDPs = append(N.UDPs, c)
	return c, nil
}
func (c *UDPConn) LocalAddr() gonet.Addr  { return c.laddr }
func (c *UDPConn) RemoteAddr() gonet.Addr { return c.raddr }
func (c *UDPConn) Remote() string         { return c.raddr.String() }
func (c *UDPConn) IsClosed() bool         { return c.closed }
func (c *UDPConn) Write(b []byte) (int, error) {
	if c.closed {
		return 0, opErr("write", "udp", c.raddr, gonet.ErrClosed)
	}
	simrt.Y(0)
	if c.closed {
		return 0, opErr("write", "udp", c.raddr, gonet.ErrClosed)
	}
	if len(b) > 65507 {
		return 0, opErr("write", "udp", c.raddr, os.NewSyscallError("write", syscall.EMSGSIZE))
	}
	stall, err := N.UDP(c, b)
	if stall > 0 {
		if c.wdl > 0 && simrt.Now()+stall > c.wdl {
			simrt.Sleep(c.wdl - simrt.Now())
			return 0, opErr("write", "udp", c.raddr, os.ErrDeadlineExceeded)
		}
		for end := simrt.Now() + stall; simrt.Now() < end; { // a long one ends when the test says so
			if end-simrt.Now() > 3600e9 && N.Held != nil {
				if !N.Held() {
					break
				}
				simrt.Sleep(250e6)
				continue
			}
			simrt.Sleep(end - simrt.Now())
		}
	}
	if err != nil {
		return 0, opErr("write", "udp", c.raddr, err)
	}
	return len(b), nil
}
func (c *UDPConn) Read(b []byte) (int, error) {
	w := simrt.NewWaiter()
	c.w = append(c.w, w)
	for !c.closed {
		w.Park("udp read")
	}
	return 0, opErr("read", "udp", c.raddr, gonet.ErrClosed)
}
func (c *UDPConn) Close() error {
	if c.closed {
		return opErr("close", "udp", c.raddr, gonet.ErrClosed)
	}
	simrt.Y(0)
	if !c.closed {
		c.closed = true
		N.UDPOpen--
	}
	for _, w := range c.w {
		w.Wake()
	}
	return nil
}
func (c *UDPConn) SetDeadline(t time.Time) error      { return c.SetWriteDeadline(t) }
func (c *UDPConn) SetReadDeadline(t time.Time) error  { return nil }
func (c *UDPConn) SetWriteDeadline(t time.Time) error { c.wdl = dl(t); return nil }
func (c *UDPConn) SetWriteBuffer(int) error           { return nil }
func (c *UDPConn) SetReadBuffer(int) error            { return nil }

// on a connected socket, as all here are
func (c *UDPConn) WriteToUDP(b []byte, _ *gonet.UDPAddr) (int, error) {
	return 0, opErr("write", "udp", c.raddr, gonet.ErrWriteToConnected)
}
func (c *UDPConn) WriteTo(b []byte, _ gonet.Addr) (int, error) {
	return 0, opErr("write", "udp", c.raddr, gonet.ErrWriteToConnected)
}
func (c *UDPConn) ReadFromUDP(b []byte) (int, *gonet.UDPAddr, error) {
	n, err := c.Read(b)
	return n, c.raddr, err
}
func (c *UDPConn) ReadFrom(b []byte) (int, gonet.Addr, error) {
	n, err := c.Read(b)
	return n, c.raddr, err
}

// ---------------------------------------------------------------- TCP

// Peer is the harness side of a connection.
type Peer interface {
	OnData(c *TCPConn, b []byte)
	OnClose(c *TCPConn)
}

type TCPConn struct {
	ID           int
	Addr         string
	P            Peer
	rx           [][]byte
	eof          bool
	rerr         error
	closed       bool
	rdl          int64
	wdl          int64
	rw, ww       []*simrt.Waiter
	Stalled      bool // the peer does not read: writes fill the window and block
	Window       int
	inFlight     int
	Proc         int
	raddr        *gonet.TCPAddr
	Opened       int64
	ClosedAt     int64
	ReadsBlocked int
	reads        uint64
}

// dl converts a deadline (carrying a simulated clock reading) to simulated monotonic ns.
func dl(t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	d := int64(t.Sub(now()))
	at := simrt.Now() + d
	if at <= 0 {
		at = 1
	}
	return at
}

var now func() time.Time

func SetNow(f func() time.Time) { now = f }

func dialTCP(addr string, timeout int64) (*TCPConn, error) {
	simrt.Y(0)
	start := simrt.Now()
	h, p, err := splitHP(addr)
	if err != nil {
		return nil, opErr("dial", "tcp", nil, err)
	}
	toErr := func() error {
		return opErr("dial", "tcp", &gonet.TCPAddr{Port: p}, os.ErrDeadlineExceeded)
	}
	if timeout < 0 {
		return nil, toErr()
	}
	lim := timeout
	if lim == 0 {
		lim = int64(127 * time.Second)
	}
	var ips []gonet.IP
	if h != "" {
		if ip := gonet.ParseIP(h); ip != nil {
			ips = append(ips, ip)
		} else {
			l, delay, err := N.Resolve(h)
			if delay > lim {
				simrt.Sleep(lim)
				return nil, toErr()
			}
			simrt.Sleep(delay)
			if err != nil {
				return nil, opErr("dial", "tcp", nil, err)
			}
			ips = parseIPs(l)
		}
	} else {
		ips = append(ips, gonet.IPv4(127, 0, 0, 1))
	}
	// one address after the other, each with its share of the time
	var fail error
	for i, ip := range ips {
		ra := &gonet.TCPAddr{IP: ip, Port: p}
		left := lim - (simrt.Now() - start)
		if left <= 0 {
			break
		}
		if share := left / int64(len(ips)-i); share < left {
			left = min(left, max(share, int64(2*time.Second)))
		}
		t0 := simrt.Now()
		delay, derr, accept := N.Dial(ra.String())
		left -= simrt.Now() - t0
		if delay < 0 || delay > left {
			simrt.Sleep(left)
			if fail == nil {
				fail = toErr()
			}
			continue
		}
		simrt.Sleep(delay)
		if derr != nil {
			if fail == nil {
				fail = opErr("dial", "tcp", ra, derr)
			}
			continue
		}
		N.nconn++
		N.TCPOpen++
		c := &TCPConn{ID: N.nconn, Addr: ra.String(), Window: 65536, Proc: simrt.Cur().Proc, raddr: ra, Opened: simrt.Now()}
		N.Conns = append(N.Conns, c)
		accept(c)
		return c, nil
	}
	if fail == nil {
		fail = toErr()
	}
	return nil, fail
}

func DialTimeout(network, addr string, d time.Duration) (gonet.Conn, error) {
	if strings.HasPrefix(network, "udp") {
		return dialUDPAny(network, addr)
	}
	c, err := dialTCP(addr, int64(d))
	if err != nil {
		return nil, err
	}
	return c, nil
}
func Dial(network, addr string) (gonet.Conn, error) { return DialTimeout(network, addr, 0) }
func DialTCP(network string, l, r *gonet.TCPAddr) (*TCPConn, error) {
	return dialTCP(r.String(), 0)
}
func dialUDPAny(network, addr string) (gonet.Conn, error) {
	a, err := ResolveUDPAddr(network, addr)
	if err != nil {
		return nil, err
	}
	c, err := DialUDP(network, nil, a)
	if err != nil {
		return nil, err
	}
	return c, nil
}

type Dialer struct {
	Timeout   time.Duration
	Deadline  time.Time
	KeepAlive time.Duration
	LocalAddr gonet.Addr
}

func (d *Dialer) Dial(network, addr string) (gonet.Conn, error) {
	return d.DialContext(gocontext.Background(), network, addr)
}

func (d *Dialer) DialContext(ctx gocontext.Context, network, addr string) (gonet.Conn, error) {
	if err := ctx.Err(); err != nil {
		return nil, opErr("dial", network, nil, err)
	}
	lim := d.Timeout
	less := func(t time.Time) {
		if t.IsZero() {
			return
		}
		left := time.Duration(max(1, t.Sub(now())))
		if lim == 0 || left < lim {
			lim = left
		}
	}
	less(d.Deadline)
	if t, ok := ctx.Deadline(); ok {
		less(t)
	}
	return DialTimeout(network, addr, lim)
}

// ---- peer side

// Deliver makes b readable as one segment.
func (c *TCPConn) Deliver(b []byte) {
	if c.closed || c.rerr != nil || c.eof || len(b) == 0 {
		return
	}
	c.rx = append(c.rx, append([]byte(nil), b...))
	c.wakeR()
}
func (c *TCPConn) PeerClose() { c.eof = true; c.wakeR(); c.P = nil }
func (c *TCPConn) Reset() {
	c.rx = nil
	c.rerr = os.NewSyscallError("read", syscall.ECONNRESET)
	c.P = nil
	c.wakeR()
	c.wakeW()
}
func (c *TCPConn) IsClosed() bool { return c.closed }
func (c *TCPConn) Pending() int {
	n := 0
	for _, b := range c.rx {
		n += len(b)
	}
	return n
}
func (c *TCPConn) Unstall() { c.Stalled = false; c.inFlight = 0; c.wakeW() }
func (c *TCPConn) wakeR() {
	for _, w := range c.rw {
		w.Wake()
	}
	c.rw = nil
}
func (c *TCPConn) wakeW() {
	for _, w := range c.ww {
		w.Wake()
	}
	c.ww = nil
}

// ---- agent side

func (c *TCPConn) Read(p []byte) (int, error) {
	if c.closed {
		return 0, opErr("read", "tcp", c.raddr, gonet.ErrClosed)
	}
	simrt.Y(0)
	for {
		if c.closed {
			return 0, opErr("read", "tcp", c.raddr, gonet.ErrClosed)
		}
		if len(p) == 0 {
			return 0, nil
		}
		if len(c.rx) > 0 && !(c.rdl > 0 && simrt.Now() >= c.rdl) {
			// what has arrived may be one stretch by now, or still come segment by segment
			c.reads++
			whole := simrt.Mix(uint64(simrt.Now()), c.reads)&1 == 0
			n := 0
			for n < len(p) && len(c.rx) > 0 {
				k := copy(p[n:], c.rx[0])
				n += k
				if k == len(c.rx[0]) {
					c.rx = c.rx[1:]
				} else {
					c.rx[0] = c.rx[0][k:]
				}
				if !whole {
					break
				}
			}
			return n, nil
		}
		if c.rerr != nil {
			return 0, opErr("read", "tcp", c.raddr, c.rerr)
		}
		if c.eof {
			return 0, io.EOF
		}
		if c.rdl > 0 && simrt.Now() >= c.rdl {
			return 0, opErr("read", "tcp", c.raddr, os.ErrDeadlineExceeded)
		}
		w := simrt.NewWaiter()
		c.rw = append(c.rw, w)
		w.ParkUntil("tcp read", c.rdl)
	}
}
func (c *TCPConn) Write(b []byte) (int, error) {
	if c.closed {
		return 0, opErr("write", "tcp", c.raddr, gonet.ErrClosed)
	}
	simrt.Y(0)
	done := 0
	for {
		if c.closed {
			return done, opErr("write", "tcp", c.raddr, gonet.ErrClosed)
		}
		if c.rerr != nil {
			return done, opErr("write", "tcp", c.raddr, os.NewSyscallError("write", syscall.EPIPE))
		}
		if c.wdl > 0 && simrt.Now() >= c.wdl {
			return done, opErr("write", "tcp", c.raddr, os.ErrDeadlineExceeded)
		}
		room := len(b) - done
		if c.Stalled && room > c.Window-c.inFlight {
			room = c.Window - c.inFlight
		}
		if room > 0 || done == len(b) {
			chunk := append([]byte(nil), b[done:done+room]...)
			done += room
			if c.Stalled {
				c.inFlight += room
			}
			if c.P != nil && len(chunk) > 0 {
				c.P.OnData(c, chunk)
			}
			if done == len(b) {
				return done, nil
			}
			continue
		}
		w := simrt.NewWaiter()
		c.ww = append(c.ww, w)
		w.ParkUntil("tcp write", c.wdl)
	}
}
func (c *TCPConn) Close() error {
	if c.closed {
		return opErr("close", "tcp", c.raddr, gonet.ErrClosed)
	}
	simrt.Y(0)
	if c.closed {
		return nil
	}
	c.closed = true
	c.ClosedAt = simrt.Now()
	N.TCPOpen--
	c.wakeR()
	c.wakeW()
	if c.P != nil {
		c.P.OnClose(c)
	}
	return nil
}

// Kill is what the kernel does when the process dies.
func (c *TCPConn) Kill() {
	if !c.closed {
		c.closed = true
		c.ClosedAt = simrt.Now()
		N.TCPOpen--
		if c.P != nil {
			c.P.OnClose(c)
		}
	}
}
func (c *UDPConn) Kill() {
	if !c.closed {
		c.closed = true
		N.UDPOpen--
	}
}
func (c *TCPConn) CloseRead() error  { return nil }
func (c *TCPConn) CloseWrite() error { return nil }
func (c *TCPConn) LocalAddr() gonet.Addr {
	return &gonet.TCPAddr{IP: gonet.IPv4(10, 0, 0, 9), Port: 50000 + c.ID}
}
func (c *TCPConn) RemoteAddr() gonet.Addr        { return c.raddr }
func (c *TCPConn) SetDeadline(t time.Time) error { c.SetReadDeadline(t); return c.SetWriteDeadline(t) }
func (c *TCPConn) SetReadDeadline(t time.Time) error {
	if c.closed {
		return opErr("set", "tcp", c.raddr, gonet.ErrClosed)
	}
	c.rdl = dl(t)
	c.wakeR()
	return nil
}
func (c *TCPConn) SetWriteDeadline(t time.Time) error {
	if c.closed {
		return opErr("set", "tcp", c.raddr, gonet.ErrClosed)
	}
	c.wdl = dl(t)
	c.wakeW()
	return nil
}
func (c *TCPConn) SetKeepAlive(bool) error                { return nil }
func (c *TCPConn) SetKeepAlivePeriod(time.Duration) error { return nil }
func (c *TCPConn) SetNoDelay(bool) error                  { return nil }
func (c *TCPConn) SetLinger(int) error                    { return nil }
func (c *TCPConn) SetReadBuffer(int) error                { return nil }
func (c *TCPConn) SetWriteBuffer(int) error               { return nil }
