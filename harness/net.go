package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/transport"
)

// vmem is a registered transport whose connections live in memory, under
// full control of the monitors: they record the bytes that pass, cut the
// stream up, refuse, stall and break on demand.

type host struct {
	name string

	mu      sync.Mutex
	lst     *memListener
	dials   []dialEvent
	accepts int
	links   []*link
	refuse  func(n int) error // fault for the n-th dial
	setup   func(l *link)     // called for each new link
	hang    bool              // dialling takes for ever
	capac   int
}

type dialEvent struct {
	at   time.Time
	tick int64
	err  error
}

// link is one connection: d is the end of the dialling side.
type link struct {
	host *host
	n    int
	d, l *memConn
	ab   *half // d -> l
	ba   *half // l -> d
}

type memAddr string

func (a memAddr) Network() string { return "vmem" }
func (a memAddr) String() string  { return string(a) }

var hosts sync.Map // name -> *host
var hostN atomic.Int64

// Host returns a new vmem host, whose end-point is "vmem://"+name.
func (t *T) Host() *host {
	h := &host{name: fmt.Sprintf("h%d", hostN.Add(1)), capac: 64 << 10}
	hosts.Store(h.name, h)
	t.Cleanup(func() { hosts.Delete(h.name) })
	return h
}

func (h *host) ep() string { return "vmem://" + h.name }

func (h *host) dialCount() int {
	h.mu.Lock()
	defer h.mu.Unlock()
	return len(h.dials)
}

// connected counts the links that are up at both ends.
func (h *host) live() []*link {
	h.mu.Lock()
	defer h.mu.Unlock()
	var ls []*link
	for _, l := range h.links {
		if !l.d.isClosed() && !l.l.isClosed() && !l.ab.isBroken() && !l.ba.isBroken() {
			ls = append(ls, l)
		}
	}
	return ls
}

func (h *host) allLinks() []*link {
	h.mu.Lock()
	defer h.mu.Unlock()
	return append([]*link(nil), h.links...)
}

func (h *host) dialEvents() []dialEvent {
	h.mu.Lock()
	defer h.mu.Unlock()
	return append([]dialEvent(nil), h.dials...)
}

type vmem struct{}

func (vmem) Addr(ep string) (string, error) { return ep, nil }

func (vmem) Dial(ctx context.Context, d transport.Dialer, addr string) (net.Conn, error) {
	v, ok := hosts.Load(addr)
	if !ok {
		return nil, &net.OpError{Op: "dial", Net: "vmem", Err: errors.New("no such host")}
	}
	return v.(*host).dial(ctx)
}

func (vmem) Listen(ctx context.Context, addr string) (net.Listener, error) {
	v, ok := hosts.Load(addr)
	if !ok {
		return nil, errors.New("vmem: no such host")
	}
	return v.(*host).listen()
}

func (h *host) listen() (*memListener, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if h.lst != nil {
		return nil, &net.OpError{Op: "listen", Net: "vmem", Err: syscall.EADDRINUSE}
	}
	l := &memListener{h: h, ch: make(chan *memConn, 1024), done: make(chan struct{})}
	h.lst = l
	return l, nil
}

func (h *host) dial(ctx context.Context) (net.Conn, error) {
	if err := ctx.Err(); err != nil {
		return nil, err // no attempt at all
	}
	h.mu.Lock()
	if h.hang {
		h.dials = append(h.dials, dialEvent{at: time.Now(), tick: tick.Load()})
		h.mu.Unlock()
		<-ctx.Done()
		return nil, ctx.Err()
	}
	n := len(h.dials)
	ev := dialEvent{at: time.Now(), tick: tick.Load()}
	if h.refuse != nil {
		ev.err = h.refuse(n)
	}
	if ev.err == nil && h.lst == nil {
		ev.err = &net.OpError{Op: "dial", Net: "vmem", Err: syscall.ECONNREFUSED}
	}
	h.dials = append(h.dials, ev)
	if ev.err != nil {
		h.mu.Unlock()
		return nil, ev.err
	}
	l := newLink(h.capac)
	l.host, l.n = h, len(h.links)
	h.links = append(h.links, l)
	lst, setup := h.lst, h.setup
	h.mu.Unlock()
	if setup != nil {
		setup(l)
	}
	select {
	case lst.ch <- l.l:
		select {
		case <-lst.done: // too late
			lst.drain()
		default:
		}
	case <-lst.done:
		l.l.Close()
	}
	return l.d, nil
}

type memListener struct {
	h    *host
	ch   chan *memConn
	done chan struct{}
	once sync.Once
}

func (l *memListener) Accept() (net.Conn, error) {
	select {
	case <-l.done:
		return nil, net.ErrClosed
	default:
	}
	select {
	case c := <-l.ch:
		l.h.mu.Lock()
		l.h.accepts++
		l.h.mu.Unlock()
		return c, nil
	case <-l.done:
		return nil, net.ErrClosed
	}
}

func (l *memListener) Close() error {
	l.once.Do(func() {
		l.h.mu.Lock()
		if l.h.lst == l {
			l.h.lst = nil
		}
		l.h.mu.Unlock()
		close(l.done)
		l.drain()
	})
	return nil
}

func (l *memListener) drain() {
	for {
		select {
		case c := <-l.ch:
			c.Close()
			continue
		default:
		}
		break
	}
}

func (l *memListener) Addr() net.Addr { return memAddr(l.h.name) }

// half is one direction of a link.
type half struct {
	mu    sync.Mutex
	cond  *sync.Cond
	buf   []byte
	cap   int
	eof   bool  // writer closed
	rdead bool  // reader closed
	werr  error // error for the writer
	rerr  error // error for the reader, once buf is empty
	total int64 // bytes accepted

	rec    bool
	log    []byte
	rng    *rand.Rand // cut reads up
	most   int
	stall  bool  // nothing is taken from writers
	cutAt  int64 // break after that many bytes, if >= 0
	cutErr error // what the reader sees (nil: EOF)
	rdl    time.Time
	wdl    time.Time
	onByte func(total int64)
}

func newHalf(capac int) *half {
	h := &half{cap: capac, cutAt: -1}
	h.cond = sync.NewCond(&h.mu)
	return h
}

func newLink(capac int) *link {
	ab, ba := newHalf(capac), newHalf(capac)
	l := &link{ab: ab, ba: ba}
	l.d = &memConn{r: ba, w: ab, name: "dialler"}
	l.l = &memConn{r: ab, w: ba, name: "listener"}
	return l
}

func (h *half) isBroken() bool {
	h.mu.Lock()
	defer h.mu.Unlock()
	return h.eof || h.rdead || h.werr != nil || h.rerr != nil
}

// cut breaks the direction after n more bytes in total.
func (h *half) cut(at int64, err error) {
	h.mu.Lock()
	h.cutAt, h.cutErr = at, err
	h.checkCut()
	h.cond.Broadcast()
	h.mu.Unlock()
}

func (h *half) checkCut() {
	if h.cutAt >= 0 && h.total >= h.cutAt && h.werr == nil {
		h.werr = &net.OpError{Op: "write", Net: "vmem", Err: syscall.EPIPE}
		if h.cutErr == nil {
			h.rerr = io.EOF
		} else {
			h.rerr = h.cutErr
		}
	}
}

func (h *half) setCap(n int) {
	if n <= 0 {
		return
	}
	h.mu.Lock()
	h.cap = n
	h.cond.Broadcast()
	h.mu.Unlock()
}

func (h *half) setStall(on bool) {
	h.mu.Lock()
	h.stall = on
	h.cond.Broadcast()
	h.mu.Unlock()
}

func (h *half) record() {
	h.mu.Lock()
	h.rec = true
	h.mu.Unlock()
}

func (h *half) recorded() []byte {
	h.mu.Lock()
	defer h.mu.Unlock()
	return append([]byte(nil), h.log...)
}

func (h *half) write(p []byte) (int, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	n := 0
	for {
		switch {
		case h.eof:
			return n, &net.OpError{Op: "write", Net: "vmem", Err: net.ErrClosed}
		case h.werr != nil:
			return n, h.werr
		case h.rdead:
			return n, &net.OpError{Op: "write", Net: "vmem", Err: syscall.EPIPE}
		case !h.wdl.IsZero() && !time.Now().Before(h.wdl):
			return n, os.ErrDeadlineExceeded
		}
		if n == len(p) {
			return n, nil
		}
		room := h.cap - len(h.buf)
		if h.stall {
			room = 0
		}
		if h.cutAt >= 0 {
			room = min(room, int(h.cutAt-h.total))
		}
		if room > 0 {
			k := min(room, len(p)-n)
			h.buf = append(h.buf, p[n:n+k]...)
			if h.rec {
				h.log = append(h.log, p[n:n+k]...)
			}
			n += k
			h.total += int64(k)
			if h.onByte != nil {
				h.onByte(h.total)
			}
			h.checkCut()
			h.cond.Broadcast()
			continue
		}
		h.cond.Wait()
	}
}

func (h *half) read(p []byte) (int, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	for {
		switch {
		case h.rdead:
			return 0, &net.OpError{Op: "read", Net: "vmem", Err: net.ErrClosed}
		case !h.rdl.IsZero() && !time.Now().Before(h.rdl):
			return 0, os.ErrDeadlineExceeded
		case len(p) == 0:
			return 0, nil
		case len(h.buf) > 0:
			k := min(len(p), len(h.buf))
			if h.rng != nil {
				k = min(k, 1+h.rng.Intn(h.most))
			}
			copy(p, h.buf[:k])
			h.buf = h.buf[k:]
			if len(h.buf) == 0 {
				h.buf = nil
			}
			h.cond.Broadcast()
			return k, nil
		case h.rerr != nil:
			return 0, h.rerr
		case h.eof:
			return 0, io.EOF
		}
		h.cond.Wait()
	}
}

type memConn struct {
	r, w   *half
	name   string
	closed atomic.Bool
	moans  atomic.Bool // Close reports an error
}

func (c *memConn) isClosed() bool              { return c.closed.Load() }
func (c *memConn) Read(p []byte) (int, error)  { return c.r.read(p) }
func (c *memConn) Write(p []byte) (int, error) { return c.w.write(p) }
func (c *memConn) LocalAddr() net.Addr         { return memAddr(c.name) }
func (c *memConn) RemoteAddr() net.Addr        { return memAddr("peer of " + c.name) }

func (c *memConn) Close() error {
	if c.closed.Swap(true) {
		return &net.OpError{Op: "close", Net: "vmem", Err: net.ErrClosed}
	}
	c.r.mu.Lock()
	c.r.rdead = true
	c.r.cond.Broadcast()
	c.r.mu.Unlock()
	c.w.mu.Lock()
	c.w.eof = true
	c.w.cond.Broadcast()
	c.w.mu.Unlock()
	if c.moans.Load() {
		return &net.OpError{Op: "close", Net: "vmem", Err: syscall.EIO}
	}
	return nil
}

func (c *memConn) setDL(h *half, p *time.Time, at time.Time) {
	h.mu.Lock()
	*p = at
	h.cond.Broadcast()
	h.mu.Unlock()
	if !at.IsZero() {
		time.AfterFunc(time.Until(at)+time.Millisecond, func() {
			h.mu.Lock()
			h.cond.Broadcast()
			h.mu.Unlock()
		})
	}
}
func (c *memConn) SetReadDeadline(at time.Time) error  { c.setDL(c.r, &c.r.rdl, at); return nil }
func (c *memConn) SetWriteDeadline(at time.Time) error { c.setDL(c.w, &c.w.wdl, at); return nil }
func (c *memConn) SetDeadline(at time.Time) error {
	_ = c.SetReadDeadline(at)
	return c.SetWriteDeadline(at)
}

var errReset = &net.OpError{Op: "read", Net: "vmem", Err: syscall.ECONNRESET}

// reset ends both directions at once.
func (l *link) reset() { l.fail(errReset) }

// fail ends both directions at once with the given error.
func (l *link) fail(err error) {
	l.ab.cut(0, err)
	l.ba.cut(0, err)
}

// The other errors with which tcp connections end. Mind that a connection
// that timed out says that it did, and is gone all the same.
var errTimedOut = &net.OpError{Op: "read", Net: "vmem", Err: os.NewSyscallError("read", syscall.ETIMEDOUT)}
var errUnreachable = &net.OpError{Op: "read", Net: "vmem", Err: os.NewSyscallError("read", syscall.EHOSTUNREACH)}

// chaos is tcp with reads and writes cut up.
type chaos struct{ transport.Transport }

var chaosN atomic.Int64

func wrapChaos(c net.Conn, err error) (net.Conn, error) {
	if err != nil {
		return nil, err
	}
	s := subseed(seed, "chaos", chaosN.Add(1))
	cc := &chaosConn{Conn: c, rr: rand.New(rand.NewSource(s)), wr: rand.New(rand.NewSource(s + 1))}
	cc.rmost = []int{1, 2, 7, 100, 5000}[cc.rr.Intn(5)]
	cc.wmost = []int{1, 3, 60, 2000, 1 << 20}[cc.wr.Intn(5)]
	return cc, nil
}

func (c chaos) Dial(ctx context.Context, d transport.Dialer, addr string) (net.Conn, error) {
	return wrapChaos(c.Transport.Dial(ctx, d, addr))
}

func (c chaos) Listen(ctx context.Context, addr string) (net.Listener, error) {
	l, err := c.Transport.Listen(ctx, addr)
	if err != nil {
		return nil, err
	}
	return chaosListener{l}, nil
}

type chaosListener struct{ net.Listener }

func (l chaosListener) Accept() (net.Conn, error) { return wrapChaos(l.Listener.Accept()) }

type chaosConn struct {
	net.Conn
	rmu, wmu     sync.Mutex
	rr, wr       *rand.Rand
	rmost, wmost int
	rn, wn       int
}

func (c *chaosConn) Read(p []byte) (int, error) {
	c.rmu.Lock()
	k := len(p)
	if c.rn < 3000 { // cut up the first part of a big transfer only
		k = min(k, 1+c.rr.Intn(c.rmost))
		c.rn++
	}
	c.rmu.Unlock()
	return c.Conn.Read(p[:k])
}

func (c *chaosConn) Write(p []byte) (int, error) {
	n := 0
	for n < len(p) {
		k := len(p) - n
		c.wmu.Lock()
		if c.wn < 1000 {
			k = min(k, 1+c.wr.Intn(c.wmost))
			c.wn++
		}
		nap := c.wr.Intn(200) == 0
		c.wmu.Unlock()
		m, err := c.Conn.Write(p[n : n+k])
		n += m
		if err != nil {
			return n, err
		}
		if nap {
			time.Sleep(100 * time.Microsecond)
		}
	}
	return n, nil
}

func init() {
	if err := zmq4.RegisterTransport("vmem", vmem{}); err != nil {
		panic(err)
	}
	// The address syntax of tcp has to be known to the transport by itself.
	if err := zmq4.RegisterTransport("chaos", chaos{transport.New("tcp")}); err != nil {
		panic(err)
	}
}
