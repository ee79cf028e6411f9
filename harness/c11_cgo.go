//go:build cgo

package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"time"

	czmq4 "github.com/luxfi/czmq/v4"
	zmq4 "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/security/plain"
)

// csock is a socket of libzmq, used by one thread only.
type csock struct {
	t    *T
	s    *czmq4.Sock
	out  chan [][]byte
	mu   sync.Mutex
	got  [][][]byte
	next int
	quit chan struct{}
	end  chan struct{}
}

var ctypes = map[zmq4.SocketType]int{
	zmq4.Pair: czmq4.Pair, zmq4.Pub: czmq4.Pub, zmq4.Sub: czmq4.Sub, zmq4.Req: czmq4.Req, zmq4.Rep: czmq4.Rep,
	zmq4.Dealer: czmq4.Dealer, zmq4.Router: czmq4.Router, zmq4.Pull: czmq4.Pull, zmq4.Push: czmq4.Push,
	zmq4.XPub: czmq4.XPub, zmq4.XSub: czmq4.XSub,
}

// cSock starts a libzmq socket; setup runs in its thread.
func (t *T) cSock(typ zmq4.SocketType, setup func(s *czmq4.Sock) error) *csock {
	c := &csock{t: t, out: make(chan [][]byte), quit: make(chan struct{}), end: make(chan struct{})}
	ready := make(chan error, 1)
	zsys.Do(func() { czmq4.NewSock(czmq4.Pair).Destroy() })
	go func() {
		runtime.LockOSThread()
		defer close(c.end)
		s := czmq4.NewSock(ctypes[typ])
		defer s.Destroy()
		err := setup(s)
		ready <- err
		if err != nil {
			return
		}
		idle := 0
		for {
			select {
			case <-c.quit:
				return
			case m := <-c.out:
				if err := s.SendMessage(m); err != nil {
					t.Violate("libzmq %s: send: %v", typ, err)
				}
				idle = 0
				continue
			default:
			}
			if s.Pollin() {
				fs, err := s.RecvMessageNoWait()
				if err != nil {
					// asking for events was interrupted
					time.Sleep(time.Millisecond)
					continue
				}
				c.mu.Lock()
				c.got = append(c.got, fs)
				c.mu.Unlock()
				idle = 0
				continue
			}
			if idle++; idle > 20 {
				select {
				case <-c.quit:
					return
				case m := <-c.out:
					if err := s.SendMessage(m); err != nil {
						t.Violate("libzmq %s: send: %v", typ, err)
					}
				case <-time.After(200 * time.Microsecond):
				}
			} else {
				runtime.Gosched()
			}
		}
	}()
	t.Cleanup(func() {
		close(c.quit)
		waitCh(c.end, patience)
	})
	var err error
	t.Within(patience, "libzmq socket", func() { err = <-ready })
	if err != nil {
		t.Skip("libzmq socket: %v", err)
	}
	return c
}

func (c *csock) send(fs ...[]byte) {
	dl := after(patience)
	for {
		select {
		case c.out <- fs:
			return
		case <-time.After(50 * time.Millisecond):
			if dl.passed() {
				c.t.Violate("libzmq does not take a message: its peer does not read")
			}
		}
	}
}

func (c *csock) try() ([][]byte, bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.next < len(c.got) {
		c.next++
		return c.got[c.next-1], true
	}
	return nil, false
}

func (c *csock) recv() (m [][]byte) {
	c.t.Until(patience, "a message arrives at libzmq", func() bool {
		x, ok := c.try()
		m = x
		return ok
	})
	return
}

// port is a socket of either library.
type port struct {
	t   *T
	typ zmq4.SocketType
	l   *Sock
	box *inbox
	nxt int
	c   *csock
}

func (p *port) String() string {
	if p.l != nil {
		return string(p.typ)
	}
	return "libzmq " + string(p.typ)
}

func (p *port) send(fs ...[]byte) {
	if p.c != nil {
		p.c.send(fs...)
		count("messages from libzmq", 1)
		return
	}
	count("messages to libzmq", 1)
	if p.typ == zmq4.Req {
		p.t.sendReq(p.l, fs...)
		return
	}
	p.t.send(p.l, p.t.Bool(), fs...)
}

func (p *port) try() ([][]byte, bool) {
	if p.c != nil {
		return p.c.try()
	}
	if p.box.n() > p.nxt {
		p.nxt++
		return p.box.all()[p.nxt-1], true
	}
	return nil, false
}

func (p *port) recv() (m [][]byte) {
	if p.c != nil {
		return p.c.recv()
	}
	if p.typ == zmq4.Req {
		return p.t.recv(p.l)
	}
	p.t.Until(patience, "a message arrives at "+p.String(), func() bool {
		x, ok := p.try()
		m = x
		return ok
	})
	return
}

type interop struct {
	t    *T
	what string
	g    int
}

func (x *interop) msg(i int) [][]byte {
	sh := shape{6, 1500}
	if x.t.Chance(5) {
		sh.maxSize = 300000
	}
	return mkMsg("t", x.g, i, sh)
}

// stream sends n messages from a to b.
func (x *interop) stream(a, b *port, n int, pre [][]byte, post int) {
	x.g++
	g := x.g
	var sent [][][]byte
	for i := 0; i < n; i++ {
		sent = append(sent, x.msg(i))
	}
	_ = g
	x.t.Par(60*time.Second, x.what+": stream", func() {
		for _, m := range sent {
			a.send(append(append([][]byte{}, pre...), m...)...)
		}
	}, func() {
		for i := 0; i < n; {
			m := b.recv()
			if len(m) > 0 && string(m[len(m)-1]) == "sync" {
				continue
			}
			if len(m) < post || !eqFrames(m[post:], sent[i]) {
				x.t.Violate("%s: %v received %s, %v sent %s", x.what, b, show(m), a, show(sent[i]))
			}
			i++
		}
	})
}

// sync sends from a until b receives.
func (x *interop) sync(a, b *port, fs ...[]byte) {
	var got bool
	if !until(patience, func() bool {
		a.send(append(fs, []byte("sync"))...)
		got = until(20*time.Millisecond, func() bool {
			m, ok := b.try()
			return ok && string(m[len(m)-1]) == "sync"
		})
		return got
	}) {
		x.t.Violate("%s: nothing that %v sends arrives at %v", x.what, a, b)
	}
}

// reqrep: a asks, b answers.
func (x *interop) reqrep(a, b *port, n int, apre, bpost int) {
	for i := 0; i < n; i++ {
		q, p := x.msg(i), x.msg(i+1000)
		var env [][]byte
		if apre > 0 {
			env = [][]byte{nil}
		}
		a.send(append(env, q...)...)
		m := b.recv()
		if len(m) < bpost || !eqFrames(m[bpost:], q) {
			x.t.Violate("%s: %v received %s, %v sent %s", x.what, b, show(m), a, show(q))
		}
		b.send(append(cloneFrames(m[:bpost]), p...)...)
		m = a.recv()
		if len(m) < apre || !eqFrames(m[apre:], p) {
			x.t.Violate("%s: %v received %s, %v answered %s", x.what, a, show(m), b, show(p))
		}
	}
}

var zsys sync.Once // libczmq initializes itself with the first socket

var zap struct {
	once sync.Once
	err  error
}

// allow makes libzmq accept the user name and password of the tests.
func (t *T) allow() {
	zap.once.Do(func() {
		zsys.Do(func() { czmq4.NewSock(czmq4.Pair).Destroy() })
		f := filepath.Join(scratch, "passwords")
		if zap.err = os.WriteFile(f, []byte("user=pass\n"), 0o600); zap.err == nil {
			zap.err = czmq4.NewAuth().Plain(f)
		}
	})
	if zap.err != nil {
		t.Skip("ZAP: %v", zap.err)
	}
}

type interKind struct{ l, c zmq4.SocketType }

var interKinds = func() (ks []interKind) {
	for _, a := range zmtpTypes {
		for _, b := range strings.Fields(c10pairs[string(a)]) {
			ks = append(ks, interKind{a, zmq4.SocketType(b)})
		}
	}
	return
}()

func c11Interop(t *T) {
	k := interKinds[t.idx%len(interKinds)]
	cBinds := t.Bool()
	tr := pick(t, "tcp", "tcp", "ipc")
	// (libzmq 4.3.5 trips over the user id when a REQ is a PLAIN server.)
	pl := t.Chance(25) && !(cBinds && k.c == zmq4.Req)
	idL, idC := fmt.Sprintf("lib-%d", t.idx), fmt.Sprintf("czmq-%d", t.idx)
	var opts []zmq4.Option
	if pl {
		opts = append(opts, zmq4.WithSecurity(plain.Security("user", "pass")))
	}
	l := &port{t: t, typ: k.l, l: t.Sock(k.l, append(opts, zmq4.WithID(zmq4.SocketIdentity(idL)))...)}
	what := fmt.Sprintf("%s and libzmq %s over %s (libzmq binds=%v, plain=%v)", k.l, k.c, tr, cBinds, pl)
	t.Log("%s", what)
	if k.l == zmq4.Sub {
		_ = l.l.SetOption(zmq4.OptionSubscribe, "t/")
	}
	if pl && cBinds {
		t.allow()
	}
	// The limits of libzmq count messages: nothing is dropped here.
	common := func(s *czmq4.Sock) {
		s.SetOption(czmq4.SockSetLinger(0))
		switch k.c {
		case zmq4.Req, zmq4.Dealer, zmq4.Router:
			s.SetOption(czmq4.SockSetIdentity(idC))
		}
		if pl {
			if cBinds {
				s.SetOption(czmq4.SockSetPlainServer(1))
			} else {
				s.SetOption(czmq4.SockSetPlainUsername("user"))
				s.SetOption(czmq4.SockSetPlainPassword("pass"))
			}
		}
		if k.c == zmq4.Sub {
			s.SetOption(czmq4.SockSetSubscribe("t/"))
		}
	}
	var c *csock
	if cBinds {
		ep := t.fresh(tr)
		var port int
		c = t.cSock(k.c, func(s *czmq4.Sock) (err error) {
			common(s)
			bind := ep
			if tr == "tcp" {
				bind = "tcp://" + t.ip + ":*"
			}
			port, err = s.Bind(bind)
			return err
		})
		if tr == "tcp" {
			ep = fmt.Sprintf("tcp://%s:%d", t.ip, port)
		}
		t.dial(l.l, ep)
	} else {
		ep := t.bind(l.l, t.fresh(tr))
		c = t.cSock(k.c, func(s *czmq4.Sock) error {
			common(s)
			return s.Connect(ep)
		})
	}
	p := &port{t: t, typ: k.c, c: c}
	switch k.l {
	case zmq4.Push, zmq4.Req, zmq4.Pub:
	default:
		l.box = t.pump(l.l)
	}
	x := &interop{t: t, what: what}
	n := 25
	both := func(pre1 [][]byte, post1 int, pre2 [][]byte, post2 int) {
		t.Par(90*time.Second, what, func() {
			(&interop{t: t, what: what, g: 10}).stream(l, p, n, pre1, post1)
		}, func() {
			(&interop{t: t, what: what, g: 20}).stream(p, l, n, pre2, post2)
		})
	}
	id := func(a *port) []byte { // identity of the peer of a
		if a == l {
			return []byte(idC)
		}
		return []byte(idL)
	}
	a, b := l, p
	for i := 0; i < 2; i++ {
		if i == 1 {
			a, b = p, l
		}
		switch {
		case a.typ == zmq4.Push:
			x.sync(a, b)
			x.stream(a, b, 2*n, nil, 0)
		case a.typ == zmq4.Pair && i == 0, a.typ == zmq4.Dealer && b.typ == zmq4.Dealer && i == 0:
			x.sync(a, b)
			x.sync(b, a)
			both(nil, 0, nil, 0)
		case a.typ == zmq4.Dealer && b.typ == zmq4.Router:
			x.sync(a, b)
			pr := [][]byte{id(b)}
			if a == l {
				both(nil, 1, pr, 0)
			} else {
				both(pr, 0, nil, 1)
			}
		case a.typ == zmq4.Router && b.typ == zmq4.Router && i == 0:
			x.sync(a, b, id(a))
			x.sync(b, a, id(b))
			both([][]byte{id(a)}, 1, [][]byte{id(b)}, 1)
		case a.typ == zmq4.Req && b.typ == zmq4.Rep:
			x.reqrep(a, b, n, 0, 0)
		case a.typ == zmq4.Req && b.typ == zmq4.Router:
			x.reqrep(a, b, n, 0, 2)
		case a.typ == zmq4.Dealer && b.typ == zmq4.Rep:
			x.reqrep(a, b, n, 1, 0)
		case (a.typ == zmq4.Pub || a.typ == zmq4.XPub):
			if b.typ == zmq4.XSub {
				if b == l {
					t.Until(patience, what+": the connection is there", func() bool { return b.l.put(false, []byte("\x01t/")) == nil })
				} else {
					b.send([]byte("\x01t/"))
				}
			}
			if a.typ == zmq4.XPub && a == p {
				// libzmq passes subscriptions on to the application
				if m := a.recv(); !eqFrames(m, [][]byte{[]byte("\x01t/")}) {
					t.Violate("%s: libzmq received the subscription %s", what, show(m))
				}
			}
			x.sync(a, b, []byte("t/"))
			for j := 0; j < 5; j++ {
				a.send([]byte("u/"), []byte("for nobody"))
				a.send([]byte("t"), []byte("for nobody"))
			}
			x.stream(a, b, 2*n, nil, 0)
			// and no longer
			switch {
			case b == l && b.typ == zmq4.Sub:
				_ = b.l.SetOption(zmq4.OptionUnsubscribe, "t/")
			case b.typ == zmq4.XSub:
				b.send([]byte("\x00t/"))
			default:
				break
			}
			if b == l || b.typ == zmq4.XSub {
				if a.typ == zmq4.XPub && a == p {
					if m := a.recv(); !eqFrames(m, [][]byte{[]byte("\x00t/")}) {
						t.Violate("%s: libzmq received the unsubscription %s", what, show(m))
					}
				} else if a == l {
					t.Until(patience, what+": unsubscribed", func() bool { return len(topics(a.l)) == 0 })
				} else {
					break // libzmq does not tell
				}
				a.send([]byte("t/late"))
				settle()
				for {
					m, ok := b.try()
					if !ok {
						break
					}
					if string(m[0]) == "t/late" {
						t.Violate("%s: %v received %s after unsubscribing", what, b, show(m))
					}
				}
			}
		}
	}
	if l.box != nil {
		if es := l.box.errors(); len(es) > 0 {
			t.Violate("%s: Recv: %v", what, es[0])
		}
	}
	t.Key("libzmq", k, cBinds, tr, pl)
}

// c11Heartbeat: libzmq sends PINGs, and gives up a peer that does not answer.
func c11Heartbeat(t *T) {
	s := t.Sock(zmq4.Pull)
	ep := t.bind(s, t.fresh(pick(t, "tcp", "ipc")))
	c := t.cSock(zmq4.Push, func(s *czmq4.Sock) error {
		s.SetOption(czmq4.SockSetLinger(0))
		s.SetOption(czmq4.SockSetHeartbeatIvl(50))
		s.SetOption(czmq4.SockSetHeartbeatTimeout(1500))
		if t.idx%2 == 1 {
			s.SetOption(czmq4.SockSetHeartbeatTtl(3000))
		}
		return s.Connect(ep)
	})
	box := t.pump(s)
	for i := 0; i < 8; i++ {
		c.send([]byte(fmt.Sprint(i)))
		time.Sleep(450 * time.Millisecond)
	}
	if !box.wait(8, patience) {
		t.Violate("PULL received %d of 8 messages from a libzmq PUSH with heartbeats", box.n())
	}
	if es := box.errors(); len(es) > 0 {
		t.Violate("a libzmq PUSH with heartbeats breaks the connection off: %v", es[0])
	}
	for i, m := range box.all() {
		if !eqFrames(m, [][]byte{[]byte(fmt.Sprint(i))}) {
			t.Violate("PULL received %s as message %d of a libzmq PUSH with heartbeats", show(m), i)
		}
	}
	t.Key("heartbeat", t.idx%2)
}

// c11Wrapper: the sockets of libzmq as this library wraps them.
func c11Wrapper(t *T) {
	zsys.Do(func() { czmq4.NewSock(czmq4.Pair).Destroy() })
	ep := "ipc://" + strings.TrimPrefix(t.fresh("ipc"), "ipc://")
	pull, push := zmq4.NewCPull(nilCtx), zmq4.NewPush(nilCtx)
	defer push.Close()
	if t.Bool() {
		if err := pull.Listen(ep); err != nil {
			t.Skip("listen: %v", err)
		}
		if err := push.Dial(ep); err != nil {
			t.Violate("PUSH: Dial: %v", err)
		}
	} else {
		if err := push.Listen(ep); err != nil {
			t.Violate("PUSH: Listen: %v", err)
		}
		if err := pull.Dial(ep); err != nil {
			t.Skip("dial: %v", err)
		}
	}
	n := 30
	go func() {
		for i := 0; i < n; i++ {
			_ = push.Send(zmq4.NewMsgFrom(mkMsg("c", 0, i, shape{4, 600})...))
		}
	}()
	t.Within(patience, "messages arrive at a wrapped libzmq PULL", func() {
		for i := 0; i < n; i++ {
			m, err := pull.Recv()
			if err != nil {
				t.Violate("wrapped PULL: %v", err)
			}
			if id, err := ckMsg(m.Frames); err != nil || id.seq != i {
				t.Violate("wrapped PULL: message %d: %v %v", i, id, err)
			}
		}
		_ = pull.Close()
	})
	count("messages to libzmq", int64(n))
	t.Key("wrapper")
}

func init() {
	c11interop = []scenario{
		{"interop", 2 * len(interKinds), 30 * len(interKinds), c11Interop},
		{"heartbeat", 2, 12, c11Heartbeat},
		{"wrapper", 6, 40, c11Wrapper},
	}
}
