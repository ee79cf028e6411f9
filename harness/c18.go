package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
)

// relay is a running Proxy.
type relay struct {
	t    *T
	f, b *Sock
	end  chan struct{}
	err  error
}

func (t *T) relay(f, b *Sock) *relay {
	r := &relay{t: t, f: f, b: b, end: make(chan struct{})}
	go func() {
		r.err = zmq4.Proxy(f.Socket, b.Socket)
		close(r.end)
	}()
	count("proxies", 1)
	return r
}

// runs is for proxies that have no reason to end.
func (r *relay) runs() {
	select {
	case <-r.end:
		r.t.Violate("proxy between %s and %s: ends by itself: %v", r.f.typ, r.b.typ, r.err)
	default:
	}
}

func (r *relay) ends(what string) {
	if !waitCh(r.end, 3*time.Second) {
		r.t.Violate("proxy between %s and %s: does not return: %s", r.f.typ, r.b.typ, what)
	}
	if r.err == nil {
		r.t.Violate("proxy between %s and %s: returns no error: %s", r.f.typ, r.b.typ, what)
	}
	count("proxies ended", 1)
}

// chain connects proxies one after the other.
type chain struct {
	t  *T
	rs []*relay
	tr string
}

func (t *T) chain(front, back zmq4.SocketType, depth int) *chain {
	c := &chain{t: t}
	for i := 0; i < depth; i++ {
		f, b := t.Sock(front), t.Sock(back)
		if front == zmq4.Sub {
			if err := f.SetOption(zmq4.OptionSubscribe, ""); err != nil {
				t.Violate("SUB: %v", err)
			}
		}
		if i > 0 {
			c.link(c.rs[i-1].b, f, t.Bool())
		}
		c.rs = append(c.rs, t.relay(f, b))
	}
	return c
}

func (c *chain) link(a, b *Sock, bindA bool) {
	tr := transports[c.t.Intn(len(transports))]
	c.tr += tr + " "
	c.t.join(a, b, tr, bindA)
}

func (c *chain) front() *Sock { return c.rs[0].f }
func (c *chain) back() *Sock  { return c.rs[len(c.rs)-1].b }

func (c *chain) runs() {
	for _, r := range c.rs {
		r.runs()
	}
}

// finish ends the proxies, closing one of their sockets each.
func (c *chain) finish() {
	t := c.t
	for _, r := range c.rs {
		s := r.f
		if t.Bool() && r.b.typ != zmq4.Push && r.b.typ != zmq4.Pub {
			s = r.b
		}
		if t.Bool() {
			s.shut()
		} else {
			s.cancel()
		}
	}
	for _, r := range c.rs {
		r.ends("one of its sockets has been closed")
	}
}

// several peers dial, or are dialled by, the end of a chain.
func (c *chain) peers(end *Sock, typ zmq4.SocketType, n int) []*Sock {
	t := c.t
	var ss []*Sock
	ep := ""
	tr := transports[t.Intn(len(transports))]
	c.tr += tr + " "
	bind := t.Bool()
	if bind {
		ep = t.bind(end, t.fresh(tr))
	}
	for i := 0; i < n; i++ {
		s := t.Sock(typ)
		if bind {
			t.dial(s, ep)
		} else {
			t.dial(end, t.bind(s, t.fresh(tr)))
		}
		ss = append(ss, s)
	}
	return ss
}

// c18Stream: producers, PULL to PUSH, consumers.
func c18Stream(t *T) {
	c := t.chain(zmq4.Pull, zmq4.Push, 1+t.Intn(3))
	l := t.ledger("streamer")
	for i, s := range c.peers(c.back(), zmq4.Pull, 1+t.Intn(3)) {
		t.pumpWith(s, nil, func(fs [][]byte) { l.receive(fmt.Sprintf("consumer %d", i), fs) })
	}
	sh := shape{1 + t.Intn(5), pick(t, 0, 20, 300, 5000)}
	var fs []func()
	n := 40 + t.Intn(120)
	np := 1 + t.Intn(4)
	single := np == 1
	for i, s := range c.peers(c.front(), zmq4.Push, np) {
		r := t.fork()
		fs = append(fs, func() {
			src := fmt.Sprintf("producer %d", i)
			for j := 0; j < n; j++ {
				id := msgID{src, 0, j}
				l.begin(id)
				t.send(s, r.Intn(2) == 0, mkMsg(src, 0, j, sh)...)
				l.end(id)
			}
		})
	}
	t.Par(time.Minute, "streamer", fs...)
	l.settle()
	c.runs()
	c.finishStream()
	t.Key("stream", len(c.rs), np, single, sh.maxFrames)
}

// c18Alike: messages that repeat earlier ones are messages, too.
func c18Alike(t *T) {
	k := pick(t, [4]zmq4.SocketType{zmq4.Push, zmq4.Pull, zmq4.Push, zmq4.Pull}, [4]zmq4.SocketType{zmq4.Dealer, zmq4.Dealer, zmq4.Dealer, zmq4.Dealer}, [4]zmq4.SocketType{zmq4.Pair, zmq4.Pair, zmq4.Pair, zmq4.Pair})
	c := t.chain(k[1], k[2], 1+t.Intn(2))
	a, b := c.peers(c.front(), k[0], 1)[0], c.peers(c.back(), k[3], 1)[0]
	n := 200
	if t.idx == 0 {
		n = 66000
	}
	pool := [][][]byte{{[]byte("a")}, {[]byte("a"), []byte("b")}, {[]byte("ab")}, {nil}, {t.Bytes(300)}}
	seq := make([]int, n)
	for i := range seq {
		if seq[i] = t.Intn(len(pool)); i > 0 && t.Chance(60) {
			seq[i] = seq[i-1]
		}
	}
	way := func(a, b *Sock) []func() {
		return []func(){
			func() {
				for i := range seq {
					if err := a.put(i%2 == 0, cloneFrames(pool[seq[i]])...); err != nil {
						t.Violate("%s through proxies: Send of message %d: %v", a.typ, i, err)
					}
				}
			},
			func() {
				for i := range seq {
					m, err := b.Recv()
					if err != nil || !eqFrames(m.Frames, pool[seq[i]]) {
						t.Violate("%s through proxies: of messages that are much alike, number %d of %d is %s, and %s is received (%v)", a.typ, i, n, show(pool[seq[i]]), show(m.Frames), err)
					}
				}
			},
		}
	}
	fs := way(a, b)
	if k[0] != zmq4.Push {
		fs = append(fs, way(b, a)...)
	}
	t.Par(100*time.Second, "messages alike through proxies", fs...)
	c.runs()
	count("messages alike", int64(n))
	t.Key("alike", k[0], len(c.rs), n)
}

// c18Long: what goes through the proxies is not read for seconds.
func c18Long(t *T) {
	k := pick(t, [4]zmq4.SocketType{zmq4.Push, zmq4.Pull, zmq4.Push, zmq4.Pull}, [4]zmq4.SocketType{zmq4.Dealer, zmq4.Dealer, zmq4.Dealer, zmq4.Dealer}, [4]zmq4.SocketType{zmq4.Pair, zmq4.Pair, zmq4.Pair, zmq4.Pair})
	var c *chain
	t.longStallBy("through proxies "+string(k[0]), k[0], k[3], func(a, b *Sock, tr string) {
		c = t.chain(k[1], k[2], 1+t.Intn(2))
		t.join(a, c.front(), tr, t.Bool())
		t.join(c.back(), b, tr, t.Bool())
	})
	c.runs()
	c.front().shut()
}

// finishStream closes receiving ends, or sending ends with traffic.
func (c *chain) finishStream() {
	t := c.t
	r := c.rs[t.Intn(len(c.rs))]
	if t.Bool() {
		r.f.shut()
		r.ends("its receiving socket has been closed")
		return
	}
	// The next message finds the sending socket closed.
	r.b.shut()
	feed := t.Sock(map[zmq4.SocketType]zmq4.SocketType{zmq4.Pull: zmq4.Push, zmq4.Sub: zmq4.Pub, zmq4.XSub: zmq4.Pub}[r.f.typ], zmq4.WithTimeout(200*time.Millisecond))
	ep := t.bind(feed, t.fresh("tcp"))
	if err := r.f.Dial(ep); err != nil {
		t.Violate("%s: Dial of %s: %v", r.f.typ, ep, err)
	}
	for i := 0; i < 100 && !waitCh(r.end, 10*time.Millisecond); i++ {
		if r.f.typ == zmq4.XSub {
			_ = r.f.put(false, []byte{1})
		}
		_ = feed.put(false, []byte("x"))
	}
	r.ends("its sending socket has been closed, and there are messages")
}

// c18Both: one peer at either end, loads in both directions.
func c18Both(t *T) {
	typ := pick(t, zmq4.Dealer, zmq4.Dealer, zmq4.Pair)
	c := t.chain(typ, typ, 1+t.Intn(3))
	a := c.peers(c.front(), typ, 1)[0]
	b := c.peers(c.back(), typ, 1)[0]
	budget := 1500000
	var fs []func()
	for _, p := range [][2]*Sock{{a, b}, {b, a}} {
		from, to := p[0], p[1]
		n := 20 + t.Intn(60)
		msgs := make([][][]byte, n)
		multi := make([]bool, n)
		for i := range msgs {
			msgs[i], multi[i] = t.randMsg(&budget), t.Bool()
		}
		r := t.fork()
		slow := t.Chance(30)
		fs = append(fs, func() {
			for i := range msgs {
				t.send(from, multi[i], cloneFrames(msgs[i])...)
			}
		}, func() {
			for i := range msgs {
				if m := t.recv(to); !eqFrames(m, msgs[i]) {
					t.Violate("proxy between %s sockets: message %d: sent %s, received %s", typ, i, show(msgs[i]), show(m))
				}
				count("messages received", 1)
				if slow && r.Intn(4) == 0 {
					time.Sleep(time.Millisecond)
				}
			}
		})
	}
	t.Par(time.Minute, "both directions", fs...)
	settle()
	for _, s := range []*Sock{a, b} {
		s := s
		ch := make(chan [][]byte, 1)
		go func() {
			if m, err := s.Recv(); err == nil {
				ch <- m.Frames
			}
		}()
		select {
		case m := <-ch:
			t.Violate("proxy between %s sockets: one message more than was sent: %s", typ, show(m))
		case <-time.After(5 * time.Millisecond):
		}
	}
	c.runs()
	c.finish()
	t.Key("both", typ, len(c.rs))
}

// c18Ask: clients and workers.
func c18Ask(t *T) {
	c := t.chain(zmq4.Router, zmq4.Dealer, 1+t.Intn(3))
	nw, nc := 1+t.Intn(4), 1+t.Intn(6)
	asDealer := t.Bool() // workers that answer when they like
	wt := zmq4.Rep
	if asDealer {
		wt = zmq4.Dealer
	}
	var served atomic.Int64
	for i, s := range c.peers(c.back(), wt, nw) {
		r := t.fork()
		t.Go(func() {
			var late [][][]byte
			for {
				m, err := s.Recv()
				if err != nil {
					return
				}
				served.Add(1)
				fs := append(m.Frames, []byte(fmt.Sprintf("w%d", i)))
				if !asDealer {
					_ = s.put(r.Intn(2) == 0, fs...)
					continue
				}
				late = append(late, fs)
				if len(late) >= 1 { // in any order, among those that wait
					j := r.Intn(len(late))
					fs := late[j]
					late = append(late[:j], late[j+1:]...)
					_ = s.put(r.Intn(2) == 0, fs...)
				}
			}
		})
	}
	ct := zmq4.Req
	if t.Bool() {
		ct = zmq4.Dealer
	}
	n := 10 + t.Intn(30)
	sh := shape{1 + t.Intn(4), pick(t, 0, 30, 2000)}
	var fs []func()
	for i, s := range c.peers(c.front(), ct, nc) {
		r := t.fork()
		src := fmt.Sprintf("c%d", i)
		if ct == zmq4.Req {
			fs = append(fs, func() {
				for j := 0; j < n; j++ {
					q := mkMsg(src, 0, j, sh)
					t.sendReq(s, cloneFrames(q)...)
					m := t.recv(s)
					if len(m) != len(q)+1 || !eqFrames(m[:len(q)], q) {
						t.Violate("broker: client %d: the reply to %s is %s", i, show(q), show(m))
					}
					count("requests", 1)
				}
			})
			continue
		}
		// many requests at a time; one worker answers in order
		seen := map[int]bool{}
		last := -1
		window := make(chan struct{}, 1+t.Intn(8))
		fs = append(fs, func() {
			for j := 0; j < n; j++ {
				window <- struct{}{}
				q := mkMsg(src, 0, j, sh)
				t.send(s, r.Intn(2) == 0, append([][]byte{nil}, q...)...)
			}
		}, func() {
			for j := 0; j < n; j++ {
				m := t.recv(s)
				if len(m) < 3 || len(m[0]) != 0 {
					t.Violate("broker: client %d: reply %s", i, show(m))
				}
				id, err := ckMsg(m[1 : len(m)-1])
				if err != nil || id.src != src {
					t.Violate("broker: client %d gets %s: %v", i, show(m), err)
				}
				if seen[id.seq] {
					t.Violate("broker: client %d gets two replies to request %d", i, id.seq)
				}
				if nw == 1 && id.seq < last {
					t.Violate("broker: client %d, one worker: reply %d after %d", i, id.seq, last)
				}
				last = id.seq
				seen[id.seq] = true
				count("requests", 1)
				<-window
			}
		})
	}
	t.Par(time.Minute, "requests", fs...)
	if got := served.Load(); got != int64(n*nc) {
		t.Violate("broker: %d requests, %d served", n*nc, got)
	}
	c.runs()
	if t.Bool() {
		c.finish()
	}
	t.Key("ask", ct, wt, len(c.rs), nc, nw)
}

// c18Topics: publishers and subscribers.
func c18Topics(t *T) {
	ft, bt := pick(t, zmq4.XSub, zmq4.Sub), pick(t, zmq4.XPub, zmq4.Pub)
	c := t.chain(ft, bt, 1+t.Intn(3))
	np, ns := 1+t.Intn(2), 1+t.Intn(3)
	pt := pick(t, zmq4.Pub, zmq4.XPub)
	pubs := c.peers(c.front(), pt, np)
	for _, p := range pubs {
		if pt == zmq4.XPub {
			t.pump(p)
		}
	}
	tr := transports[t.Intn(len(transports))]
	ep := t.bind(c.back(), t.fresh(tr))
	l := make([]*ledger, ns)
	var boxes []*inbox
	for i := 0; i < ns; i++ {
		s := t.Sock(zmq4.Sub)
		t.dial(s, ep)
		for _, topic := range []string{"all", fmt.Sprintf("T%d", i)} {
			if err := s.SetOption(zmq4.OptionSubscribe, topic); err != nil {
				t.Violate("SUB: %v", err)
			}
		}
		l[i] = t.ledger("topics")
		boxes = append(boxes, t.pumpWith(s, nil, func(fs [][]byte) { l[i].receive("subscriber", fs) }))
	}
	// XPUB does not hand subscriptions to its application, so a proxy asks
	// its publishers for everything: SUB has, for XSUB we do.
	everything := func() {
		if ft == zmq4.XSub {
			for _, r := range c.rs {
				_ = r.f.put(false, []byte{1})
			}
		}
	}
	ready := func(s *Sock) bool {
		if s != c.back() {
			return hasTopic(s, "")
		}
		for i := 0; i < ns; i++ {
			if !hasTopic(s, fmt.Sprintf("T%d", i)) {
				return false
			}
		}
		return hasTopic(s, "all")
	}
	upstream := pubs
	for _, r := range c.rs {
		upstream = append(upstream, r.b)
	}
	for _, p := range upstream {
		p := p
		t.Until(patience, fmt.Sprintf("subscriptions get through to %s", p.typ), func() bool {
			if ready(p) {
				return true
			}
			everything()
			time.Sleep(5 * time.Millisecond)
			return false
		})
	}
	n := 30 + t.Intn(60)
	sh := shape{1 + t.Intn(4), pick(t, 0, 30, 1000)}
	var fs []func()
	for k, p := range pubs {
		r := t.fork()
		fs = append(fs, func() {
			for j := 0; j < n; j++ {
				to := r.Intn(ns + 2)
				src := fmt.Sprintf("T%d-pub%d", to, k)
				switch to {
				case ns:
					src = fmt.Sprintf("all-pub%d", k)
				case ns + 1:
					src = fmt.Sprintf("nobody-pub%d", k)
				}
				id := msgID{src, 0, j}
				for i := range l {
					if to == i || to == ns {
						l[i].begin(id)
					}
				}
				t.send(p, r.Intn(2) == 0, mkMsg(src, 0, j, sh)...)
				for i := range l {
					if to == i || to == ns {
						l[i].end(id)
					}
				}
			}
		})
	}
	t.Par(time.Minute, "publishing", fs...)
	for i := range l {
		l[i].settle()
	}
	c.runs()
	for i, b := range boxes {
		for _, m := range b.all() {
			if s := string(m[0]); !strings.HasPrefix(s, "all") && !strings.HasPrefix(s, fmt.Sprintf("T%d", i)) {
				t.Violate("topics: subscriber %d gets %s", i, show(m))
			}
		}
	}
	if bt == zmq4.Pub {
		c.finishStream()
	} else if t.Bool() {
		c.finish()
	}
	t.Key("topics", ft, bt, pt, len(c.rs), np, ns)
}

// c18Close: the sockets are closed at any moment.
func c18Close(t *T) {
	pairs := [][2]zmq4.SocketType{{zmq4.Router, zmq4.Dealer}, {zmq4.Dealer, zmq4.Dealer}, {zmq4.Pair, zmq4.Pair}, {zmq4.XSub, zmq4.XPub}, {zmq4.XPub, zmq4.XSub}, {zmq4.Dealer, zmq4.Router}, {zmq4.Pull, zmq4.Push}, {zmq4.Router, zmq4.Router}, {zmq4.Push, zmq4.Pull}, {zmq4.Sub, zmq4.Pub}}
	k := pairs[t.idx%len(pairs)]
	f, b := t.Sock(k[0]), t.Sock(k[1])
	tr := transports[t.Intn(len(transports))]
	t.bind(f, t.fresh(tr))
	t.bind(b, t.fresh(tr))
	s := f
	which := "frontend"
	if t.Bool() {
		s, which = b, "backend"
	}
	if s.typ == zmq4.Push || s.typ == zmq4.Pub { // not noticed without a message
		if s == f {
			s, which = b, "backend"
		} else {
			s, which = f, "frontend"
		}
	}
	how := pick(t, "closed", "cancelled", "closed before", "both closed")
	if how == "closed before" {
		s.shut()
	}
	r := t.relay(f, b)
	switch how {
	case "closed":
		if t.Bool() {
			settle()
			r.runs()
		}
		s.shut()
	case "cancelled":
		if t.Bool() {
			settle()
			r.runs()
		}
		s.cancel()
	case "both closed":
		t.Par(patience, "Close", f.shut, b.shut)
	}
	r.ends(fmt.Sprintf("%s %s", which, how))
	f.shut()
	b.shut()
	t.noGoroutines("proxy over, both sockets closed")
	t.Key("close", k, which, how)
}

// c18Missing: nothing is done without both sockets.
func c18Missing(t *T) {
	for i := 0; i < 4; i++ {
		var f, b zmq4.Socket
		st := newStub(t, "the one that is there", 100)
		switch i {
		case 0:
			f = st
		case 1:
			b = st
		case 2:
			f = t.Sock(pick(t, zmtpTypes...)).Socket
		}
		var err error
		if !t.Done(3*time.Second, func() { err = zmq4.Proxy(f, b) }) {
			t.Violate("proxy: does not return though a socket is missing (%d)", i)
		}
		if err == nil {
			t.Violate("proxy: a missing socket is not refused (%d)", i)
		}
		settle()
		if n := st.recvs.Load(); n != 0 {
			t.Violate("proxy: without the other socket, %d messages have been taken", n)
		}
		count("proxies ended", 1)
		t.Key("missing", i)
	}
}

// stub is a socket that follows a script.
type stub struct {
	t     *T
	name  string
	typ   zmq4.SocketType
	in    [][][]byte
	delay []time.Duration
	end   error // after all of in; nil: block for ever
	gone  chan struct{}
	recvs atomic.Int64

	mu     sync.Mutex
	out    [][][]byte
	failAt int // the n-th Send fails
	serr   error
	block  int // the n-th Send blocks
}

func newStub(t *T, name string, n int) *stub {
	s := &stub{t: t, name: name, typ: zmq4.Pair, gone: make(chan struct{}), failAt: -1, block: -1}
	budget := 100000
	slow := t.Bool()
	for i := 0; i < n; i++ {
		s.in = append(s.in, t.randMsg(&budget))
		d := time.Duration(0)
		if slow && t.Chance(20) {
			d = time.Duration(t.Intn(500)) * time.Microsecond
		}
		s.delay = append(s.delay, d)
	}
	t.Cleanup(func() { close(s.gone) })
	return s
}

func (s *stub) Recv() (zmq4.Msg, error) {
	i := int(s.recvs.Add(1)) - 1
	if i >= len(s.in) {
		if i == len(s.in) && s.end != nil {
			return zmq4.Msg{}, s.end
		}
		<-s.gone
		return zmq4.Msg{}, net.ErrClosed
	}
	if d := s.delay[i]; d > 0 {
		time.Sleep(d)
	}
	return zmq4.NewMsgFrom(cloneFrames(s.in[i])...), nil
}

func (s *stub) Send(m zmq4.Msg) error {
	s.mu.Lock()
	n := len(s.out)
	if s.failAt == n {
		s.mu.Unlock()
		return s.serr
	}
	s.out = append(s.out, m.Frames)
	s.mu.Unlock()
	if s.block == n {
		<-s.gone
	}
	return nil
}

func (s *stub) SendMulti(m zmq4.Msg) error         { return s.Send(m) }
func (s *stub) Close() error                       { return nil }
func (s *stub) Listen(string) error                { return nil }
func (s *stub) Dial(string) error                  { return nil }
func (s *stub) Type() zmq4.SocketType              { return s.typ }
func (s *stub) Addr() net.Addr                     { return nil }
func (s *stub) GetOption(string) (any, error)      { return nil, zmq4.ErrBadProperty }
func (s *stub) SetOption(name string, v any) error { return zmq4.ErrBadProperty }
func (s *stub) sent() [][][]byte {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([][][]byte(nil), s.out...)
}

// c18Script: any sockets at all, and what happens when they fail.
func c18Script(t *T) {
	f, b := newStub(t, "frontend", t.Intn(60)), newStub(t, "backend", t.Intn(60))
	f.typ, b.typ = pick(t, zmq4.Pair, zmq4.Router, zmq4.Dealer, zmq4.Pull, zmq4.XSub), pick(t, zmq4.Pair, zmq4.Router, zmq4.Dealer, zmq4.XPub)
	kind := pick(t, "all is well", "Recv fails", "Send fails", "Send blocks")
	x, y := f, b
	if t.Bool() {
		x, y = b, f
	}
	bad := pick[error](t, errors.New("broken"), io.EOF, context.Canceled, context.DeadlineExceeded, net.ErrClosed, io.ErrUnexpectedEOF, slowErr{})
	pos := 0
	switch kind {
	case "Recv fails":
		x.end = bad
	case "Send fails":
		if len(y.in) == 0 {
			t.Skip("nothing to send")
		}
		pos = t.Intn(len(y.in))
		x.failAt, x.serr = pos, bad
	case "Send blocks":
		if len(y.in) == 0 {
			t.Skip("nothing to send")
		}
		pos = t.Intn(len(y.in))
		x.block = pos
	}
	end := make(chan struct{})
	var err error
	go func() {
		err = zmq4.Proxy(f, b)
		close(end)
	}()
	count("proxies", 1)
	// What one received, the other sent.
	wait := func(from, to *stub, n int) {
		if !until(patience, func() bool { return len(to.sent()) >= n }) {
			t.Violate("proxy (%s): %d of %d messages received on the %s are sent on the other", kind, len(to.sent()), n, from.name)
		}
	}
	nx, ny := len(x.in), len(y.in) // from x, from y
	switch kind {
	case "Send fails":
		ny = pos
	case "Send blocks":
		ny = pos + 1
	}
	if kind == "all is well" || kind == "Send blocks" {
		wait(x, y, nx)
		wait(y, x, ny)
		settle()
		select {
		case <-end:
			t.Violate("proxy (%s): ends by itself: %v", kind, err)
		default:
		}
	} else {
		if !waitCh(end, patience) {
			t.Violate("proxy: does not return though %s with %v", kind, bad)
		}
		if err == nil {
			t.Violate("proxy: returns no error though %s with %v", kind, bad)
		}
		if kind == "Recv fails" {
			wait(x, y, nx)
		}
		count("proxies ended", 1)
	}
	for _, p := range [][2]*stub{{x, y}, {y, x}} {
		from, to := p[0], p[1]
		out := to.sent()
		if len(out) > len(from.in) {
			t.Violate("proxy (%s): %d messages from the %s, %d sent", kind, len(from.in), from.name, len(out))
		}
		for i := range out {
			if !eqFrames(out[i], from.in[i]) {
				t.Violate("proxy (%s): message %d from the %s: %s, sent on: %s", kind, i, from.name, show(from.in[i]), show(out[i]))
			}
		}
		count("messages received", int64(len(out)))
	}
	t.Key("script", kind, x == f, fmt.Sprintf("%T", bad), bucket(nx), bucket(ny))
}

func init() {
	register(&check{
		id:     "C18",
		rule:   "executions run chains of one to three proxies (PULL/PUSH, DEALER/DEALER, PAIR/PAIR, ROUTER/DEALER, XSUB/XPUB, SUB/PUB) over random transports between several clients and workers with loads in both directions, and account for every message; others close or cancel one or both sockets at some moment; others run Proxy between scripted sockets whose Recv or Send fails or blocks at a random point, and compare the two logs; distinct cases are (pattern, depth, numbers of peers), (pair, which is closed, how), (script, position)",
		assume: []string{"no client or worker leaves while the proxy runs: Recv reports a lost connection, and a Proxy ends with the first error", "a socket that cannot receive is found closed when the next message is sent on it"},
		need:   map[string]int64{"messages alike": 20000, "messages received": 5000, "requests": 1000, "proxies": 150, "proxies ended": 100},
		scenarios: func() []scenario {
			return []scenario{
				{"alike", 12, 200, c18Alike},
				{"stream", 120, 600, c18Stream},
				{"long", 8, 60, c18Long},
				{"both", 120, 600, c18Both},
				{"ask", 140, 800, c18Ask},
				{"topics", 100, 600, c18Topics},
				{"close", 120, 600, labelled(c18Close)},
				{"missing", 3, 20, c18Missing},
				{"script", 400, 3000, c18Script},
			}
		},
	})
}
