package main

import (
	"context"
	"errors"
	"fmt"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
)

// slack is what "shortly after" the deadline means, in running time.
const slack = 3 * time.Second

// c13log is the record of what was sent and what the peers saw.
type c13log struct {
	t     *T
	what  string
	multi bool // every peer gets every message
	mu    sync.Mutex
	state map[string]int // 1: Send under way or failed, 2: success
	got   map[string][]string
	order map[string]int // receiver+sender -> last successful number seen
	ok    int
	late  int // failed, but arrived
}

func (t *T) c13log(what string) *c13log {
	return &c13log{t: t, what: what, state: map[string]int{}, got: map[string][]string{}, order: map[string]int{}}
}

func (l *c13log) set(name string, st int) {
	l.mu.Lock()
	l.state[name] = st
	if st == 2 {
		l.ok++
	}
	l.mu.Unlock()
}

// arrived notes a message at a peer, envelope removed.
func (l *c13log) arrived(at string, fs [][]byte) {
	if _, err := ckMsg(fs); err != nil {
		l.t.Violate("%s: peer %s received: %v", l.what, at, err)
	}
	name := string(fs[0])
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.state[name] == 0 {
		l.mu.Unlock()
		l.t.Violate("%s: peer %s received %q, which was not sent", l.what, at, name)
	}
	for _, o := range l.got[name] {
		if o == at || !l.multi {
			l.mu.Unlock()
			l.t.Violate("%s: %q arrives twice, at peers %s and %s", l.what, name, o, at)
		}
	}
	l.got[name] = append(l.got[name], at)
	count("messages received", 1)
}

// finish: whatever was sent successfully has to arrive, everywhere it should.
func (l *c13log) finish(peers int) {
	want := 1
	if l.multi {
		want = peers
	}
	var miss string
	all := func() bool {
		l.mu.Lock()
		defer l.mu.Unlock()
		for n, st := range l.state {
			if st == 2 && len(l.got[n]) < want {
				miss = n
				return false
			}
		}
		return true
	}
	if !until(patience, all) {
		l.t.Violate("%s: %q was sent successfully, and arrives at %d of %d peers", l.what, miss, len(l.got[miss]), want)
	}
	l.mu.Lock()
	for n, st := range l.state {
		if st == 1 && len(l.got[n]) > 0 {
			l.late++
		}
	}
	count("sends that succeeded", int64(l.ok))
	count("timed-out messages that arrived", int64(l.late))
	l.mu.Unlock()
}

// timed sends and checks how long that takes, and what error there is. The
// buffers are overwritten afterwards.
func (l *c13log) timed(s *Sock, d time.Duration, multi bool, pre, fs [][]byte) error {
	t := l.t
	name := string(fs[0])
	l.set(name, 1)
	all := append(append([][]byte{}, pre...), fs...)
	ch := make(chan struct{})
	var err error
	t0 := time.Now()
	go func() { err = s.put(multi, all...); close(ch) }()
	if !waitCh(ch, d+slack) {
		t.Violate("%s: Send does not return within %v of its deadline (%v)", l.what, slack, d)
	}
	el := time.Since(t0)
	if err == nil {
		l.set(name, 2)
	} else {
		count("sends that failed", 1)
		if errors.Is(err, context.DeadlineExceeded) && el < d-time.Millisecond {
			t.Violate("%s: Send gives up after %v, its deadline being %v", l.what, el, d)
		}
	}
	for _, f := range fs {
		for i := range f {
			f[i] = 0xee
		}
	}
	return err
}

// c13peer is a raw peer that can stop taking data.
type c13peer struct {
	r    *raw
	name string
	in   *half // towards the peer, if in memory
	gate sync.RWMutex
	held bool
}

// hold stops the peer from reading.
func (p *c13peer) hold() {
	if p.in != nil {
		p.in.setStall(true)
	} else {
		p.gate.Lock()
	}
	p.held = true
}

func (p *c13peer) release() {
	if !p.held {
		return
	}
	p.held = false
	if p.in != nil {
		p.in.setStall(false)
	} else {
		p.gate.Unlock()
	}
}

// gated reads only while the gate is open.
type gated struct {
	net.Conn
	p *c13peer
}

func (g gated) Read(b []byte) (int, error) {
	g.p.gate.RLock()
	g.p.gate.RUnlock() //nolint
	return g.Conn.Read(b)
}

// c13connect connects a raw peer that logs all it reads.
func (l *c13log) connect(s *Sock, tr, typ, name string, capac int) *c13peer {
	t := l.t
	p := &c13peer{name: name}
	var r *raw
	if s.lep != "" || t.Bool() {
		ep := s.lep
		if ep == "" {
			ep = t.bind(s, t.fresh(tr))
		} else if tr == "tcp" {
			ep = "tcp://" + s.Addr().String()
		}
		r = t.connectTo(ep)
	} else {
		ln, ep := t.listenRaw(tr)
		go func() { _ = s.Dial(ep) }()
		r = t.accept(ln)
	}
	r.mustNull(typ, name)
	if mc, ok := r.c.(*memConn); ok {
		p.in = mc.r
		p.in.setCap(capac)
	} else {
		r.br.Reset(gated{r.c, p})
	}
	p.r = r
	return p
}

// watch parses everything the peer reads.
func (l *c13log) watch(s *Sock, p *c13peer) {
	l.t.Go(func() {
		for {
			fs, err := p.r.readMsg()
			if err != nil {
				if errors.Is(err, errProto) {
					l.t.Violate("%s: peer %s reads: %v", l.what, p.name, err)
				}
				return
			}
			switch p.r.kind {
			case "REP", "ROUTER":
				if s.typ == zmq4.Req {
					if len(fs) < 2 || len(fs[0]) != 0 {
						l.t.Violate("%s: peer %s receives %s from a REQ", l.what, p.name, show(fs))
					}
					fs = fs[1:]
				}
			}
			if len(fs) == 1 && string(fs[0]) == "probe" {
				continue
			}
			l.arrived(p.name, fs)
		}
	})
}

var c13types = []zmq4.SocketType{zmq4.Push, zmq4.Pair, zmq4.Dealer, zmq4.XSub, zmq4.Router, zmq4.Req}

func (t *T) c13peerType(typ zmq4.SocketType) string {
	if typ == zmq4.Router {
		return pick(t, "DEALER", "ROUTER")
	}
	return t.rawPeer(typ)
}

// c13Stall: peers stop reading and go on, while sends run into their
// deadline.
func c13Stall(t *T) {
	typ := c13types[t.idx%len(c13types)]
	tr := "vmem"
	if t.idx/len(c13types)%4 == 3 {
		tr = pick(t, "tcp", "ipc")
	}
	d := time.Duration(10+t.Intn(60)) * time.Millisecond
	s := t.Sock(typ, zmq4.WithTimeout(d), zmq4.WithID(zmq4.SocketIdentity("me")))
	capac := pick(t, 1, 7, 100, 4000, 64<<10)
	n := 1
	if typ != zmq4.Pair && t.Bool() {
		n = 2 + t.Intn(2)
	}
	l := t.c13log(fmt.Sprintf("%s over %s, deadline %v, %d peers", typ, tr, d, n))
	l.multi = typ == zmq4.XSub
	var ps []*c13peer
	for i := 0; i < n; i++ {
		p := l.connect(s, tr, t.c13peerType(typ), fmt.Sprintf("p%d", i), capac)
		ps = append(ps, p)
		l.watch(s, p)
	}
	sh := shape{1 + t.Intn(4), pick(t, 10, 300, 3000)}
	if tr != "vmem" {
		sh = shape{3, 1 << 20}
	} else if capac > 100 && t.Bool() {
		sh.maxSize = 30000
	}
	// All have to be registered.
	for _, p := range ps {
		pre := [][]byte{}
		if typ == zmq4.Router {
			pre = append(pre, []byte(p.name))
		}
		t.Log("first message to %s", p.name)
		ok := false
		for k := 0; k < 2000 && !ok; k++ {
			fs := mkMsg("first"+p.name, 0, k, shape{1, 0})
			nm := string(fs[0])
			if l.timed(s, d, false, pre, fs) == nil {
				// a ROUTER sends nothing to peers it does not know yet
				l.set(nm, 1)
			}
			l.mu.Lock()
			ok = false
			for m, at := range l.got {
				for _, a := range at {
					if a == p.name && (strings.HasPrefix(m, "first")) {
						ok = true
					}
				}
			}
			l.mu.Unlock()
			if !ok {
				time.Sleep(time.Millisecond)
			}
		}
		if !ok {
			t.Violate("%s: nothing arrives at peer %s", l.what, p.name)
		}
	}
	rounds := 1 + t.Intn(4)
	var seq atomic.Int64
	fails := 0
	for round := 0; round < rounds; round++ {
		held := 0
		for _, p := range ps {
			if t.Chance(60) {
				p.hold()
				held++
			}
		}
		g := 1 + t.Intn(3)
		if typ == zmq4.Req {
			g = 1
		}
		m := 1 + t.Intn(3)
		var failed atomic.Int64
		var fs []func()
		for i := 0; i < g; i++ {
			i := i
			fs = append(fs, func() {
				for j := 0; j < m; j++ {
					k := int(seq.Add(1))
					p := ps[t.Intn(len(ps))]
					pre := [][]byte{}
					if typ == zmq4.Router {
						pre = append(pre, []byte(p.name))
					}
					msg := mkMsg("m", i, k, sh)
					if len(msg) == 1 && sh.maxSize > 1000 { // make it long enough to block
						msg = mkMsg("b", i, k, shape{2 + k%3, sh.maxSize})
					}
					if err := l.timed(s, d, t.Bool(), pre, msg); err != nil {
						failed.Add(1)
						if !errors.Is(err, context.DeadlineExceeded) {
							t.Violate("%s: Send with a stalled peer: %v", l.what, err)
						}
					}
				}
			})
		}
		// some stalls end in the middle
		if t.Bool() {
			early := time.Duration(t.Intn(80)) * time.Millisecond
			fs = append(fs, func() {
				until(early, func() bool { return false })
				for _, p := range ps {
					p.release()
				}
			})
		}
		t.Par(2*time.Minute, l.what, fs...)
		for _, p := range ps {
			p.release()
		}
		fails += int(failed.Load())
		t.Log("%s: round %d: %d peers stalled, %d of %d sends failed", l.what, round, held, failed.Load(), g*m)
		// every peer is usable again
		for _, p := range ps {
			pre := [][]byte{}
			if typ == zmq4.Router {
				pre = append(pre, []byte(p.name))
			}
			ok := until(patience, func() bool {
				k := int(seq.Add(1))
				return l.timed(s, d, k%2 == 0, pre, mkMsg("again", round, k, shape{2, 100})) == nil
			})
			if !ok {
				t.Violate("%s: no Send succeeds any more, though the peers read again", l.what)
			}
		}
		t.Key("stall", typ, tr, n, held, capac, failed.Load() > 0)
	}
	l.finish(n)
	if fails > 0 {
		count("stalls survived", 1)
	}
}

// c13Other: while one peer is stalled, the others can be sent to.
func c13Other(t *T) {
	typ := pick(t, zmq4.Router, zmq4.Push, zmq4.Dealer, zmq4.Router)
	d := time.Duration(20+t.Intn(40)) * time.Millisecond
	s := t.Sock(typ, zmq4.WithTimeout(d))
	l := t.c13log(fmt.Sprintf("%s, deadline %v, one of two peers stalled", typ, d))
	var ps []*c13peer
	for i := 0; i < 2; i++ {
		p := l.connect(s, "vmem", t.c13peerType(typ), fmt.Sprintf("p%d", i), 50)
		l.watch(s, p)
		ps = append(ps, p)
		// registered?
		until(patience, func() bool {
			msg := mkMsg("first", i, int(tick.Load()), shape{1, 0})
			nm := string(msg[0])
			l.mu.Lock()
			seen := l.state[nm] != 0
			l.mu.Unlock()
			if !seen {
				if l.timed(s, d, false, t.preFor(typ, p), msg) == nil && typ == zmq4.Router {
					l.set(nm, 1)
				}
			}
			l.mu.Lock()
			defer l.mu.Unlock()
			for _, at := range l.got {
				for _, a := range at {
					if a == p.name {
						return true
					}
				}
			}
			return false
		})
	}
	ps[0].hold()
	okay := 0
	for i := 0; i < 12; i++ {
		p := ps[i%2]
		err := l.timed(s, d, t.Bool(), t.preFor(typ, p), mkMsg("m", 0, i, shape{4, 200}))
		if err == nil {
			okay++
		} else if !errors.Is(err, context.DeadlineExceeded) {
			t.Violate("%s: Send: %v", l.what, err)
		} else if typ == zmq4.Router && p == ps[1] {
			t.Violate("%s: Send to the other peer: %v", l.what, err)
		}
	}
	if okay < 5 {
		t.Violate("%s: %d of 12 sends succeed", l.what, okay)
	}
	ps[0].release()
	l.finish(2)
	t.Key("other", typ)
	count("sends past a stalled peer", int64(okay))
}

func (t *T) preFor(typ zmq4.SocketType, p *c13peer) [][]byte {
	if typ == zmq4.Router {
		return [][]byte{[]byte(p.name)}
	}
	return nil
}

// c13Nobody: with no connection nothing is reported as sent.
func c13Nobody(t *T) {
	typ := []zmq4.SocketType{zmq4.Push, zmq4.Pair, zmq4.Dealer, zmq4.Req, zmq4.XSub}[t.idx%5]
	d := time.Duration(5+t.Intn(60)) * time.Millisecond
	s := t.Sock(typ, zmq4.WithTimeout(d), zmq4.WithDialerRetry(time.Millisecond), zmq4.WithDialerMaxRetries(-1))
	l := t.c13log(fmt.Sprintf("%s with nobody connected, deadline %v", typ, d))
	seq, left := 0, false
	none := func(when string, n int, conc bool) {
		var fs []func()
		for i := 0; i < n; i++ {
			seq++
			k := seq
			fs = append(fs, func() {
				err := l.timed(s, d, t.Bool(), nil, mkMsg("m", 0, k, shape{3, 300}))
				if err == nil {
					t.Violate("%s: Send %s reports success", l.what, when)
				}
				if typ != zmq4.Req && !left && !errors.Is(err, context.DeadlineExceeded) {
					t.Violate("%s: Send %s: %v", l.what, when, err)
				}
			})
		}
		if conc {
			t.Par(time.Minute, l.what, fs...)
		} else {
			for _, f := range fs {
				f()
			}
		}
		count("sends to nobody", int64(n))
	}
	none("on a fresh socket", 1+t.Intn(3), t.Bool())
	h := t.Host()
	bound := t.Bool()
	var ln *memListener
	if bound {
		t.bind(s, h.ep())
		none("on a socket that listens", 1+t.Intn(3), t.Bool())
	} else {
		go func() { _ = s.Dial(h.ep()) }()
		none("on a socket whose Dial has not succeeded", 1+t.Intn(3), t.Bool())
		ln, _ = h.listen()
		t.Cleanup(func() { ln.Close() })
	}
	for round := 0; round < 1+t.Intn(3); round++ {
		// a peer whose handshake is not complete is nobody
		var r *raw
		next := func() *raw {
			if bound {
				return t.connectTo(h.ep())
			}
			return t.accept(ln)
		}
		r = next()
		if (bound || round > 0) && t.Bool() { // the first Dial would fail
			whole := cat(greetingBytes("NULL", 0), command("READY", props("Socket-Type", t.rawPeer(typ))))
			_ = r.write(whole[:t.Intn(len(whole))])
			none("to a peer that has not completed the handshake", 1, false)
			_ = r.c.Close()
			r = next()
		}
		// now somebody is there: the Send that waits gets through
		typs := t.rawPeer(typ)
		r.mustNull(typs, "")
		tag := fmt.Sprintf("tag%d", round)
		if err := (&talk{t: t, s: s}).sendUntilPlain(r, tag, patience); err != nil {
			t.Violate("%s: somebody connects, but %v", l.what, err)
		}
		count("exchanges", 1)
		if t.Bool() {
			_ = r.c.Close()
		} else {
			r.c.(*memConn).r.cut(0, nil)
			r.c.(*memConn).w.cut(0, errReset)
		}
		left = true // some error may be about that
		if bound {
			none("after the peer left", 1+t.Intn(3), t.Bool())
		} else {
			h.mu.Lock()
			h.refuse = func(int) error { return errReset }
			h.mu.Unlock()
			// It may have been connected again before that: nobody then.
			none("after the peer left", 1+t.Intn(3), t.Bool())
			h.mu.Lock()
			h.refuse = nil
			h.mu.Unlock()
			if typ == zmq4.Req {
				break // does not notice by itself
			}
		}
		t.Key("nobody", typ, bound, round)
	}
}

// c13Alone: whatever the type and the state of the socket, Send returns in
// time. (ROUTER, PUB, XPUB and REP may well report success.)
func c13Alone(t *T) {
	typ := zmtpTypes[t.idx%len(zmtpTypes)]
	if !sends(typ) {
		typ = pick(t, zmq4.Req, zmq4.Router, zmq4.Pub, zmq4.XPub, zmq4.Rep)
	}
	d := time.Duration(5+t.Intn(60)) * time.Millisecond
	s := t.Sock(typ, zmq4.WithTimeout(d), zmq4.WithDialerRetry(time.Millisecond), zmq4.WithDialerMaxRetries(-1))
	l := t.c13log(fmt.Sprintf("%s left alone, deadline %v", typ, d))
	l.multi = true
	seq := 0
	try := func(state string) {
		l.what = fmt.Sprintf("%s %s, deadline %v", typ, state, d)
		var fs []func()
		for i := 0; i < 1+t.Intn(3); i++ {
			seq++
			m := mkMsg("m", 0, seq, shape{3, 300})
			multi := t.Bool()
			var pre [][]byte
			if typ == zmq4.Router {
				pre = [][]byte{[]byte(pick(t, "", "peer", "nobody"))}
			}
			fs = append(fs, func() { _ = l.timed(s, d, multi, pre, m) })
		}
		if t.Bool() {
			t.Par(time.Minute, l.what, fs...)
		} else {
			for _, f := range fs {
				f()
			}
		}
		count("sends in time", int64(len(fs)))
		t.Key("alone", typ, state)
	}
	if t.Bool() {
		try("that is fresh")
	}
	h := t.Host()
	bound := t.Bool()
	var ln *memListener
	if bound {
		t.bind(s, h.ep())
		try("that listens")
	} else {
		go func() { _ = s.Dial(h.ep()) }()
		try("whose Dial has not succeeded")
		ln, _ = h.listen()
		t.Cleanup(func() { ln.Close() })
	}
	for round := 0; round < 1+t.Intn(3); round++ {
		var r *raw
		if bound {
			r = t.connectTo(h.ep())
		} else if r = t.tryAccept(ln, 100*time.Millisecond); r == nil {
			break
		}
		kind := t.rawPeer(typ)
		if t.Bool() {
			whole := cat(greetingBytes("NULL", 0), command("READY", props("Socket-Type", kind)))
			_ = r.write(whole[:t.Intn(len(whole))])
			try("with a peer that has not completed the handshake")
			_ = r.c.Close()
			continue
		}
		if r.null(kind, "peer") != nil {
			t.Violate("%s: handshake fails", l.what)
		}
		try("with a peer that does not read")
		if t.Bool() {
			rst(r.c)
		} else {
			r.c.(*memConn).r.cut(0, errReset)
			r.c.(*memConn).w.cut(0, errReset)
		}
		try("whose peer has left")
	}
}

// sendUntilPlain is sendUntil for all types that only need a connection.
func (k *talk) sendUntilPlain(r *raw, tag string, d time.Duration) error {
	return k.sendUntil(r, tag, nil, d)
}

// c13Wait: a Send that waits for a connection succeeds once there is one.
func c13Wait(t *T) {
	typ := []zmq4.SocketType{zmq4.Push, zmq4.Pair, zmq4.Dealer, zmq4.XSub}[t.idx%4]
	s := t.Sock(typ)
	l := t.c13log(fmt.Sprintf("%s that waits for a connection", typ))
	h := t.Host()
	t.bind(s, h.ep())
	var fs []func()
	n := 1 + t.Intn(4)
	for i := 0; i < n; i++ {
		i := i
		fs = append(fs, func() {
			if err := l.timed(s, patience, t.Bool(), nil, mkMsg("m", i, 0, shape{3, 300})); err != nil {
				t.Violate("%s: Send: %v", l.what, err)
			}
		})
	}
	fs = append(fs, func() {
		settle()
		p := l.connect(s, "vmem", t.rawPeer(typ), "p", 0)
		l.watch(s, p)
	})
	t.Par(time.Minute, l.what, fs...)
	l.finish(1)
	t.Key("wait", typ, n)
	count("sends that waited", int64(n))
}

// c13Rep: replies to clients that do not read.
func c13Rep(t *T) {
	d := time.Duration(10+t.Intn(50)) * time.Millisecond
	s := t.Sock(zmq4.Rep, zmq4.WithTimeout(d))
	l := t.c13log(fmt.Sprintf("REP, deadline %v", d))
	h := t.Host()
	capac := pick(t, 20, 300, 5000)
	t.bind(s, h.ep())
	type client struct {
		p *c13peer
		n int
	}
	var cs []*client
	for i := 0; i < 1+t.Intn(3); i++ {
		r := t.connectTo(h.ep()).mustNull("REQ", "")
		p := &c13peer{r: r, name: fmt.Sprint("c", i), in: r.c.(*memConn).r}
		p.in.setCap(capac)
		cs = append(cs, &client{p: p})
		t.Go(func() {
			for {
				fs, err := r.readMsg()
				if err != nil {
					if errors.Is(err, errProto) {
						t.Violate("%s: client %s reads: %v", l.what, p.name, err)
					}
					return
				}
				if len(fs) < 2 || len(fs[0]) != 0 {
					t.Violate("%s: client %s receives %s", l.what, p.name, show(fs))
				}
				if id, err := ckMsg(fs[1:]); err == nil && id.src != p.name {
					t.Violate("%s: client %s receives the reply for %s", l.what, p.name, id.src)
				}
				l.arrived(p.name, fs[1:])
			}
		})
	}
	for i := 0; i < 6+t.Intn(10); i++ {
		c := cs[t.Intn(len(cs))]
		if t.Chance(40) {
			c.p.hold()
		}
		if err := c.p.r.sendMsg(nil, []byte("q")); err != nil {
			t.Violate("%s: the request of a client: %v", l.what, err)
		}
		t.recv(s)
		for j := 0; j < 1+t.Intn(2); j++ { // a second reply is not forbidden here
			c.n++
			err := l.timed(s, d, t.Bool(), nil, mkMsg(c.p.name, 0, c.n, shape{3, 2000}))
			if err != nil && !errors.Is(err, context.DeadlineExceeded) {
				t.Violate("%s: Send: %v", l.what, err)
			}
		}
		if t.Chance(50) {
			for _, c := range cs {
				c.p.release()
			}
		}
	}
	for _, c := range cs {
		c.p.release()
	}
	l.finish(1)
	t.Key("rep", len(cs), capac)
}

// c13Broken: sends that fail because the connection breaks, or are
// interrupted by Close, leave nothing on any connection but whole messages.
func c13Broken(t *T) {
	typ := []zmq4.SocketType{zmq4.Push, zmq4.Pair, zmq4.Dealer, zmq4.XSub, zmq4.Req}[t.idx%5]
	d := time.Duration(10+t.Intn(40)) * time.Millisecond
	s := t.Sock(typ, zmq4.WithTimeout(d), zmq4.WithDialerRetry(time.Millisecond), zmq4.WithDialerMaxRetries(-1))
	l := t.c13log(fmt.Sprintf("%s, deadline %v, connection that breaks", typ, d))
	h := t.Host()
	capac := pick(t, 3, 100, 3000)
	ln, _ := h.listen()
	t.Cleanup(func() { ln.Close() })
	go func() { _ = s.Dial(h.ep()) }()
	seq := 0
	for round := 0; round < 2+t.Intn(3); round++ {
		r := t.accept(ln)
		r.mustNull(t.rawPeer(typ), "")
		mc := r.c.(*memConn)
		mc.r.setCap(capac)
		name := fmt.Sprint("conn", round)
		whole := 0
		end := make(chan error, 1)
		t.Go(func() {
			for {
				fs, err := r.readMsg()
				if err != nil {
					if errors.Is(err, errProto) {
						t.Violate("%s: connection %d: %v", l.what, round, err)
					}
					end <- err
					return
				}
				if typ == zmq4.Req {
					if len(fs) < 2 || len(fs[0]) != 0 {
						t.Violate("%s: connection %d: %s from a REQ", l.what, round, show(fs))
					}
					fs = fs[1:]
				}
				l.arrived(name, fs)
				whole++
			}
		})
		// a good message
		if !until(patience, func() bool {
			seq++
			return l.timed(s, d, t.Bool(), nil, mkMsg("m", 0, seq, shape{3, 500})) == nil
		}) {
			t.Violate("%s: nothing can be sent on connection %d", l.what, round)
		}
		// it has to arrive before the break
		l.finish(1)
		mc.r.mu.Lock()
		at := mc.r.total + int64(t.Intn(3000))
		mc.r.mu.Unlock()
		stall := t.Bool()
		if stall {
			mc.r.setStall(true)
		} else {
			mc.r.cut(at, nil)
			if t.Bool() {
				mc.w.cut(0, errReset)
			}
		}
		for j := 0; j < 3; j++ {
			seq++
			msg := mkMsg("m", 0, seq, shape{4, 2000})
			nm := string(msg[0])
			_ = l.timed(s, d, t.Bool(), nil, msg)
			l.set(nm, 1) // may be lost with the connection
		}
		_ = mc.Close()
		mc.r.setStall(false)
		<-end
		if typ == zmq4.Req { // notices when used
			ch := make(chan struct{})
			go func() {
				defer close(ch)
				_ = s.put(false, []byte("probe"))
				_, _ = s.Recv()
			}()
			if !waitCh(ch, patience) {
				t.Violate("%s: REQ does not notice", l.what)
			}
		}
		t.Key("broken", typ, capac, stall)
		count("breaks", 1)
	}
}

// c13Closed: sends interrupted by Close or cancellation.
func c13Closed(t *T) {
	typ := c13types[t.idx%len(c13types)]
	s := t.Sock(typ)
	l := t.c13log(fmt.Sprintf("%s that is closed", typ))
	l.multi = typ == zmq4.XSub
	p := l.connect(s, "vmem", t.c13peerType(typ), "p0", 500)
	end := make(chan error, 1)
	t.Go(func() {
		for {
			fs, err := p.r.readMsg()
			if err != nil {
				if errors.Is(err, errProto) {
					t.Violate("%s: the peer reads: %v", l.what, err)
				}
				end <- err
				return
			}
			if typ == zmq4.Req && len(fs) > 1 {
				fs = fs[1:]
			}
			l.arrived("p0", fs)
		}
	})
	k := 0
	until(patience, func() bool {
		k++
		msg := mkMsg("first", 0, k, shape{1, 0})
		nm := string(msg[0])
		_ = l.timed(s, patience, false, t.preFor(typ, p), msg)
		l.set(nm, 1)
		l.mu.Lock()
		defer l.mu.Unlock()
		return len(l.got) > 0
	})
	mid := t.Bool()
	if mid {
		p.hold()
	}
	var fs []func()
	stop := make(chan struct{})
	for i := 0; i < 1+t.Intn(3); i++ {
		i := i
		fs = append(fs, func() {
			for j := 0; ; j++ {
				msg := mkMsg("m", i, j, shape{3, 2000})
				nm := string(msg[0])
				l.set(nm, 1)
				if s.put(j%2 == 0, append(t.preFor(typ, p), msg...)...) != nil {
					select {
					case <-stop:
						return
					default:
						t.Violate("%s: Send fails before that", l.what)
					}
				}
				count("sends that succeeded", 1)
			}
		})
	}
	fs = append(fs, func() {
		until(time.Duration(t.Intn(25))*time.Millisecond, func() bool { return false })
		close(stop)
		if t.Bool() {
			s.cancel()
		}
		s.shut()
		p.release()
	})
	t.Par(time.Minute, l.what, fs...)
	if !waitCh(end, patience) {
		t.Violate("%s: the peer does not see the end", l.what)
	}
	t.Key("closed", typ, mid)
	count("closes", 1)
}

func init() {
	register(&check{
		id:     "C13",
		rule:   "executions make peers stop reading (anywhere in a frame, over buffers of 1 byte to 64 KB) and go on, break connections and close sockets while sends with short deadlines are under way, with buffers reused at once; a strict parser follows each connection; distinct cases are socket type x transport x peers x stalled peers x buffer x outcome",
		assume: []string{"shortly: within 3 s of running time", "a message whose Send reported an error may still arrive once"},
		need:   map[string]int64{"sends in time": 300, "sends that failed": 300, "sends that succeeded": 700, "stalls survived": 25, "sends to nobody": 100, "breaks": 60, "timed-out messages that arrived": 30},
		scenarios: func() []scenario {
			return []scenario{
				{"alone", 110, 1500, c13Alone},
				{"stall", 72, 1500, c13Stall},
				{"other", 12, 200, c13Other},
				{"nobody", 30, 500, c13Nobody},
				{"wait", 12, 150, c13Wait},
				{"rep", 12, 300, c13Rep},
				{"broken", 30, 500, c13Broken},
				{"closed", 24, 400, c13Closed},
			}
		},
	})
}
