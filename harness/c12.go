package main

import (
	"bytes"
	"context"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"runtime/pprof"
	"strings"
	"sync/atomic"
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
)

// prompt is what counts as promptly, in ticks of the running process.
const prompt = 5 * time.Second

// ---- census of goroutines

// labelled makes everything the scenario starts carry its name.
func labelled(fn func(*T)) func(*T) {
	return func(t *T) {
		pprof.SetGoroutineLabels(pprof.WithLabels(context.Background(), pprof.Labels("sc", t.label())))
		fn(t)
	}
}

func (t *T) label() string { return fmt.Sprintf("%s#%d.", t.name, t.idx) }

const libPkg = "github.com/luxfi/zmq/v4"

// libGoroutines returns the stacks of the goroutines that execute library
// code on behalf of this scenario.
func (t *T) libGoroutines() []string {
	var buf bytes.Buffer
	_ = pprof.Lookup("goroutine").WriteTo(&buf, 1)
	var out []string
	for _, b := range strings.Split(buf.String(), "\n\n") {
		if !strings.Contains(b, `"sc":"`+t.label()+`"`) {
			continue
		}
		for _, l := range strings.Split(b, "\n") {
			if strings.Contains(l, libPkg) && !strings.Contains(l, "/internal/verifh") {
				out = append(out, b)
				break
			}
		}
	}
	return out
}

// noGoroutines has to hold once everything the scenario made is closed.
func (t *T) noGoroutines(what string) {
	var left []string
	if !until(patience, func() bool { left = t.libGoroutines(); return len(left) == 0 }) {
		t.Log("%s", left[0])
		t.Violate("%s: %d goroutines of the library are left after Close: %.1500s", what, len(left), left[0])
	}
	count("goroutine censuses", 1)
}

// ---- calls in progress when the socket is ended

type c12call struct {
	what   string
	mayOK  bool // may have completed
	first  bool // has been told to
	err    error
	n      int // successes, of calls that are repeated
	done   chan struct{}
	repeat bool
}

type c12env struct {
	t     *T
	s     *Sock
	tr    string
	typ   zmq4.SocketType
	plain bool
	calls []*c12call
	raws  []*raw
	hosts []*host
	ep    string // end-point the socket listens on
	key   string
	after []func() // more checks, after Close
	ended atomic.Bool
}

func (e *c12env) call(what string, mayOK bool, f func() error) *c12call {
	c := &c12call{what: what, mayOK: mayOK, done: make(chan struct{})}
	e.calls = append(e.calls, c)
	e.t.Go(func() {
		defer close(c.done)
		c.err = f()
	})
	return c
}

// recvs is a Recv that goes on until there is an error.
func (e *c12env) recvs() *c12call {
	c := &c12call{what: "Recv", done: make(chan struct{}), repeat: true}
	e.calls = append(e.calls, c)
	e.t.Go(func() {
		defer close(c.done)
		for {
			ended := e.ended.Load()
			if _, c.err = e.s.Recv(); c.err != nil {
				if ended {
					return
				}
				// a connection that was lost
				time.Sleep(time.Millisecond)
				continue
			}
			c.n++
		}
	})
	return c
}

func (e *c12env) blocked(c *c12call) {
	if waitCh(c.done, 15*time.Millisecond) && !c.mayOK {
		e.t.Violate("%s: %s returns before anything happened: %v", e.typ, c.what, c.err)
	}
	count("calls in progress", 1)
}

// peer connects a raw peer, in either direction.
func (e *c12env) peer(typ, id string) *raw {
	t := e.t
	var r *raw
	if e.ep != "" || e.tr == "inproc" || t.Bool() {
		if e.ep == "" {
			e.ep = t.bind(e.s, t.fresh(e.tr))
		}
		r = t.connectTo(e.ep)
		if err := r.null(typ, id); err != nil {
			t.Violate("%s: handshake of a %s peer fails: %v", e.typ, typ, err)
		}
	} else {
		l, ep := t.listenRaw(e.tr)
		ch := make(chan error, 1)
		go func() { ch <- e.s.Dial(ep) }()
		r = t.accept(l)
		if err := r.null(typ, id); err != nil {
			t.Violate("%s: handshake of a %s peer fails: %v", e.typ, typ, err)
		}
		if !waitCh(ch, patience) {
			t.Violate("%s: Dial does not return", e.typ)
		}
		_ = l.Close() // nothing to reconnect to
	}
	_ = r.c.SetDeadline(time.Time{})
	e.raws = append(e.raws, r)
	return r
}

func (e *c12env) big() []byte {
	if e.tr == "tcp" {
		return make([]byte, 16<<20)
	}
	return make([]byte, 2<<20)
}

func receives(typ zmq4.SocketType) bool {
	switch typ {
	case zmq4.Pub, zmq4.Push, zmq4.Req:
		return false
	}
	return true
}

type c12op struct {
	name string
	run  func(e *c12env) bool // false: does not apply
}

var c12ops = []c12op{
	{"recv without peer", func(e *c12env) bool {
		if !receives(e.typ) {
			return false
		}
		if e.t.Bool() && e.ep == "" {
			e.ep = e.t.bind(e.s, e.t.fresh(e.tr))
		}
		for i := 0; i < 1+e.t.Intn(2); i++ {
			e.blocked(e.recvs())
		}
		return true
	}},
	{"recv from silent peer", func(e *c12env) bool {
		if e.typ == zmq4.Pub || e.typ == zmq4.Push {
			return false
		}
		e.peer(e.t.rawPeer(e.typ), "")
		if e.typ == zmq4.Req {
			e.t.sendReq(e.s, []byte("request"))
		}
		e.blocked(e.recvs())
		return true
	}},
	{"recv queue full", func(e *c12env) bool {
		typ := e.t.rawPeer(e.typ)
		r := e.peer(typ, "")
		if e.typ == zmq4.Sub {
			_ = e.s.SetOption(zmq4.OptionSubscribe, "")
		}
		e.t.Go(func() {
			for i := 0; i < 200; i++ {
				if r.sendMsg(nil, []byte("flood")) != nil {
					return
				}
			}
		})
		settle()
		return true
	}},
	{"send to nobody", func(e *c12env) bool {
		if !sends(e.typ) && e.typ != zmq4.Router || len(e.raws) > 0 {
			return false
		}
		for i := 0; i < 1+e.t.Intn(3); i++ {
			i := i
			e.blocked(e.call("Send", false, func() error { return e.s.put(i%2 == 1, []byte("x"), []byte("y")) }))
		}
		return true
	}},
	{"send to stalled peer", func(e *c12env) bool {
		if e.tr == "inproc" {
			return false
		}
		big := e.big()
		switch {
		case sends(e.typ) || e.typ == zmq4.Router:
			id := fmt.Sprintf("peer%d", len(e.raws))
			typ := e.t.rawPeer(e.typ)
			if e.typ == zmq4.Router {
				typ = "DEALER"
			}
			r := e.peer(typ, id)
			pre := [][]byte{}
			if e.typ == zmq4.Router {
				// make sure the peer is known
				_ = r.sendMsg(nil, []byte("here"))
				if m := e.t.recv(e.s); string(m[0]) != id {
					return true // some other op's message
				}
				pre = append(pre, []byte(id))
			}
			var last *c12call
			for i := 0; i < 1+e.t.Intn(3); i++ {
				i := i
				last = e.call("Send", false, func() error { return e.s.put(i%2 == 1, append(append([][]byte{}, pre...), big)...) })
			}
			e.blocked(last)
		case e.typ == zmq4.Req:
			e.peer(e.t.rawPeer(e.typ), "")
			e.blocked(e.call("Send", false, func() error {
				for {
					err := e.s.put(false, big)
					if err == nil || !strings.Contains(err.Error(), "no connections") || e.ended.Load() {
						return err
					}
					time.Sleep(time.Millisecond) // not registered yet
				}
			}))
		case e.typ == zmq4.Rep:
			r := e.peer("REQ", "")
			_ = r.sendMsg(nil, []byte("request"))
			e.t.recv(e.s)
			e.t.send(e.s, false, big)
			e.blocked(e.call("Send", true, func() error { return e.s.put(true, big) }))
		case e.typ == zmq4.Pub || e.typ == zmq4.XPub:
			r := e.peer(e.t.rawPeer(e.typ), "")
			_ = r.sendMsg([]byte("\x01t"))
			e.t.Until(patience, "subscription", func() bool { return hasTopic(e.s, "t") })
			for i := 0; i < 5; i++ {
				e.t.send(e.s, i%2 == 0, []byte("t"), big)
			}
		default:
			return false
		}
		return true
	}},
	{"subscribe at stalled peer", func(e *c12env) bool {
		if e.typ != zmq4.Sub || e.tr != "vmem" {
			return false
		}
		e.peer("PUB", "")
		l := e.t.hostLinks()
		for _, l := range l {
			l.ab.setStall(true)
			l.ba.setStall(true)
		}
		e.blocked(e.call("SetOption", false, func() error { return e.s.SetOption(zmq4.OptionSubscribe, "topic") }))
		return true
	}},
	{"dial refused", func(e *c12env) bool {
		h := e.t.Host()
		e.blocked(e.call("Dial", false, func() error { return e.s.Dial(h.ep()) }))
		e.quiet(h)
		return true
	}},
	{"dial hanging", func(e *c12env) bool {
		h := e.t.Host()
		h.hang = true
		e.blocked(e.call("Dial", false, func() error { return e.s.Dial(h.ep()) }))
		e.quiet(h)
		return true
	}},
	{"dial, handshake stalled", func(e *c12env) bool {
		tr := e.tr
		if tr == "inproc" {
			tr = "vmem"
		}
		l, ep := e.t.listenRaw(tr)
		c := e.call("Dial", false, func() error { return e.s.Dial(ep) })
		r := e.t.accept(l)
		e.part(r)
		e.blocked(c)
		return true
	}},
	{"accept, handshake stalled", func(e *c12env) bool {
		if e.ep == "" {
			e.ep = e.t.bind(e.s, e.t.fresh(e.tr))
		}
		for i := 0; i < 1+e.t.Intn(4); i++ {
			e.part(e.t.connectTo(e.ep))
		}
		return true
	}},
	{"waiting to reconnect", func(e *c12env) bool {
		r, h, _ := e.dialled()
		if r == nil {
			return true
		}
		h.mu.Lock()
		h.refuse = func(int) error { return errReset }
		h.mu.Unlock()
		_ = r.c.Close()
		if e.typ != zmq4.Req && !until(patience, func() bool { return h.dialCount() > 1 }) {
			e.t.Violate("%s: no attempt to reconnect", e.typ)
		}
		e.quiet(h)
		return true
	}},
	{"reconnecting, handshake stalled", func(e *c12env) bool {
		if e.typ == zmq4.Req {
			return false
		}
		r, h, l := e.dialled()
		if r == nil {
			return true
		}
		_ = r.c.Close()
		e.part(e.t.accept(l))
		e.quiet(h)
		return true
	}},
}

// part is a handshake that goes no further.
func (e *c12env) part(r *raw) {
	whole := cat(greetingBytes("NULL", 0), command("READY", props("Socket-Type", e.t.rawPeer(e.typ))))
	n := pick(e.t, 0, 1, 10, 11, 63, 64, 65, 70, len(whole)-1)
	e.t.Log("peer sends %d of %d bytes of its handshake", n, len(whole))
	if n > 0 {
		_ = r.write(whole[:n])
	}
	e.raws = append(e.raws, r)
	settle()
}

// quiet: after Close nothing more is dialled.
func (e *c12env) quiet(h *host) {
	e.after = append(e.after, func() {
		n := h.dialCount()
		settle()
		if m := h.dialCount(); m != n {
			e.t.Violate("%s: dials again after Close", e.typ)
		}
	})
}

// dialled makes the socket dial a raw peer at a host.
func (e *c12env) dialled() (*raw, *host, net.Listener) {
	h := e.t.Host()
	l, err := h.listen()
	if err != nil {
		e.t.Skip("%v", err)
	}
	e.t.Cleanup(func() { _ = l.Close() })
	ch := make(chan error, 1)
	go func() { ch <- e.s.Dial(h.ep()) }()
	r := e.t.accept(l)
	r.mustNull(e.t.rawPeer(e.typ), "")
	if !waitCh(ch, patience) {
		e.t.Violate("%s: Dial does not return", e.typ)
	}
	return r, h, l
}

// hostLinks are the links of all hosts made by t.fresh.
func (t *T) hostLinks() []*link {
	var ls []*link
	t.mu.Lock()
	hs := append([]*host(nil), t.hostsMade...)
	t.mu.Unlock()
	for _, h := range hs {
		ls = append(ls, h.allLinks()...)
	}
	return ls
}

// finish ends the socket in the given way and checks what follows.
func (e *c12env) finish(mode string) {
	t, s := e.t, e.s
	what := fmt.Sprintf("%s over %s (%s), %s", e.typ, e.tr, e.key, mode)
	t.Log("%s", what)
	path := ""
	if strings.HasPrefix(e.ep, "ipc://") {
		path = strings.TrimPrefix(e.ep, "ipc://")
		if !exists(path) {
			t.Violate("%s: no file while listening", what)
		}
	}
	closeOnce := func() error {
		var err error
		ch := make(chan struct{})
		go func() { err = s.Socket.Close(); close(ch) }()
		if !waitCh(ch, prompt) {
			t.Violate("%s: Close does not return within %v", what, prompt)
		}
		return err
	}
	returned := func() {
		for _, c := range e.calls {
			if !waitCh(c.done, prompt) {
				t.Violate("%s: %s does not return within %v", what, c.what, prompt)
			}
			if c.err == nil && !c.mayOK {
				t.Violate("%s: %s in progress returns without an error", what, c.what)
			}
			count("calls ended", 1)
		}
	}
	if t.Chance(30) {
		for _, l := range t.hostLinks() {
			if t.Chance(60) {
				l.d.moans.Store(true)
				l.l.moans.Store(true)
				count("closes that fail", 1)
			}
		}
	}
	e.ended.Store(true)
	switch mode {
	case "close":
		_ = closeOnce()
		returned()
	case "cancel":
		s.cancel()
		returned()
		e.later(what + ", before Close")
		_ = closeOnce()
	case "closes":
		n := 2 + t.Intn(3)
		errs := make([]error, n)
		var fs []func()
		for i := range errs {
			i := i
			fs = append(fs, func() { errs[i] = closeOnce() })
		}
		t.Par(patience, what, fs...)
		bad := 0
		for _, err := range errs {
			if err != nil {
				bad++
			}
		}
		if bad < n-1 {
			t.Violate("%s: %d of %d concurrent Closes report success", what, n-bad, n)
		}
		returned()
	}
	if path != "" && exists(path) {
		t.Violate("%s: the file of the ipc end-point is still there after Close", what)
	}
	if err := closeOnce(); err == nil {
		t.Violate("%s: another Close reports success", what)
	}
	e.later(what)
	for i, r := range e.raws {
		if !r.eof(patience) {
			t.Violate("%s: peer %d does not see that the connection is closed", what, i)
		}
		count("peers that noticed", 1)
	}
	for _, f := range e.after {
		f()
	}
	// the end-point is free
	if e.ep != "" {
		n := t.Sock(e.typ)
		ep := e.ep
		var err error
		t.Within(patience, "Listen", func() { err = n.Listen(ep) })
		if err != nil {
			t.Violate("%s: cannot listen on %s again: %v", what, ep, err)
		}
		t.talk(n).exchange(t.connectTo(ep).mustNull(t.rawPeer(e.typ), ""), what+": socket that takes the end-point over")
		n.shut()
		count("end-points reused", 1)
	}
	for _, l := range t.hostLinks() {
		if !until(patience, func() bool { return l.libClosed() }) {
			t.Violate("%s: a connection is left open", what)
		}
	}
}

// libClosed tells whether the library has closed its end; the other one is
// the raw peer's.
func (l *link) libClosed() bool { return l.d.isClosed() || l.l.isClosed() }

// later calls have to fail at once.
func (e *c12env) later(what string) {
	t, s := e.t, e.s
	cancelled := strings.HasSuffix(what, "before Close") // and what is queued may be received
	ep := t.Host().ep()
	if t.Chance(40) { // somebody listens there
		ep = t.bind(t.Sock(compatible(t, s.typ)), t.fresh(pick(t, "inproc", "ipc", "vmem")))
	}
	type op struct {
		name string
		f    func() error
	}
	ops := []op{
		{"Send", func() error { return s.put(false, []byte("late"), []byte("x")) }},
		{"SendMulti", func() error { return s.put(true, []byte("late"), []byte("x")) }},
		{"Recv", func() error {
			for i := 0; i < 100; i++ {
				_, err := s.Recv()
				if !cancelled && err == nil || cancelled && err != nil || i > 20 && err != nil {
					return err
				}
			}
			return nil
		}},
		{"Dial", func() error { return s.Dial(ep) }},
	}
	if !cancelled {
		ops = append(ops, op{"Listen", func() error { return s.Listen(ep) }})
	}
	for _, i := range t.Perm(len(ops)) {
		var err error
		o := ops[i]
		ch := make(chan struct{})
		go func() { err = o.f(); close(ch) }()
		if !waitCh(ch, prompt) {
			t.Violate("%s: a later %s does not return within %v", what, o.name, prompt)
		}
		if err == nil {
			t.Violate("%s: a later %s reports success", what, o.name)
		}
		count("later calls", 1)
	}
	if s.typ == zmq4.Sub {
		ch := make(chan struct{})
		go func() { _ = s.SetOption(zmq4.OptionSubscribe, "late"); close(ch) }()
		if !waitCh(ch, prompt) {
			t.Violate("%s: a later SetOption does not return within %v", what, prompt)
		}
	}
}

func (t *T) watchHosts() {
	t.onHost = func(h *host) {
		t.mu.Lock()
		t.hostsMade = append(t.hostsMade, h)
		t.mu.Unlock()
	}
}

// c12Ops ends sockets with all sorts of things going on.
func c12Ops(t *T) {
	t.watchHosts()
	typ := zmtpTypes[t.idx%11]
	e := &c12env{t: t, typ: typ, tr: transports[(t.idx/11)%5]}
	if e.tr == "chaos" {
		e.tr = pick(t, "vmem", "tcp")
	}
	e.s = t.Sock(typ, zmq4.WithDialerRetry(30*time.Second), zmq4.WithDialerMaxRetries(-1))
	want := 1 + t.Intn(4)
	first := (t.idx/11 + t.idx) % len(c12ops)
	var names []string
	for i, n := 0, 0; i < 40 && n < want; i++ {
		j := first
		if i > 0 {
			j = t.Intn(len(c12ops))
		}
		if (typ == zmq4.Req || typ == zmq4.Rep || typ == zmq4.Router) && n > 0 && strings.HasPrefix(c12ops[j].name, "send") {
			continue // which peer it goes to is not ours to say
		}
		if n > 0 && strings.HasPrefix(c12ops[j].name, "recv from silent") && typ == zmq4.Req {
			continue
		}
		if (typ == zmq4.Dealer || typ == zmq4.Push) && strings.HasPrefix(c12ops[j].name, "send to stalled") && len(e.raws) > 0 {
			continue
		}
		t.Log("%s: %s", typ, c12ops[j].name)
		if c12ops[j].run(e) {
			n++
			names = append(names, c12ops[j].name)
			if c12ops[j].name == "subscribe at stalled peer" {
				break // further changes and connections wait for it
			}
		}
	}
	// A send to nobody goes through if a peer came later.
	for _, c := range e.calls {
		if c.what == "Send" && len(names) > 1 {
			c.mayOK = true
		}
	}
	e.key = strings.Join(names, " + ")
	mode := pick(t, "close", "cancel", "closes")
	e.finish(mode)
	t.runCleanup()
	t.noGoroutines(e.key)
	for _, n := range names {
		t.Key(typ, n, mode)
	}
	t.Key(typ, e.key)
	count("sockets ended", 1)
}

// c12Busy: two library sockets in full exchange, closed in any order.
func c12Busy(t *T) {
	t.watchHosts()
	k := flowKinds[t.idx%len(flowKinds)]
	tr := transports[(t.idx/len(flowKinds)+t.idx)%5]
	f := t.newFlow(k, tr, t.Bool())
	what := fmt.Sprintf("%s over %s", k.name, tr)
	type res struct {
		who string
		ch  chan struct{}
	}
	var rs []res
	loop := func(who string, s *Sock, fn func() error) {
		r := res{who, make(chan struct{})}
		rs = append(rs, r)
		t.Go(func() {
			defer close(r.ch)
			for {
				if fn() != nil && (s.closing() || s.ctx.Err() != nil) {
					return
				}
			}
		})
	}
	snd := func(s *Sock, pre [][]byte) func() error {
		i := 0
		return func() error {
			i++
			return s.put(i%2 == 0, append(append([][]byte{}, pre...), []byte(fmt.Sprint(i)), make([]byte, 3000*(i%3)))...)
		}
	}
	rcv := func(s *Sock) func() error { return func() error { _, err := s.Recv(); return err } }
	if f.step {
		// one request at a time
		switch k.name {
		case "req-rep", "rep-req", "req-router", "router-req":
			req, srv := f.A, f.B
			if k.a != zmq4.Req {
				req, srv = f.B, f.A
			}
			loop("REQ", req, func() error {
				if err := req.put(false, []byte("q")); err != nil {
					return err
				}
				_, err := req.Recv()
				return err
			})
			loop("server", srv, func() error {
				m, err := srv.Recv()
				if err != nil {
					return err
				}
				return srv.put(false, m.Frames...)
			})
		default: // rep-dealer
			loop("send", f.B, snd(f.B, [][]byte{nil}))
			loop("recv", f.B, rcv(f.B))
			loop("server", f.A, func() error {
				m, err := f.A.Recv()
				if err != nil {
					return err
				}
				return f.A.put(false, m.Frames...)
			})
		}
	} else {
		loop("send", f.A, snd(f.A, f.pre))
		if k.b != zmq4.Rep || t.Bool() {
			loop("recv", f.B, rcv(f.B))
		}
		if receives(f.A.typ) && k.a != zmq4.XSub && k.a != zmq4.Sub {
			loop("recv A", f.A, rcv(f.A))
		}
		if k.a == zmq4.Pair || k.b == zmq4.Dealer {
			loop("send B", f.B, snd(f.B, nil))
		}
	}
	until(time.Duration(t.Intn(15))*time.Millisecond, func() bool { return false })
	end := func(s *Sock, mode int) func() {
		return func() {
			switch mode {
			case 0:
				s.shut()
			case 1:
				s.cancel()
				s.shut()
			default:
				t.Par(patience, what, func() { s.shut() }, func() { _ = s.Socket.Close() })
			}
		}
	}
	a, b := end(f.A, t.Intn(3)), end(f.B, t.Intn(3))
	order := pick(t, "A first", "B first", "together")
	t.Log("%s, %s", what, order)
	switch order {
	case "A first":
		a()
		until(time.Duration(t.Intn(10))*time.Millisecond, func() bool { return false })
		b()
	case "B first":
		b()
		until(time.Duration(t.Intn(10))*time.Millisecond, func() bool { return false })
		a()
	default:
		t.Par(patience, what, a, b)
	}
	for _, r := range rs {
		if !waitCh(r.ch, prompt) {
			t.Violate("%s, %s: %s goes on after Close", what, order, r.who)
		}
	}
	for _, s := range []*Sock{f.A, f.B} {
		e := &c12env{t: t, s: s, typ: s.typ}
		e.later(what)
		if s.lep != "" && strings.HasPrefix(s.lep, "ipc://") && exists(strings.TrimPrefix(s.lep, "ipc://")) {
			t.Violate("%s, %s: the file of the end-point is left", what, order)
		}
	}
	for _, l := range t.hostLinks() {
		if !until(patience, func() bool { return l.d.isClosed() && l.l.isClosed() }) {
			t.Violate("%s: a connection is left open", what)
		}
	}
	t.runCleanup()
	t.noGoroutines(what)
	t.Key("busy", k.name, tr, order)
	count("sockets ended", 2)
}

// c12Race: Listen, Dial and connecting peers race with Close.
func c12Race(t *T) {
	t.watchHosts()
	tr := transports[t.idx%5]
	for i := 0; i < 12; i++ {
		typ := pick(t, zmtpTypes...)
		jitter := func() {
			for n := t.Intn(1 << uint(t.Intn(15))); n > 0; n-- {
				tick.Load()
			}
		}
		s := t.Sock(typ, zmq4.WithDialerRetry(time.Second))
		kind := pick(t, "listen", "dial", "accept")
		ep := t.fresh(tr)
		end := func() {
			jitter()
			if t.Bool() {
				s.cancel()
			}
			s.shut()
		}
		switch kind {
		case "listen":
			if tr == "tcp" || tr == "chaos" {
				ep = strings.Replace(ep, ":0", fmt.Sprintf(":%d", 20000+t.Intn(11000)), 1)
			}
			t.Par(patience, "Listen and Close", end, func() {
				jitter()
				_ = s.Listen(ep)
			})
		case "dial":
			l := t.Sock(compatible(t, typ))
			ep = t.bind(l, ep)
			t.Par(patience, "Dial and Close", end, func() {
				jitter()
				_ = s.Dial(ep)
			})
			for _, lk := range t.hostLinks() {
				if lk.host.ep() == ep && !until(patience, func() bool { return lk.d.isClosed() && (l.typ == zmq4.Req || lk.l.isClosed()) }) {
					t.Violate("%s: Dial and Close at the same time: the connection is left open", typ)
				}
			}
			l.shut()
		case "accept":
			ep = t.bind(s, ep)
			fs := []func(){end}
			for j := 0; j < 1+t.Intn(3); j++ {
				p := t.Sock(compatible(t, typ), zmq4.WithDialerRetry(time.Millisecond), zmq4.WithAutomaticReconnect(t.Bool()))
				fs = append(fs, func() {
					jitter()
					_ = p.Dial(ep)
				})
				defer p.shut()
			}
			t.Par(patience, "connecting and Close", fs...)
		}
		if p := strings.TrimPrefix(ep, "ipc://"); p != ep && exists(p) {
			t.Violate("%s: %s and Close at the same time: the file of the end-point is left", typ, kind)
		}
		if kind != "dial" {
			n := t.Sock(typ)
			if err := n.Listen(ep); err != nil {
				t.Violate("%s: %s and Close at the same time: the end-point cannot be used again: %v", typ, kind, err)
			}
			n.shut()
		}
		e := &c12env{t: t, s: s, typ: s.typ}
		e.later(kind + " and Close at the same time")
		t.Key("race", typ, kind, tr)
		count("races", 1)
	}
	t.runCleanup()
	t.noGoroutines("Close at the same time as Listen, Dial or Accept")
}

// compatible is a type that can connect to the given one.
func compatible(t *T, typ zmq4.SocketType) zmq4.SocketType {
	return zmq4.SocketType(t.rawPeer(typ))
}

// c12Files: ipc files belong to whoever listens.
func c12Files(t *T) {
	path := filepath.Join(t.Dir(), "f")
	ep := "ipc://" + path
	typ := pick(t, zmtpTypes...)
	switch t.idx % 4 {
	case 0, 1: // sockets that fail to listen, or only dial
		a := t.Sock(typ)
		t.bind(a, ep)
		k := t.talk(a)
		for i := 0; i < 2+t.Intn(4); i++ {
			b := t.Sock(compatible(t, typ))
			how := pick(t, "listen", "dial", "both", "dial then listen elsewhere", "cancel")
			switch how {
			case "listen", "both", "cancel":
				if err := b.Listen(ep); err == nil {
					t.Violate("%s and %s both listen on %s", typ, b.typ, ep)
				}
				if how == "both" {
					t.dial(b, ep)
				}
				if how == "cancel" {
					b.cancel()
					settle()
				}
			case "dial":
				t.dial(b, ep)
			default:
				t.dial(b, ep)
				own := ep + "2"
				t.bind(b, own)
				b.shut()
				if exists(path + "2") {
					t.Violate("%s: file left after Close", b.typ)
				}
			}
			b.shut()
			if !exists(path) {
				t.Violate("the file of a listening %s is gone after another socket was closed (%s)", typ, how)
			}
			r := t.connectTo(ep).mustNull(t.rawPeer(typ), "")
			k.exchange(r, "listener after another socket was closed ("+how+")")
			_ = r.c.Close()
			t.Key("files", typ, how)
			count("foreign closes", 1)
		}
		a.shut()
		if exists(path) {
			t.Violate("%s: file left after Close", typ)
		}
	case 2: // a file that is in the way
		if err := os.WriteFile(path, []byte("mine"), 0o600); err != nil {
			t.Skip("%v", err)
		}
		a := t.Sock(typ)
		if err := a.Listen(ep); err == nil {
			t.Violate("%s: Listen on a file that exists succeeds", typ)
		}
		a.shut()
		if b, err := os.ReadFile(path); err != nil || string(b) != "mine" {
			t.Violate("%s: Listen or Close removed a file that is somebody else's", typ)
		}
		t.Key("files", typ, "regular")
		count("foreign closes", 1)
	case 3: // one after the other
		for i := 0; i < 5; i++ {
			a := t.Sock(typ)
			t.bind(a, ep)
			if t.Bool() {
				t.talk(a).exchange(t.connectTo(ep).mustNull(t.rawPeer(typ), ""), "socket that takes the end-point over")
			}
			if t.Bool() {
				a.cancel()
			}
			a.shut()
			if exists(path) {
				t.Violate("%s: file left after Close", typ)
			}
			count("end-points reused", 1)
		}
		t.Key("files", typ, "in turn")
	}
	t.runCleanup()
	t.noGoroutines("ipc")
}

// c12Shared: sockets of one context.
func c12Shared(t *T) {
	t.watchHosts()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var ss []*Sock
	var calls []chan error
	var raws []*raw
	for i := 0; i < 2+t.Intn(5); i++ {
		typ := pick(t, zmtpTypes...)
		s := &Sock{Socket: makers[typ](ctx), t: t, typ: typ, ctx: ctx, cancel: func() {}, done: make(chan struct{})}
		t.Cleanup(func() { s.shut() })
		ss = append(ss, s)
		ep := t.bind(s, t.fresh(pick(t, "tcp", "ipc", "vmem", "inproc")))
		raws = append(raws, t.connectTo(ep).mustNull(t.rawPeer(typ), ""))
		if receives(typ) {
			ch := make(chan error, 1)
			go func() { _, err := s.Recv(); ch <- err }()
			calls = append(calls, ch)
		}
		if t.Chance(30) {
			h := t.Host()
			ch := make(chan error, 1)
			go func() { ch <- s.Dial(h.ep()) }()
			calls = append(calls, ch)
		}
	}
	settle()
	victim := t.Intn(len(ss))
	ss[victim].shut()
	if !raws[victim].eof(patience) {
		t.Violate("%s: the peer does not notice Close", ss[victim].typ)
	}
	for i, s := range ss { // the others are not concerned
		if i != victim && !receives(s.typ) {
			if err := t.talk(s).tryExchange(raws[i], patience); err != nil {
				t.Violate("%s after a %s of the same context was closed: %v", s.typ, ss[victim].typ, err)
			}
		}
	}
	cancel()
	for _, ch := range calls {
		var err error
		if !t.Done(prompt, func() { err = <-ch }) {
			t.Violate("a call does not return within %v after the context was cancelled", prompt)
		}
		if err == nil {
			t.Violate("a call returns without an error after the context was cancelled")
		}
		count("calls ended", 1)
	}
	for i, s := range ss {
		if i != victim {
			e := &c12env{t: t, s: s, typ: s.typ}
			e.later("context cancelled, before Close")
		}
	}
	for i, s := range ss {
		s.shut()
		if !raws[i].eof(patience) {
			t.Violate("%s: the peer does not notice Close", s.typ)
		}
		if err := s.Socket.Close(); err == nil {
			t.Violate("%s: a second Close reports success", s.typ)
		}
	}
	t.runCleanup()
	t.noGoroutines("sockets of one context")
	t.Key("shared", len(ss), ss[0].typ)
	count("sockets ended", int64(len(ss)))
}

// c12Unused: sockets that never did anything.
func c12Unused(t *T) {
	typ := zmtpTypes[t.idx%11]
	for i := 0; i < 5; i++ {
		s := t.Sock(typ)
		if i == 1 {
			s.cancel()
		}
		if i == 2 {
			_ = s.Listen("nonsense")
			_ = s.Listen("ipc:///nonexistent/directory/s")
			_ = s.Dial("nonsense")
		}
		if i == 3 {
			s.Socket = makers[typ](nil) //nolint: a nil context is allowed for
		}
		if i == 4 { // born dead
			s.cancel()
			s.Socket = makers[typ](s.ctx)
			e := &c12env{t: t, s: s, typ: typ}
			e.later("context cancelled beforehand, before Close")
		}
		s.shut()
		if s.err != nil {
			t.Violate("%s: Close of an idle socket: %v", typ, s.err)
		}
		if err := s.Socket.Close(); err == nil {
			t.Violate("%s: a second Close reports success", typ)
		}
		e := &c12env{t: t, s: s, typ: typ}
		e.later("idle socket closed")
	}
	t.runCleanup()
	t.noGoroutines("idle socket")
	t.Key("unused", typ)
	count("sockets ended", 5)
}

func socketFDs() (n int, list []string) {
	ds, _ := os.ReadDir("/proc/self/fd")
	for _, d := range ds {
		l, err := os.Readlink("/proc/self/fd/" + d.Name())
		if err == nil && strings.HasPrefix(l, "socket:") {
			n++
			list = append(list, l)
		}
	}
	return
}

func init() {
	register(&check{
		id:     "C12",
		rule:   "executions end sockets of every type with one to four things in progress (blocked calls, stalled peers and handshakes, pending reconnections, full queues, two-way traffic, races of Listen/Dial/Accept with Close), by Close, cancellation or several Closes at once; calls, peers, files, end-points, library goroutines and socket descriptors are checked afterwards; distinct cases are socket type x what is in progress x way of ending",
		assume: []string{"promptly: within 5 s of running time", "goroutines are found by the profiling label they inherit"},
		need:   map[string]int64{"calls ended": 150, "later calls": 1500, "peers that noticed": 150, "goroutine censuses": 200, "end-points reused": 60, "races": 150},
		after: func() {
			t := newT("census", 0)
			n := 0
			if !until(patience, func() bool { n, _ = socketFDs(); return n == 0 }) {
				t.Violate("%d socket descriptors are left after everything has been closed", n)
			}
			count("descriptor censuses", 1)
		},
		scenarios: func() []scenario {
			return []scenario{
				{"ops", 165, 3000, labelled(c12Ops)},
				{"busy", 54, 900, labelled(c12Busy)},
				{"race", 20, 400, labelled(c12Race)},
				{"files", 16, 300, labelled(c12Files)},
				{"shared", 10, 200, labelled(c12Shared)},
				{"unused", 11, 55, labelled(c12Unused)},
			}
		},
	})
}
