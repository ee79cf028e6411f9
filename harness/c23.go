package main

import (
	"bufio"
	"fmt"
	"net"
	"os"
	"runtime"
	"strings"
	"sync"
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
)

// ways a connection is lost
var c23ways = []string{"at once", "in the greeting", "in READY", "after the handshake", "after an exchange", "reset", "in a header", "in a frame", "in a message", "malformed", "garbage", "incompatible", "stalled"}

// rst makes closing a reset, if the transport has such a thing.
func rst(c net.Conn) {
	if tc, ok := c.(*net.TCPConn); ok {
		_ = tc.SetLinger(0)
	}
	_ = c.Close()
}

// lose has a connected raw peer go through its handshake as far as it gets,
// and leave. ok: a connection was made.
func (e *c23env) lose(r *raw, way string) (ok bool) {
	t, typ := e.t, e.typ
	peer := t.rawPeer(typ)
	whole := cat(greetingBytes("NULL", 0), command("READY", props("Socket-Type", peer, "Identity", e.id())))
	part := func(n int) {
		_ = r.write(whole[:n])
		if t.Bool() {
			settleShort()
		}
		if t.Bool() {
			rst(r.c)
		} else {
			_ = r.c.Close()
		}
	}
	if typ == zmq4.Req && way == "malformed" {
		way = "in a frame" // it reads when it receives
	}
	count("connections lost", 1)
	count("lost "+way, 1)
	switch way {
	case "at once":
		part(0)
		return false
	case "in the greeting":
		part(1 + t.Intn(63))
		return false
	case "in READY":
		part(64 + t.Intn(len(whole)-64))
		return false
	case "garbage":
		b := t.Bytes(64 + t.Intn(200))
		b[0] = 0xff ^ byte(1+t.Intn(255))
		_ = r.write(b)
		e.left = append(e.left, r)
		return false
	case "incompatible":
		_ = r.write(cat(greetingBytes("NULL", 0), command("READY", props("Socket-Type", "NOBODY"))))
		e.left = append(e.left, r)
		return false
	}
	r.mustNull(peer, e.id())
	var b []byte
	switch way {
	case "after an exchange":
		if err := e.k.tryExchange(r, patience); err != nil {
			t.Violate("%s: exchange with a new peer, after %d others have left: %v", e.what, e.n, err)
		}
	case "in a header":
		b = pick(t, []byte{0}, []byte{fMore}, []byte{fLong, 0, 0, 0}, []byte{fLong, 0, 0, 0, 0, 0, 0, 1})
	case "in a frame":
		b = frame(pick(t, byte(0), fMore), make([]byte, 10+t.Intn(3000)))
		b = b[:len(b)-1-t.Intn(5)]
	case "in a message":
		b = cat(frame(fMore, []byte("a")), frame(fMore, t.Bytes(t.Intn(400))))
	case "malformed":
		_ = r.write(pick(t, hugeFrame(0, 1<<63, []byte("x")), hugeFrame(fMore, ^uint64(0), nil), frame(fCmd, []byte("\x50ING")), frame(fCmd, nil)))
		e.left = append(e.left, r)
		return true
	case "stalled":
		if !sends(typ) {
			break
		}
		// The application goes on sending.
		big := make([]byte, 1<<20)
		for i := 0; i < 6; i++ {
			_ = e.s.put(i%2 == 0, []byte("t"), big)
			e.drain()
		}
		count("sends to stalled peers", 6)
	case "reset":
		if t.Bool() {
			_ = r.sendMsg([]byte("\x01leaving"))
		}
		rst(r.c)
		return true
	}
	if len(b) > 0 {
		_ = r.write(b)
	}
	if t.Chance(30) {
		rst(r.c)
	} else {
		_ = r.c.Close()
	}
	return true
}

func settleShort() { time.Sleep(200 * time.Microsecond) }

type c23env struct {
	t    *T
	s    *Sock
	typ  zmq4.SocketType
	k    *talk
	home *raw // the peer that stays
	what string
	n    int
	left []*raw // that the library has to hang up on

	dials bool
}

func (e *c23env) id() string {
	e.n++
	if e.typ == zmq4.Router && e.t.Bool() {
		return fmt.Sprintf("peer-%d-%s", e.n, strings.Repeat("x", e.t.Intn(200)))
	}
	return ""
}

// drain has the peer that stays read what was sent to it.
func (e *c23env) drain() {
	for e.home != nil {
		if _, err := e.home.next(2 * time.Millisecond); err != nil {
			return
		}
	}
}

// poke makes use of the socket: some notice losses only then.
func (e *c23env) poke() {
	switch {
	case e.home != nil:
		if err := e.k.tryExchange(e.home, patience); err != nil {
			e.t.Violate("%s: exchange with the peer that stays, after %d others have left: %v", e.what, e.n, err)
		}
	case sends(e.typ) || e.typ == zmq4.Req:
		_ = e.s.put(e.t.Bool(), []byte("t"), []byte("x"))
	}
}

// census is what is in use with the one connection; its goroutines may only
// just have been started.
func (e *c23env) census() int {
	most := 0
	for i := 0; i < 8; i++ {
		time.Sleep(2 * time.Millisecond)
		if n := total(e.t.libGoroutines()); n > most {
			most = n
		}
	}
	return most
}

// back waits until no more is in use than was.
func (e *c23env) back(base int) {
	t := e.t
	for i, r := range e.left {
		if !r.eof(patience) {
			t.Violate("%s: connection %d, whose peer broke the protocol, is left open", e.what, i)
		}
		_ = r.c.Close()
		count("hung up", 1)
	}
	e.left = nil
	var left []string
	dl := after(patience)
	for {
		if left = t.libGoroutines(); total(left) <= base {
			break
		}
		if dl.passed() {
			t.Log("%s", strings.Join(left, "\n\n"))
			t.Violate("%s: after %d connections that are gone, %d goroutines of the library instead of %d; most of them: %.1500s", e.what, e.n, total(left), base, left[0])
		}
		e.poke()
		time.Sleep(time.Millisecond)
	}
	count("goroutine censuses", 1)
	for _, l := range t.hostLinks() {
		lib, raw := l.l, net.Conn(l.d)
		if e.dials {
			lib, raw = l.d, l.l
		}
		if e.home != nil && raw == e.home.c {
			continue
		}
		if !until(patience, func() bool {
			if !lib.isClosed() && e.typ == zmq4.Req {
				e.poke()
			}
			return lib.isClosed()
		}) {
			t.Violate("%s: a connection that was lost is left open", e.what)
		}
	}
}

// total counts the goroutines of a census, which comes by equal stacks.
func total(stacks []string) int {
	n := 0
	for _, s := range stacks {
		k := 1
		if i := strings.Index(s, " @ "); i >= 0 {
			_, _ = fmt.Sscan(s[strings.LastIndexByte(s[:i], '\n')+1:i], &k)
		}
		n += k
	}
	return n
}

// c23Listen: peers come and go at a socket that listens.
func c23Listen(t *T) {
	t.watchHosts()
	typ := zmtpTypes[t.idx%11]
	tr := []string{"tcp", "ipc", "inproc", "vmem"}[(t.idx/11+t.idx)%4]
	e := &c23env{t: t, typ: typ, what: fmt.Sprintf("%s listening over %s", typ, tr)}
	e.s = t.Sock(typ, zmq4.WithTimeout(time.Duration(20+t.Intn(80))*time.Millisecond))
	ep := t.bind(e.s, t.fresh(tr))
	e.k = t.talk(e.s)
	e.k.serve()
	e.home = t.connectTo(ep).mustNull(t.rawPeer(typ), "stays")
	e.poke()
	base := e.census()
	n := 20 + t.Intn(20)
	for i := 0; i < n; i++ {
		way := c23ways[t.Intn(len(c23ways))]
		if tr == "inproc" && way == "stalled" {
			way = "reset"
		}
		if (typ == zmq4.Pair || typ == zmq4.Req) && way == "after an exchange" {
			way = "after the handshake" // with more than one peer it is not ours to say who gets what
		}
		if way == "stalled" && t.Chance(60) {
			way = "at once" // takes long
		}
		e.lose(t.connectTo(ep), way)
		if t.Chance(20) {
			e.poke()
		}
		t.Key(typ, tr, way)
	}
	e.back(base)
	_ = e.home.c.Close()
	e.home = nil
	e.back(base)
}

// c23Dial: a socket that dials loses its connections, and gets others.
func c23Dial(t *T) {
	t.watchHosts()
	typ := zmtpTypes[t.idx%11]
	tr := []string{"tcp", "ipc", "vmem"}[(t.idx/11+t.idx)%3]
	auto := (t.idx/2)%2 == 0 && typ != zmq4.Req
	e := &c23env{t: t, typ: typ, what: fmt.Sprintf("%s dialling over %s, automatic reconnection %v", typ, tr, auto)}
	e.dials = true
	e.s = t.Sock(typ, zmq4.WithTimeout(time.Duration(20+t.Intn(80))*time.Millisecond), zmq4.WithAutomaticReconnect(auto),
		zmq4.WithDialerRetry(time.Millisecond), zmq4.WithDialerMaxRetries(map[bool]int{true: -1, false: 0}[auto]))
	var l net.Listener
	var ep string
	if tr == "vmem" {
		h := t.Host()
		var err error
		if l, err = h.listen(); err != nil {
			t.Skip("%v", err)
		}
		t.Cleanup(func() { _ = l.Close() })
		ep = h.ep()
		t.onHost(h)
	} else {
		l, ep = t.listenRaw(tr)
	}
	e.k = t.talk(e.s)
	e.k.serve()
	next := func(way string) {
		ch := make(chan struct{})
		if !auto || e.n == 0 {
			t.Go(func() { defer close(ch); _ = e.s.Dial(ep) })
		} else {
			close(ch)
		}
		r := t.accept(l)
		if way == "" {
			e.home = r.mustNull(t.rawPeer(typ), "")
			e.id()
		} else {
			e.lose(r, way)
			for _, r := range e.left {
				if !r.eof(patience) {
					t.Violate("%s: connection whose peer broke the protocol is left open", e.what)
				}
				_ = r.c.Close()
				count("hung up", 1)
			}
			e.left = nil
		}
		if !waitCh(ch, patience) {
			t.Violate("%s: Dial does not return", e.what)
		}
	}
	// one that stays, for a while
	next("")
	e.poke()
	base := e.census()
	_ = e.home.c.Close()
	e.home = nil
	n := 15 + t.Intn(15)
	for i := 0; i < n; i++ {
		way := c23ways[t.Intn(len(c23ways))]
		if way == "stalled" && t.Chance(60) || way == "after an exchange" && typ == zmq4.Req {
			way = "after the handshake"
		}
		next(way)
		t.Key(typ, tr, auto, way)
	}
	next("")
	e.back(base)
	if auto {
		return
	}
	_ = e.home.c.Close()
	e.home = nil
	e.back(base)
}

// c23Failed: Dials that fail, and Listens.
func c23Failed(t *T) {
	t.watchHosts()
	typ := zmtpTypes[t.idx%11]
	e := &c23env{t: t, typ: typ, what: fmt.Sprintf("%s, failed Dials and Listens", typ)}
	e.s = t.Sock(typ, zmq4.WithDialerRetry(time.Millisecond), zmq4.WithDialerMaxRetries(t.Intn(3)))
	e.dials = true
	ep := t.bind(e.s, t.fresh(pick(t, "tcp", "ipc", "inproc")))
	e.k = t.talk(e.s)
	e.k.serve()
	e.home = t.connectTo(ep).mustNull(t.rawPeer(typ), "")
	e.poke()
	base := e.census()
	h, hl := t.Host(), t.Host() // nobody, and one that answers
	t.onHost(hl)
	l, err := hl.listen()
	if err != nil {
		t.Skip("%v", err)
	}
	t.Cleanup(func() { _ = l.Close() })
	for i := 0; i < 20+t.Intn(20); i++ {
		how := pick(t, "refused", "no file", "handshake", "handshake", "taken", "malformed", "nobody there")
		switch how {
		case "refused":
			err = e.s.Dial(h.ep())
		case "no file":
			err = e.s.Dial("ipc://" + t.Dir() + "/none")
		case "nobody there":
			err = e.s.Dial("inproc://nobody")
		case "malformed":
			err = e.s.Dial(malformedEp(t))
		case "taken":
			err = e.s.Listen(t.fresh("tcp"))
		case "handshake":
			ch := make(chan error, 1)
			go func() { ch <- e.s.Dial(hl.ep()) }()
			r := t.accept(l)
			way := pick(t, "at once", "in the greeting", "in READY", "garbage", "incompatible")
			e.lose(r, way)
			for _, r := range e.left {
				if !r.eof(patience) {
					t.Violate("%s: connection whose handshake failed (%s) is left open", e.what, way)
				}
				_ = r.c.Close()
			}
			e.left = nil
			if !waitCh(ch, patience) {
				t.Violate("%s: Dial does not return", e.what)
			}
			err = fmt.Errorf("handshake")
		}
		if err == nil {
			t.Violate("%s: success (%s)", e.what, how)
		}
		e.n++
		count("failures", 1)
		t.Key(typ, "failed", how)
	}
	e.back(base)
}

// ---- memory and descriptors: one at a time

var c23Alone sync.RWMutex

func shared23(fn func(*T)) func(*T) {
	fn = labelled(fn)
	return func(t *T) {
		c23Alone.RLock()
		defer c23Alone.RUnlock()
		defer t.runCleanup()
		fn(t)
	}
}

func alone23(fn func(*T)) func(*T) {
	return func(t *T) {
		c23Alone.Lock()
		defer c23Alone.Unlock()
		defer t.runCleanup()
		fn(t)
	}
}

func heap() int64 {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC() // pools are emptied by the second one
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

// bare is a raw peer of which the monitors keep nothing.
func (t *T) bare(c net.Conn) *raw {
	return &raw{t: t, c: c, br: bufio.NewReaderSize(c, 4096)}
}

// grown compares the heap and the descriptors with what they were.
func (t *T) grown(what string, heap0 int64, fds0 int, n int, most int64) {
	var h int64
	if !until(patience, func() bool { h = heap(); return h-heap0 < most }) {
		t.Violate("%s: after %d connections that are gone, %d bytes more are in use", what, n, h-heap0)
	}
	fds := 0
	if !until(patience, func() bool { fds, _ = socketFDs(); return fds <= fds0 }) {
		t.Violate("%s: after %d connections that are gone, %d socket descriptors are in use", what, n, fds)
	}
	count("memory censuses", 1)
	count("descriptor censuses", 1)
	if g := h - heap0; g > 0 {
		count("bytes of growth", g)
		t.Log("growth %d", g)
		if v := os.Getenv("GROWTH"); v != "" {
			fmt.Println("growth", what, g)
		}
	}
}

const c23meta = 64 << 10

// c23Heap: peers with a lot to say about themselves come and go.
func c23Heap(t *T) {
	typ := zmtpTypes[t.idx%11]
	tr := []string{"tcp", "ipc", "inproc"}[(t.idx/11+t.idx)%3]
	dialling := (t.idx/5)%3 == 0 && tr != "inproc" && typ != zmq4.Req
	const n, most = 120, 3 << 20
	s := t.Sock(typ, zmq4.WithTimeout(50*time.Millisecond), zmq4.WithDialerRetry(time.Millisecond), zmq4.WithDialerMaxRetries(-1))
	what := fmt.Sprintf("%s over %s, dialling: %v", typ, tr, dialling)
	if receives(typ) {
		t.Go(func() { // keeps nothing
			for {
				if _, err := s.Recv(); err != nil {
					if s.closing() {
						return
					}
					time.Sleep(100 * time.Microsecond)
				}
			}
		})
	}
	if typ == zmq4.Sub {
		_ = s.SetOption(zmq4.OptionSubscribe, "")
	}
	var connect func() net.Conn
	if dialling {
		l, ep := t.listenRaw(tr)
		first := true
		connect = func() net.Conn {
			if first {
				first = false
				go func() { _ = s.Dial(ep) }()
			}
			var c net.Conn
			t.Within(patience, what+": connection", func() { c, _ = l.Accept() })
			if c == nil {
				t.Skip("no connection")
			}
			return c
		}
	} else {
		ep := t.bind(s, t.fresh(tr))
		tp, addr, _ := strings.Cut(ep, "://")
		connect = func() net.Conn {
			var c net.Conn
			var err error
			switch tp {
			case "tcp":
				c, err = net.Dial("tcp", addr)
			case "ipc":
				c, err = net.Dial("unix", addr)
			default:
				c, err = inprocDial(addr)
			}
			if err != nil {
				t.Violate("%s: connecting: %v", what, err)
			}
			return c
		}
	}
	peer := t.rawPeer(typ)
	one := func(i int) {
		c := connect()
		r := t.bare(c)
		kv := []string{"Socket-Type", peer, "X-Note", strings.Repeat("n", c23meta)}
		if i%3 == 0 {
			kv = append(kv, "Identity", fmt.Sprintf("peer-%d", i))
		}
		if i%7 == 6 { // no more than this
			_ = r.write(cat(greetingBytes("NULL", 0), command("READY", props(kv...)))[:c23meta])
			_ = c.Close()
			return
		}
		r.kind = peer
		if err := r.nullWith(props(kv...)); err != nil {
			t.Violate("%s: handshake of peer %d: %v", what, i, err)
		}
		_ = c.SetDeadline(time.Time{}) // timers would hold on to inproc connections
		_ = c.SetWriteDeadline(time.Now().Add(20 * time.Millisecond))
		switch typ {
		case zmq4.Pub, zmq4.XPub: // a topic each
			_ = r.write(encodeMsg([][]byte{append([]byte{1, byte(i), byte(i >> 8)}, make([]byte, c23meta)...)}))
		case zmq4.Req, zmq4.Push:
		default:
			pre := [][]byte{}
			if typ == zmq4.Rep {
				pre = append(pre, []byte{}) // a request that is never answered
			}
			_ = r.write(encodeMsg(append(pre, make([]byte, c23meta))))
		}
		if sends(typ) && i%2 == 0 {
			_ = s.put(i%4 == 0, []byte("t"), make([]byte, c23meta))
		}
		// read what has come, so that closing is no reset
		if i%3 > 0 {
			_ = c.SetReadDeadline(time.Now().Add(time.Millisecond))
			for {
				if _, _, err := r.readFrame(); err != nil {
					break
				}
			}
		}
		if i%5 == 4 {
			rst(c)
		}
		_ = c.Close()
	}
	// the first ones fill what is there to be filled
	for i := 0; i < 20; i++ {
		one(i)
	}
	settle()
	heap0 := heap()
	const fds0 = 6 // listener, a connection or two
	for i := 0; i < n; i++ {
		one(20 + i)
		if (typ == zmq4.Req || typ == zmq4.Rep) && i%10 == 9 {
			_ = s.put(false, []byte("x")) // notices
		}
	}
	if typ == zmq4.Req {
		for i := 0; i < 10; i++ {
			_ = s.put(false, []byte("x"))
		}
	}
	if dialling {
		// stays
		c := connect()
		defer c.Close()
		r := t.bare(c)
		_ = r.nullWith(props("Socket-Type", peer))
	}
	t.grown(what, heap0, fds0, n, most)
	t.Key("heap", typ, tr, dialling)
	count("connections lost", n)
	if typ == zmq4.Pub || typ == zmq4.XPub {
		if !until(patience, func() bool { return len(topics(s)) == 0 }) {
			t.Violate("%s: topics of subscribers that are gone are left", what)
		}
	}
}

// c23Queue: what was queued for a peer goes with it.
func c23Queue(t *T) {
	typ := pick(t, zmq4.Pub, zmq4.XPub, zmq4.Push, zmq4.Dealer, zmq4.Pair, zmq4.Router, zmq4.Req)
	tr := pick(t, "tcp", "ipc")
	s := t.Sock(typ, zmq4.WithTimeout(10*time.Millisecond))
	what := fmt.Sprintf("%s over %s, stalled peers", typ, tr)
	ep := t.bind(s, t.fresh(tr))
	_, addr, _ := strings.Cut(ep, "://")
	heap0 := heap()
	const fds0 = 6
	const each = 256 << 10
	for round := 0; round < 3; round++ {
		n := 1 + t.Intn(3)
		var cs []net.Conn
		for i := 0; i < n; i++ {
			c, err := net.Dial(map[string]string{"tcp": "tcp", "ipc": "unix"}[tr], addr)
			if err != nil {
				t.Skip("%v", err)
			}
			r := t.bare(c)
			kind := t.rawPeer(typ)
			if typ == zmq4.Router {
				kind = "DEALER"
			}
			if err := r.nullWith(props("Socket-Type", kind, "Identity", fmt.Sprintf("p%d", i))); err != nil {
				t.Violate("%s: handshake: %v", what, err)
			}
			_ = c.SetDeadline(time.Time{})
			if typ == zmq4.Pub || typ == zmq4.XPub {
				_ = r.sendMsg([]byte("\x01t"))
			}
			cs = append(cs, c)
		}
		if typ == zmq4.Pub || typ == zmq4.XPub {
			t.Until(patience, "subscription", func() bool { return hasTopic(s, "t") })
		}
		settle()
		for i := 0; i < 60; i++ {
			first := []byte("t")
			if typ == zmq4.Router {
				first = []byte(fmt.Sprintf("p%d", i%n))
			}
			_ = s.put(i%2 == 0, first, make([]byte, each))
		}
		count("sends to stalled peers", 60)
		for _, c := range cs {
			_ = c.Close()
		}
		if typ == zmq4.Req {
			for i := 0; i < 2*n; i++ {
				_ = s.put(false, []byte("x"))
			}
		}
		t.grown(what, heap0, fds0, n, 4<<20)
		count("connections lost", int64(n))
	}
	t.Key("queue", typ, tr)
}

func init() {
	register(&check{
		id:     "C23",
		rule:   "executions have tens to hundreds of peers come to a socket that listens, or be dialled by one, and leave in any way (at any point of the handshake, by Close or reset, within a header, a frame or a message, having broken the protocol, having stopped to read), Dials and Listens fail; then the goroutines of the library, its open connections, socket descriptors and the live heap are counted and compared with what they were; distinct cases are socket type x transport x way of leaving",
		assume: []string{"goroutines are found by the profiling label they inherit", "a REQ socket may notice losses when it is used", "the live heap after collection is what is in use"},
		need:   map[string]int64{"connections lost": 5000, "goroutine censuses": 150, "memory censuses": 20, "hung up": 300, "failures": 500, "sends to stalled peers": 500},
		scenarios: func() []scenario {
			return []scenario{
				{"listen", 88, 1500, shared23(c23Listen)},
				{"dial", 66, 1200, shared23(c23Dial)},
				{"failed", 33, 500, shared23(c23Failed)},
				{"heap", 33, 330, alone23(c23Heap)},
				{"queue", 7, 120, alone23(c23Queue)},
			}
		},
	})
}
