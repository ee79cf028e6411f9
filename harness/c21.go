package main

import (
	"context"
	"errors"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/transport"
)

var pairs21 = [][2]zmq4.SocketType{
	{zmq4.Push, zmq4.Pull}, {zmq4.Pull, zmq4.Push}, {zmq4.Pair, zmq4.Pair}, {zmq4.Dealer, zmq4.Dealer},
	{zmq4.Req, zmq4.Rep}, {zmq4.Sub, zmq4.Pub}, {zmq4.Pub, zmq4.Sub}, {zmq4.Dealer, zmq4.Router}, {zmq4.Router, zmq4.Dealer}, {zmq4.XSub, zmq4.XPub}, {zmq4.XPub, zmq4.Sub},
}

// oneWay sends something from one socket to the other.
func (t *T) oneWay(a, b *Sock, what string) {
	if a.typ == zmq4.Pull || a.typ == zmq4.Sub || a.typ == zmq4.Router || a.typ == zmq4.XSub {
		a, b = b, a
	}
	m := [][]byte{[]byte("topic"), t.Bytes(t.Intn(300))}
	switch b.typ {
	case zmq4.Sub:
		if err := b.SetOption(zmq4.OptionSubscribe, "top"); err != nil {
			t.Violate("%s: Subscribe: %v", what, err)
		}
		t.Until(patience, what+": subscription", func() bool { return hasTopic(a, "top") })
	case zmq4.XSub:
		t.Until(patience, what+": subscription", func() bool {
			_ = b.put(false, []byte("\x01top"))
			return hasTopic(a, "top")
		})
	}
	if a.typ == zmq4.Req {
		var got [][]byte
		t.Par(patience, what, func() {
			got = t.recv(b)
			t.send(b, true, append(got, []byte("reply"))...)
		}, func() {
			t.sendReq(a, cloneFrames(m)...)
			if r := t.recv(a); !eqFrames(r, append(cloneFrames(m), []byte("reply"))) {
				t.Violate("%s: the reply to %s is %s", what, show(m), show(r))
			}
		})
		count("messages received", 2)
		return
	}
	t.send(a, t.Bool(), cloneFrames(m)...)
	var got [][]byte
	t.Within(patience, what+": Recv", func() { got = t.recv(b) })
	if b.typ == zmq4.Router && len(got) > 0 {
		got = got[1:]
	}
	if !eqFrames(got, m) {
		t.Violate("%s: sent %s, received %s", what, show(m), show(got))
	}
	count("messages received", 1)
}

// timed calls Dial and measures.
func timed(s *Sock, ep string) (err error, ticks time.Duration) {
	k := tick.Load()
	err = s.Dial(ep)
	return err, time.Duration(tick.Load()-k) * tickLen
}

// attempts compares what the transport saw with the setting.
func (t *T) attempts(h *host, interval time.Duration, what string) int {
	ev := h.dialEvents()
	for i := 1; i < len(ev); i++ {
		gap := ev[i].at.Sub(ev[i-1].at)
		if gap < interval {
			t.Violate("%s: attempt %d comes %v after the one before, the interval is %v", what, i+1, gap, interval)
		}
		if ticks := time.Duration(ev[i].tick-ev[i-1].tick) * tickLen; ticks > interval+2*time.Second {
			t.Violate("%s: attempt %d comes %v after the one before, the interval is %v", what, i+1, ticks, interval)
		}
	}
	count("attempts", int64(len(ev)))
	return len(ev)
}

var refusals = []error{
	&net.OpError{Op: "dial", Net: "vmem", Err: syscall.ECONNREFUSED},
	errors.New("no such thing"), syscall.ENOENT, context.DeadlineExceeded, slowErr{},
	&net.DNSError{Err: "no such host", Name: "x", IsTemporary: true}, syscall.ENETUNREACH,
}

// c21Count: how often, and how far apart.
func c21Count(t *T) {
	p := pairs21[t.Intn(len(pairs21))]
	retries := pick(t, 0, 0, 1, 2, 3, 4+t.Intn(6), 4+t.Intn(20))
	interval := time.Duration(pick(t, 0, 1, 5, t.Intn(40))) * time.Millisecond
	opts := []zmq4.Option{zmq4.WithDialerMaxRetries(retries), zmq4.WithDialerRetry(interval)}
	switch t.idx % 12 {
	case 3: // defaults
		retries, interval, opts = 10, 250*time.Millisecond, nil
	case 7:
		retries, opts = 10, []zmq4.Option{zmq4.WithDialerRetry(interval)}
	}
	if t.Bool() {
		opts = append(opts, zmq4.WithAutomaticReconnect(t.Bool()), zmq4.WithTimeout(time.Duration(1+t.Intn(2000))*time.Millisecond))
	}
	h := t.Host()
	at := -1 // this attempt succeeds
	if t.Bool() {
		at = t.Intn(retries + 4)
	}
	why := pick(t, refusals...)
	h.refuse = func(n int) error {
		if n == at {
			return nil
		}
		return why
	}
	a, b := t.Sock(p[0], opts...), t.Sock(p[1])
	t.bind(b, h.ep())
	var err error
	var took time.Duration
	t.Within(2*patience, "Dial", func() { err, took = timed(a, h.ep()) })
	what := fmt.Sprintf("%s, %d retries, every %v", a.typ, retries, interval)
	n := t.attempts(h, interval, what)
	if at >= 0 && at <= retries {
		if err != nil {
			t.Violate("%s: Dial fails though attempt %d is answered: %v", what, at+1, err)
		}
		if n != at+1 {
			t.Violate("%s: %d attempts though number %d succeeds", what, n, at+1)
		}
		t.oneWay(a, b, what)
		if n := h.dialCount(); n != at+1 {
			t.Violate("%s: %d attempts though number %d succeeds", what, n, at+1)
		}
		count("connected", 1)
	} else {
		if err == nil {
			t.Violate("%s: Dial succeeds though nobody answers", what)
		}
		if n != retries+1 {
			t.Violate("%s: %d attempts", what, n)
		}
		if !errors.Is(err, why) {
			t.Violate("%s: the error of Dial (%v) does not tell the cause (%v)", what, err, why)
		}
		settle()
		if n := h.dialCount(); n != retries+1 {
			t.Violate("%s: %d attempts, some after Dial has returned", what, n)
		}
		if len(h.live()) != 0 {
			t.Violate("%s: a failed Dial leaves a connection", what)
		}
		// and then it works
		h.mu.Lock()
		h.refuse = nil
		h.mu.Unlock()
		t.dial(a, h.ep())
		t.oneWay(a, b, what+", later")
		count("gave up", 1)
	}
	_ = took
	t.Key("count", retries, interval.Milliseconds(), at, fmt.Sprintf("%T", why))
}

// c21Forever: unlimited retries.
func c21Forever(t *T) {
	p := pairs21[t.Intn(len(pairs21))]
	interval := time.Duration(pick(t, 0, 1, 2, 5)) * time.Millisecond
	h := t.Host()
	fails := t.Intn(100)
	why := pick(t, refusals...)
	h.refuse = func(n int) error {
		if n < fails {
			return why
		}
		return nil
	}
	a, b := t.Sock(p[0], zmq4.WithDialerMaxRetries(-1), zmq4.WithDialerRetry(interval)), t.Sock(p[1])
	t.bind(b, h.ep())
	t.dial(a, h.ep())
	what := fmt.Sprintf("%s, no limit, every %v", a.typ, interval)
	if n := t.attempts(h, interval, what); n != fails+1 {
		t.Violate("%s: %d attempts though number %d succeeds", what, n, fails+1)
	}
	t.oneWay(a, b, what)
	count("connected", 1)
	t.Key("forever", bucket(fails), interval)
}

// c21Stop: the context is cancelled or the socket closed.
func c21Stop(t *T) {
	p := pairs21[t.Intn(len(pairs21))]
	retries := pick(t, -1, -1, 3, 1000000)
	interval := time.Duration(pick(t, 0, 1, 20, 60000, 3600000)) * time.Millisecond
	a := t.Sock(p[0], zmq4.WithDialerMaxRetries(retries), zmq4.WithDialerRetry(interval))
	how := pick(t, "cancelled", "closed", "cancelled before", "closed before")
	state := pick(t, "refusing", "silent", "no host")
	h := t.Host()
	ep := h.ep()
	switch state {
	case "silent":
		h.hang = true
	case "refusing":
		h.refuse = func(int) error { return syscall.ECONNREFUSED }
	case "no host":
		ep = "vmem://none-such"
	}
	if retries == 3 && interval < time.Minute && state != "silent" {
		interval = time.Hour
		a = t.Sock(p[0], zmq4.WithDialerMaxRetries(retries), zmq4.WithDialerRetry(interval))
	}
	stop := a.cancel
	if strings.HasPrefix(how, "closed") {
		stop = a.shut
	}
	if strings.HasSuffix(how, "before") {
		stop()
		var err error
		if !t.Done(3*time.Second, func() { err = a.Dial(ep) }) {
			t.Violate("%s: Dial hangs though the socket was %s", a.typ, how)
		}
		if err == nil {
			t.Violate("%s: Dial succeeds though the socket was %s", a.typ, how)
		}
		if h.dialCount() != 0 {
			t.Violate("%s: Dial tries though the socket was %s", a.typ, how)
		}
		t.Key("stop", how, state)
		return
	}
	n := 1 + t.Intn(3) // several at a time
	errs := make([]error, n)
	done := make([]chan struct{}, n)
	for i := range done {
		done[i] = make(chan struct{})
		go func() {
			errs[i] = a.Dial(ep)
			close(done[i])
		}()
	}
	switch t.Intn(3) {
	case 0:
	case 1:
		if state != "no host" {
			until(patience, func() bool { return h.dialCount() > 0 })
		}
	case 2:
		time.Sleep(time.Duration(t.Intn(20)) * time.Millisecond)
	}
	stop()
	for i := range done {
		if !waitCh(done[i], 3*time.Second) {
			t.Violate("%s: Dial (%d retries, every %v, %s) does not return after the socket has been %s", a.typ, retries, interval, state, how)
		}
		if errs[i] == nil {
			t.Violate("%s: Dial succeeds though nobody answers and the socket has been %s", a.typ, how)
		}
	}
	k := h.dialCount()
	settle()
	if h.dialCount() != k {
		t.Violate("%s: goes on trying after it has been %s", a.typ, how)
	}
	count("stopped", 1)
	t.Key("stop", how, state, retries, interval)
}

// c21Later: somebody begins to listen while Dial tries.
func c21Later(t *T) {
	p := pairs21[t.Intn(len(pairs21))]
	tr := pick(t, "tcp", "ipc", "inproc", "vmem")
	ep := t.fresh(tr)
	if tr == "tcp" {
		ep = fmt.Sprintf("tcp://%s:%d", t.ip, 20000+t.Intn(30000))
	}
	retries := pick(t, -1, 1000000)
	interval := time.Duration(1+t.Intn(10)) * time.Millisecond
	b := t.Sock(p[1])
	n := 1
	if p[0] != zmq4.Pair && p[1] != zmq4.Pair {
		n = 1 + t.Intn(4)
	}
	var as []*Sock
	errs := make([]error, n)
	done := make([]chan struct{}, n)
	for i := 0; i < n; i++ {
		a := t.Sock(p[0], zmq4.WithDialerMaxRetries(retries), zmq4.WithDialerRetry(interval))
		as = append(as, a)
		done[i] = make(chan struct{})
		go func() {
			errs[i] = a.Dial(ep)
			close(done[i])
		}()
	}
	time.Sleep(time.Duration(t.Intn(40)) * time.Millisecond)
	for i := range done {
		select {
		case <-done[i]:
			t.Violate("%s: Dial of %s returns before anybody listens: %v", as[i].typ, ep, errs[i])
		default:
		}
	}
	if err := b.Listen(ep); err != nil {
		if tr == "tcp" {
			t.Skip("%v", err)
		}
		t.Violate("Listen on %s: %v", ep, err)
	}
	for i := range done {
		if !waitCh(done[i], patience) {
			t.Violate("%s: Dial does not connect to %s, on which there is a listener now", as[i].typ, ep)
		}
		if errs[i] != nil {
			t.Violate("%s: Dial fails (%d retries) though there is a listener on %s now: %v", as[i].typ, retries, ep, errs[i])
		}
		count("connected", 1)
	}
	// each connection works
	if n == 1 {
		t.oneWay(as[0], b, "a later listener on "+tr)
	} else {
		for i, a := range as {
			switch a.typ {
			case zmq4.Push, zmq4.Dealer, zmq4.Req, zmq4.Sub, zmq4.XSub:
				if a.typ == zmq4.Sub || a.typ == zmq4.XSub || a.typ == zmq4.Dealer && b.typ == zmq4.Dealer || a.typ == zmq4.Req {
					if i == 0 && a.typ != zmq4.Sub && a.typ != zmq4.XSub {
						t.oneWay(a, b, "a later listener on "+tr)
					}
					continue
				}
				t.oneWay(a, b, "a later listener on "+tr)
			}
		}
	}
	t.Key("later", tr, p, n)
}

// endpoints that are none
func malformedEp(t *T) string {
	xs := []string{
		"", "x", "tcp", "tcp:", "tcp:/", "tcp://", "://", "://127.0.0.1:5555", "tcp:127.0.0.1:5555", "tcp//127.0.0.1:5555",
		"tcp://127.0.0.1", "tcp://localhost", "tcp://[::1", "tcp://::1:80:90", "tcp://a:b:c", "tcp://127.0.0.1:5555://x", "tcp://tcp://127.0.0.1:5555",
		"ipc://a://b", "inproc://a://b", "127.0.0.1:5555", "/tmp/x", " tcp://127.0.0.1:5555", "TCP://127.0.0.1:5555", "Tcp://127.0.0.1:1", "tcp ://127.0.0.1:5555",
		"http://127.0.0.1:80", "foo://bar", "pgm://eth0;239.192.1.1:5555", "ws://127.0.0.1:80/x", "tcp4://127.0.0.1:5555", "unix:///tmp/x", "\x00://x", "ipc:", "inproc", "inproc:/x",
		"vmem", "vmem:h1", "vmem://h1://", "tcp://127.0.0.1:80]", "tcp://[127.0.0.1]", "tcp://[::1]]:80",
	}
	if t.Chance(75) {
		return xs[t.Intn(len(xs))]
	}
	for { // a random text without, or with two, separators
		b := t.Bytes(t.Intn(30))
		for i := range b {
			b[i] = "tcpi:/.0128 ab\x00"[int(b[i])%15]
		}
		s := string(b)
		n := strings.Count(s, "://")
		if n == 0 {
			return s
		}
		if strings.Split(s, "://")[0] != "tcp" && strings.Split(s, "://")[0] != "ipc" || n > 1 {
			return s
		}
	}
}

// c21Malformed: refused at once, nothing is left, and the socket works.
func c21Malformed(t *T) {
	p := pairs21[t.Intn(len(pairs21))]
	opts := []zmq4.Option{zmq4.WithDialerRetry(time.Hour), zmq4.WithDialerMaxRetries(pick(t, -1, 5, 10))}
	a, b := t.Sock(p[0], opts...), t.Sock(p[1])
	for i := 0; i < 12; i++ {
		ep := malformedEp(t)
		s := a
		if t.Bool() {
			s = b
		}
		var err error
		what := "Dial"
		if t.Bool() {
			what = "Listen"
		}
		if !t.Done(3*time.Second, func() {
			if what == "Dial" {
				err = s.Dial(ep)
			} else {
				err = s.Listen(ep)
			}
		}) {
			t.Violate("%s: %s of %q does not return", s.typ, what, ep)
		}
		if err == nil {
			t.Violate("%s: %s takes %q", s.typ, what, ep)
		}
		if s.Addr() != nil {
			t.Violate("%s: has the address %v after Listen on %q has failed", s.typ, s.Addr(), ep)
		}
		count("malformed", 1)
		t.Key("malformed", what, ep)
	}
	tr := transports[t.Intn(len(transports))]
	t.join(a, b, tr, t.Bool())
	t.oneWay(a, b, "after malformed end-points")
	if n := len(a.Type()); n == 0 {
		t.Violate("no type")
	}
}

// c21Listen: Listen fails, and nothing is lost or left.
func c21Listen(t *T) {
	p := pairs21[t.Intn(len(pairs21))]
	other := t.Sock(p[1]) // listens, and is not disturbed
	kind := pick(t, "taken", "taken", "file", "directory", "no directory", "foreign address", "too long", "twice")
	tr := pick(t, "tcp", "ipc", "inproc", "vmem")
	if kind != "taken" && kind != "twice" {
		tr = "ipc"
	}
	var ep, path string
	keep := ""
	switch kind {
	case "taken", "twice":
		ep = t.bind(other, t.fresh(tr))
	case "file":
		path = filepath.Join(t.Dir(), "f")
		keep = "precious"
		if err := os.WriteFile(path, []byte(keep), 0o600); err != nil {
			t.Skip("%v", err)
		}
	case "directory":
		path = filepath.Join(t.Dir(), "d")
		if err := os.Mkdir(path, 0o700); err != nil {
			t.Skip("%v", err)
		}
	case "no directory":
		path = filepath.Join(t.Dir(), "none", "s")
	case "too long":
		path = filepath.Join(t.Dir(), strings.Repeat("x", 150))
	case "foreign address":
		ep = "tcp://192.0.2.1:5555"
	}
	if path != "" {
		ep = "ipc://" + path
	}
	list := func() string {
		es, _ := os.ReadDir(t.Dir())
		s := ""
		for _, e := range es {
			s += e.Name() + " "
		}
		return s
	}
	a := t.Sock(p[0])
	ep2 := ""
	if kind == "twice" { // one listener per socket
		a, ep2 = other, ep
		ep = t.fresh(tr)
	}
	before := list()
	for i := 0; i < 1+t.Intn(3); i++ {
		var err error
		t.Within(patience, "Listen", func() { err = a.Listen(ep) })
		if err == nil {
			t.Violate("%s: Listen on %s succeeds (%s)", a.typ, ep, kind)
		}
		if kind != "twice" && a.Addr() != nil {
			t.Violate("%s: has the address %v though Listen failed (%s)", a.typ, a.Addr(), kind)
		}
	}
	if l := list(); l != before {
		t.Violate("%s: failed Listen (%s): files were %q, are %q", a.typ, kind, before, l)
	}
	if keep != "" {
		if buf, err := os.ReadFile(path); err != nil || string(buf) != keep {
			t.Violate("%s: failed Listen (%s) has changed the file: %q, %v", a.typ, kind, buf, err)
		}
	}
	count("failed listens", 1)
	switch kind {
	case "twice":
		c := t.Sock(p[0])
		t.dial(c, ep2)
		t.oneWay(c, other, "after Listen has failed on "+tr)
	case "taken":
		// both work: the one that has it, and the other on another
		c, d := t.Sock(p[0]), t.Sock(p[1])
		t.dial(c, ep)
		t.oneWay(c, other, "the one that listened before on "+tr)
		t.join(a, d, transports[t.Intn(len(transports))], true)
		t.oneWay(a, d, "after Listen has failed on "+tr)
		if t.Bool() { // free again
			c.shut() // it would come back
			other.shut()
			e := t.Sock(p[1])
			e2 := t.Sock(p[0])
			var err error
			if err = e.Listen(ep); err != nil {
				t.Violate("%s: Listen on %s after the one that had it has been closed: %v", e.typ, ep, err)
			}
			t.dial(e2, ep)
			t.oneWay(e2, e, "listening in its place on "+tr)
		}
	default:
		d := t.Sock(p[1])
		t.join(a, d, transports[t.Intn(len(transports))], true)
		t.oneWay(a, d, "after Listen has failed")
		a.shut()
		if keep != "" {
			if buf, err := os.ReadFile(path); err != nil || string(buf) != keep {
				t.Violate("%s: Close after failed Listen (%s) has changed the file: %q, %v", a.typ, kind, buf, err)
			}
		}
	}
	t.Key("listen", kind, tr, a.typ)
}

// c21Handshake: somebody answers, but not as a peer does.
func c21Handshake(t *T) {
	p := pairs21[t.Intn(len(pairs21))]
	tr := pick(t, "tcp", "ipc", "vmem")
	l, ep := t.listenRaw(tr)
	a := t.Sock(p[0], zmq4.WithDialerRetry(time.Millisecond), zmq4.WithDialerMaxRetries(pick(t, 0, 2)), zmq4.WithTimeout(100*time.Millisecond))
	kind := pick(t, "hangs up", "garbage", "mechanism", "type", "half a greeting", "error")
	n := 0
	gone := make(chan struct{})
	var conns []*raw
	var mu sync.Mutex
	t.Go(func() {
		defer close(gone)
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			r := t.raw(c)
			mu.Lock()
			n++
			conns = append(conns, r)
			mu.Unlock()
			r.step()
			switch kind {
			case "hangs up":
				_ = c.Close()
			case "garbage":
				_ = r.write(t.Bytes(200))
			case "mechanism":
				_ = r.write(greetingBytes("CURVE", 0))
			case "half a greeting":
				_ = r.write(greetingBytes("NULL", 0)[:t.Intn(64)])
				_ = c.Close()
			case "type":
				_ = r.write(greetingBytes("NULL", 0))
				_ = r.write(frame(4, command("READY", props("Socket-Type", "NONSENSE"))))
			case "error":
				_ = r.write(greetingBytes("NULL", 0))
				_ = r.write(frame(4, command("ERROR", []byte("\x02no"))))
			}
		}
	})
	var err error
	t.Within(patience, "Dial", func() { err = a.Dial(ep) })
	if err == nil {
		t.Violate("%s: Dial succeeds though the other end %s", a.typ, kind)
	}
	t.Until(patience, "the connection is seen", func() bool { mu.Lock(); defer mu.Unlock(); return n > 0 })
	mu.Lock()
	cs := conns
	mu.Unlock()
	for _, r := range cs {
		if kind != "hangs up" && kind != "half a greeting" && !r.eof(patience) {
			t.Violate("%s: the connection is left open after Dial has failed (%s)", a.typ, kind)
		}
	}
	_ = l.Close()
	waitCh(gone, patience)
	k := n
	// nothing to send to
	if a.typ == zmq4.Push || a.typ == zmq4.Dealer || a.typ == zmq4.Req {
		if err := a.put(false, []byte("x")); err == nil {
			t.Violate("%s: Send succeeds though Dial has failed (%s)", a.typ, kind)
		}
	}
	// and the socket works
	b := t.Sock(p[1])
	a2 := a
	if a.typ == zmq4.Req {
		a2 = t.Sock(zmq4.Req)
	}
	t.join(a2, b, transports[t.Intn(len(transports))], t.Bool())
	t.oneWay(a2, b, "after Dial has failed")
	if n != k {
		t.Violate("%s: tries again after Dial has failed", a.typ)
	}
	count("failed handshakes", 1)
	t.Key("handshake", kind, tr, a.typ)
}

// c21Many: several end-points of one socket, some of which answer.
func c21Many(t *T) {
	retries := t.Intn(5)
	interval := time.Duration(t.Intn(8)) * time.Millisecond
	a := t.Sock(zmq4.Pull, zmq4.WithDialerMaxRetries(retries), zmq4.WithDialerRetry(interval))
	n := 2 + t.Intn(5)
	var fs []func()
	var hs []*host
	ats := make([]int, n)
	var up []*Sock
	for i := 0; i < n; i++ {
		h := t.Host()
		hs = append(hs, h)
		at := t.Intn(2 * (retries + 1))
		ats[i] = at
		h.refuse = func(k int) error {
			if k == at {
				return nil
			}
			return syscall.ECONNREFUSED
		}
		b := t.Sock(zmq4.Push)
		t.bind(b, h.ep())
		if at <= retries {
			up = append(up, b)
		}
		fs = append(fs, func() {
			err := a.Dial(h.ep())
			if (err == nil) != (at <= retries) {
				t.Violate("PULL: %d retries, attempt %d is answered: %v", retries, at+1, err)
			}
		})
	}
	t.Par(patience, "several Dials", fs...)
	for i, h := range hs {
		want := min(ats[i], retries) + 1
		if k := t.attempts(h, interval, "several Dials"); k != want {
			t.Violate("PULL: %d retries, attempt %d is answered: %d attempts", retries, ats[i]+1, k)
		}
	}
	var names []string
	for i, b := range up {
		t.send(b, false, []byte(fmt.Sprint(i)))
		names = append(names, fmt.Sprint(i))
		count("connected", 1)
	}
	var got []string
	for range up {
		got = append(got, string(t.recv(a)[0]))
	}
	sort.Strings(got)
	sort.Strings(names)
	if fmt.Sprint(got) != fmt.Sprint(names) {
		t.Violate("PULL: several Dials: received %v, sent %v", got, names)
	}
	count("messages received", int64(len(got)))
	t.Key("many", n, len(up), retries)
}

type nilTransport struct{ vmem }

func (nilTransport) Dial(context.Context, transport.Dialer, string) (net.Conn, error) {
	return nil, nil
}

var regOnce sync.Mutex

// c21Registry: transports have names.
func c21Registry(t *T) {
	regOnce.Lock()
	defer regOnce.Unlock()
	name := fmt.Sprintf("t%d", t.Int63())
	a, b := t.Sock(zmq4.Push), t.Sock(zmq4.Pull)
	h := t.Host()
	ep := name + "://" + h.name
	if a.Dial(ep) == nil || b.Listen(ep) == nil {
		t.Violate("transport %q is used before it is registered", name)
	}
	if err := zmq4.RegisterTransport(name, vmem{}); err != nil {
		t.Violate("RegisterTransport: %v", err)
	}
	for _, n := range append(zmq4.Transports(), "tcp", "ipc", "inproc") {
		if zmq4.RegisterTransport(n, nilTransport{}) == nil {
			t.Violate("a second transport %q is taken", n)
		}
		found := 0
		xs := zmq4.Transports()
		for _, x := range xs {
			if x == n {
				found++
			}
		}
		if found != 1 || !sort.StringsAreSorted(xs) {
			t.Violate("transport %q: Transports are %q", n, xs)
		}
	}
	if err := b.Listen(ep); err != nil {
		t.Violate("Listen on %s: %v", ep, err)
	}
	t.dial(a, ep)
	t.oneWay(a, b, "a registered transport")
	if t.idx%3 == 0 {
		if err := zmq4.RegisterTransport(name+"nil", nilTransport{}); err != nil {
			t.Violate("RegisterTransport: %v", err)
		}
		c := t.Sock(zmq4.Push)
		var err error
		t.Within(patience, "Dial", func() { err = c.Dial(name + "nil://x") })
		if err == nil {
			t.Violate("Dial succeeds without a connection")
		}
	}
	t.Key("registry", t.idx%3)
}

func init() {
	register(&check{
		id:     "C21",
		rule:   "executions dial through a transport that records each attempt and refuses, hangs or answers at a chosen one, with random retry counts and intervals, and compare the attempts with the setting; cancel or close at some moment; begin to listen while Dial tries, on every transport; give malformed end-points; make Listen and handshakes fail in various ways, and look for connections, listeners and files left, and for damage to what was there; after each failure the socket is used; distinct cases are (retries, interval, answered attempt, error), (moment, state), (end-point), (failure, transport, type)",
		assume: []string{"a failed handshake is not a missing listener: Dial does not repeat it", "tcp addresses with a port that is no port are refused by the network, not by parsing, and are retried"},
		need:   map[string]int64{"attempts": 1000, "connected": 100, "gave up": 40, "stopped": 20, "malformed": 500, "failed listens": 40, "failed handshakes": 40},
		scenarios: func() []scenario {
			return []scenario{
				{"count", 144, 3000, c21Count},
				{"forever", 48, 800, c21Forever},
				{"stop", 96, 2000, c21Stop},
				{"later", 64, 1000, c21Later},
				{"malformed", 80, 1500, c21Malformed},
				{"listen", 80, 1500, c21Listen},
				{"handshake", 64, 1200, c21Handshake},
				{"many", 40, 800, c21Many},
				{"registry", 6, 20, c21Registry},
			}
		},
	})
}
