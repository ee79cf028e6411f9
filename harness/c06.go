package main

import (
	"context"
	"fmt"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
)

const c6retry = 4 * time.Millisecond

// settle gives a socket the time to do what it should not.
func settle() {
	d := after(40 * time.Millisecond)
	until(time.Minute, d.passed)
}

var c6kinds = []string{"close", "reset", "header", "body", "length", "command", "eof-reset", "writing", "writeonly", "timedout", "unreachable"}

// lose breaks the connection in the given way.
func (k *talk) lose(kind string, r *raw, lk *link) {
	t, s := k.t, k.s
	switch kind {
	case "close":
		_ = r.c.Close()
	case "reset":
		if lk != nil {
			lk.reset()
		} else if tc, ok := r.c.(*net.TCPConn); ok {
			_ = tc.SetLinger(0)
			_ = tc.Close()
		} else {
			_ = r.c.Close()
		}
	case "timedout", "unreachable":
		switch {
		case lk == nil:
			_ = r.c.Close()
		case kind == "timedout":
			lk.fail(errTimedOut)
		default:
			lk.fail(errUnreachable)
		}
	case "header":
		_ = r.write(frame(0, t.Bytes(300))[:1+t.Intn(8)])
		_ = r.c.Close()
	case "body":
		_ = r.write(frame(pick[byte](t, 0, fMore), t.Bytes(300))[:10+t.Intn(200)])
		_ = r.c.Close()
	case "length": // more than any frame can have
		_ = r.write([]byte{fLong, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1, 2, 3})
	case "command": // no command at all
		_ = r.write([]byte{fCmd, 0})
		if t.Bool() {
			_ = r.write(frame(0, []byte("and more")))
		}
	case "eof-reset":
		_ = r.write(frame(fMore, t.Bytes(10)))
		if lk != nil {
			lk.ba.cut(0, pick(t, error(errReset), nil))
			lk.ab.cut(0, errReset)
		}
		_ = r.c.Close()
	case "writing": // while a big message is being written
		big := t.Bytes(300 << 10)
		done := make(chan struct{})
		go func() {
			defer close(done)
			for i := 0; i < 3; i++ {
				if s.put(i%2 == 0, []byte("big"), big) != nil {
					return
				}
			}
		}()
		if lk != nil {
			until(patience, func() bool {
				lk.ab.mu.Lock()
				defer lk.ab.mu.Unlock()
				return len(lk.ab.buf) == lk.ab.cap
			})
			lk.reset()
		} else {
			time.Sleep(time.Millisecond)
			_ = r.c.Close()
		}
		if !waitCh(done, patience) {
			t.Violate("%s: Send does not return after the connection broke while it was writing", s.typ)
		}
	case "writeonly": // the next write fails, reads do not
		lk.ab.cut(0, nil)
		for i := 0; i < 2; i++ {
			ch := make(chan struct{})
			go func() {
				defer close(ch)
				_ = s.put(false, []byte("into the void"))
			}()
			if i == 1 || s.typ == zmq4.Req || !waitCh(ch, 20*time.Millisecond) {
				break
			}
		}
	}
}

func sends(typ zmq4.SocketType) bool {
	return typ == zmq4.Pair || typ == zmq4.Push || typ == zmq4.Dealer || typ == zmq4.XSub
}

// kindsFor lists the losses that a socket of the type notices by itself (a
// REQ is used afterwards anyhow).
func kindsFor(typ zmq4.SocketType, vm bool) []string {
	var ks []string
	for _, k := range c6kinds {
		switch k {
		case "writing":
			if !sends(typ) || typ == zmq4.XSub {
				continue
			}
		case "writeonly":
			if !vm || !sends(typ) || typ == zmq4.XSub {
				continue
			}
		case "command", "length":
			if typ == zmq4.Req { // reads only when it expects a reply
				continue
			}
		}
		ks = append(ks, k)
	}
	return ks
}

func c6sock(t *T, typ zmq4.SocketType, opts ...zmq4.Option) *Sock {
	return t.Sock(typ, append([]zmq4.Option{zmq4.WithDialerRetry(c6retry), zmq4.WithDialerMaxRetries(-1)}, opts...)...)
}

// c06Loss: one dialled connection, lost again and again in all ways.
func c06Loss(t *T) {
	typ := zmtpTypes[t.idx%len(zmtpTypes)]
	var opts []zmq4.Option
	if t.Chance(50) { // a limit that holds for each loss, not for all of them
		opts = append(opts, zmq4.WithDialerMaxRetries(11+t.Intn(4)))
	}
	s := c6sock(t, typ, opts...)
	k := t.talk(s)
	h := t.Host()
	h.capac = 32 << 10
	l, _ := h.listen()
	t.Cleanup(func() { _ = l.Close() })
	peer := t.rawPeer(typ)

	var dialErr error
	dialled := make(chan struct{})
	go func() { dialErr = s.Dial(h.ep()); close(dialled) }()
	r := t.accept(l).mustNull(peer, "")
	if !waitCh(dialled, patience) || dialErr != nil {
		t.Violate("%s: Dial: %v", typ, dialErr)
	}
	k.exchange(r, "first connection")
	want := 1
	check := func(what string) {
		settle()
		if n := len(h.live()); n != 1 {
			t.Violate("%s: %d live connections %s, one Dial", typ, n, what)
		}
		if n := h.dialCount(); n != want {
			t.Violate("%s: %d attempts to connect %s, %d expected", typ, n, what, want)
		}
	}
	check("at first")
	kinds := kindsFor(typ, true)
	rounds := 1 + t.Intn(4)
	many := t.Chance(8) // nothing may wear off
	if many {
		rounds = 17 + t.Intn(6)
	}
	for i := 0; i < rounds; i++ {
		kind := kinds[t.Intn(len(kinds))]
		refused, rejected := 0, 0
		if t.Chance(30) || many && i > 12 {
			refused = 1 + t.Intn(8)
		}
		if t.Chance(30) {
			rejected = 1 + t.Intn(3)
		}
		t.Log("%s/%s: loss %s, then %d attempts refused and %d handshakes failed", typ, peer, kind, refused, rejected)
		left := int32(refused)
		h.mu.Lock()
		h.refuse = func(int) error {
			if atomic.AddInt32(&left, -1) >= 0 {
				return &net.OpError{Op: "dial", Net: "vmem", Err: errReset.Err}
			}
			return nil
		}
		h.mu.Unlock()
		links := h.live()
		k.lose(kind, r, links[0])
		stop := make(chan struct{})
		var wg sync.WaitGroup
		if typ == zmq4.Req { // notices when used
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					select {
					case <-stop:
						return
					default:
					}
					if s.put(false, []byte("nudge")) == nil {
						_, _ = s.Recv()
					}
					time.Sleep(time.Millisecond)
				}
			}()
		}
		for j := 0; j < rejected; j++ {
			bad := t.accept(l)
			bad.step()
			switch t.Intn(4) {
			case 0:
			case 1:
				_ = bad.write([]byte("HTTP/1.1 400 Bad Request\r\n\r\nxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"))
			case 2:
				_ = bad.write(greetingBytes("NULL", 0))
				_ = bad.write(command("ERROR", []byte("\x03bad")))
			case 3:
				_ = bad.write(greetingBytes("PLAIN", 0))
			}
			_ = bad.readGreeting()
			_ = bad.c.Close()
		}
		r = t.accept(l)
		if err := r.null(peer, ""); err != nil {
			t.Violate("%s: handshake on the re-established connection: %v", typ, err)
		}
		_ = r.c.SetDeadline(time.Time{})
		want += 1 + refused + rejected
		if typ == zmq4.Req {
			// answer the pending nudge, if any
			close(stop)
			done := make(chan struct{})
			go func() { wg.Wait(); close(done) }()
			dl := after(patience)
			for {
				if waitCh(done, time.Millisecond) {
					break
				}
				if fs, err := r.next(5 * time.Millisecond); err == nil {
					_ = r.sendMsg(fs...)
				}
				if dl.passed() {
					t.Violate("REQ: Send or Recv does not return after the connection was lost (%s)", kind)
				}
			}
		}
		k.exchange(r, "connection re-established after "+kind)
		check("after " + kind)
		count("losses", 1)
		t.Key("loss", typ, kind, refused > 0, rejected > 0)
	}
	// once closed, nothing is re-established
	s.shut()
	settle()
	if n := h.dialCount(); n != want {
		t.Violate("%s: dials %d more times after Close", typ, n-want)
	}
}

// autoServer accepts whoever comes and completes the handshake.
type autoServer struct {
	t    *T
	h    *host
	typ  string
	mu   sync.Mutex
	rs   []*raw
	lost int
	dead atomic.Bool
}

func (t *T) autoServer(h *host, typ string) *autoServer {
	a := &autoServer{t: t, h: h, typ: typ}
	l, err := h.listen()
	if err != nil {
		t.Skip("listen: %v", err)
	}
	t.Cleanup(func() { a.dead.Store(true); _ = l.Close() })
	t.Go(func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			r := t.raw(c)
			t.Go(func() {
				if err := r.null(typ, ""); err != nil {
					return
				}
				_ = r.c.SetDeadline(time.Time{})
				a.mu.Lock()
				a.rs = append(a.rs, r)
				a.mu.Unlock()
			})
		}
	})
	return a
}

// open returns the peers whose connection is up.
func (a *autoServer) open() []*raw {
	a.mu.Lock()
	defer a.mu.Unlock()
	var o []*raw
	for _, r := range a.rs {
		mc := r.c.(*memConn)
		if !mc.isClosed() && !mc.r.isBroken() && !mc.w.isBroken() {
			o = append(o, r)
		}
	}
	return o
}

// c06Several: several Dials, some to the same place, and a listener.
func c06Several(t *T) {
	typ := pick(t, zmq4.Push, zmq4.Pull, zmq4.Dealer, zmq4.Router, zmq4.Sub, zmq4.XSub, zmq4.Pub, zmq4.Rep)
	s := c6sock(t, typ)
	if typ == zmq4.Pull || typ == zmq4.Dealer || typ == zmq4.Router || typ == zmq4.Sub || typ == zmq4.XSub {
		t.pump(s)
	}
	var own *host
	ownDials := 0
	if t.Chance(60) {
		own = t.Host()
		t.bind(s, own.ep())
	}
	n := 1 + t.Intn(4)
	var as []*autoServer
	want := make([]int, n)  // connections
	dials := make([]int, n) // attempts
	for i := 0; i < n; i++ {
		as = append(as, t.autoServer(t.Host(), t.rawPeer(typ)))
		m := 1
		if t.Chance(35) {
			m = 2 + t.Intn(2)
		}
		for j := 0; j < m; j++ {
			t.dial(s, as[i].h.ep())
		}
		want[i], dials[i] = m, m
	}
	census := func(what string) {
		for i := range as {
			t.Until(patience, fmt.Sprintf("%s: %d connections to server %d %s", typ, want[i], i, what), func() bool { return len(as[i].open()) == want[i] })
		}
		settle()
		for i := range as {
			if c := len(as[i].h.live()); c != want[i] {
				t.Violate("%s: %d connections to server %d %s, %d Dials", typ, c, i, what, want[i])
			}
			if c := as[i].h.dialCount(); c != dials[i] {
				t.Violate("%s: %d attempts to connect to server %d %s, %d expected", typ, c, i, what, dials[i])
			}
		}
		if own != nil {
			if c := own.dialCount(); c != ownDials {
				t.Violate("%s: connects to its own listener %s", typ, what)
			}
		}
		count("censuses", 1)
	}
	census("at first")
	for round := 0; round < 2+t.Intn(4); round++ {
		what := ""
		switch k := t.Intn(3); {
		case k == 0 && own != nil: // clients come and go
			m := 1 + t.Intn(3)
			for j := 0; j < m; j++ {
				ownDials++
				c := t.connectTo(own.ep()).mustNull(t.rawPeer(typ), "")
				switch t.Intn(3) {
				case 0:
					_ = c.c.Close()
				case 1:
					_ = c.write([]byte{fLong, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff})
				case 2:
					_ = c.write([]byte{fMore})
					_ = c.c.Close()
				}
			}
			what = fmt.Sprintf("after %d clients of its listener went away", m)
			count("clients that went away", int64(m))
		default:
			hit := map[int]int{}
			for j := 0; j < 1+t.Intn(3); j++ {
				i := t.Intn(n)
				o := as[i].open()
				if len(o) == 0 {
					continue
				}
				r := o[t.Intn(len(o))]
				switch t.Intn(3) {
				case 0:
					_ = r.c.Close()
				case 1:
					_ = r.write([]byte{fMore, 5, 'x'})
					_ = r.c.Close()
				case 2:
					r.c.(*memConn).r.cut(0, nil)
					r.c.(*memConn).w.cut(0, errReset)
				}
				hit[i]++
				dials[i]++
			}
			what = fmt.Sprintf("after losing %v", hit)
			count("losses", int64(len(hit)))
		}
		t.Log("%s %s", typ, what)
		census(what)
	}
	t.Key("several", typ, n, own != nil, fmt.Sprint(want))
}

// c06Off: no automatic reconnection.
func c06Off(t *T) {
	typ := zmtpTypes[t.idx%len(zmtpTypes)]
	if typ == zmq4.Req {
		typ = zmq4.Pair
	}
	s := c6sock(t, typ, zmq4.WithAutomaticReconnect(false))
	k := t.talk(s)
	h := t.Host()
	a := t.autoServer(h, t.rawPeer(typ))
	t.dial(s, h.ep())
	t.Until(patience, "connection", func() bool { return len(a.open()) == 1 })
	kinds := kindsFor(typ, true)
	kind := kinds[t.Intn(len(kinds))]
	if kind == "writing" || kind == "writeonly" {
		kind = "reset"
	}
	k.lose(kind, a.open()[0], h.live()[0])
	t.Until(patience, "lost connection is closed", func() bool { return h.allLinks()[0].d.isClosed() })
	settle()
	settle()
	if n := h.dialCount(); n != 1 {
		t.Violate("%s: %d attempts to connect with automatic reconnection off (loss: %s)", typ, n, kind)
	}
	// a new Dial works
	t.dial(s, h.ep())
	t.Until(patience, "second connection", func() bool { return len(a.open()) == 1 })
	k.exchange(a.open()[0], "second Dial")
	count("losses without reconnection", 1)
	t.Key("off", typ, kind)
}

// c06Subs: the subscriptions of a SUB are in force after each loss.
func c06Subs(t *T) {
	s := c6sock(t, zmq4.Sub)
	h := t.Host()
	l, _ := h.listen()
	t.Cleanup(func() { _ = l.Close() })
	on := map[string]bool{}
	change := func() {
		tp := pick(t, "", "a", "ab", "abc", "\x00", "\x01x", "b", "topic", strings.Repeat("l", 300))
		o := zmq4.OptionSubscribe
		if on[tp] {
			o = zmq4.OptionUnsubscribe
			delete(on, tp)
		} else {
			on[tp] = true
		}
		var err error
		t.Within(patience, "SUB: SetOption", func() { err = s.SetOption(o, tp) })
		_ = err // the connection may just be breaking
		count("subscription changes", 1)
	}
	for i := 0; i < t.Intn(4); i++ {
		change()
	}
	if t.Chance(10) { // lots
		for i := 0; i < 50+t.Intn(600); i++ {
			tp := fmt.Sprintf("lots/%d", i)
			if err := s.SetOption(zmq4.OptionSubscribe, tp); err != nil {
				t.Violate("SUB: SetOption: %v", err)
			}
			on[tp] = true
		}
	}
	go func() { _ = s.Dial(h.ep()) }()
	t.pump(s)
	for round := 0; round < 3+t.Intn(3); round++ {
		r := t.accept(l)
		if err := r.null(pick(t, "PUB", "XPUB"), ""); err != nil {
			t.Violate("SUB: handshake: %v", err)
		}
		_ = r.c.SetDeadline(time.Time{})
		for i := 0; i < t.Intn(5); i++ {
			change()
		}
		// what the publisher is told has to come to the same
		have := map[string]bool{}
		apply := func(fs [][]byte) {
			if len(fs) != 1 || len(fs[0]) == 0 || fs[0][0] > 1 {
				t.Violate("SUB sends %s", show(fs))
			}
			if fs[0][0] == 1 {
				have[string(fs[0][1:])] = true
			} else {
				delete(have, string(fs[0][1:]))
			}
		}
		dl := after(patience)
		for !sameStrings(setOf(have), setOf(on)) {
			fs, err := r.next(50 * time.Millisecond)
			if err == nil {
				apply(fs)
			} else if !isTimeout(err) || dl.passed() {
				t.Violate("SUB: connection %d: publisher knows of %.200q, subscribed to %.200q (%v)", round, setOf(have), setOf(on), err)
			}
		}
		for {
			fs, err := r.next(30 * time.Millisecond)
			if err != nil {
				break
			}
			apply(fs)
		}
		if !sameStrings(setOf(have), setOf(on)) {
			t.Violate("SUB: connection %d: publisher knows of %.200q in the end, subscribed to %.200q", round, setOf(have), setOf(on))
		}
		for i := 0; i < t.Intn(3); i++ {
			change()
		}
		lk := h.live()
		if len(lk) != 1 {
			t.Violate("SUB: %d live connections, one Dial", len(lk))
		}
		// changes while it is gone
		left := int32(t.Intn(12))
		h.mu.Lock()
		h.refuse = func(int) error {
			if atomic.AddInt32(&left, -1) >= 0 {
				return errReset
			}
			return nil
		}
		h.mu.Unlock()
		t.talk0(s).lose(pick(t, "close", "reset", "body", "length", "timedout"), r, lk[0])
		for i := 0; i < t.Intn(6); i++ {
			change()
			time.Sleep(time.Duration(t.Intn(3)) * time.Millisecond)
		}
		count("losses", 1)
	}
	t.Key("subs", digest([]byte(fmt.Sprint(setOf(on)))))
}

func (t *T) talk0(s *Sock) *talk { return &talk{t: t, s: s} }

// c06Restart: library sockets on both sides, the listening one is replaced.
func c06Restart(t *T) {
	tr := transports[t.idx%len(transports)]
	pat := t.Intn(5)
	names := []string{"pub-sub", "pull-push", "router-dealer", "rep-req", "pair-pair"}
	srvT := []zmq4.SocketType{zmq4.Pub, zmq4.Pull, zmq4.Router, zmq4.Rep, zmq4.Pair}[pat]
	cliT := []zmq4.SocketType{zmq4.Sub, zmq4.Push, zmq4.Dealer, zmq4.Req, zmq4.Pair}[pat]
	cli := c6sock(t, cliT, zmq4.WithTimeout(2*time.Second))
	var box *inbox
	if cliT == zmq4.Sub {
		_ = cli.SetOption(zmq4.OptionSubscribe, "k")
		_ = cli.SetOption(zmq4.OptionSubscribe, "ke") // overlapping: still once
		box = t.pump(cli)
	}
	if cliT == zmq4.Dealer || cliT == zmq4.Pair || cliT == zmq4.Push {
		box = t.pump(cli)
	}
	ep := t.fresh(tr)
	rounds := 2 + t.Intn(3)
	for round := 0; round < rounds; round++ {
		srv := t.Sock(srvT)
		var real string
		if !until(patience, func() bool {
			err := srv.Listen(ep)
			return err == nil
		}) {
			t.Violate("%s cannot listen on %s again", srvT, ep)
		}
		if round == 0 {
			real = ep
			if a := srv.Addr(); (tr == "tcp" || tr == "chaos") && a != nil {
				real = tr + "://" + a.String()
				ep = real
			}
			t.dial(cli, real)
		}
		what := fmt.Sprintf("%s over %s, server number %d", names[pat], tr, round)
		switch pat {
		case 0:
			t.Until(patience, what+": subscription", func() bool { return sameStrings(topics(srv), []string{"k", "ke"}) })
			n := box.n()
			var want [][][]byte
			for i := 0; i < 20; i++ {
				fs := [][]byte{[]byte(fmt.Sprintf("key%d", i)), []byte(fmt.Sprint(round))}
				t.send(srv, false, fs...)
				want = append(want, fs)
			}
			box.wait(n+20, patience)
			settle()
			got := box.all()[n:]
			for i := 0; i < len(want) || i < len(got); i++ {
				if i >= len(want) || i >= len(got) || !eqFrames(want[i], got[i]) {
					t.Violate("%s: delivery %d of %d: sent 20 messages once", what, i, len(got))
				}
			}
		case 1, 2, 4:
			sb := t.pump(srv)
			ok := 0
			dl := after(patience)
			for i := 0; ok < 5; i++ { // the first ones may go down with the old connection
				m := fmt.Sprintf("%d/%d", round, i)
				var err error
				t.Within(patience, "Send", func() { err = cli.put(i%2 == 0, []byte(m)) })
				if err == nil && until(20*time.Millisecond, func() bool {
					for _, f := range sb.all() {
						if string(f[len(f)-1]) == m {
							return true
						}
					}
					return false
				}) {
					ok++
				}
				if dl.passed() {
					t.Violate("%s: messages do not arrive any more (%v)", what, err)
				}
			}
			seen := map[string]bool{}
			for _, f := range sb.all() {
				m := string(f[len(f)-1])
				if seen[m] {
					t.Violate("%s: message %s arrives twice", what, m)
				}
				seen[m] = true
			}
			if pat == 2 {
				id := sb.all()[sb.n()-1][0]
				t.send(srv, false, id, []byte(fmt.Sprintf("re%d", round)))
				if t.talkBox(cli, box).find(fmt.Sprintf("re%d", round), patience) == nil {
					t.Violate("%s: message to the dealer does not arrive", what)
				}
			}
		case 3:
			t.Go(func() {
				for {
					m, err := srv.Recv()
					if err != nil {
						if srv.closing() {
							return
						}
						time.Sleep(time.Millisecond)
						continue
					}
					_ = srv.Send(zmq4.NewMsgFrom(append(m.Frames, []byte("re"))...))
				}
			})
			dl := after(patience)
			for ok, i := 0, 0; ok < 3; i++ {
				m := fmt.Sprintf("%d/%d", round, i)
				var rep zmq4.Msg
				var err error
				t.Within(patience, what+": request", func() {
					if err = cli.put(false, []byte(m)); err == nil {
						rep, err = cli.Recv()
					}
				})
				if err == nil {
					if !eqFrames(rep.Frames, [][]byte{[]byte(m), []byte("re")}) {
						t.Violate("%s: reply to %s is %s", what, m, show(rep.Frames))
					}
					ok++
				} else {
					time.Sleep(2 * time.Millisecond)
				}
				if dl.passed() {
					t.Violate("%s: requests are not answered any more: %v", what, err)
				}
			}
		}
		srv.shut()
		count("restarts", 1)
		time.Sleep(time.Duration(t.Intn(8)) * time.Millisecond)
	}
	t.Key("restart", names[pat], tr, rounds)
}

func (t *T) talkBox(s *Sock, b *inbox) *talk { return &talk{t: t, s: s, box: b} }

var _ = context.Background

func init() {
	register(&check{
		id:      "C06",
		workers: 24,
		rule:    "one execution loses connections of a socket in PRNG-chosen ways at a fault-injecting transport (or replaces the listening library socket), waits for the connection to come back, exchanges messages, and counts live connections and dial attempts after a quiet period; distinct cases are socket type x loss kind x (refused, rejected) redials, topologies and restart set-ups",
		assume:  []string{"retries unlimited or within the configured number", "a surplus connection shows up within 40 ms"},
		need:    map[string]int64{"losses": 300, "censuses": 100, "restarts": 60, "losses without reconnection": 20, "clients that went away": 20, "exchanges": 200},
		scenarios: func() []scenario {
			return []scenario{
				{"loss", 220, 2200, c06Loss},
				{"several", 80, 1000, c06Several},
				{"off", 40, 300, c06Off},
				{"subs", 80, 1000, c06Subs},
				{"restart", 75, 600, c06Restart},
			}
		},
	})
}
