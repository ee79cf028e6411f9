package main

import (
	"encoding/binary"
	"fmt"
	"io"
	"math/rand"
	"net"
	"runtime"
	"strings"
	"sync"
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/security/null"
	"github.com/luxfi/zmq/v4/security/plain"
)

// An attack is what a hostile peer says, and whether it is so definitely
// wrong that the connection has to be closed.
type attack struct {
	name  string
	data  []byte
	fatal bool
}

func rbytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

func hugeFrame(fl byte, size uint64, body []byte) []byte {
	b := make([]byte, 9, 9+len(body))
	b[0] = fl | fLong
	binary.BigEndian.PutUint64(b[1:], size)
	return append(b, body...)
}

func prop(name string, size uint32, value []byte) []byte {
	b := append([]byte{byte(len(name))}, name...)
	b = binary.BigEndian.AppendUint32(b, size)
	return append(b, value...)
}

func cat(bs ...[]byte) []byte {
	var o []byte
	for _, b := range bs {
		o = append(o, b...)
	}
	return o
}

// c9prefix is the honest part of a conversation, up to the traffic.
func c9prefix(kind string, pl, server bool) (greeting, shake, last []byte) {
	meta := props("Socket-Type", kind)
	if !pl {
		return greetingBytes("NULL", 0), nil, command("READY", meta)
	}
	if server {
		return greetingBytes("PLAIN", 1), command("WELCOME", nil), command("READY", meta)
	}
	return greetingBytes("PLAIN", 0), command("HELLO", hello("user", "pass")), command("INITIATE", meta)
}

// c9traffic is something a peer of the given kind might send.
func c9traffic(r *rand.Rand, kind string) []byte {
	body := func() []byte { return rbytes(r, pickR(r, 0, 1, 5, 200, 254, 255, 256, 257, 3000)) }
	var b []byte
	for i := 1 + r.Intn(4); i > 0; i-- {
		switch kind {
		case "SUB", "XSUB":
			b = append(b, frame(0, append([]byte{byte(r.Intn(3))}, body()...))...)
		case "REQ", "REP":
			b = append(b, encodeMsg([][]byte{nil, body(), body()})...)
		case "DEALER", "ROUTER":
			b = append(b, encodeMsg([][]byte{body(), nil, body()})...)
		default:
			b = append(b, encodeMsg([][]byte{body(), body()})...)
		}
		if r.Intn(4) == 0 {
			b = append(b, command("PING", append([]byte{0, 10}, rbytes(r, r.Intn(16))...))...)
		}
	}
	return b
}

// c9attacks lists the scripted attacks on a socket whose peers are of kind.
func c9attacks(r *rand.Rand, kind string, pl, server bool) []attack {
	g, sh, last := c9prefix(kind, pl, server)
	var as []attack
	add := func(name string, fatal bool, parts ...[]byte) {
		as = append(as, attack{name, cat(parts...), fatal})
	}
	mech := "NULL"
	other := "PLAIN"
	if pl {
		mech, other = other, mech
	}
	with := func(at int, b byte) []byte {
		x := append([]byte(nil), g...)
		x[at] = b
		return x
	}
	// greeting
	add("nothing", false)
	add("garbage", true, append([]byte{byte(r.Intn(255))}, rbytes(r, 100)...))
	add("part of a greeting", false, g[:1+r.Intn(63)])
	add("bad signature", true, with(0, byte(r.Intn(255))), sh, last)
	add("bad signature end", true, with(9, byte(r.Intn(127))), sh, last)
	add("version 1", true, with(10, 1), sh, last)
	add("version 2", true, with(10, 2), sh, last)
	add("version 0", true, with(10, 0), sh, last)
	add("other mechanism", true, greetingBytes(other, 0), sh, last)
	add("unknown mechanism", true, greetingBytes(string(rbytes(r, 20)), 0), sh, last)
	add("mechanism longer", true, greetingBytes(mech+"X", 0), sh, last)
	add("mechanism empty", true, greetingBytes("", 0), sh, last)
	add("as-server 2", true, with(32, byte(2+r.Intn(254))), sh, last)
	add("http", true, []byte("GET / HTTP/1.1\r\nHost: localhost\r\nUser-Agent: none\r\nAccept: */*\r\n\r\n"))
	// handshake
	bad := func(name string, fatal bool, data []byte) {
		add("handshake: "+name, fatal, g, sh, data)
		if pl {
			add("first command: "+name, fatal, g, data)
		}
	}
	cmdName := "READY"
	if pl && !server {
		cmdName = "INITIATE"
	}
	bad("message", true, frame(0, []byte("hello")))
	bad("empty message", true, frame(0, nil))
	bad("multipart message", true, encodeMsg([][]byte{nil, nil, nil}))
	bad("command without name", true, frame(fCmd, nil))
	bad("command with empty name", true, []byte{fCmd, 1, 0})
	bad("command name too long", true, []byte{fCmd, 3, 200, 'a', 'b'})
	one := func(n int) []byte { // a name one byte longer than the command
		b := rbytes(r, n)
		b[0] = byte(n)
		return frame(fCmd, b)
	}
	bad("command name too long by one", true, one(pickR(r, 1, 2, 6, 8, 100, 255)))
	bad("other command", true, command(pickS(r, "PING", "PONG", "ERROR", "SUBSCRIBE", "READY!", "ready", "R"), []byte("\x03abc")))
	bad("error", true, command("ERROR", []byte("\x00")))
	bad("error, malformed", true, command("ERROR", []byte("\xff?")))
	bad("command with MORE", true, append([]byte{fCmd | fMore}, command(cmdName, nil)[1:]...))
	bad("size 2^64-1", true, hugeFrame(fCmd, 1<<64-1, rbytes(r, 20)))
	bad("size 2^63", true, hugeFrame(fCmd, 1<<63, rbytes(r, 20)))
	bad("size 2^62", false, hugeFrame(fCmd, 1<<62, rbytes(r, 20)))
	bad("size 2^40", false, hugeFrame(fCmd, 1<<40, rbytes(r, 20)))
	bad("long form", false, frameForm(fCmd, last[2:], true))
	for _, m := range []struct {
		name  string
		fatal bool
		meta  []byte
	}{
		{"no metadata", true, nil},
		{"unknown socket type", true, props("Socket-Type", pickS(r, "", "FOO", "PUBX", "pub", string(rbytes(r, 300))))},
		{"incompatible socket type", true, props("Socket-Type", "STREAM")},
		{"name cut off", true, []byte("\x0bSocket-T")},
		{"value size cut off", true, []byte("\x0bSocket-Type\x00\x00\x00")},
		{"value cut off", true, prop("Socket-Type", 200, []byte(kind))},
		{"value size 2^32-1", true, prop("Socket-Type", 1<<32-1, []byte(kind))},
		{"value size 2^31", true, prop("Socket-Type", 1<<31, []byte(kind))},
		{"empty name", false, cat(props("Socket-Type", kind), prop("", 0, nil))},
		{"trailing zero", true, cat(props("Socket-Type", kind), []byte{0})},
		{"trailing byte", true, cat(props("Socket-Type", kind), []byte{byte(1 + r.Intn(255))})},
		{"twice", false, props("Socket-Type", kind, "Socket-Type", kind)},
		{"binary", false, cat(props("Socket-Type", kind), props(string(rbytes(r, 1+r.Intn(200))), string(rbytes(r, 300))))},
		{"many", false, cat(props("Socket-Type", kind), func() []byte {
			var b []byte
			for i := 0; i < 2000; i++ {
				b = append(b, props(fmt.Sprintf("X-%d", i), "v")...)
			}
			return b
		}())},
		{"long identity", false, props("Socket-Type", kind, "Identity", string(rbytes(r, 70000)))},
	} {
		add("metadata: "+m.name, m.fatal, g, sh, command(cmdName, m.meta))
	}
	if pl && !server {
		for _, h := range []string{"", "\x04", "\x04user", "\x04user\x04", "\x04user\x04pas", "\x04user\x04passx", "\xff", "\x00", "\x00\xff", "\x04user\xff" + strings.Repeat("x", 200)} {
			add("HELLO malformed", true, g, command("HELLO", []byte(h)), last)
		}
	}
	// traffic
	live := cat(g, sh, last)
	tr := func(name string, fatal bool, data ...[]byte) {
		add("traffic: "+name, fatal, append([][]byte{live}, data...)...)
	}
	pre := []byte{}
	if r.Intn(2) == 0 {
		pre = c9traffic(r, kind)
	}
	tr("size 2^64-1", true, pre, hugeFrame(0, 1<<64-1, rbytes(r, 20)))
	tr("size 2^63", true, pre, hugeFrame(byte(r.Intn(2)), 1<<63, rbytes(r, 20)))
	tr("size 2^62", false, pre, hugeFrame(0, 1<<62, rbytes(r, 2000)))
	tr("size 2^48 after MORE", false, frame(fMore, nil), hugeFrame(fMore, 1<<48, rbytes(r, 20)))
	tr("size 2^31", false, hugeFrame(0, 1<<31, rbytes(r, 20)))
	tr("command without name", true, pre, frame(fCmd, nil))
	tr("command with empty name", false, pre, []byte{fCmd, 1, 0})
	tr("command name too long", true, pre, []byte{fCmd, 3, 200, 'a', 'b'})
	tr("command name too long by one", true, pre, one(pickR(r, 1, 2, 6, 8, 100, 255)))
	tr("command with MORE", true, pre, []byte{fCmd | fMore, 5, 4, 'P', 'I', 'N', 'G'}, frame(0, nil))
	tr("unknown command", false, command(string(rbytes(r, 1+r.Intn(250))), rbytes(r, r.Intn(300))))
	tr("PING without body", false, command("PING", nil))
	tr("PING with one byte", false, command("PING", []byte{1}))
	tr("PING with big context", false, command("PING", rbytes(r, 5000)))
	tr("many PINGs", false, func() []byte {
		var b []byte
		for i := 0; i < 300; i++ {
			b = append(b, command("PING", []byte{0, 1, byte(i)})...)
		}
		return b
	}())
	tr("READY again", false, last)
	tr("SUBSCRIBE", false, command("SUBSCRIBE", []byte("x")), command("CANCEL", []byte("x")))
	tr("ERROR", false, command("ERROR", []byte("\x03bad")))
	tr("empty message", false, frame(0, nil))
	tr("empty frames", false, func() []byte {
		var b []byte
		for i := 0; i < 3000; i++ {
			b = append(b, fMore, 0)
		}
		return append(b, 0, 0)
	}())
	tr("endless frames", false, func() []byte {
		var b []byte
		for i := 0; i < 3000; i++ {
			b = append(b, fMore, 1, 'x')
		}
		return b
	}())
	tr("frame cut off", false, frame(0, rbytes(r, 5000))[:1+r.Intn(4000)])
	tr("message cut off", false, frame(fMore, rbytes(r, 50)), frame(fMore, nil))
	tr("greeting again", false, g)
	tr("reserved bits", false, []byte{0xf8, 1, 'x'}, []byte{0x80, 0})
	tr("subscription without topic", false, frame(0, []byte{1}), frame(0, []byte{0}), frame(0, []byte{2}), frame(0, nil))
	tr("unsubscription of nothing", false, frame(0, append([]byte{0}, rbytes(r, 40)...)))
	tr("subscription of several frames", false, encodeMsg([][]byte{{1, 'a'}, {'b'}, nil}), encodeMsg([][]byte{nil, {1, 'b'}}))
	tr("long topic", false, frame(0, append([]byte{1}, rbytes(r, 100000)...)))
	tr("many topics", false, func() []byte {
		var b []byte
		for i := 0; i < 2000; i++ {
			b = append(b, frame(0, []byte(fmt.Sprintf("\x01topic %d", i)))...)
		}
		return b
	}())
	tr("no delimiter", false, encodeMsg([][]byte{[]byte("a")}), encodeMsg([][]byte{[]byte("a"), []byte("b")}))
	tr("delimiter only", false, encodeMsg([][]byte{nil}), encodeMsg([][]byte{nil, nil}), encodeMsg([][]byte{[]byte("e"), nil}))
	tr("big message", false, frame(0, rbytes(r, 3<<20)))
	return as
}

func pickS(r *rand.Rand, xs ...string) string { return xs[r.Intn(len(xs))] }

// mutate changes a valid conversation at random.
func mutate(r *rand.Rand, b []byte) []byte {
	b = append([]byte(nil), b...)
	at := func() int { return r.Intn(len(b) + 1) }
	for n := 1 + r.Intn(4); n > 0 && len(b) > 0; n-- {
		i := r.Intn(len(b))
		switch r.Intn(9) {
		case 0:
			b[i] ^= 1 << r.Intn(8)
		case 1:
			b[i] = byte(r.Intn(256))
		case 2:
			b = b[:i]
		case 3: // remove
			j := min(len(b), i+1+r.Intn(10))
			b = append(b[:i], b[j:]...)
		case 4: // insert
			x := rbytes(r, 1+r.Intn(20))
			b = append(b[:i:i], append(x, b[i:]...)...)
		case 5: // repeat a part
			j := min(len(b), i+1+r.Intn(100))
			b = append(b[:j:j], b[i:]...)
		case 6: // interesting values
			b[i] = []byte{0, 1, 2, 4, 0x7f, 0x80, 0xff, 0xfe}[r.Intn(8)]
		case 7: // a huge size somewhere
			if i+9 < len(b) {
				copy(b[i:], hugeFrame(byte(r.Intn(8)), r.Uint64()>>uint(r.Intn(64)), nil))
			}
		case 8: // swap parts
			j := at()
			if i > j {
				i, j = j, i
			}
			b = append(append([]byte{}, b[j:]...), b[i:j]...)
		}
	}
	return b
}

// perform carries an attack out.
func (t *T) perform(r *raw, a attack, rr *rand.Rand, on zmq4.SocketType) {
	end := pickS(rr, "close", "reset", "hang", "half", "hang")
	if on == zmq4.Req {
		// It has to wait for the reply of whoever got the request.
		end = pickS(rr, "close", "reset")
	}
	if on == zmq4.Req || on == zmq4.Rep { // read only as the application does
		if strings.HasPrefix(a.name, "traffic") {
			a.fatal = false
		}
	}
	dst := r.c
	if a.fatal {
		end = "eof"
	}
	reading := rr.Intn(3) > 0 || a.fatal
	if reading {
		go func() { _, _ = io.Copy(io.Discard, r.br) }()
	}
	data := a.data
	mode := rr.Intn(4)
	for len(data) > 0 {
		n := len(data)
		switch mode {
		case 0:
			n = min(n, 1+rr.Intn(7))
			if len(a.data) > 2000 {
				n = min(len(data), 1+rr.Intn(500))
			}
		case 1:
			n = min(n, 1+rr.Intn(300))
		}
		_ = dst.SetWriteDeadline(time.Now().Add(time.Second))
		if _, err := dst.Write(data[:n]); err != nil {
			break // the other side has had enough
		}
		data = data[n:]
		if mode < 2 && rr.Intn(20) == 0 {
			time.Sleep(200 * time.Microsecond)
		}
	}
	count("attacks", 1)
	switch end {
	case "close":
		_ = dst.Close()
	case "reset":
		if tc, ok := dst.(*net.TCPConn); ok {
			_ = tc.SetLinger(0)
		}
		if mc, ok := dst.(*memConn); ok {
			mc.w.cut(0, errReset)
			mc.r.cut(0, errReset)
		}
		_ = dst.Close()
	case "half":
		if cw, ok := dst.(interface{ CloseWrite() error }); ok {
			_ = cw.CloseWrite()
		}
	case "eof":
		gone := false
		until(patience, func() bool {
			_ = dst.SetWriteDeadline(time.Now().Add(time.Second))
			if _, err := dst.Write([]byte{0}); err != nil && !isTimeout(err) {
				gone = true // not possible any more
			}
			return gone
		})
		if !gone {
			t.Violate("connection stays open after %q", a.name)
		}
		count("violations of the protocol ended", 1)
	}
}

// c9target is a socket under attack with an honest peer.
func c9opts(pl bool) []zmq4.Option {
	o := []zmq4.Option{zmq4.WithTimeout(60 * time.Millisecond), zmq4.WithDialerRetry(2 * time.Millisecond)}
	if pl {
		o = append(o, zmq4.WithSecurity(plain.Security("user", "pass")))
	}
	return o
}

func c9nextAttack(t *T, rr *rand.Rand, kind string, pl, server bool) attack {
	if rr.Intn(3) == 0 {
		g, sh, last := c9prefix(kind, pl, server)
		whole := cat(g, sh, last, c9traffic(rr, kind))
		if rr.Intn(2) == 0 { // leave the greeting alone
			return attack{"mutation", append(append([]byte{}, g...), mutate(rr, whole[64:])...), false}
		}
		return attack{"mutation", mutate(rr, whole), false}
	}
	as := c9attacks(rr, kind, pl, server)
	return as[rr.Intn(len(as))]
}

func c09Listen(t *T) {
	typ := zmtpTypes[t.idx%len(zmtpTypes)]
	tr := pick(t, "tcp", "ipc", "vmem", "vmem", "inproc", "chaos")
	pl := t.Chance(25)
	s := t.Sock(typ, c9opts(pl)...)
	ep := t.bind(s, t.fresh(tr))
	k := t.talk(s)
	k.hostile = true
	honest := t.connectTo(ep).must(pl, false, t.rawPeer(typ))
	what := fmt.Sprintf("%s over %s, plain=%v", typ, tr, pl)
	k.exchange(honest, what+", before any attack")
	var names []string
	for batch := 0; batch < 3; batch++ {
		var fs []func()
		names = names[:0]
		for i := 0; i < 4+t.Intn(5); i++ {
			rr := t.fork()
			kind := t.rawPeer(typ)
			a := c9nextAttack(t, rr, kind, pl, false)
			names = append(names, a.name)
			t.Log("%s", a.name)
			t.Key(typ, pl, a.name)
			fs = append(fs, func() { t.perform(t.connectTo(ep), a, rr, typ) })
		}
		if t.Bool() { // attacks while messages are exchanged
			fs = append(fs, func() { k.exchange(honest, what+", during "+strings.Join(names, "; ")) })
		}
		t.Par(60*time.Second, "attacks on "+what+": "+strings.Join(names, "; "), fs...)
		k.exchange(honest, what+", after "+strings.Join(names, "; "))
		if typ != zmq4.Pair { // which is for two
			fresh := t.connectTo(ep).must(pl, false, t.rawPeer(typ))
			k.servers = append(k.servers, honest)
			honest = fresh
			k.exchange(fresh, what+", new peer after "+strings.Join(names, "; "))
			count("new peers served", 1)
		}
	}
	t.Within(patience, "Close of "+what+" after attacks", s.shut)
}

func c09Dial(t *T) {
	typ := zmtpTypes[t.idx%len(zmtpTypes)]
	tr := pick(t, "tcp", "ipc", "vmem")
	pl := t.Chance(25)
	s := t.Sock(typ, append(c9opts(pl), zmq4.WithDialerMaxRetries(3))...)
	what := fmt.Sprintf("%s dialling over %s, plain=%v", typ, tr, pl)
	k := t.talk(s)
	k.hostile = true
	l, ep := t.listenRaw(pick(t, "tcp", "vmem"))
	ch := make(chan error, 1)
	go func() { ch <- s.Dial(ep) }()
	honest := t.accept(l).must(pl, true, t.rawPeer(typ))
	if !waitCh(ch, patience) {
		t.Violate("%s: Dial does not return", what)
	}
	k.exchange(honest, what+", before any attack")
	var mu sync.Mutex
	var names []string
	for batch := 0; batch < 2; batch++ {
		var fs []func()
		names = nil
		for i := 0; i < 2+t.Intn(4); i++ {
			hl, hep := t.listenRaw(tr)
			rr := t.fork()
			kinds := t.rawPeer(typ)
			left := 1 + t.Intn(3)
			t.Go(func() { // each connection gets an attack, reconnections too
				for j := 0; j < left; j++ {
					c, err := hl.Accept()
					if err != nil {
						return
					}
					a := c9nextAttack(t, rr, kinds, pl, true)
					mu.Lock()
					names = append(names, a.name)
					mu.Unlock()
					t.Log("%s", a.name)
					t.Key("dial", typ, pl, a.name)
					t.perform(t.raw(c), a, rr, typ)
				}
				_ = hl.Close()
			})
			fs = append(fs, func() {
				// hostile servers may keep it waiting for ever
				t.Done(100*time.Millisecond, func() { _ = s.Dial(hep) })
			})
		}
		t.Par(60*time.Second, "attacks on "+what, fs...)
		mu.Lock()
		w := strings.Join(names, "; ")
		mu.Unlock()
		k.exchange(honest, what+", after "+w)
	}
	t.Within(patience, "Close of "+what+" after attacks", s.shut)
}

// c09Flood: peers that talk all the time do not shut the others out.
func c09Flood(t *T) {
	typ := pick(t, zmq4.Pull, zmq4.Router, zmq4.Rep, zmq4.Pub, zmq4.XPub, zmq4.Sub, zmq4.Dealer)
	tr := pick(t, "tcp", "vmem", "ipc", "inproc")
	s := t.Sock(typ, c9opts(false)...)
	ep := t.bind(s, t.fresh(tr))
	k := t.talk(s)
	k.hostile = true
	honest := t.connectTo(ep).mustNull(t.rawPeer(typ), "")
	stop := make(chan struct{})
	for i := 0; i < 1+t.Intn(4); i++ {
		r := t.connectTo(ep).mustNull(t.rawPeer(typ), "")
		rr := t.fork()
		t.Go(func() {
			go func() { _, _ = io.Copy(io.Discard, r.br) }()
			for {
				select {
				case <-stop:
					_ = r.c.Close()
					return
				default:
				}
				_ = r.c.SetWriteDeadline(time.Now().Add(time.Second))
				if _, err := r.c.Write(c9traffic(rr, r.kind)); err != nil {
					return
				}
			}
		})
	}
	for i := 0; i < 2; i++ {
		k.exchange(honest, fmt.Sprintf("%s over %s during a flood", typ, tr))
	}
	fresh := t.connectTo(ep).mustNull(t.rawPeer(typ), "")
	k.exchange(fresh, fmt.Sprintf("%s over %s, new peer during a flood", typ, tr))
	close(stop)
	count("floods", 1)
	t.Key("flood", typ, tr)
}

// c09Conn feeds a connection by itself: Open, RecvMsg, RecvCmd.
func c09Conn(t *T) {
	for i := 0; i < 150; i++ {
		rr := t.fork()
		typ := zmtpTypes[rr.Intn(len(zmtpTypes))]
		kind := t.rawPeer(typ)
		pl := rr.Intn(3) == 0
		server := rr.Intn(2) == 0
		var a attack
		if rr.Intn(4) > 0 {
			g, sh, last := c9prefix(kind, pl, !server)
			whole := cat(g, sh, last, c9traffic(rr, kind))
			a = attack{name: "mutation", data: append(append([]byte{}, g...), mutate(rr, whole[64:])...)}
		} else {
			as := c9attacks(rr, kind, pl, !server)
			a = as[rr.Intn(len(as))]
		}
		l := newLink(1 << 26)
		_, _ = l.l.Write(a.data)
		if rr.Intn(2) == 0 {
			l.ba.rng, l.ba.most = rr, 1+rr.Intn(40)
		}
		l.ba.cut(l.ba.total, []error{nil, errReset}[rr.Intn(2)])
		var sec zmq4.Security = null.Security()
		if pl {
			sec = plain.Security("user", "pass")
		}
		t.Within(patience, "reading what a hostile peer sent ("+a.name+")", func() {
			c, err := zmq4.Open(l.d, sec, typ, zmq4.SocketIdentity("id"), server, nil)
			if err != nil {
				return
			}
			for n := 0; ; n++ {
				if rr.Intn(4) > 0 {
					_, err = c.RecvMsg()
				} else {
					_, err = c.RecvCmd()
					if err == zmq4.ErrBadFrame {
						err = nil
					}
				}
				if err != nil && (c.Closed() || n > 10000) {
					break
				}
			}
			_ = c.Close()
		})
		count("connections fed", 1)
		t.Key("conn", typ, pl, server, a.name)
	}
}

// c09Phantom: what a peer sent besides whole messages (commands, good and
// bad ones, parts of messages) never comes out as a message.
func c09Phantom(t *T) {
	types := []zmq4.SocketType{zmq4.Pull, zmq4.Pair, zmq4.Sub, zmq4.XSub, zmq4.Dealer, zmq4.Router, zmq4.XPub, zmq4.Rep, zmq4.Req}
	typ := types[t.idx%len(types)]
	tr := pick(t, "tcp", "ipc", "vmem", "inproc")
	s := t.Sock(typ, c9opts(false)...)
	ep := t.bind(s, t.fresh(tr))
	what := fmt.Sprintf("%s over %s", typ, tr)
	if typ == zmq4.Sub {
		if err := s.SetOption(zmq4.OptionSubscribe, ""); err != nil {
			t.Violate("%s: subscribe to everything: %v", what, err)
		}
	}
	const mark = "phantom"
	var mu sync.Mutex
	seen := 0
	now := ""
	check := func(fs [][]byte) {
		mu.Lock()
		seen++
		w := now
		mu.Unlock()
		for _, f := range fs {
			if strings.Contains(string(f), mark) {
				t.Violate("%s: %s comes out as the message %s", what, w, show(fs))
			}
		}
	}
	if typ != zmq4.Req {
		t.pumpWith(s, nil, check)
	}
	pre := func(b []byte) []byte { // as the type of the socket has it
		if typ == zmq4.Rep || typ == zmq4.Req {
			return append([]byte{fMore, 0}, b...)
		}
		return b
	}
	body := func(n int) []byte {
		return []byte(mark + strings.Repeat("-", n))
	}
	n := pickR(t.rng, 0, 1, 40, 241, 242, 300, 5000)
	cmd := func(fl byte, b []byte) []byte { return frameForm(fCmd|fl, b, len(b) > 255 || t.Bool()) }
	cases := []struct {
		name  string
		fatal bool
		data  []byte
	}{
		{"a command whose name is too long", true, cmd(0, append([]byte{255}, []byte(mark+strings.Repeat("-", min(n, 240)))...))},
		{"a command whose name is one byte too long", true, func() []byte {
			b := body(min(n, 240))
			return cmd(0, append([]byte{byte(len(b) + 1)}, b...))
		}()},
		{"a command with MORE", true, cat(cmd(fMore, append([]byte{4}, []byte("PING\x00\x00"+mark)...)), frame(0, body(n)))},
		{"two commands as one", true, cat(cmd(fMore, append([]byte{4}, []byte("PING\x00\x00"+mark)...)), cmd(0, append([]byte{4}, []byte("PONG"+mark)...)))},
		{"an unknown command", false, command("HEARSAY", body(n))},
		{"a command named like the message", false, command(mark, body(n))},
		{"a PING", false, command("PING", append([]byte{0, 0}, []byte(mark)...))},
		{"a PONG", false, command("PONG", []byte(mark))},
		{"a READY", false, command("READY", props("Socket-Type", "DEALER", "Identity", mark))},
		{"an ERROR", false, command("ERROR", append([]byte{byte(len(mark))}, mark...))},
		{"a part of a frame", false, pre(frame(0, body(n)))[:len(pre(nil))+2+3]},
		{"a part of a long frame", false, func() []byte { b := pre(frame(0, body(4000))); return b[:len(b)-1-t.Intn(3000)] }()},
		{"frames without the last", false, pre(cat(frame(fMore, body(n)), frame(fMore, nil)))},
		{"frames and a part of the last", false, func() []byte { b := pre(cat(frame(fMore, body(n)), frame(0, body(9)))); return b[:len(b)-1] }()},
	}
	t.rng.Shuffle(len(cases), func(i, j int) { cases[i], cases[j] = cases[j], cases[i] })
	if typ == zmq4.Pair {
		cases = cases[:6]
	}
	for i, c := range cases {
		mu.Lock()
		now = c.name
		mu.Unlock()
		r := t.connectTo(ep).mustNull(t.rawPeer(typ), "")
		if typ == zmq4.Req {
			var err error
			until(patience, func() bool { err = s.put(false, []byte("q")); return err == nil })
			if err != nil {
				t.Violate("%s: no request can be sent to a new server: %v", what, err)
			}
			if _, err := r.next(patience); err != nil {
				t.Violate("%s: request does not arrive: %v", what, err)
			}
		}
		go func() { _, _ = io.Copy(io.Discard, r.br) }()
		data := c.data
		if typ != zmq4.Req && t.Bool() { // in front of it a whole message
			data = cat(encodeMsg([][]byte{nil, []byte("whole")}), data)
		}
		for len(data) > 0 {
			k := len(data)
			if t.Bool() {
				k = 1 + t.Intn(k)
			}
			_ = r.c.SetWriteDeadline(time.Now().Add(time.Second))
			if _, err := r.c.Write(data[:k]); err != nil {
				break
			}
			data = data[k:]
		}
		if t.Bool() && c.fatal && typ != zmq4.Rep && typ != zmq4.Req { // the socket ends it
			if !until(patience, func() bool {
				_ = r.c.SetWriteDeadline(time.Now().Add(time.Second))
				_, err := r.c.Write([]byte{0})
				return err != nil && !isTimeout(err)
			}) {
				t.Violate("%s: connection stays open after %s", what, c.name)
			}
		} else if cw, ok := r.c.(interface{ CloseWrite() error }); ok && t.Bool() {
			_ = cw.CloseWrite()
		} else if t.Bool() {
			time.Sleep(time.Millisecond)
			_ = r.c.Close()
		} else {
			_ = r.c.Close()
		}
		if typ == zmq4.Req {
			var m zmq4.Msg
			var err error
			t.Done(time.Second, func() { m, err = s.Recv() })
			if err == nil {
				check(m.Frames)
			}
			_ = r.c.Close()
		} else { // one that is heard behind it
			h := t.connectTo(ep).mustNull(t.rawPeer(typ), "")
			mu.Lock()
			was := seen
			mu.Unlock()
			if err := h.sendMsg(nil, []byte(fmt.Sprintf("after %d", i))); err != nil {
				t.Violate("%s: honest peer after %s: %v", what, c.name, err)
			}
			until(2*time.Second, func() bool { mu.Lock(); defer mu.Unlock(); return seen > was })
			_ = r.c.Close()
			_ = h.c.Close()
		}
		count("things that are no message", 1)
		t.Key("phantom", typ, tr, c.name)
	}
}

// c9memory: announcements do not cost memory.
func c9memory() {
	t := newT("memory", 0)
	defer t.runCleanup()
	heap := func() uint64 {
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		return m.TotalAlloc
	}
	for _, pl := range []bool{false, true} {
		for _, typ := range zmtpTypes {
			kind := t.rawPeer(typ)
			g, sh, last := c9prefix(kind, pl, false)
			live := cat(g, sh, last)
			sizes := []uint64{64 << 20, 1 << 28, 1 << 30, 1 << 31, 1 << 33, 1 << 40}
			var data [][]byte
			for _, n := range sizes {
				data = append(data, cat(g, sh, hugeFrame(fCmd, n, []byte("\x05READY"))),
					cat(live, hugeFrame(0, n, []byte("some"))),
					cat(live, hugeFrame(fCmd, n, []byte("\x04PING"))),
					cat(live, frame(fMore, []byte("a")), hugeFrame(fMore, n, nil)),
					cat(g, sh, command("READY", cat(props("Socket-Type", kind), prop("X-big", uint32(min(n, 1<<32-1)), nil)))))
			}
			s := t.Sock(typ, c9opts(pl)...)
			ep := t.bind(s, t.fresh("vmem"))
			k := t.talk(s)
			_ = k
			before := heap()
			for _, d := range data {
				r := t.connectTo(ep)
				go func() { _, _ = io.Copy(io.Discard, r.br) }()
				_ = r.write(d)
			}
			settle()
			used := heap() - before
			if limit := uint64(len(data)) * (2 << 20); used > limit {
				t.Violate("%s: %d connections that announce big frames and send %d bytes each make the process allocate %d MB",
					typ, len(data), len(data[0]), used>>20)
			}
			count("announcements weighed", int64(len(data)))
			s.shut()
		}
	}
}

func init() {
	register(&check{
		id:     "C09",
		rule:   "one execution attacks one socket (type, transport, mechanism and role vary) with PRNG-chosen scripted attacks and mutated conversations, written in pieces and ended in different ways, while and after which honest peers, old and new, must be able to exchange messages; or feeds mutated conversations to single connections; distinct cases are socket type, mechanism, role and attack",
		assume: []string{"hostile peers are simulated on the loopback network and in memory", "memory is judged by what the process allocates while 30 connections announce up to 2^40 bytes each"},
		need:   map[string]int64{"peers in crowds": 1000, "attacks": 1500, "violations of the protocol ended": 400, "new peers served": 100, "connections fed": 4000, "floods": 20, "things that are no message": 400, "announcements weighed": 500},
		scenarios: func() []scenario {
			return []scenario{
				{"crowd", 11, 110, (*T).crowd},
				{"listen", 110, 2200, c09Listen},
				{"dial", 66, 1100, c09Dial},
				{"flood", 28, 400, c09Flood},
				{"conn", 40, 1000, c09Conn},
				{"phantom", 45, 900, c09Phantom},
			}
		},
		after: c9memory,
	})
}
