package main

import (
	"bytes"
	"fmt"
	"io"
	"strings"
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/security/null"
	"github.com/luxfi/zmq/v4/security/plain"
)

// The pairs of types ZMTP 3.0 allows.
var c10pairs = map[string]string{
	"PAIR": "PAIR", "PUB": "SUB XSUB", "SUB": "PUB XPUB", "XPUB": "SUB XSUB", "XSUB": "PUB XPUB",
	"REQ": "REP ROUTER", "REP": "REQ DEALER", "DEALER": "REP DEALER ROUTER", "ROUTER": "REQ DEALER ROUTER",
	"PULL": "PUSH", "PUSH": "PULL",
}

func c10allowed(a, b string) bool {
	for _, x := range strings.Fields(c10pairs[a]) {
		if x == b {
			return true
		}
	}
	return false
}

// mechX is a mechanism whose handshake can be made to fail anywhere:
// client: 0 HELLO 2 READY 4 ok; server: 1 HELLO 3 READY ok.
type mechX struct {
	name   string
	failAt int // step at which it fails, -1 never
	how    int // 0 at once, 1 after an ERROR command, 2 after messages
}

func (m *mechX) Type() zmq4.SecurityType { return zmq4.SecurityType(m.name) }

func (m *mechX) fail(conn *zmq4.Conn) error {
	switch m.how {
	case 1:
		_ = conn.SendCmd(zmq4.CmdError, []byte("\x00"))
	case 2:
		_ = conn.SendMsg(zmq4.NewMsgString("not meant for anybody"))
	}
	return fmt.Errorf("refused at step %d", m.failAt)
}

func (m *mechX) Handshake(conn *zmq4.Conn, server bool) error {
	md, err := conn.Meta.MarshalZMTP()
	if err != nil {
		return err
	}
	step := 0
	send := func(name string, body []byte) error {
		if step++; step-1 == m.failAt {
			return m.fail(conn)
		}
		return conn.SendCmd(name, body)
	}
	recv := func(name string) ([]byte, error) {
		if step++; step-1 == m.failAt {
			return nil, m.fail(conn)
		}
		cmd, err := conn.RecvCmd()
		if err != nil {
			return nil, err
		}
		if cmd.Name != name {
			return nil, fmt.Errorf("%s where %s was due", cmd.Name, name)
		}
		return cmd.Body, nil
	}
	if server {
		b, err := recv("INITIATE")
		if err != nil {
			return err
		}
		if err := conn.Peer.Meta.UnmarshalZMTP(b); err != nil {
			return err
		}
		if err := send("READY", md); err != nil {
			return err
		}
		if _, err := recv("THANKS"); err != nil {
			return err
		}
		if err := send("DONE", nil); err != nil {
			return err
		}
	} else {
		if err := send("INITIATE", md); err != nil {
			return err
		}
		b, err := recv("READY")
		if err != nil {
			return err
		}
		if err := conn.Peer.Meta.UnmarshalZMTP(b); err != nil {
			return err
		}
		if err := send("THANKS", nil); err != nil {
			return err
		}
		if _, err := recv("DONE"); err != nil {
			return err
		}
	}
	if step == m.failAt {
		return m.fail(conn)
	}
	return nil
}

func (m *mechX) Encrypt(w io.Writer, p []byte) (int, error) { return w.Write(p) }
func (m *mechX) Decrypt(w io.Writer, p []byte) (int, error) { return w.Write(p) }

// quiet watches that a socket receives nothing.
func (t *T) quiet(s *Sock, what string) {
	switch s.typ {
	case zmq4.Push, zmq4.Pub, zmq4.Req:
		return
	}
	t.pumpWith(s, nil, func(fs [][]byte) {
		t.Violate("%s: %s received %s", what, s.typ, show(fs))
	})
}

// trySend offers a message while there is nobody to send it to. At most one
// of these is under way.
func (t *T) trySend(s *Sock) {
	if s.typ == zmq4.Pull || s.typ == zmq4.Rep || s.typ == zmq4.Sub {
		return
	}
	t.Go(func() { _ = s.put(false, []byte("\x01for nobody"), []byte("secret")) })
}

// noTraffic: what was written has no message in it, after the greeting.
func (t *T) noTraffic(b []byte, what string) {
	if bytes.Contains(b, []byte("secret")) {
		t.Violate("%s: a message was sent (% x)", what, b)
	}
}

// refuse connects two library sockets that must not get a connection.
func (t *T) refused(srv, cli *Sock, tr, what string, late bool) {
	ep := ""
	var h *host
	if tr == "vmem" {
		h = t.Host()
		h.setup = func(l *link) { l.ab.record(); l.ba.record() }
		ep = h.ep()
	} else {
		ep = t.fresh(tr)
	}
	ep = t.bind(srv, ep)
	t.quiet(srv, what)
	t.quiet(cli, what)
	if t.Bool() && !late {
		t.trySend(srv)
		t.trySend(cli)
	}
	var err error
	t.Within(patience, what+": Dial", func() { err = cli.Dial(ep) })
	if err == nil {
		t.Violate("%s: Dial over %s succeeds", what, tr)
	}
	if h != nil {
		t.Until(patience, what+": both ends of the connection are closed", func() bool {
			for _, l := range h.allLinks() {
				if !l.d.isClosed() || !l.l.isClosed() {
					return false
				}
			}
			return true
		})
		n := h.dialCount()
		settle()
		if m := h.dialCount(); m != n || n != 1 {
			t.Violate("%s: %d connections are made, %d of them after Dial failed", what, m, m-n)
		}
		for _, l := range h.allLinks() {
			t.noTraffic(l.ab.recorded(), what)
			t.noTraffic(l.ba.recorded(), what)
		}
	} else {
		settle()
	}
	count("refusals", 1)
}

func c10sock(t *T, typ zmq4.SocketType, opts ...zmq4.Option) *Sock {
	s := t.Sock(typ, append([]zmq4.Option{zmq4.WithTimeout(30 * time.Millisecond)}, opts...)...)
	if typ == zmq4.Sub {
		_ = s.SetOption(zmq4.OptionSubscribe, "")
	}
	return s
}

// works: the two library sockets have a connection that carries messages.
func (t *T) works(srv, cli *Sock, what string) {
	from, to := cli, srv
	var msg [][]byte
	post := 0
	switch cli.typ {
	case zmq4.Pair, zmq4.Push, zmq4.Dealer, zmq4.Req:
		msg = [][]byte{[]byte("hello"), nil, []byte("there")}
		if srv.typ == zmq4.Rep && cli.typ == zmq4.Dealer {
			msg = append([][]byte{nil}, msg...)
			post = -1
		}
		if srv.typ == zmq4.Router {
			post = 1
			if cli.typ == zmq4.Req {
				post = 2
			}
		}
	case zmq4.Pull, zmq4.Rep, zmq4.Router:
		if cli.typ == zmq4.Router && srv.typ == zmq4.Router {
			return // neither knows the other: see C08
		}
		t.works(cli, srv, what)
		return
	case zmq4.Sub, zmq4.XSub:
		from, to = srv, cli
		if cli.typ == zmq4.XSub {
			_ = cli.put(false, []byte{1})
		}
		t.Until(patience, what+": subscription", func() bool { return hasTopic(srv, "") })
		msg = [][]byte{[]byte("hello"), nil, []byte("there")}
	default: // PUB, XPUB
		t.works(cli, srv, what)
		return
	}
	var err error
	t.Until(patience, what+": Send", func() bool { err = from.put(false, msg...); return err == nil })
	got := t.recv(to)
	want := msg
	if post > 0 {
		if len(got) < post {
			t.Violate("%s: received %s", what, show(got))
		}
		got = got[post:]
	}
	if post == -1 {
		want = msg[1:]
	}
	if !eqFrames(got, want) {
		t.Violate("%s: received %s, sent %s", what, show(got), show(want))
	}
	count("connections that work", 1)
}

// c10Types: all pairs of socket types.
func c10Types(t *T) {
	for j := 0; j < 11; j++ {
		a, b := zmtpTypes[t.idx%11], zmtpTypes[j]
		tr := pick(t, "vmem", "vmem", "tcp", "ipc", "inproc")
		pl := t.Chance(30)
		var opts []zmq4.Option
		if pl {
			opts = append(opts, zmq4.WithSecurity(plain.Security("u", "p")))
		}
		what := fmt.Sprintf("%s dials %s over %s, plain=%v", b, a, tr, pl)
		t.Log("%s", what)
		srv := c10sock(t, a, opts...)
		cli := c10sock(t, b, opts...)
		if c10allowed(string(a), string(b)) {
			t.dial(cli, t.bind(srv, t.fresh(tr)))
			t.works(srv, cli, what)
		} else {
			t.refused(srv, cli, tr, what, false)
		}
		srv.shut()
		cli.shut()
		t.Key("types", a, b, pl)
	}
}

// c10Mechanisms: all pairs of mechanisms, and failing ones.
func c10Mechanisms(t *T) {
	mk := []struct {
		name string
		mk   func() zmq4.Security
	}{
		{"NULL", func() zmq4.Security { return null.Security() }},
		{"default", nil},
		{"PLAIN", func() zmq4.Security { return plain.Security("user", "pass") }},
		{"X", func() zmq4.Security { return &mechX{name: "X", failAt: -1} }},
		{"NUL", func() zmq4.Security { return &mechX{name: "NUL", failAt: -1} }},
		{"NULLX", func() zmq4.Security { return &mechX{name: "NULLX", failAt: -1} }},
		{"null", func() zmq4.Security { return &mechX{name: "null", failAt: -1} }},
		{"20", func() zmq4.Security { return &mechX{name: "ABCDEFGHIJKLMNOPQRST", failAt: -1} }},
		{"20'", func() zmq4.Security { return &mechX{name: "ABCDEFGHIJKLMNOPQRSU", failAt: -1} }},
		{"21", func() zmq4.Security { return &mechX{name: "ABCDEFGHIJKLMNOPQRSTU", failAt: -1} }},
	}
	pairs := [][2]zmq4.SocketType{{zmq4.Pull, zmq4.Push}, {zmq4.Pair, zmq4.Pair}, {zmq4.Rep, zmq4.Req}, {zmq4.Pub, zmq4.Sub}, {zmq4.Router, zmq4.Dealer}}
	for n := 0; n < 8; n++ {
		i, j := t.Intn(len(mk)), t.Intn(len(mk))
		if t.Chance(30) {
			j = i
		}
		p := pairs[t.Intn(len(pairs))]
		tr := pick(t, "vmem", "tcp", "ipc", "inproc")
		opt := func(k int) []zmq4.Option {
			if mk[k].mk == nil {
				return nil
			}
			return []zmq4.Option{zmq4.WithSecurity(mk[k].mk())}
		}
		srv, cli := c10sock(t, p[0], opt(i)...), c10sock(t, p[1], opt(j)...)
		what := fmt.Sprintf("%s with %s dials %s with %s over %s", p[1], mk[j].name, p[0], mk[i].name, tr)
		t.Log("%s", what)
		same := i == j || i < 2 && j < 2
		if mk[i].name == "21" || mk[j].name == "21" {
			same = false // no greeting has room for it
		}
		if same {
			t.dial(cli, t.bind(srv, t.fresh(tr)))
			t.works(srv, cli, what)
		} else {
			t.refused(srv, cli, tr, what, false)
		}
		srv.shut()
		cli.shut()
		t.Key("mechanisms", mk[i].name, mk[j].name)
	}
}

func c10Failing(t *T) {
	p := pick(t, [2]zmq4.SocketType{zmq4.Pull, zmq4.Push}, [2]zmq4.SocketType{zmq4.Push, zmq4.Pull}, [2]zmq4.SocketType{zmq4.Pair, zmq4.Pair},
		[2]zmq4.SocketType{zmq4.Rep, zmq4.Req}, [2]zmq4.SocketType{zmq4.Pub, zmq4.Sub}, [2]zmq4.SocketType{zmq4.Router, zmq4.Dealer})
	for step := 0; step <= 4; step++ {
		for _, server := range []bool{true, false} {
			bad := &mechX{name: "X", failAt: step, how: t.Intn(3)}
			good := &mechX{name: "X", failAt: -1}
			sm, cm := good, good
			if server {
				sm = bad
			} else {
				cm = bad
			}
			if server && step == 4 {
				continue // the client has its connection by then
			}
			late := !server && step >= 3
			if late {
				// The server has finished: a client that fails now is a
				// peer it had, if only for a moment.
				bad.how = t.Intn(2)
			}
			srv, cli := c10sock(t, p[0], zmq4.WithSecurity(sm)), c10sock(t, p[1], zmq4.WithSecurity(cm))
			t.refused(srv, cli, pick(t, "vmem", "vmem", "tcp", "inproc"), fmt.Sprintf("handshake of %s with %s fails at step %d (server=%v, how=%d)", p[1], p[0], step, server, bad.how), late)
			// the sockets are still good for others
			if server {
				srv.shut()
				srv = c10sock(t, p[0], zmq4.WithSecurity(good))
			} else {
				cli.shut()
				cli = c10sock(t, p[1], zmq4.WithSecurity(good))
			}
			srv.shut()
			cli.shut()
			t.Key("failing", p, step, server, bad.how)
		}
	}
}

// c10Peers: a raw peer of each kind at a socket of each type, both roles.
func c10Peers(t *T) {
	typ := zmtpTypes[t.idx%11]
	kinds := []string{"PAIR", "PUB", "SUB", "REQ", "REP", "DEALER", "ROUTER", "PULL", "PUSH", "XPUB", "XSUB",
		"", "pub", "STREAM", "SERVER", "CLIENT", "RADIO", "PUB ", "PUB\x00", "XXSUB", "-"}
	for _, kind := range kinds {
		listen := t.Bool()
		ok := c10allowed(string(typ), kind)
		s := c10sock(t, typ, zmq4.WithDialerRetry(time.Millisecond))
		what := fmt.Sprintf("%s socket (listens=%v) and %q peer", typ, listen, kind)
		meta := props("Socket-Type", kind)
		switch {
		case kind == "-":
			meta = nil // no type at all
		case t.Chance(20):
			meta = props("X-Socket-Type", pickOther(t, kind), "socket-type", kind)
		case t.Chance(20):
			meta = props("Socket-TypeX", pickOther(t, kind), "SOCKET-TYPE", kind, "Identity", "me")
		}
		var r *raw
		var ch chan error
		if listen {
			r = t.connectTo(t.bind(s, t.fresh(pick(t, "tcp", "vmem", "ipc", "inproc"))))
		} else {
			l, ep := t.listenRaw(pick(t, "tcp", "vmem", "ipc"))
			ch = make(chan error, 1)
			go func() { ch <- s.Dial(ep) }()
			r = t.accept(l)
		}
		if !ok {
			t.quiet(s, what)
		}
		r.step()
		_ = r.write(greetingBytes("NULL", 0))
		if ok {
			_ = r.write(command("READY", meta))
			if err := r.readGreeting(); err != nil {
				t.Violate("%s: greeting: %v", what, err)
			}
			if err := r.readReady(); err != nil {
				t.Violate("%s: %v", what, err)
			}
			if r.peerType != string(typ) {
				t.Violate("%s: the socket says it is %q", what, r.peerType)
			}
			_ = r.c.SetDeadline(time.Time{})
			r.kind = kind
			k := t.talk(s)
			if ch != nil && !waitCh(ch, patience) {
				t.Violate("%s: Dial does not return", what)
			}
			k.exchange(r, what)
		} else {
			// messages along with the handshake, and a socket that has some to send
			t.trySend(s)
			_ = r.write(cat(command("READY", meta), encodeMsg([][]byte{nil, []byte("x")}), encodeMsg([][]byte{[]byte("\x01topic")})))
			if ch != nil {
				var err error
				t.Within(patience, what+": Dial", func() { err = <-ch })
				if err == nil {
					t.Violate("%s: Dial succeeds", what)
				}
			}
			t.gone(r, what)
			count("refusals", 1)
		}
		s.shut()
		t.Key("peers", typ, kind, listen)
	}
}

func pickOther(t *T, not string) string {
	for {
		if x := string(pick(t, zmtpTypes...)); x != not {
			return x
		}
	}
}

// gone: the library closes the connection and has sent no message on it.
func (t *T) gone(r *raw, what string) {
	got := make(chan []byte, 1)
	_ = r.c.SetReadDeadline(time.Time{})
	go func() {
		b, _ := io.ReadAll(r.br)
		got <- b
	}()
	select {
	case b := <-got:
		t.noTraffic(b, what)
	case <-time.After(2 * patience):
		t.Violate("%s: the connection stays open", what)
	}
}

// c10Greeting: deviations in greetings and handshakes, at both roles.
func c10Greeting(t *T) {
	typ := zmtpTypes[t.idx%11]
	g := func(f func(b []byte)) []byte {
		b := greetingBytes("NULL", 0)
		f(b)
		return b
	}
	type dev struct {
		name string
		ok   bool
		data []byte // replaces the greeting
		cmd  []byte // replaces READY
		cut  int    // ends after that many bytes, if > 0
	}
	kind := t.rawPeer(typ)
	ready := command("READY", props("Socket-Type", kind))
	devs := []dev{
		{name: "signature padding", ok: true, data: g(func(b []byte) { copy(b[1:9], t.Bytes(8)) })},
		{name: "padding as libzmq has it", ok: true, data: g(func(b []byte) { copy(b[1:9], []byte{0, 0, 0, 0, 0, 0, 0, 1}) })},
		{name: "version 3.1", ok: true, data: g(func(b []byte) { b[11] = 1 })},
		{name: "version 3.255", ok: true, data: g(func(b []byte) { b[11] = 255 })},
		{name: "version 4.0", ok: true, data: g(func(b []byte) { b[10] = 4 })},
		{name: "version 255.0", ok: true, data: g(func(b []byte) { b[10] = 255 })},
		{name: "version 2.0", data: g(func(b []byte) { b[10] = 2 })},
		{name: "version 2.9", data: g(func(b []byte) { b[10], b[11] = 2, 9 })},
		{name: "version 1.255", data: g(func(b []byte) { b[10], b[11] = 1, 255 })},
		{name: "version 0", data: g(func(b []byte) { b[10] = 0 })},
		{name: "signature", data: g(func(b []byte) { b[0] ^= 1 << t.Intn(8) })},
		{name: "signature end", data: g(func(b []byte) { b[9] ^= 1 << t.Intn(8) })},
		{name: "mechanism PLAIN", data: greetingBytes("PLAIN", 0)},
		{name: "mechanism CURVE", data: greetingBytes("CURVE", 0)},
		{name: "mechanism null", data: greetingBytes("null", 0)},
		{name: "mechanism NUL", data: greetingBytes("NUL", 0)},
		{name: "mechanism NULLL", data: greetingBytes("NULLL", 0)},
		{name: "mechanism empty", data: greetingBytes("", 0)},
		{name: "mechanism NULL and a blank", data: greetingBytes("NULL ", 0)},
		{name: "mechanism NULL and a word", data: greetingBytes("NULL PLAIN", 0)},
		{name: "mechanism NULL and a line end", data: greetingBytes("NULL\r\n", 0)},
		{name: "mechanism NULL after a blank", data: greetingBytes(" NULL", 0)},
		{name: "mechanism NULL after a NUL", data: greetingBytes("\x00NULL", 0)},
		{name: "mechanism Null", data: greetingBytes("Null", 0)},
		{name: "mechanism NULL with high bits", data: greetingBytes("\xceULL", 0)},
		{name: "mechanism of 20", data: greetingBytes("NULLNULLNULLNULLNULL", 0)},
		{name: "as-server 1", ok: true, data: greetingBytes("NULL", 1)},
		{name: "as-server 2", data: greetingBytes("NULL", 2)},
		{name: "as-server 255", data: greetingBytes("NULL", 255)},
		{name: "READY in long form", ok: true, cmd: frameForm(fCmd, ready[2:], true)},
		{name: "more properties", ok: true, cmd: command("READY", props("A", "", "Socket-Type", kind, "X-Long", strings.Repeat("v", 1000), "Resource", "r"))},
		{name: "message", cmd: frame(0, ready[2:])},
		{name: "two frames", cmd: cat(frame(fMore, ready[2:]), frame(0, nil))},
		{name: "INITIATE", cmd: command("INITIATE", props("Socket-Type", kind))},
		{name: "ERROR", cmd: command("ERROR", []byte("\x02no"))},
		{name: "ERROR with metadata", cmd: command("ERROR", props("Socket-Type", kind))},
		{name: "ready", cmd: command("ready", props("Socket-Type", kind))},
		{name: "READY ", cmd: command("READY ", props("Socket-Type", kind))},
		{name: "empty command", cmd: frame(fCmd, nil)},
		{name: "cut-off metadata", cmd: frame(fCmd, ready[2:len(ready)-1])},
		{name: "trailing metadata", cmd: command("READY", append(props("Socket-Type", kind), 5))},
	}
	whole := cat(greetingBytes("NULL", 0), ready)
	for i := 0; i < 6; i++ {
		devs = append(devs, dev{name: "ends early", cut: 1 + t.Intn(len(whole)-1)})
	}
	devs = append(devs, dev{name: "ends at 64", cut: 64}, dev{name: "ends at 63", cut: 63}, dev{name: "ends before the last byte", cut: len(whole) - 1})
	for i := 0; i < 4; i++ {
		n := t.otherName("READY")
		devs = append(devs, dev{name: "command " + n, cmd: command(n, props("Socket-Type", kind))})
	}
	for _, i := range t.Perm(len(devs))[:16] {
		d := devs[i]
		listen := t.Bool()
		s := c10sock(t, typ, zmq4.WithDialerRetry(time.Millisecond))
		what := fmt.Sprintf("%s socket (listens=%v), %s peer: %s (%d)", typ, listen, kind, d.name, d.cut)
		var r *raw
		var ch chan error
		if listen {
			r = t.connectTo(t.bind(s, t.fresh(pick(t, "tcp", "vmem", "ipc", "inproc"))))
		} else {
			l, ep := t.listenRaw(pick(t, "tcp", "vmem", "ipc"))
			ch = make(chan error, 1)
			go func() { ch <- s.Dial(ep) }()
			r = t.accept(l)
		}
		if !d.ok {
			t.quiet(s, what)
			t.trySend(s)
		}
		r.step()
		r.kind = kind
		gr, cmd := greetingBytes("NULL", 0), ready
		if d.data != nil {
			gr = d.data
		}
		if d.cmd != nil {
			cmd = d.cmd
		}
		if d.ok {
			_ = r.write(cat(gr, cmd))
			if err := r.readGreeting(); err != nil {
				t.Violate("%s: greeting: %v", what, err)
			}
			if err := r.readReady(); err != nil {
				t.Violate("%s: %v", what, err)
			}
			_ = r.c.SetDeadline(time.Time{})
			k := t.talk(s)
			if ch != nil {
				var err error
				t.Within(patience, what+": Dial", func() { err = <-ch })
				if err != nil {
					t.Violate("%s: Dial: %v", what, err)
				}
			}
			k.exchange(r, what)
		} else {
			if d.cut > 0 {
				go func() {
					_ = r.write(whole[:d.cut])
					if tc, ok := r.c.(interface{ CloseWrite() error }); ok && t.Bool() {
						_ = tc.CloseWrite()
					} else {
						_ = r.c.Close()
					}
				}()
			} else {
				_ = r.write(cat(gr, cmd, encodeMsg([][]byte{nil, []byte("x")}), encodeMsg([][]byte{[]byte("\x01topic")})))
			}
			if ch != nil {
				var err error
				t.Within(patience, what+": Dial", func() { err = <-ch })
				if err == nil {
					t.Violate("%s: Dial succeeds", what)
				}
			}
			t.gone(r, what)
			count("refusals", 1)
		}
		s.shut()
		t.Key("greeting", typ, d.name, listen)
	}
}

// otherName returns the name of a command that is not the one wanted.
func (t *T) otherName(want string) string {
	for {
		n := pick(t, "READY", "HELLO", "WELCOME", "INITIATE", "ERROR", "PING", "PONG", "SUBSCRIBE", "UNSUBSCRIBE", "CANCEL", "JOIN", "LEAVE")
		switch t.Intn(6) {
		case 0:
			n = strings.ToLower(want)
		case 1:
			n = want[:1+t.Intn(len(want)-1)]
		case 2:
			n = want + pick(t, "\x00", " ", "Y", strings.Repeat("Y", 200), "\x00\x00")
		}
		if n != want {
			return n
		}
	}
}

// c10Plain: deviations in the PLAIN handshake, both roles.
func c10Plain(t *T) {
	typ := zmtpTypes[t.idx%11]
	kind := t.rawPeer(typ)
	meta := props("Socket-Type", kind)
	type step struct{ write, expect string }
	h := func(s string) string { return string(command("HELLO", []byte(s))) }
	ini := string(command("INITIATE", meta))
	wel := string(command("WELCOME", nil))
	rdy := string(command("READY", meta))
	type dev struct {
		name   string
		server bool // the raw peer is the server
		ok     bool
		steps  []string // written one after the other
	}
	devs := []dev{
		{"as it should be", false, true, []string{h("\x04user\x04pass"), ini}},
		{"empty credentials", false, true, []string{h("\x00\x00"), ini}},
		{"long credentials", false, true, []string{h("\xff" + strings.Repeat("u", 255) + "\xff" + strings.Repeat("p", 255)), ini}},
		{"no HELLO", false, false, []string{ini}},
		{"READY at once", false, false, []string{rdy}},
		{"HELLO without body", false, false, []string{h(""), ini}},
		{"HELLO without password", false, false, []string{h("\x04user"), ini}},
		{"HELLO with short password", false, false, []string{h("\x04user\x05pass"), ini}},
		{"HELLO with short user", false, false, []string{h("\x20user\x04pass"), ini}},
		{"HELLO with more", false, false, []string{h("\x04user\x04pass!"), ini}},
		{"HELLO twice", false, false, []string{h("\x04user\x04pass"), h("\x04user\x04pass"), ini}},
		{"no INITIATE", false, false, []string{h("\x04user\x04pass"), rdy}},
		{"message for INITIATE", false, false, []string{h("\x04user\x04pass"), string(frame(0, []byte("x")))}},
		{"bad INITIATE", false, false, []string{h("\x04user\x04pass"), string(command("INITIATE", meta[:len(meta)-1]))}},
		{"other type", false, false, []string{h("\x04user\x04pass"), string(command("INITIATE", props("Socket-Type", "STREAM")))}},
		{"no type", false, false, []string{h("\x04user\x04pass"), string(command("INITIATE", nil))}},
		{"error", false, false, []string{string(command("ERROR", []byte("\x00")))}},

		{"as it should be", true, true, []string{wel, rdy}},
		{"no WELCOME", true, false, []string{rdy}},
		{"error for WELCOME", true, false, []string{string(command("ERROR", []byte("\x07refused")))}},
		{"error for READY", true, false, []string{wel, string(command("ERROR", []byte("\x07refused")))}},
		{"ERROR with metadata", true, false, []string{wel, string(command("ERROR", meta))}},
		{"WELCOME twice", true, false, []string{wel, wel, rdy}},
		{"message for WELCOME", true, false, []string{string(frame(0, []byte("x")))}},
		{"message for READY", true, false, []string{wel, string(frame(0, []byte("x")))}},
		{"INITIATE for READY", true, false, []string{wel, ini}},
		{"other type", true, false, []string{wel, string(command("READY", props("Socket-Type", "STREAM")))}},
		{"no type", true, false, []string{wel, string(command("READY", nil))}},
		{"bad READY", true, false, []string{wel, string(command("READY", meta[:len(meta)-1]))}},
		{"HELLO for WELCOME", true, false, []string{h("\x04user\x04pass"), rdy}},
	}
	// Another command in the place of the right one, with the right body.
	for i := 0; i < 2; i++ {
		as := func(want string, body []byte) (string, string) {
			n := t.otherName(want)
			return "command " + n + " for " + want, string(command(n, body))
		}
		n, c := as("HELLO", []byte("\x04user\x04pass"))
		devs = append(devs, dev{n, false, false, []string{c, ini}})
		n, c = as("INITIATE", meta)
		devs = append(devs, dev{n, false, false, []string{h("\x04user\x04pass"), c}})
		n, c = as("WELCOME", nil)
		devs = append(devs, dev{n, true, false, []string{c, rdy}})
		n, c = as("READY", meta)
		devs = append(devs, dev{n, true, false, []string{wel, c}})
	}
	for _, i := range t.Perm(len(devs))[:16] {
		d := devs[i]
		s := c10sock(t, typ, zmq4.WithSecurity(plain.Security("user", "pass")))
		what := fmt.Sprintf("%s socket with PLAIN, %s peer (server=%v): %s", typ, kind, d.server, d.name)
		var r *raw
		var ch chan error
		if !d.server {
			r = t.connectTo(t.bind(s, t.fresh(pick(t, "tcp", "vmem", "ipc", "inproc"))))
		} else {
			l, ep := t.listenRaw(pick(t, "tcp", "vmem", "ipc"))
			ch = make(chan error, 1)
			go func() { ch <- s.Dial(ep) }()
			r = t.accept(l)
		}
		if !d.ok {
			t.quiet(s, what)
			t.trySend(s)
		}
		r.step()
		r.kind = kind
		as := byte(0)
		if d.server {
			as = 1
		}
		_ = r.write(cat(greetingBytes("PLAIN", as), []byte(strings.Join(d.steps, ""))))
		if d.ok {
			if err := r.readGreeting(); err != nil {
				t.Violate("%s: greeting: %v", what, err)
			}
			var err error
			if d.server {
				if _, err = r.expect("HELLO"); err == nil {
					_, err = r.expect("INITIATE")
				}
			} else {
				if _, err = r.expect("WELCOME"); err == nil {
					_, err = r.expect("READY")
				}
			}
			if err != nil {
				t.Violate("%s: %v", what, err)
			}
			_ = r.c.SetDeadline(time.Time{})
			k := t.talk(s)
			if ch != nil && !waitCh(ch, patience) {
				t.Violate("%s: Dial does not return", what)
			}
			k.exchange(r, what)
		} else {
			_ = r.write(cat(encodeMsg([][]byte{nil, []byte("x")}), encodeMsg([][]byte{[]byte("\x01topic")})))
			if ch != nil {
				var err error
				t.Within(patience, what+": Dial", func() { err = <-ch })
				if err == nil {
					t.Violate("%s: Dial succeeds", what)
				}
			}
			t.gone(r, what)
			count("refusals", 1)
		}
		s.shut()
		t.Key("plain", typ, d.name, d.server)
	}
}

// c10Mixed: peers that are refused do not disturb those that are not, and
// get nothing of what they say.
func c10Mixed(t *T) {
	typ := zmtpTypes[t.idx%11]
	s := c10sock(t, typ)
	ep := t.bind(s, t.fresh(pick(t, "tcp", "vmem", "ipc", "inproc")))
	k := t.talk(s)
	good := t.connectTo(ep).mustNull(t.rawPeer(typ), "")
	for i := 0; i < 3; i++ {
		var fs []func()
		for j := 0; j < 1+t.Intn(4); j++ {
			var bad string
			for bad == "" || c10allowed(string(typ), bad) {
				bad = string(pick(t, zmtpTypes...))
			}
			fs = append(fs, func() {
				r := t.connectTo(ep)
				_ = r.write(cat(greetingBytes("NULL", 0), command("READY", props("Socket-Type", bad)), encodeMsg([][]byte{nil, []byte("refused")})))
				t.gone(r, fmt.Sprintf("%s peer at %s", bad, typ))
				count("refusals", 1)
			})
		}
		fs = append(fs, func() { k.exchange(good, fmt.Sprintf("%s with peers that are refused", typ)) })
		t.Par(60*time.Second, "refused peers", fs...)
	}
	if k.box != nil {
		for _, m := range k.box.all() {
			if len(m) > 0 && string(m[len(m)-1]) == "refused" {
				t.Violate("%s: received %s from a peer of a type it does not talk to", typ, show(m))
			}
		}
	}
	t.Key("mixed", typ)
}

func init() {
	register(&check{
		id:     "C10",
		rule:   "executions cover all pairs of socket types, of ten mechanisms (names that are prefixes of each other included), handshakes that fail at each step, raw peers of each type and greetings and handshakes with one deviation in both roles; whether a connection results is compared with the tables of ZMTP 3.0; distinct cases are pairs and deviations",
		assume: []string{"a mechanism name followed by a NUL byte and anything is taken for that name"},
		need:   map[string]int64{"peers in crowds": 1000, "refusals": 900, "connections that work": 60, "exchanges": 150},
		scenarios: func() []scenario {
			return []scenario{
				{"crowd", 11, 110, (*T).crowd},
				{"types", 22, 220, c10Types},
				{"mechanisms", 20, 300, c10Mechanisms},
				{"failing", 12, 200, c10Failing},
				{"peers", 22, 220, c10Peers},
				{"greeting", 100, 500, c10Greeting},
				{"plain", 100, 500, c10Plain},
				{"mixed", 22, 300, c10Mixed},
			}
		},
	})
}
