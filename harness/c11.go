package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"strings"
	"sync"
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/security/null"
	"github.com/luxfi/zmq/v4/security/plain"
)

// wireParser takes a recorded half of a connection apart, strictly.
type wireParser struct {
	cmds []string // names of handshake commands, in order
	meta map[string]string
	msgs [][][]byte
	pong [][]byte // contexts
}

// parseWire parses everything; plainRole is "", "client" or "server".
func parseWire(b []byte, mech, role string) (*wireParser, error) {
	w := &wireParser{}
	if len(b) < 64 {
		return nil, fmt.Errorf("greeting of %d bytes", len(b))
	}
	if err := checkGreeting(b[:64], mech); err != nil {
		return nil, err
	}
	if mech == "NULL" && b[32] != 0 {
		return nil, fmt.Errorf("NULL with as-server %d", b[32])
	}
	br := bufio.NewReader(bytes.NewReader(b[64:]))
	want := []string{"READY"}
	if mech == "PLAIN" {
		want = []string{"HELLO", "INITIATE"}
		if role == "server" {
			want = []string{"WELCOME", "READY"}
		}
	}
	for _, name := range want {
		fl, body, err := parseFrame(br)
		if err != nil {
			return nil, fmt.Errorf("%s: %w", name, err)
		}
		if fl&fCmd == 0 {
			return nil, fmt.Errorf("message where %s was due", name)
		}
		n, data, err := parseCmd(body)
		if err != nil {
			return nil, err
		}
		if n != name {
			return nil, fmt.Errorf("%s where %s was due", n, name)
		}
		w.cmds = append(w.cmds, n)
		if n == "READY" || n == "INITIATE" {
			if w.meta, err = parseProps(data); err != nil {
				return nil, fmt.Errorf("%s: %w", n, err)
			}
		}
		if n == "WELCOME" && len(data) > 0 {
			return nil, fmt.Errorf("WELCOME with %q", data)
		}
	}
	var fs [][]byte
	for {
		fl, body, err := parseFrame(br)
		if err == io.EOF && len(fs) == 0 {
			return w, nil
		}
		if err != nil {
			return nil, fmt.Errorf("message %d, frame %d: %w", len(w.msgs), len(fs), unexpected(err))
		}
		if fl&fCmd != 0 {
			if len(fs) > 0 {
				return nil, fmt.Errorf("command inside a message")
			}
			n, data, err := parseCmd(body)
			if err != nil {
				return nil, err
			}
			if n != "PONG" {
				return nil, fmt.Errorf("command %s out of the blue", n)
			}
			w.pong = append(w.pong, data)
			continue
		}
		fs = append(fs, body)
		if fl&fMore == 0 {
			w.msgs = append(w.msgs, fs)
			fs = nil
		}
	}
}

// c11Out: what sockets emit, byte by byte.
func c11Out(t *T) {
	k := flowKinds[t.idx%len(flowKinds)]
	pl := t.Chance(40)
	bindA := t.Bool()
	var hs []*host
	t.onHost = func(h *host) {
		h.setup = func(l *link) { l.ab.record(); l.ba.record() }
		hs = append(hs, h)
	}
	var opts []zmq4.Option
	mech := "NULL"
	if pl {
		opts, mech = append(opts, zmq4.WithSecurity(plain.Security("user", "pass"))), "PLAIN"
	}
	f := t.newFlow(k, "vmem", bindA, opts...)
	what := fmt.Sprintf("%s, %s, A listens=%v", k.name, mech, bindA)
	t.Log("%s", what)

	// frame sizes around all the limits
	sizes := []int{0, 1, 2, 253, 254, 255, 256, 257, 258, 1000, 65535, 65536, 65537, 200000}
	mk := func(g, i int) [][]byte {
		fs := mkMsg("m", g, i, shape{1 + t.Intn(5), 3000})
		if t.Chance(30) {
			// one frame of a telling size
			sh := shape{2, 0}
			n := sizes[t.Intn(len(sizes))]
			name := fmt.Sprintf("m/%d/%d/%d.%d", g, i, 1, 0)
			_ = sh
			b := t.Bytes(n)
			fs = [][]byte{[]byte(name + "+"), b}
			if t.Bool() {
				fs = append(fs, nil)
			}
		}
		return fs
	}
	var mu sync.Mutex
	sent := map[string][][]byte{}
	key := func(fs [][]byte) string { return string(fs[0]) }
	gs, n := 1+t.Intn(4), 12
	if f.step {
		gs = 1
	}
	total := gs * n
	got := 0
	var fns []func()
	for g := 0; g < gs; g++ {
		g := g
		fns = append(fns, func() {
			for i := 0; i < n; i++ {
				fs := mk(g, i)
				mu.Lock()
				sent[key(fs)] = fs
				mu.Unlock()
				if f.turn != nil {
					f.turn()
				}
				send := func() {
					var err error
					t.Within(patience, what+": Send", func() { err = f.put(t.Bool(), fs) })
					if err != nil {
						t.Violate("%s: Send: %v", what, err)
					}
				}
				if !f.step {
					send()
					continue
				}
				var raw [][]byte
				t.Par(patience, what, send, func() { raw = t.recv(f.B) })
				f.answer(raw)
			}
		})
	}
	if !f.step {
		fns = append(fns, func() {
			for got < total {
				raw := t.recv(f.B)
				got++
				if k.name == "dealer-rep" {
					f.answer(raw)
				}
			}
		})
	}
	t.Par(60*time.Second, what, fns...)
	settle()

	if len(hs) != 1 || len(hs[0].allLinks()) != 1 {
		t.Violate("%s: more than one connection", what)
	}
	l := hs[0].allLinks()[0]
	a, b := l.ab, l.ba // of the dialling and the listening side
	if bindA {
		a, b = b, a
	}
	role := func(srv bool) string {
		if srv {
			return "server"
		}
		return "client"
	}
	wa, err := parseWire(a.recorded(), mech, role(bindA))
	if err != nil {
		t.Violate("%s: %s emits what is not ZMTP 3.0: %v", what, k.a, err)
	}
	wb, err := parseWire(b.recorded(), mech, role(!bindA))
	if err != nil {
		t.Violate("%s: %s emits what is not ZMTP 3.0: %v", what, k.b, err)
	}
	for _, x := range []struct {
		w *wireParser
		s *Sock
		y zmq4.SocketType
	}{{wa, f.A, k.a}, {wb, f.B, k.b}} {
		if x.w.meta["socket-type"] != string(x.y) {
			t.Violate("%s: %s announces the type %q", what, x.y, x.w.meta["socket-type"])
		}
		for name := range x.w.meta {
			if name != "socket-type" && name != "identity" {
				t.Violate("%s: %s announces %q", what, x.y, name)
			}
		}
		if len(x.w.pong) > 0 {
			t.Violate("%s: PONG for nothing", what)
		}
	}
	// the messages of A, each as it was sent, with the envelope of its kind
	pre := f.pre
	if k.a == zmq4.Router {
		pre = pre[1:]
	}
	if k.a == zmq4.Req || k.a == zmq4.Rep {
		pre = [][]byte{nil}
	}
	seen := 0
	for _, m := range wa.msgs {
		if len(m) <= len(pre) || !eqFrames(m[:len(pre)], pre) {
			continue // set-up, or not ours
		}
		fs := m[len(pre):]
		want, ok := sent[key(fs)]
		if !ok {
			if strings.HasPrefix(string(fs[0]), "m/") {
				t.Violate("%s: %s on the wire twice, or never sent", what, show(m))
			}
			continue
		}
		if !eqFrames(fs, want) {
			t.Violate("%s: %s on the wire, sent %s", what, show(m), show(want))
		}
		delete(sent, key(fs))
		seen++
	}
	if len(sent) > 0 {
		for _, m := range sent {
			t.Violate("%s: %d of %d messages are not on the wire, such as %s", what, len(sent), total, show(m))
		}
	}
	count("messages parsed", int64(seen))
	count("bytes parsed", int64(len(a.recorded())+len(b.recorded())))
	t.Key("out", k.name, mech, bindA, gs)
}

// oddFrame encodes a frame in any of the allowed forms.
func (t *T) oddFrame(fl byte, body []byte) []byte {
	return frameForm(fl, body, len(body) > 255 || t.Chance(40))
}

func (t *T) oddMsg(fs [][]byte) []byte {
	var b []byte
	for i, f := range fs {
		var fl byte
		if i < len(fs)-1 {
			fl = fMore
		}
		b = append(b, t.oddFrame(fl, f)...)
	}
	return b
}

// oddCmd is a command that says nothing to the application.
func (t *T) oddCmd(pongs *[][]byte) []byte {
	name := "PONG"
	data := t.Bytes(t.Intn(17))
	if t.Chance(70) {
		name = "PING"
		ctx := t.Bytes(t.Intn(17))
		data = append(t.Bytes(2), ctx...)
		*pongs = append(*pongs, ctx)
	}
	b := append([]byte{byte(len(name))}, name...)
	return t.oddFrame(fCmd, append(b, data...))
}

// c11In: what peers may send.
func c11In(t *T) {
	typ := zmtpTypes[t.idx%11]
	kind := t.rawPeer(typ)
	listen := t.Bool()
	pl := t.Chance(30)
	tr := pick(t, "tcp", "vmem", "ipc")
	var opts []zmq4.Option
	if pl {
		opts = append(opts, zmq4.WithSecurity(plain.Security("user", "pass")))
	}
	s := t.Sock(typ, opts...)
	if typ == zmq4.Sub {
		_ = s.SetOption(zmq4.OptionSubscribe, "")
	}
	what := fmt.Sprintf("%s socket (listens=%v) and %s peer over %s, plain=%v", typ, listen, kind, tr, pl)
	t.Log("%s", what)
	var r *raw
	if listen {
		r = t.connectTo(t.bind(s, t.fresh(tr)))
		r.must(pl, false, kind)
	} else {
		l, ep := t.listenRaw(tr)
		ch := make(chan error, 1)
		go func() { ch <- s.Dial(ep) }()
		r = t.accept(l).must(pl, true, kind)
		var err error
		t.Within(patience, what+": Dial", func() { err = <-ch })
		if err != nil {
			t.Violate("%s: Dial: %v", what, err)
		}
	}

	var pongs [][]byte  // contexts due
	var want [][][]byte // what the application has to receive
	var topicsWant = map[string]bool{}
	var blob []byte
	env := [][]byte{}
	switch {
	case typ == zmq4.Rep, typ == zmq4.Router && kind == "REQ":
		env = [][]byte{nil}
	}
	n := 20 + t.Intn(30)
	for i := 0; i < n; i++ {
		for t.Chance(40) {
			blob = append(blob, t.oddCmd(&pongs)...)
		}
		fs := mkMsg("w", 0, i, shape{5, 700})
		switch typ {
		case zmq4.Push, zmq4.Req:
			continue
		case zmq4.Pub, zmq4.XPub:
			topic := fmt.Sprintf("t%d", t.Intn(12)) + strings.Repeat("x", pick(t, 0, 0, 252, 253, 254, 255, 400))
			on := t.Chance(70)
			b := []byte{0}
			if on {
				b[0] = 1
			}
			if on {
				topicsWant[topic] = true
			} else {
				delete(topicsWant, topic)
			}
			blob = append(blob, t.oddFrame(0, append(b, topic...))...)
			if typ == zmq4.XPub && t.Chance(30) {
				// not a subscription: the application gets it
				fs = append([][]byte{[]byte("\x02")}, fs...)
				want = append(want, fs)
				blob = append(blob, t.oddMsg(fs)...)
			}
			continue
		}
		want = append(want, fs)
		blob = append(blob, t.oddMsg(append(append([][]byte{}, env...), fs...))...)
	}
	blob = append(blob, t.oddCmd(&pongs)...)

	// what the peer reads: PONGs in order, between whole messages
	type rd struct {
		pongs [][]byte
		msgs  [][][]byte
	}
	var rmu sync.Mutex
	var seen rd
	rdone := make(chan error, 1)
	_ = r.c.SetReadDeadline(time.Time{})
	go func() {
		var fs [][]byte
		for {
			fl, body, err := parseFrame(r.br)
			if err != nil {
				rdone <- err
				return
			}
			rmu.Lock()
			if fl&fCmd != 0 {
				name, data, err := parseCmd(body)
				if err == nil && len(fs) > 0 {
					err = fmt.Errorf("%w: %s inside a message", errProto, name)
				}
				if err == nil && name != "PONG" {
					err = fmt.Errorf("%w: %s where PONG was due", errProto, name)
				}
				if err != nil {
					rmu.Unlock()
					rdone <- err
					return
				}
				seen.pongs = append(seen.pongs, data)
			} else if fs = append(fs, body); fl&fMore == 0 {
				seen.msgs = append(seen.msgs, fs)
				fs = nil
			}
			rmu.Unlock()
		}
	}()
	check := func() bool {
		rmu.Lock()
		defer rmu.Unlock()
		return len(seen.pongs) >= len(pongs)
	}

	stop := make(chan struct{})
	var wg sync.WaitGroup
	send := func(multi bool, fs ...[]byte) { _ = s.put(multi, fs...) }
	switch typ {
	case zmq4.Push, zmq4.Pair, zmq4.Dealer, zmq4.XSub:
		// the socket talks at the same time
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 400; i++ {
				select {
				case <-stop:
					return
				default:
				}
				send(i%2 == 0, []byte{2}, bytes.Repeat([]byte{byte(i)}, i*3), []byte("end"))
			}
		}()
	}

	most := pick(t, 1, 3, 50, 1000, 1<<20)
	wrote := make(chan error, 1)
	go func() {
		for b := blob; len(b) > 0 && typ != zmq4.Req; {
			k := min(len(b), 1+t.Intn(most))
			if len(blob)-len(b) > 4000 {
				k = len(b) // enough small pieces
			}
			if err := r.write(b[:k]); err != nil {
				wrote <- err
				return
			}
			b = b[k:]
		}
		wrote <- nil
	}()

	fail := func() string {
		select {
		case err := <-rdone:
			return fmt.Sprintf(" (the peer reads: %v)", err)
		default:
			return ""
		}
	}
	recvs := make(chan struct{})
	go func() {
		defer close(recvs)
		for i := range want {
			m, err := s.Recv()
			if err != nil {
				t.Violate("%s: Recv of message %d: %v%s", what, i, err, fail())
			}
			got := m.Frames
			if typ == zmq4.Router {
				if len(got) < 1+len(env) {
					t.Violate("%s: received %s", what, show(got))
				}
				got = got[1+len(env):]
			}
			if !eqFrames(got, want[i]) {
				t.Violate("%s: received %s, the peer sent %s", what, show(m.Frames), show(want[i]))
			}
			if typ == zmq4.Rep && t.Bool() {
				_ = s.put(false, []byte("reply"))
			}
		}
	}()
	if typ == zmq4.Req {
		// reads in Recv only: commands before the reply
		// (no more than fits into any buffer)
		t.sendReq(s, []byte("request"))
		t.Until(patience, what+": request arrives", func() bool { rmu.Lock(); defer rmu.Unlock(); return len(seen.msgs) > 0 })
		blob = append(blob, t.oddMsg(append([][]byte{nil}, mkMsg("w", 0, 0, shape{4, 500})...))...)
		go func() {
			for b := blob; len(b) > 0; {
				k := min(len(b), 1+t.Intn(most))
				if r.write(b[:k]) != nil {
					return
				}
				b = b[k:]
			}
		}()
		got := t.recv(s)
		if _, err := ckMsg(got); err != nil {
			t.Violate("%s: reply: %v", what, err)
		}
	} else {
		t.Within(60*time.Second, what+": writing", func() {
			if err := <-wrote; err != nil {
				t.Violate("%s: the peer writes: %v", what, err)
			}
		})
	}
	if !waitCh(recvs, patience) {
		t.Violate("%s: not all of %d messages are received%s", what, len(want), fail())
	}
	if typ == zmq4.Pub || typ == zmq4.XPub {
		same := func() bool {
			ts := topics(s)
			if len(ts) != len(topicsWant) {
				return false
			}
			for _, x := range ts {
				if !topicsWant[x] {
					return false
				}
			}
			return true
		}
		if !until(patience, same) {
			t.Violate("%s: topics are %.200q, the peer subscribed to %d", what, topics(s), len(topicsWant))
		}
	}
	if !until(patience, check) {
		t.Violate("%s: %d PONGs for %d PINGs%s", what, len(seen.pongs), len(pongs), fail())
	}
	close(stop)
	wg.Wait()
	rmu.Lock()
	defer rmu.Unlock()
	if len(seen.pongs) != len(pongs) {
		t.Violate("%s: %d PONGs for %d PINGs", what, len(seen.pongs), len(pongs))
	}
	for i := range pongs {
		if !bytes.Equal(pongs[i], seen.pongs[i]) {
			t.Violate("%s: PONG %d has the context %q, the PING had %q", what, i, seen.pongs[i], pongs[i])
		}
	}
	count("PINGs answered", int64(len(pongs)))
	count("messages in odd encodings", int64(len(want)))
	t.Key("in", typ, kind, listen, pl, most)
}

// c11Conn: a connection by itself (Open, SendMsg, SendCmd, Write, RecvMsg,
// RecvCmd, Read), both ends being the library's, recorded in between.
func c11Conn(t *T) {
	pairs := []zmq4.SocketType{zmq4.Pair, zmq4.Pair, zmq4.Dealer, zmq4.Router, zmq4.Push, zmq4.Pull, zmq4.Pub, zmq4.Sub, zmq4.Req, zmq4.Rep}
	i := 2 * t.Intn(len(pairs)/2)
	typs := []zmq4.SocketType{pairs[i], pairs[i+1]}
	sec, mech := null.Security(), "NULL"
	if t.Chance(40) {
		sec, mech = plain.Security("user", "pass"), "PLAIN"
	}
	l := newLink(4096)
	l.ab.record()
	l.ba.record()
	for _, h := range []*half{l.ab, l.ba} {
		if t.Bool() {
			h.rng, h.most = t.fork(), 1+t.Intn(40)
		}
	}
	if _, err := zmq4.Open(nil, sec, typs[0], nil, true, nil); err == nil {
		t.Violate("Open without a connection succeeds")
	}
	if x := newLink(100); true {
		var err error
		t.Within(patience, "Open without a mechanism", func() { _, err = zmq4.Open(x.d, nil, typs[0], nil, true, nil) })
		if err == nil {
			t.Violate("Open without a mechanism succeeds")
		}
		_ = x.d.Close()
	}
	var cs [2]*zmq4.Conn
	open := func(i int, c *memConn) func() {
		return func() {
			var err error
			if cs[i], err = zmq4.Open(c, sec, typs[i], zmq4.SocketIdentity(fmt.Sprintf("id%d", i)), i == 1, nil); err != nil {
				t.Violate("Open of a %s towards a %s with %s: %v", typs[i], typs[1-i], mech, err)
			}
		}
	}
	t.Par(patience, "Open", open(0, l.d), open(1, l.l))
	for i, c := range cs {
		if got := c.Peer.Meta["Identity"]; got != fmt.Sprintf("id%d", 1-i) {
			t.Violate("the connection has the identity %q of its peer, which is id%d", got, 1-i)
		}
	}
	capac := pickR(t.rng, 1, 60, 4096, 1<<20)
	l.ab.setCap(capac)
	l.ba.setCap(capac)
	start := []int{len(l.ab.recorded()), len(l.ba.recorded())}
	many := t.Intn(3)
	var wants [2][]byte // what goes over the wire, if there is one sender
	type op struct {
		kind string // msg, cmd, raw
		name string
		fs   [][]byte
	}
	direction := func(from, to *zmq4.Conn, want *[]byte, rr *rand.Rand) []func() {
		var ops []op
		n := 10 + rr.Intn(40)
		senders := 1 + many
		for i := 0; i < n; i++ {
			tag := []byte(fmt.Sprintf("%d.%d/", i%senders, i))
			var fs [][]byte
			for j := rr.Intn(5); j >= 0; j-- {
				fs = append(fs, rbytes(rr, pickR(rr, 0, 1, 254, 255, 256, 257, 3000)))
			}
			fs = append([][]byte{tag}, fs...)
			switch rr.Intn(4) {
			case 0:
				name := strings.Repeat("X", 1+rr.Intn(250))
				ops = append(ops, op{"cmd", name, [][]byte{append(tag, rbytes(rr, rr.Intn(400))...)}})
			case 1:
				ops = append(ops, op{"raw", "", fs})
			default:
				ops = append(ops, op{"msg", "", fs})
			}
		}
		for _, o := range ops {
			if o.kind == "cmd" {
				*want = append(*want, command(o.name, o.fs[0])...)
			} else {
				*want = append(*want, encodeMsg(o.fs)...)
			}
		}
		var out []func()
		for k := 0; k < senders; k++ {
			k := k
			rr := rand.New(rand.NewSource(rr.Int63()))
			out = append(out, func() {
				for i := k; i < n; i += senders {
					var err error
					switch o := ops[i]; o.kind {
					case "msg":
						err = from.SendMsg(zmq4.NewMsgFrom(o.fs...))
					case "cmd":
						if rr.Intn(3) == 0 {
							if err := from.SendCmd(strings.Repeat("n", 256+rr.Intn(300)), nil); err == nil {
								t.Violate("SendCmd takes a name of more than 255 bytes")
							}
						}
						err = from.SendCmd(o.name, o.fs[0])
					case "raw":
						b := encodeMsg(o.fs)
						if senders > 1 { // Write is not kept together with anything
							err = from.SendMsg(zmq4.NewMsgFrom(o.fs...))
							break
						}
						var m int
						if m, err = from.Write(b); err == nil && m != len(b) {
							t.Violate("Write of %d bytes returns %d and no error", len(b), m)
						}
					}
					if err != nil {
						t.Violate("sending on a connection (%s): %v", ops[i].kind, err)
					}
				}
			})
		}
		out = append(out, func() {
			at := make([]int, senders) // next one of each sender
			for i := range at {
				at[i] = i
			}
			for i := 0; i < n; i++ {
				var got op
				read := rr.Intn(2) == 0 && senders == 1
				switch {
				case read && ops[i].kind != "cmd": // byte by byte
					b := make([]byte, len(encodeMsg(ops[i].fs)))
					for k := 0; k < len(b); {
						m := 1 + rr.Intn(len(b)-k)
						j, err := to.Read(b[k : k+m])
						if err != nil || j != m {
							t.Violate("Read of %d bytes returns %d, %v", m, j, err)
						}
						k += m
					}
					if !bytes.Equal(b, encodeMsg(ops[i].fs)) {
						t.Violate("Read returns something else than was sent: %.200q", b)
					}
					at[0]++
					continue
				case read:
					cmd, err := to.RecvCmd()
					if err != nil {
						t.Violate("RecvCmd: %v", err)
					}
					got = op{"cmd", cmd.Name, [][]byte{cmd.Body}}
				default:
					m, err := to.RecvMsg()
					if err != nil {
						t.Violate("RecvMsg: %v", err)
					}
					got = op{"msg", "", m.Frames}
					if m.Type == zmq4.CmdMsg {
						got.kind = "cmd"
					}
				}
				var who, num int
				if _, err := fmt.Sscanf(string(got.fs[0][:min(len(got.fs[0]), 12)]), "%d.%d/", &who, &num); err != nil || who < 0 || who >= senders || num != at[who] {
					t.Violate("received %s, which is not next", show(got.fs))
				}
				at[who] += senders
				o := ops[num]
				if (got.kind == "cmd") != (o.kind == "cmd") || !eqFrames(got.fs, o.fs) || got.name != "" && got.name != o.name {
					t.Violate("sent as %s %q: %s, received as %s %q: %s", o.kind, o.name, show(o.fs), got.kind, got.name, show(got.fs))
				}
				count("taken from a connection", 1)
			}
		})
		return out
	}
	fs := direction(cs[0], cs[1], &wants[0], t.fork())
	fs = append(fs, direction(cs[1], cs[0], &wants[1], t.fork())...)
	t.Par(30*time.Second, fmt.Sprintf("traffic on a connection (%s, %s)", typs[0], mech), fs...)
	for i, h := range []*half{l.ab, l.ba} {
		if got := h.recorded()[start[i]:]; many == 0 && !bytes.Equal(got, wants[i]) {
			t.Violate("%d bytes on the wire, which are not the %d that were due", len(got), len(wants[i]))
		} else if len(got) != len(wants[i]) {
			t.Violate("%d bytes on the wire instead of %d", len(got), len(wants[i]))
		}
	}
	// a PING is answered
	t.Par(patience, "PING on a connection", func() {
		if err := cs[0].SendCmd(zmq4.CmdPing, []byte{0, 0}); err != nil {
			t.Violate("PING: %v", err)
		}
		if c, err := cs[0].RecvCmd(); err != nil || c.Name != zmq4.CmdPong {
			t.Violate("PING is answered by %q, %v", c.Name, err)
		}
	}, func() {
		if m, err := cs[1].RecvMsg(); err != nil || m.Type != zmq4.CmdMsg {
			t.Violate("PING arrives as %v, %v", m.Frames, err)
		}
	})
	// malformed commands, messages where a command is due
	bad := []struct {
		name string
		data []byte
	}{
		{"a command whose name is too long", frame(fCmd, append([]byte{9}, "SHORT"...))},
		{"a command without a name", frame(fCmd, nil)},
		{"a command of two frames", cat(frame(fCmd|fMore, []byte("\x04PING")), frame(fCmd, []byte("\x04PONG")))},
		{"a message", encodeMsg([][]byte{[]byte("\x05READY")})},
	}
	b := bad[t.Intn(len(bad))]
	recv := t.Bool() && b.name != "a message"
	t.Par(patience, "reading "+b.name, func() { _, _ = cs[0].Write(b.data) }, func() {
		var err error
		var out any
		if recv {
			out, err = cs[1].RecvMsg()
		} else {
			out, err = cs[1].RecvCmd()
		}
		if err == nil {
			t.Violate("%s is read without an error: %v", b.name, out)
		}
	})
	// the end
	how := pick(t, "own", "peer")
	gone := cs[0]
	blocked := io.EOF
	wait := t.Bool()
	t.Par(patience, "Close of a connection", func() {
		time.Sleep(time.Duration(t.Intn(3)) * time.Millisecond)
		if how == "own" {
			_ = cs[0].Close()
		} else {
			_ = cs[1].Close()
		}
	}, func() {
		if wait {
			_, blocked = gone.RecvMsg()
		}
	})
	if blocked == nil {
		t.Violate("RecvMsg returns a message after Close")
	}
	after := []struct {
		name string
		fn   func() error
	}{
		{"RecvMsg", func() error { _, err := gone.RecvMsg(); return err }},
		{"RecvCmd", func() error { _, err := gone.RecvCmd(); return err }},
		{"Read", func() error { _, err := gone.Read(make([]byte, 1)); return err }},
		{"SendMsg", func() error { return gone.SendMsg(zmq4.NewMsgString("late")) }},
		{"SendCmd", func() error { return gone.SendCmd("LATE", nil) }},
		{"Write", func() error { _, err := gone.Write([]byte("late")); return err }},
	}
	t.rng.Shuffle(len(after), func(i, j int) { after[i], after[j] = after[j], after[i] })
	for _, f := range after {
		var err error
		t.Within(patience, f.name+" on a connection that was closed", func() { err = f.fn() })
		if err == nil {
			t.Violate("%s on a connection that was closed (%s) succeeds", f.name, how)
		}
	}
	if !gone.Closed() {
		t.Violate("a connection that was lost says it is not closed")
	}
	_, _ = cs[0].Close(), cs[1].Close()
	count("connections by themselves", 1)
	t.Key("conn", typs[0], mech, many, b.name, recv, how)
}

// Interop scenarios are added by the build with cgo.
var c11interop []scenario

func init() {
	register(&check{
		id:     "C11",
		rule:   "every byte recorded from each kind of connection is parsed by a strict ZMTP 3.0 parser and compared with what was sent; raw peers send every allowed encoding with PINGs in between; all patterns are run against libzmq 4.3.5 in both roles; distinct cases are combinations of pattern, mechanism, roles and encoding",
		assume: []string{"libzmq 4.3.5 as installed speaks ZMTP correctly"},
		need:   map[string]int64{"messages parsed": 1000, "PINGs answered": 300, "messages in odd encodings": 500, "taken from a connection": 1000, "messages to libzmq": 1000, "messages from libzmq": 1000},
		scenarios: func() []scenario {
			return append([]scenario{
				{"out", 54, 900, c11Out},
				{"in", 66, 1100, c11In},
				{"conn", 80, 2000, c11Conn},
			}, c11interop...)
		},
	})
}
