package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/security/null"
	"github.com/luxfi/zmq/v4/security/plain"
)

// probe is a security mechanism that records what it is called with.
type probe struct {
	t    *T
	kind string // what the transformation does to the length
	name zmq4.SecurityType
	n    atomic.Uint64

	poison []byte // Decrypt fails where the plain text contains it
	hollow bool   // Decrypt fails where there is no plain text
	perr   error
	refuse []byte // Encrypt fails
	rerr   error
	pieces bool // results are written in several pieces

	mu     sync.Mutex
	enc    map[sum]int // results of Encrypt
	dec    map[sum]int // arguments of Decrypt
	plain  map[sum]int // arguments of Encrypt
	nenc   int
	ndec   int
	shakes [2]int
}

type sum [32]byte

var probeKinds = []string{"same", "keep", "grow", "double", "shrink"}

func (t *T) probe(kind string) *probe {
	return &probe{t: t, kind: kind, name: zmq4.SecurityType(pick(t, "PROBE", "X", "TWENTY-CHARACTERS-ABC"[:20])),
		pieces: t.Bool(), enc: map[sum]int{}, dec: map[sum]int{}, plain: map[sum]int{}}
}

func (p *probe) Type() zmq4.SecurityType { return p.name }

func (p *probe) Handshake(c *zmq4.Conn, server bool) error {
	p.mu.Lock()
	if server {
		p.shakes[1]++
	} else {
		p.shakes[0]++
	}
	p.mu.Unlock()
	raw, err := c.Meta.MarshalZMTP()
	if err != nil {
		return err
	}
	if err := c.SendCmd("READY", raw); err != nil {
		return err
	}
	cmd, err := c.RecvCmd()
	if err != nil {
		return err
	}
	if cmd.Name != "READY" {
		return fmt.Errorf("%s instead of READY", cmd.Name)
	}
	return c.Peer.Meta.UnmarshalZMTP(cmd.Body)
}

func (p *probe) put(w io.Writer, b []byte) (int, error) {
	if !p.pieces {
		return w.Write(b)
	}
	n := 0
	for len(b) > 0 {
		k := (len(b) + 1) / 2
		m, err := w.Write(b[:k])
		n += m
		if err != nil {
			return n, err
		}
		b = b[k:]
	}
	return n, nil
}

func (p *probe) Encrypt(w io.Writer, data []byte) (int, error) {
	if p.refuse != nil && bytes.Contains(data, p.refuse) {
		count("encryptions refused", 1)
		if p.pieces {
			_, _ = w.Write([]byte("half of it"))
		}
		return 0, p.rerr
	}
	var out []byte
	switch p.kind {
	case "same":
		out = append(out, data...)
	case "keep":
		for _, b := range data {
			out = append(out, b^0x5a)
		}
	case "grow": // numbered, with a check sum
		out = binary.BigEndian.AppendUint64([]byte("sealed"), p.n.Add(1))
		for _, b := range data {
			out = append(out, b^0xa5)
		}
		s := sha256.Sum256(out)
		out = append(out, s[:8]...)
	case "double":
		n := p.n.Add(1)
		out = binary.BigEndian.AppendUint64(out, n)
		for _, b := range data {
			out = append(out, ^b, byte(n))
		}
	case "shrink": // runs of one byte
		for i := 0; i < len(data); {
			j := i
			for j < len(data) && data[j] == data[i] && j-i < 255 {
				j++
			}
			out = append(out, byte(j-i), data[i])
			i = j
		}
		s := sha256.Sum256(data)
		out = append(out, s[0])
	}
	p.mu.Lock()
	p.enc[sha256.Sum256(out)]++
	p.plain[sha256.Sum256(data)]++
	p.nenc++
	p.mu.Unlock()
	count("encryptions", 1)
	return p.put(w, out)
}

// bad tells whether Decrypt fails for this plain text.
func (p *probe) bad(out []byte) bool {
	return p.poison != nil && bytes.Contains(out, p.poison) || p.hollow && len(out) == 0
}

var errSeal = errors.New("not sealed by us")

func (p *probe) open(data []byte) ([]byte, error) {
	var out []byte
	switch p.kind {
	case "same":
		out = append(out, data...)
	case "keep":
		for _, b := range data {
			out = append(out, b^0x5a)
		}
	case "grow":
		if len(data) < 22 || string(data[:6]) != "sealed" {
			return nil, errSeal
		}
		s := sha256.Sum256(data[:len(data)-8])
		if !bytes.Equal(s[:8], data[len(data)-8:]) {
			return nil, errSeal
		}
		for _, b := range data[14 : len(data)-8] {
			out = append(out, b^0xa5)
		}
	case "double":
		if len(data) < 8 || len(data)%2 != 0 {
			return nil, errSeal
		}
		for i := 8; i < len(data); i += 2 {
			out = append(out, ^data[i])
		}
	case "shrink":
		if len(data)%2 != 1 {
			return nil, errSeal
		}
		for i := 0; i+1 < len(data); i += 2 {
			out = append(out, bytes.Repeat(data[i+1:i+2], int(data[i]))...)
		}
		if s := sha256.Sum256(out); s[0] != data[len(data)-1] {
			return nil, errSeal
		}
	}
	return out, nil
}

func (p *probe) Decrypt(w io.Writer, data []byte) (int, error) {
	out, err := p.open(data)
	if err != nil {
		p.t.Violate("security: Decrypt is given %d bytes that Encrypt has not produced: %.60q", len(data), data)
	}
	p.mu.Lock()
	p.dec[sha256.Sum256(data)]++
	p.ndec++
	p.mu.Unlock()
	count("decryptions", 1)
	if p.bad(out) {
		count("decryptions that fail", 1)
		if p.pieces {
			_, _ = w.Write(out)
		}
		return 0, p.perr
	}
	return p.put(w, out)
}

// wire records the links of a vmem host and takes them apart.
type wire struct {
	mu    sync.Mutex
	links []*link
}

func (t *T) wire() *wire {
	w := &wire{}
	t.onHost = func(h *host) { w.on(h) }
	return w
}

func (w *wire) on(h *host) {
	h.setup = func(l *link) {
		l.ab.record()
		l.ba.record()
		w.mu.Lock()
		w.links = append(w.links, l)
		w.mu.Unlock()
	}
}

func (w *wire) all() []*link {
	w.mu.Lock()
	defer w.mu.Unlock()
	return append([]*link(nil), w.links...)
}

type wframe struct {
	flags byte
	body  []byte
}

// wireFrames takes a recorded stream apart. whole is false if something is
// left at its end.
func (t *T) wireFrames(b []byte, mech string) (fs []wframe, whole bool) {
	if len(b) < 64 {
		return nil, len(b) == 0
	}
	if err := checkGreeting(b[:64], mech); err != nil {
		t.Violate("security: the greeting on the wire: %v", err)
	}
	r := bytes.NewReader(b[64:])
	for r.Len() > 0 {
		fl, body, err := parseFrame(r)
		if errors.Is(err, io.ErrUnexpectedEOF) || errors.Is(err, io.EOF) {
			return fs, false
		}
		if err != nil {
			t.Violate("security: what is on the wire is not framed correctly after frame %d: %v", len(fs), err)
		}
		fs = append(fs, wframe{fl, body})
	}
	return fs, true
}

func (w *wire) bodies(t *T, mech string) map[sum]int {
	m := map[sum]int{}
	for _, l := range w.all() {
		for _, h := range []*half{l.ab, l.ba} {
			fs, _ := t.wireFrames(h.recorded(), mech)
			for _, f := range fs {
				m[sha256.Sum256(f.body)]++
			}
		}
	}
	return m
}

func diffSums(a, b map[sum]int) string {
	more, less := 0, 0
	for k, n := range a {
		if d := n - b[k]; d > 0 {
			more += d
		}
	}
	for k, n := range b {
		if d := n - a[k]; d > 0 {
			less += d
		}
	}
	if more+less == 0 {
		return ""
	}
	return fmt.Sprintf("%d only here, %d only there", more, less)
}

// balance compares the calls with the wire, which has to be at rest.
func (p *probe) balance(w *wire, what string) {
	t := p.t
	var d1, d2 string
	if !until(5*time.Second, func() bool {
		bodies := w.bodies(t, string(p.name))
		p.mu.Lock()
		defer p.mu.Unlock()
		d1, d2 = diffSums(p.enc, bodies), diffSums(p.dec, bodies)
		return d1 == "" && d2 == ""
	}) {
		t.Violate("security: %s (%s): results of Encrypt and the wire: %s; arguments of Decrypt and the wire: %s", what, p.kind, d1, d2)
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.nenc == 0 {
		t.Violate("security: %s (%s): nothing has been encrypted", what, p.kind)
	}
	count("wires balanced", 1)
}

// c16Flow: messages of all shapes through a mechanism, every pattern.
func c16Flow(t *T) {
	k := flowKinds[t.idx%len(flowKinds)]
	p := t.probe(probeKinds[t.idx/len(flowKinds)%len(probeKinds)])
	tr := "vmem"
	if t.Chance(20) {
		tr = pick(t, transports...)
	}
	w := t.wire()
	bindA := t.Bool()
	f := t.newFlow(k, tr, bindA, zmq4.WithSecurity(p))
	c01Run(t, f, tr, bindA)
	what := k.name + " over " + tr
	if tr == "vmem" {
		p.balance(w, what)
	}
	if p.shakes[0] == 0 || p.shakes[0] != p.shakes[1] {
		t.Violate("security: %s: %d handshakes as client, %d as server", what, p.shakes[0], p.shakes[1])
	}
	t.Key("flow", k.name, p.kind, bindA)
}

// c16Conn: connections used directly, with commands in between.
func c16Conn(t *T) {
	p := t.probe(pick(t, probeKinds...))
	plainly := t.Chance(20)
	mech := string(p.name)
	var sec zmq4.Security = p
	if plainly {
		sec, mech = plain.Security("a", "b"), "PLAIN"
		if t.Bool() {
			sec, mech = null.Security(), "NULL"
		}
	}
	l := newLink(64 << 10)
	l.ab.record()
	l.ba.record()
	w := &wire{links: []*link{l}}
	var a, b *zmq4.Conn
	ta := pick(t, zmq4.Pair, zmq4.Dealer)
	tb := ta
	if ta == zmq4.Dealer {
		tb = pick(t, zmq4.Dealer, zmq4.Router)
	}
	if t.Bool() {
		ta, tb = tb, ta
	}
	t.Par(patience, "Open", func() {
		var err error
		if a, err = zmq4.Open(l.d, sec, ta, zmq4.SocketIdentity("A"), false, nil); err != nil {
			t.Violate("security: Open: %v", err)
		}
	}, func() {
		var err error
		if b, err = zmq4.Open(l.l, sec, tb, zmq4.SocketIdentity("B"), true, nil); err != nil {
			t.Violate("security: Open: %v", err)
		}
	})
	t.Cleanup(func() { _ = a.Close(); _ = b.Close() })
	if a.Peer.Meta["Identity"] != "B" || b.Peer.Meta["Identity"] != "A" {
		t.Violate("security: identities in the handshake: %v, %v", a.Peer.Meta, b.Peer.Meta)
	}
	both := func(x, y *zmq4.Conn) {
		type item struct {
			name string // of a command
			fs   [][]byte
		}
		budget := 300000
		var items []item
		for i := 0; i < 30; i++ {
			if t.Chance(30) {
				items = append(items, item{name: pick(t, "HELLO", "PONG", "TEST", "N"), fs: [][]byte{t.Bytes(t.frameSize(&budget))}})
			} else {
				items = append(items, item{fs: t.randMsg(&budget)})
			}
		}
		r := t.fork()
		t.Par(time.Minute, "exchange", func() {
			for _, it := range items {
				fs := cloneFrames(it.fs)
				var err error
				if it.name != "" {
					err = x.SendCmd(it.name, fs[0])
				} else if r.Intn(2) == 0 {
					err = x.SendMsg(zmq4.NewMsgFrom(fs...))
				} else {
					err = x.SendMsg(zmq4.Msg{Frames: fs})
				}
				if err != nil {
					t.Violate("security: sending on a connection: %v", err)
				}
				if !eqFrames(fs, it.fs) {
					t.Violate("security: sending changes what is sent")
				}
				scribble(fs, 0x77)
			}
		}, func() {
			for i, it := range items {
				if it.name != "" {
					c, err := y.RecvCmd()
					if err != nil || c.Name != it.name || !bytes.Equal(c.Body, it.fs[0]) {
						t.Violate("security: command %d: sent %s %s, received %s %.60q, %v", i, it.name, show(it.fs), c.Name, c.Body, err)
					}
				} else {
					m, err := y.RecvMsg()
					if err != nil || !eqFrames(m.Frames, it.fs) {
						t.Violate("security: message %d: sent %s, received %s, %v", i, show(it.fs), show(m.Frames), err)
					}
				}
				count("messages received", 1)
			}
		})
	}
	both(a, b)
	both(b, a)
	// a PING is answered
	if err := a.SendCmd("PING", []byte("\x00\x0acontext")); err != nil {
		t.Violate("security: PING: %v", err)
	}
	t.Within(patience, "PING and PONG", func() {
		if _, err := b.RecvMsg(); err != nil {
			t.Violate("security: receiving PING: %v", err)
		}
		if c, err := a.RecvCmd(); err != nil || c.Name != "PONG" {
			t.Violate("security: the answer to PING is %q, %v", c.Name, err)
		}
	})
	if sec == zmq4.Security(p) {
		p.balance(w, "connection")
	}
	for _, h := range []*half{l.ab, l.ba} {
		if _, whole := t.wireFrames(h.recorded(), mech); !whole {
			t.Violate("security: something is left at the end of the wire")
		}
	}
	t.Key("conn", p.kind, mech == "PLAIN", mech == "NULL", ta, tb)
}

// c16Ping: a socket answers PING in the middle of everything, encrypted.
func c16Ping(t *T) {
	typs := []zmq4.SocketType{zmq4.Pair, zmq4.Sub, zmq4.Dealer, zmq4.Router, zmq4.Pull, zmq4.XSub, zmq4.XPub, zmq4.Push, zmq4.Pub}
	typ := typs[t.idx%len(typs)]
	p := t.probe(pick(t, probeKinds...))
	w := t.wire()
	s := t.Sock(typ, zmq4.WithSecurity(p))
	h := t.Host()
	w.on(h)
	t.bind(s, h.ep())
	t.talk(s)
	nc, err := h.dial(context.Background())
	if err != nil {
		t.Skip("%v", err)
	}
	kind := zmq4.SocketType(t.rawPeer(typ))
	var c *zmq4.Conn
	t.Within(patience, "Open", func() { c, err = zmq4.Open(nc, p, kind, zmq4.SocketIdentity("peer"), false, nil) })
	if err != nil {
		t.Violate("security: %s peer of a %s socket: %v", kind, typ, err)
	}
	for i := 0; i < 5; i++ {
		ctx := t.Bytes(t.Intn(17))
		if err := c.SendCmd("PING", append([]byte{0, 10}, ctx...)); err != nil {
			t.Violate("security: PING: %v", err)
		}
		t.Within(patience, fmt.Sprintf("PONG from a %s socket", typ), func() {
			for {
				m, err := c.RecvCmd()
				if errors.Is(err, zmq4.ErrBadFrame) {
					continue // a message, a subscription most likely
				}
				if err != nil || m.Name != "PONG" || !bytes.Equal(m.Body, ctx) {
					t.Violate("security: %s socket: the answer to PING %q is %s %q, %v", typ, ctx, m.Name, m.Body, err)
				}
				break
			}
		})
		count("pings", 1)
	}
	p.balance(w, fmt.Sprintf("%s socket with PING", typ))
	t.Key("ping", typ, p.kind)
}

type slowErr struct{}

func (slowErr) Error() string   { return "i/o timeout, says the mechanism" }
func (slowErr) Timeout() bool   { return true }
func (slowErr) Temporary() bool { return true }

// c16Poison: a frame that cannot be decrypted ends the connection.
func c16Poison(t *T) {
	type pair struct{ a, b zmq4.SocketType }
	pairs := []pair{{zmq4.Push, zmq4.Pull}, {zmq4.Pair, zmq4.Pair}, {zmq4.Dealer, zmq4.Dealer}, {zmq4.Dealer, zmq4.Router},
		{zmq4.Pub, zmq4.Sub}, {zmq4.XPub, zmq4.XSub}, {zmq4.Pub, zmq4.XSub}, {zmq4.Sub, zmq4.XPub}, {zmq4.XSub, zmq4.XPub}}
	k := pairs[t.idx%len(pairs)]
	p := t.probe(pick(t, probeKinds...))
	p.poison = []byte("<POISON>")
	p.hollow = t.Chance(25)
	perr := pick[error](t, errors.New("bad seal"), io.EOF, io.ErrUnexpectedEOF, slowErr{}, os.ErrDeadlineExceeded,
		&net.OpError{Op: "read", Net: "x", Err: slowErr{}}, context.Canceled, net.ErrClosed, zmq4.ErrBadCmd)
	p.perr = perr
	w := t.wire()
	a, b := t.Sock(k.a, zmq4.WithSecurity(p)), t.Sock(k.b, zmq4.WithSecurity(p))
	if k.b == zmq4.Sub {
		if err := b.SetOption(zmq4.OptionSubscribe, ""); err != nil {
			t.Violate("SUB: %v", err)
		}
	}
	box := t.pump(b)
	if k.a == zmq4.Pair || k.a == zmq4.Dealer || k.a == zmq4.XPub || k.a == zmq4.XSub {
		t.pump(a)
	}
	h := t.Host()
	w.on(h)
	if t.Bool() {
		t.bind(a, h.ep())
		t.dial(b, h.ep())
	} else {
		t.bind(b, h.ep())
		t.dial(a, h.ep())
	}
	if k.b == zmq4.XSub {
		t.send(b, false, []byte{1})
	}
	if k.a == zmq4.Pub || k.a == zmq4.XPub {
		t.Until(patience, "subscription", func() bool { return hasTopic(a, "") })
	}
	n := 0
	send := func(poison bool) error {
		n++
		fs := [][]byte{[]byte(fmt.Sprintf("m%d", n))}
		for i := t.Intn(5); i > 0; i-- {
			f := t.Bytes(t.Intn(400))
			if p.hollow && len(f) == 0 {
				f = []byte("x")
			}
			fs = append(fs, f)
		}
		if poison {
			i := t.Intn(len(fs))
			if p.hollow { // but not the first one
				fs = append(fs[:i+1], append([][]byte{{}}, fs[i+1:]...)...)
			} else if i == 0 {
				fs[0] = append(fs[0], p.poison...)
			} else {
				fs[i] = append(append(t.Bytes(t.Intn(300)), p.poison...), t.Bytes(t.Intn(300))...)
			}
			count("poisoned messages", 1)
		}
		if k.a == zmq4.Sub || k.a == zmq4.XSub {
			fs[0] = append([]byte{2}, fs[0]...)
		}
		var err error
		if !t.Done(patience, func() { err = a.put(t.Bool(), fs...) }) {
			t.Violate("security: Send of a %s socket does not return", k.a)
		}
		return err
	}
	for round := 0; round < 2; round++ {
		// good ones, until they arrive
		had := box.n()
		dl := after(patience)
		for box.n() == had {
			if dl.passed() {
				t.Violate("security: %s to %s: nothing arrives (round %d, Decrypt failed with %v)", k.a, k.b, round, perr)
			}
			if k.b == zmq4.XSub { // which does not remember
				_ = b.put(false, []byte{1})
			}
			_ = send(false)
			time.Sleep(time.Millisecond)
		}
		links := w.all()
		last := links[len(links)-1]
		_ = send(true)
		for i := t.Intn(5); i > 0; i-- {
			_ = send(false)
		}
		// The connection ends at both ends.
		if !until(patience, func() bool { return last.d.isClosed() && last.l.isClosed() }) {
			t.Violate("security: %s to %s: Decrypt fails with %v, and the connection lives on", k.a, k.b, perr)
		}
		count("connections ended", 1)
	}
	settle()
	got := map[string]int{}
	for _, m := range box.all() {
		if k.b == zmq4.Router {
			m = m[1:]
		}
		for _, f := range m {
			if p.bad(f) {
				t.Violate("security: %s to %s: a frame that cannot be decrypted is delivered: %s", k.a, k.b, show(m))
			}
		}
		got[string(sumFrames(m))]++
	}
	// Nothing of that message, nor what follows on the connection.
	for i, l := range w.all() {
		for _, hf := range []*half{l.ab, l.ba} {
			fs, _ := t.wireFrames(hf.recorded(), string(p.name))
			dead := false
			var m [][]byte
			for _, f := range fs {
				if f.flags&fCmd != 0 {
					continue
				}
				x, err := p.open(f.body)
				if err != nil {
					t.Violate("security: on the wire is something that Encrypt has not produced")
				}
				dead = dead || p.bad(x)
				m = append(m, x)
				if f.flags&fMore == 0 {
					if dead && got[string(sumFrames(m))] > 0 {
						t.Violate("security: %s to %s: %s, which came on connection %d after a frame that cannot be decrypted, is delivered", k.a, k.b, show(m), i)
					}
					m = nil
				}
			}
		}
	}
	t.Key("poison", k.a, k.b, fmt.Sprintf("%T", perr))
}

func sumFrames(fs [][]byte) []byte {
	h := sha256.New()
	for _, f := range fs {
		fmt.Fprintf(h, "%d:", len(f))
		h.Write(f)
	}
	return h.Sum(nil)
}

// c16Refuse: a message that cannot be encrypted is not sent, nor a part of
// it, nor in clear.
func c16Refuse(t *T) {
	type pair struct{ a, b zmq4.SocketType }
	pairs := []pair{{zmq4.Push, zmq4.Pull}, {zmq4.Pair, zmq4.Pair}, {zmq4.Dealer, zmq4.Dealer}, {zmq4.Dealer, zmq4.Router},
		{zmq4.Pub, zmq4.Sub}, {zmq4.XPub, zmq4.XSub}, {zmq4.XSub, zmq4.XPub}}
	k := pairs[t.idx%len(pairs)]
	p := t.probe(pick(t, probeKinds...))
	p.refuse = []byte("<REFUSE>")
	p.rerr = pick[error](t, errors.New("cannot seal"), io.EOF, slowErr{}, io.ErrShortWrite)
	w := t.wire()
	a, b := t.Sock(k.a, zmq4.WithSecurity(p), zmq4.WithAutomaticReconnect(true)), t.Sock(k.b, zmq4.WithSecurity(p), zmq4.WithAutomaticReconnect(true))
	if k.b == zmq4.Sub {
		if err := b.SetOption(zmq4.OptionSubscribe, ""); err != nil {
			t.Violate("SUB: %v", err)
		}
	}
	box := t.pump(b)
	if k.a != zmq4.Push && k.a != zmq4.Pub {
		t.pump(a)
	}
	h := t.Host()
	w.on(h)
	if t.Bool() {
		t.bind(a, h.ep())
		t.dial(b, h.ep())
	} else {
		t.bind(b, h.ep())
		t.dial(a, h.ep())
	}
	if k.b == zmq4.XSub {
		t.send(b, false, []byte{1})
	}
	if k.a == zmq4.Pub || k.a == zmq4.XPub {
		t.Until(patience, "subscription", func() bool { return hasTopic(a, "") })
	}
	sent := map[string]bool{}
	send := func(i int, bad bool) {
		fs := [][]byte{[]byte(fmt.Sprintf("\x02message<%d>", i))}
		for j := t.Intn(5); j > 0; j-- {
			fs = append(fs, t.Bytes(t.Intn(400)))
		}
		if bad {
			j := t.Intn(len(fs))
			fs[j] = append(fs[j], p.refuse...)
		} else {
			sent[string(sumFrames(fs))] = true
		}
		if !t.Done(patience, func() { _ = a.put(t.Bool(), fs...) }) {
			t.Violate("security: Send of a %s socket does not return", k.a)
		}
	}
	for i := 0; i < 20; i++ {
		send(i, t.Chance(30))
	}
	send(100, true)
	had := box.n()
	dl := after(patience)
	for i := 101; box.n() == had; i++ {
		if dl.passed() {
			t.Violate("security: %s to %s: nothing arrives any more once Encrypt has failed", k.a, k.b)
		}
		send(i, false)
		time.Sleep(time.Millisecond)
	}
	settle()
	for _, m := range box.all() {
		if k.b == zmq4.Router {
			m = m[1:]
		}
		if k.b == zmq4.XPub && len(m) == 1 && len(m[0]) > 0 && m[0][0] < 2 {
			continue
		}
		if !sent[string(sumFrames(m))] {
			t.Violate("security: %s to %s: %s is delivered, which has not been sent", k.a, k.b, show(m))
		}
		count("messages received", 1)
	}
	for _, l := range w.all() {
		for _, hf := range []*half{l.ab, l.ba} {
			fs, _ := t.wireFrames(hf.recorded(), string(p.name))
			more := false
			for i, f := range fs {
				x, err := p.open(f.body)
				if err != nil || bytes.Contains(x, p.refuse) || bytes.Contains(f.body, []byte("half of it")) {
					t.Violate("security: on the wire is %.60q, which Encrypt has refused (%v)", f.body, err)
				}
				if i > 0 && more && bytes.HasPrefix(x, []byte("\x02message<")) {
					t.Violate("security: a message on the wire has no end")
				}
				more = f.flags&fMore != 0
			}
		}
	}
	t.Key("refuse", k.a, k.b, p.kind)
}

// c16Shake: a handshake that cannot be decrypted fails.
func c16Shake(t *T) {
	typ := zmtpTypes[t.idx%11]
	p, q := t.probe("grow"), t.probe("grow")
	q.name = p.name
	q.poison, q.perr = []byte("Socket-Type"), pick[error](t, errSeal, io.EOF, slowErr{})
	peer := zmq4.SocketType(t.rawPeer(typ))
	dialFails := t.Bool()
	ps, pd := p, q
	if !dialFails {
		ps, pd = q, p
	}
	s, d := t.Sock(typ, zmq4.WithSecurity(ps)), t.Sock(peer, zmq4.WithSecurity(pd), zmq4.WithDialerMaxRetries(1), zmq4.WithDialerRetry(5*time.Millisecond))
	h := t.Host()
	t.bind(s, h.ep())
	var err error
	if !t.Done(patience, func() { err = d.Dial(h.ep()) }) {
		t.Violate("security: Dial does not return when a handshake cannot be decrypted")
	}
	if dialFails && err == nil {
		t.Violate("security: Dial succeeds though the handshake could not be decrypted")
	}
	if !until(patience, func() bool { return len(h.live()) == 0 }) {
		t.Violate("security: the connection lives on though the handshake could not be decrypted")
	}
	count("connections ended", 1)
	// The listener is there for others.
	if dialFails {
		e := t.Sock(peer, zmq4.WithSecurity(p))
		t.dial(e, h.ep())
	}
	t.Key("shake", typ, dialFails)
}

// c16Plain: the credentials, on each connection.
func c16Plain(t *T) {
	typ := zmtpTypes[t.idx%11]
	user, pass := "user", "pass"
	switch t.Intn(5) {
	case 4: // nothing is trimmed or folded
		trim := func(x string) string {
			return pick(t, x+"\n", x+"\r\n", x+" ", " "+x, "\t"+x, x+"\x00", "\x00"+x, strings.ToUpper(x), x+":", x+"@", "\n", " ", "\x00", x+"\xff", "\ufeff"+x, x+"\\")
		}
		user, pass = trim("user"), trim("pass")
	case 0:
		user, pass = string(t.Bytes(t.Intn(256))), string(t.Bytes(t.Intn(256)))
	case 1:
		user, pass = string(t.Bytes(255)), string(t.Bytes(255))
	case 2:
		user, pass = "", string(t.Bytes(t.Intn(3)))
	}
	sec := plain.Security(user, pass)
	kind := t.rawPeer(typ)
	n := 1 + t.Intn(2)
	var ss []*Sock
	for i := 0; i < n; i++ { // one value for several sockets
		s := t.Sock(typ, zmq4.WithSecurity(sec), zmq4.WithAutomaticReconnect(true), zmq4.WithDialerRetry(5*time.Millisecond))
		if typ != zmq4.Push && typ != zmq4.Pub && typ != zmq4.Req && typ != zmq4.Rep {
			t.pump(s)
		}
		ss = append(ss, s)
	}
	l, ep := t.listenRaw(pick(t, "tcp", "ipc", "vmem"))
	var mu sync.Mutex
	var live []*raw
	conns := 0
	t.Go(func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			t.Go(func() {
				r := t.raw(c)
				u, p, err := r.plainServer(kind)
				mu.Lock()
				defer mu.Unlock()
				if err != nil {
					if errors.Is(err, errProto) {
						t.Violate("security: PLAIN, %s socket, connection %d: %v", typ, conns, err)
					}
					return // the end of the scenario
				}
				if u != user || p != pass {
					t.Violate("security: PLAIN, %s socket, connection %d: HELLO with %q and %q, configured are %q and %q", typ, conns, u, p, user, pass)
				}
				if r.peerType != string(typ) {
					t.Violate("security: PLAIN, %s socket: INITIATE with %v", typ, r.meta)
				}
				conns++
				live = append(live, r)
				count("credentials", 1)
			})
		}
	})
	dialled := map[*Sock]bool{}
	made := func() int {
		mu.Lock()
		defer mu.Unlock()
		return conns
	}
	steps := 4 + t.Intn(4)
	for i := 0; i < steps; i++ {
		had := made()
		mu.Lock()
		var r *raw
		if len(live) > 0 && t.Bool() {
			j := t.Intn(len(live))
			r = live[j]
			live = append(live[:j:j], live[j+1:]...)
		}
		mu.Unlock()
		if r == nil {
			s := ss[t.Intn(n)]
			var err error
			t.Within(patience, "Dial", func() { err = s.Dial(ep) })
			if err != nil {
				t.Violate("security: PLAIN, %s socket: Dial: %v", typ, err)
			}
			dialled[s] = true
			t.Key("plain, dial", typ, len(user), len(pass))
			continue
		}
		_ = r.c.Close()
		switch typ { // some notice when they use the connection
		case zmq4.Req, zmq4.Rep:
			for s := range dialled {
				t.Go(func() {
					_ = s.put(false, []byte("x"))
					_, _ = s.Recv()
				})
			}
			until(50*time.Millisecond, func() bool { return made() > had })
		case zmq4.Push, zmq4.Pub:
			if !until(patience, func() bool {
				for s := range dialled {
					if !t.Done(patience, func() { _ = s.put(false, []byte("x")) }) {
						t.Violate("security: Send of a %s socket does not return", typ)
					}
				}
				return made() > had
			}) {
				t.Violate("security: PLAIN, %s socket: a lost connection is not established again", typ)
			}
		default:
			if !until(patience, func() bool { return made() > had }) {
				t.Violate("security: PLAIN, %s socket: a lost connection is not established again", typ)
			}
		}
		t.Key("plain, connection lost", typ)
	}
	t.Until(patience, "the credentials", func() bool { return made() > 0 })
}

func init() {
	register(&check{
		id:     "C16",
		rule:   "executions run every pattern, and connections used directly, with an instrumented mechanism (identity, length-preserving, growing, doubling, run-length) and compare three multisets: results of Encrypt, frame bodies recorded on the wire, arguments of Decrypt; in others Decrypt or Encrypt fails for chosen frames, with errors of all kinds; PLAIN clients dial and re-dial a server that looks at HELLO; distinct cases are (pattern, mechanism), (pattern, kind of failure), (type, way the connection was made)",
		assume: []string{"the mechanism is one value for all connections of a socket, as WithSecurity has it"},
		need:   map[string]int64{"encryptions": 10000, "decryptions": 10000, "wires balanced": 60, "poisoned messages": 30, "connections ended": 30, "credentials": 60, "pings": 60},
		scenarios: func() []scenario {
			return []scenario{
				{"flow", 270, 3000, c16Flow},
				{"conn", 90, 1000, c16Conn},
				{"ping", 36, 400, c16Ping},
				{"poison", 81, 1000, c16Poison},
				{"refuse", 63, 800, c16Refuse},
				{"shake", 22, 300, c16Shake},
				{"plain", 88, 1200, c16Plain},
			}
		},
	})
}
