package main

import (
	"bytes"
	"fmt"
	"strings"

	zmq4 "github.com/luxfi/zmq/v4"
)

// flow is a pair of connected sockets with a direction: whatever is put at
// one end has to be got at the other.
type flow struct {
	t    *T
	name string
	A, B *Sock // A sends
	pre  [][]byte
	post int  // frames the receiver sees in front of the message
	step bool // one message at a time
	turn func()
}

type flowKind struct {
	name string
	a, b zmq4.SocketType
}

var flowKinds = []flowKind{
	{"push-pull", zmq4.Push, zmq4.Pull},
	{"pair-pair", zmq4.Pair, zmq4.Pair},
	{"dealer-dealer", zmq4.Dealer, zmq4.Dealer},
	{"dealer-router", zmq4.Dealer, zmq4.Router},
	{"router-dealer", zmq4.Router, zmq4.Dealer},
	{"router-router", zmq4.Router, zmq4.Router},
	{"pub-sub", zmq4.Pub, zmq4.Sub},
	{"pub-xsub", zmq4.Pub, zmq4.XSub},
	{"xpub-sub", zmq4.XPub, zmq4.Sub},
	{"xpub-xsub", zmq4.XPub, zmq4.XSub},
	{"xsub-xpub", zmq4.XSub, zmq4.XPub},
	{"sub-xpub", zmq4.Sub, zmq4.XPub},
	{"dealer-rep", zmq4.Dealer, zmq4.Rep},
	{"rep-dealer", zmq4.Rep, zmq4.Dealer},
	{"req-rep", zmq4.Req, zmq4.Rep},
	{"rep-req", zmq4.Rep, zmq4.Req},
	{"req-router", zmq4.Req, zmq4.Router},
	{"router-req", zmq4.Router, zmq4.Req},
}

// newFlow connects the sockets and gets them ready. opts are for both.
func (t *T) newFlow(k flowKind, tr string, bindA bool, opts ...zmq4.Option) *flow {
	f := &flow{t: t, name: k.name}
	ida, idb := t.ident(), t.ident()
	f.A = t.Sock(k.a, append([]zmq4.Option{zmq4.WithID(ida)}, opts...)...)
	f.B = t.Sock(k.b, append([]zmq4.Option{zmq4.WithID(idb)}, opts...)...)
	if k.b == zmq4.Sub {
		if err := f.B.SetOption(zmq4.OptionSubscribe, ""); err != nil {
			t.Violate("SUB refuses a subscription: %v", err)
		}
	}
	t.join(f.A, f.B, tr, bindA)

	switch k.name {
	case "pub-sub", "xpub-sub", "pub-xsub", "xpub-xsub":
		if k.b == zmq4.XSub {
			t.send(f.B, false, []byte{1})
		}
		t.Until(patience, k.name+": the subscription reaches the publisher", func() bool { return hasTopic(f.A, "") })
		if k.a == zmq4.XPub && t.Bool() {
			// nothing but subscriptions has been received
		}
	case "dealer-router":
		f.post = 1
	case "router-dealer":
		t.send(f.B, false, []byte("hello"))
		m := t.recv(f.A)
		f.pre = [][]byte{append([]byte(nil), m[0]...)}
	case "router-router":
		// B does not know when A is there, unless told.
		f.pre = [][]byte{[]byte(idb)}
		f.post = 1
		t.introduce(f.A, []byte(idb), f.B)
	case "dealer-rep":
		f.pre = [][]byte{nil}
	case "rep-dealer":
		f.step = true
		f.post = 1
		f.turn = func() {
			t.send(f.B, false, nil, []byte("ask"))
			t.recv(f.A)
		}
	case "rep-req":
		f.step = true
		f.turn = func() {
			t.sendReq(f.B, []byte("ask"))
			t.recv(f.A)
		}
	case "req-rep":
		f.step = true
		t.primeReq(f.A, func() {
			t.recv(f.B)
			t.send(f.B, false, []byte("primed"))
		})
		f.turn = nil
	case "req-router":
		f.step = true
		f.post = 2
		t.primeReq(f.A, func() {
			m := t.recv(f.B)
			t.send(f.B, false, m[0], nil, []byte("primed"))
		})
	case "router-req":
		f.step = true
		f.turn = func() {
			t.sendReq(f.B, []byte("ask"))
			m := t.recv(f.A)
			f.pre = [][]byte{append([]byte(nil), m[0]...), nil}
		}
	}
	return f
}

var identN int

// ident is a unique identity.
func (t *T) ident() zmq4.SocketIdentity {
	t.mu.Lock()
	t.nep++
	n := t.nep
	t.mu.Unlock()
	id := fmt.Sprintf("id-%d-%d", t.idx, n)
	if t.Chance(30) { // up to the limit, so that READY is a long frame
		id += "-" + strings.Repeat("+", t.Intn(255-len(id)))
	}
	return zmq4.SocketIdentity(id)
}

// introduce sends from a router until the peer has got something, then
// drains the rest: a router drops what is for peers not connected yet.
func (t *T) introduce(router *Sock, id []byte, peer *Sock) {
	got := make(chan struct{})
	t.Go(func() {
		for {
			m := t.recv(peer)
			if bytes.Equal(m[len(m)-1], []byte("hello-last")) {
				close(got)
				return
			}
		}
	})
	// The connection is there once a message comes back.
	n := 0
	for !waitCh(got, 0) {
		t.send(router, false, id, []byte("hello-last"))
		n++
		if waitCh(got, tickLen*4) {
			break
		}
		if n > 2000 {
			t.Violate("%s does not reach its peer %q", router.typ, id)
		}
	}
	t.send(router, false, id, []byte("hello-end"))
	for {
		m := t.recv(peer)
		if bytes.Equal(m[len(m)-1], []byte("hello-end")) {
			return
		}
	}
}

// sendReq sends a request, waiting for a connection if need be.
func (t *T) sendReq(s *Sock, frames ...[]byte) {
	var err error
	if until(patience, func() bool { err = s.put(false, frames...); return err == nil }) {
		return
	}
	t.Violate("REQ: Send: %v", err)
}

func (t *T) primeReq(req *Sock, answer func()) {
	t.sendReq(req, []byte("prime"))
	answer()
	t.recv(req)
}

func (f *flow) put(multi bool, frames [][]byte) error {
	return f.A.put(multi, append(append([][]byte(nil), f.pre...), frames...)...)
}

// strip takes the envelope off a received message.
func (f *flow) strip(frames [][]byte) ([][]byte, bool) {
	if len(frames) < f.post {
		return nil, false
	}
	return frames[f.post:], true
}

// answer keeps lock-step patterns going after a message has been received.
func (f *flow) answer(raw [][]byte) {
	switch f.name {
	case "req-rep":
		f.t.send(f.B, false, []byte("ok"))
		f.t.recv(f.A)
	case "req-router":
		f.t.send(f.B, false, raw[0], nil, []byte("ok"))
		f.t.recv(f.A)
	case "dealer-rep":
		// the dealer does not care
	}
}
