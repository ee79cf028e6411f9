package main

import (
	"fmt"
	"sync/atomic"

	zmq4 "github.com/luxfi/zmq/v4"
)

// crowd connects far more peers than usual, some of which get stuck in the
// handshake; each of the others gets a connection that carries messages.
func (t *T) crowd() {
	typ := zmtpTypes[t.idx%len(zmtpTypes)]
	if typ == zmq4.Pair {
		typ = zmq4.Dealer
	}
	s := t.Sock(typ, zmq4.WithTimeout(patience))
	h := t.Host()
	ep := t.bind(s, h.ep())
	k := t.talk(s)
	k.serve()
	n, stuck := pick(t, 150, 300, 600), pick(t, 0, 50, 300)
	if typ == zmq4.Req {
		n = 40 // each has to be taken in turn
	}
	what := fmt.Sprintf("%s with %d peers, and %d more in the handshake", typ, n, stuck)
	for i := 0; i < stuck; i++ {
		r := t.connectTo(ep)
		whole := cat(greetingBytes("NULL", 0), command("READY", props("Socket-Type", t.rawPeer(typ))))
		_ = r.write(whole[:t.Intn(len(whole))])
	}
	var rs []*raw
	for i := 0; i < n; i++ {
		r := t.connectTo(ep).mustNull(t.rawPeer(typ), fmt.Sprintf("peer%d", i))
		rs = append(rs, r)
	}
	switch typ {
	case zmq4.Push, zmq4.Dealer: // each gets something
		var got atomic.Int64
		for _, r := range rs {
			t.Go(func() {
				if _, err := r.readMsg(); err == nil {
					got.Add(1)
				}
			})
		}
		for i := 0; i < n; i++ {
			if err := s.put(i%2 == 0, []byte("turn")); err != nil {
				t.Violate("%s: Send: %v", what, err)
			}
			if i%50 == 49 { // some may be connected only now
				settleShort()
			}
		}
		dl := after(patience)
		for int(got.Load()) < n {
			if dl.passed() {
				t.Violate("%s: only %d of them ever receive anything", what, got.Load())
			}
			if err := s.put(false, []byte("turn")); err != nil {
				t.Violate("%s: Send: %v", what, err)
			}
			settleShort()
		}
		if typ == zmq4.Dealer {
			for i := 0; i < 20; i++ {
				tag := fmt.Sprintf("tag%d", i)
				if err := rs[(i*37+n-1)%n].sendMsg([]byte(tag)); err != nil {
					t.Violate("%s: the peer writes: %v", what, err)
				}
				if k.find(tag, patience) == nil {
					t.Violate("%s: message of a peer is not received", what)
				}
			}
		}
	case zmq4.Req:
		k.servers = rs[:n-1]
		k.exchange(rs[n-1], what)
	default:
		for i := 0; i < 10; i++ {
			k.exchange(rs[(i*37+n-1)%n], what)
		}
	}
	for i, r := range rs {
		if mc := r.c.(*memConn); mc.r.isBroken() {
			t.Violate("%s: the connection of peer %d has been closed", what, i)
		}
	}
	count("peers in crowds", int64(n))
	t.Key("crowd", typ, n, stuck)
}
