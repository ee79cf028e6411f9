package main

import (
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
)

// rawPeer gives the type a raw peer takes towards a socket of the given type.
func (t *T) rawPeer(typ zmq4.SocketType) string {
	switch typ {
	case zmq4.Pair:
		return "PAIR"
	case zmq4.Pub, zmq4.XPub:
		return pick(t, "SUB", "XSUB")
	case zmq4.Sub, zmq4.XSub:
		return pick(t, "PUB", "XPUB")
	case zmq4.Req:
		return pick(t, "REP", "ROUTER")
	case zmq4.Rep:
		return pick(t, "REQ", "DEALER")
	case zmq4.Dealer:
		return pick(t, "REP", "DEALER", "ROUTER")
	case zmq4.Router:
		return pick(t, "REQ", "DEALER", "ROUTER")
	case zmq4.Pull:
		return "PUSH"
	case zmq4.Push:
		return "PULL"
	}
	panic(typ)
}

// talk is a socket with what it takes to exchange messages with raw peers.
type talk struct {
	t   *T
	s   *Sock
	box *inbox // for types that receive, REQ and REP excepted
	n   int

	hostile bool   // other servers may answer nonsense
	servers []*raw // of a REQ, to be served along
	serves  bool   // a REP that answers all the time
}

// serve makes a REP answer every request from now on.
func (k *talk) serve() {
	if k.s.typ != zmq4.Rep {
		return
	}
	k.serves = true
	k.t.Go(func() {
		for {
			m, err := k.s.Recv()
			if err != nil {
				if k.s.closing() || k.s.ctx.Err() != nil {
					return
				}
				continue
			}
			if n := len(m.Frames); n > 0 {
				_ = k.s.put(false, []byte("re"), m.Frames[n-1])
			} else {
				_ = k.s.put(false, []byte("re"), []byte{})
			}
		}
	})
}

func (t *T) talk(s *Sock) *talk {
	k := &talk{t: t, s: s}
	switch s.typ {
	case zmq4.Pair, zmq4.Sub, zmq4.Dealer, zmq4.Router, zmq4.Pull, zmq4.XSub, zmq4.XPub:
		k.box = t.pump(s)
	}
	return k
}

// find waits for a received message with the given last frame.
func (k *talk) find(last string, d time.Duration) [][]byte {
	var got [][]byte
	until(d, func() bool {
		for _, m := range k.box.all() {
			if len(m) > 0 && string(m[len(m)-1]) == last {
				got = m
				return true
			}
		}
		return false
	})
	return got
}

// exchange shows that messages pass between the socket and the raw peer, in
// every direction the socket type allows. The socket may have other peers,
// and it may not have noticed yet that earlier ones are gone.
func (k *talk) exchange(r *raw, what string) {
	if err := k.tryExchange(r, patience); err != nil {
		k.t.Violate("%s: %s socket and %s peer cannot exchange messages: %v", what, k.s.typ, r.kind, err)
	}
	count("exchanges", 1)
}

// sendUntil sends until the peer gets one of the messages.
func (k *talk) sendUntil(r *raw, tag string, pre [][]byte, d time.Duration) error {
	dl := after(d)
	var last error
	for i := 0; !dl.passed(); i++ {
		body := fmt.Sprintf("%s/%d", tag, i)
		fs := append(append([][]byte{}, pre...), []byte(body))
		var err error
		if !k.t.Done(d, func() { err = k.s.put(i%2 == 1, fs...) }) {
			return fmt.Errorf("Send does not return")
		}
		if err != nil {
			// Some other peer may be the reason.
			last = err
			time.Sleep(2 * time.Millisecond)
		}
		for {
			wait := 30 * time.Millisecond
			if last != nil {
				wait = 3 * time.Millisecond
			}
			got, err := r.next(wait)
			if err != nil {
				if !isTimeout(err) {
					return fmt.Errorf("the peer reads: %w", err)
				}
				break
			}
			if len(got) > 0 && strings.HasPrefix(string(got[len(got)-1]), tag+"/") {
				return nil
			}
		}
	}
	return fmt.Errorf("nothing sent arrives (last error of Send: %v)", last)
}

func (k *talk) tryExchange(r *raw, d time.Duration) error {
	k.n++
	tag := fmt.Sprintf("x%d-%p-%p", k.n, k, r)
	s := k.s
	recv := func(send ...[]byte) error {
		if err := r.sendMsg(send...); err != nil {
			return fmt.Errorf("the peer writes: %w", err)
		}
		if k.find(string(send[len(send)-1]), d) == nil {
			return fmt.Errorf("message of the peer is not received")
		}
		return nil
	}
	switch s.typ {
	case zmq4.Pair:
		if err := recv([]byte("a"), []byte(tag)); err != nil {
			return err
		}
		return k.sendUntil(r, tag, nil, d)
	case zmq4.Dealer:
		if err := recv(nil, []byte(tag)); err != nil {
			return err
		}
		return k.sendUntil(r, tag, [][]byte{nil}, d)
	case zmq4.Push:
		return k.sendUntil(r, tag, nil, d)
	case zmq4.Pull:
		return recv([]byte(tag))
	case zmq4.Pub, zmq4.XPub:
		if err := r.sendMsg([]byte("\x01" + tag)); err != nil {
			return err
		}
		if !until(d, func() bool { return hasTopic(s, tag) }) {
			return fmt.Errorf("subscription is not registered")
		}
		return k.sendUntil(r, tag, [][]byte{[]byte(tag)}, d)
	case zmq4.Sub:
		topic := fmt.Sprintf("%p", k)
		if k.n == 1 {
			// There may be an error on behalf of peers that have gone.
			_ = s.SetOption(zmq4.OptionSubscribe, topic)
		}
		return recv([]byte(topic+"!"), []byte(tag))
	case zmq4.XSub:
		if err := k.sendUntil(r, "\x01"+tag, nil, d); err != nil {
			return err
		}
		return recv([]byte(tag))
	case zmq4.Router:
		m := "r" + tag
		pre := [][]byte{}
		if r.kind == "REQ" {
			pre = append(pre, nil)
		}
		if err := recv(append(pre, []byte(m))...); err != nil {
			return err
		}
		got := k.find(m, d)
		return k.sendUntil(r, tag, append([][]byte{got[0]}, pre...), d)
	case zmq4.Rep:
		if err := r.sendMsg(nil, []byte(tag)); err != nil {
			return fmt.Errorf("the peer writes: %w", err)
		}
		dl := after(d)
		for !k.serves {
			var m zmq4.Msg
			var err error
			if !k.t.Done(d, func() { m, err = s.Recv() }) {
				return fmt.Errorf("request is not received")
			}
			if err != nil || len(m.Frames) == 0 || string(m.Frames[len(m.Frames)-1]) != tag {
				if dl.passed() {
					return fmt.Errorf("request is not received: %v", err)
				}
				continue
			}
			break
		}
		if !k.serves {
			if err := s.put(false, []byte("re"), []byte(tag)); err != nil {
				return fmt.Errorf("Send: %w", err)
			}
		}
		for {
			got, err := r.next(d)
			if err != nil {
				return fmt.Errorf("reply: %w", err)
			}
			if eqFrames(got, [][]byte{nil, []byte("re"), []byte(tag)}) {
				return nil
			}
		}
	case zmq4.Req:
		return k.request(append([]*raw{r}, k.servers...), tag, d)
	}
	panic(s.typ)
}

// request makes the REQ send requests until the reply of a raw server is
// there; the servers answer in the background.
func (k *talk) request(rs []*raw, tag string, d time.Duration) error {
	stop := make(chan struct{})
	var wg sync.WaitGroup
	defer wg.Wait()
	defer close(stop)
	var first atomic.Bool // the first one has served
	for i, r := range rs {
		i, r := i, r
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				got, err := r.next(20 * time.Millisecond)
				if err != nil {
					if isTimeout(err) {
						continue
					}
					return
				}
				if i == 0 {
					first.Store(true)
				}
				_ = r.sendMsg(append(append([][]byte{}, got...), []byte("reply"))...)
			}
		}()
	}
	dl := after(d)
	var last error
	for i := 0; !dl.passed(); i++ {
		body := fmt.Sprintf("%s/%d", tag, i)
		var err error
		if !k.t.Done(d, func() { err = k.s.put(i%2 == 1, []byte(body)) }) {
			return fmt.Errorf("Send does not return")
		}
		if err == nil {
			var m zmq4.Msg
			if !k.t.Done(d, func() { m, err = k.s.Recv() }) {
				return fmt.Errorf("Recv does not return")
			}
			if err == nil {
				if eqFrames(m.Frames, [][]byte{[]byte(body), []byte("reply")}) {
					if !k.hostile || first.Load() {
						return nil
					}
					continue
				}
				if !k.hostile {
					return fmt.Errorf("reply to %q is %s", body, show(m.Frames))
				}
			}
		}
		last = err
		time.Sleep(time.Millisecond)
	}
	return fmt.Errorf("no request is answered: %v", last)
}
