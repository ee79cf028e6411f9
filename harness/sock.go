package main

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
)

var makers = map[zmq4.SocketType]func(context.Context, ...zmq4.Option) zmq4.Socket{
	zmq4.Pair: zmq4.NewPair, zmq4.Pub: zmq4.NewPub, zmq4.Sub: zmq4.NewSub,
	zmq4.Req: zmq4.NewReq, zmq4.Rep: zmq4.NewRep, zmq4.Dealer: zmq4.NewDealer,
	zmq4.Router: zmq4.NewRouter, zmq4.Pull: zmq4.NewPull, zmq4.Push: zmq4.NewPush,
	zmq4.XPub: zmq4.NewXPub, zmq4.XSub: zmq4.NewXSub,
}

var zmtpTypes = []zmq4.SocketType{zmq4.Pair, zmq4.Pub, zmq4.Sub, zmq4.Req, zmq4.Rep,
	zmq4.Dealer, zmq4.Router, zmq4.Pull, zmq4.Push, zmq4.XPub, zmq4.XSub}

// Sock is a socket under observation.
type Sock struct {
	zmq4.Socket
	t      *T
	typ    zmq4.SocketType
	ctx    context.Context
	cancel context.CancelFunc
	once   sync.Once
	err    error
	done   chan struct{}
	lep    string // end-point given to Listen
}

// Sock makes a socket that is closed at the end of the scenario.
func (t *T) Sock(typ zmq4.SocketType, opts ...zmq4.Option) *Sock {
	ctx, cancel := context.WithCancel(context.Background())
	s := &Sock{Socket: makers[typ](ctx, opts...), t: t, typ: typ, ctx: ctx, cancel: cancel, done: make(chan struct{})}
	t.Cleanup(func() { s.shut() })
	count("sockets", 1)
	return s
}

// shut closes the socket, whatever happens.
func (s *Sock) shut() {
	s.once.Do(func() {
		close(s.done)
		ch := make(chan struct{})
		go func() {
			s.err = s.Socket.Close()
			close(ch)
		}()
		if !waitCh(ch, patience) {
			progress("close hangs: %s in %s#%d", s.typ, s.t.name, s.t.idx)
			if cur.id == "C12" || cur.id == "C14" {
				s.t.Violate("Close of a %s socket does not return", s.typ)
			}
		}
		s.cancel()
	})
}

func (s *Sock) closing() bool {
	select {
	case <-s.done:
		return true
	default:
		return false
	}
}

var transports = []string{"tcp", "ipc", "inproc", "chaos", "vmem"}

var inprocN sync.Map

// fresh returns a new end-point to listen on.
func (t *T) fresh(tr string) string {
	t.mu.Lock()
	t.nep++
	n := t.nep
	t.mu.Unlock()
	switch tr {
	case "tcp", "chaos":
		return fmt.Sprintf("%s://%s:0", tr, t.ip)
	case "ipc":
		return "ipc://" + filepath.Join(t.Dir(), fmt.Sprintf("s%d", n))
	case "inproc":
		return fmt.Sprintf("inproc://%s-%d-%d", t.name, t.idx, n)
	case "vmem":
		h := t.Host()
		if t.onHost != nil {
			t.onHost(h)
		}
		return h.ep()
	}
	panic(tr)
}

// bind makes the socket listen, and returns the end-point to dial.
func (t *T) bind(s *Sock, ep string) string {
	var err error
	t.Within(patience, "Listen on "+ep, func() { err = s.Listen(ep) })
	if err != nil {
		t.Violate("%s: Listen on %s: %v", s.typ, ep, err)
	}
	s.lep = ep
	tr, _, _ := strings.Cut(ep, "://")
	if tr == "tcp" || tr == "chaos" {
		a := s.Addr()
		if a == nil {
			t.Violate("%s: no address after Listen on %s", s.typ, ep)
		}
		return tr + "://" + a.String()
	}
	return ep
}

func (t *T) dial(s *Sock, ep string) {
	var err error
	t.Within(patience, "Dial of "+ep, func() { err = s.Dial(ep) })
	if err != nil {
		t.Violate("%s: Dial of %s: %v", s.typ, ep, err)
	}
	count("dials", 1)
}

// join connects two sockets; the first one binds if bindA.
func (t *T) join(a, b *Sock, tr string, bindA bool) {
	if bindA {
		t.dial(b, t.bind(a, t.fresh(tr)))
	} else {
		t.dial(a, t.bind(b, t.fresh(tr)))
	}
}

// send sends, and takes an error for a violation.
func (t *T) send(s *Sock, multi bool, frames ...[]byte) {
	var err error
	t.Within(patience, fmt.Sprintf("Send on %s", s.typ), func() { err = s.put(multi, frames...) })
	if err != nil {
		t.Violate("%s: Send: %v", s.typ, err)
	}
}

func (s *Sock) put(multi bool, frames ...[]byte) error {
	msg := zmq4.NewMsgFrom(frames...)
	if multi {
		return s.SendMulti(msg)
	}
	return s.Send(msg)
}

// recv receives, and takes an error for a violation.
func (t *T) recv(s *Sock) [][]byte {
	var (
		m   zmq4.Msg
		err error
	)
	t.Within(patience, fmt.Sprintf("Recv on %s", s.typ), func() { m, err = s.Recv() })
	if err != nil {
		t.Violate("%s: Recv: %v", s.typ, err)
	}
	return m.Frames
}

// inbox collects everything a socket receives.
type inbox struct {
	s    *Sock
	mu   sync.Mutex
	msgs [][][]byte
	errs []error
	gate chan struct{} // if not nil, one token per Recv
	end  chan struct{}
	on   func(frames [][]byte)
}

func (t *T) pump(s *Sock) *inbox { return t.pumpWith(s, nil, nil) }

func (t *T) pumpWith(s *Sock, gate chan struct{}, on func([][]byte)) *inbox {
	b := &inbox{s: s, gate: gate, end: make(chan struct{}), on: on}
	t.Go(func() {
		defer close(b.end)
		bad := 0
		for {
			if b.gate != nil {
				select {
				case <-b.gate:
				case <-s.done:
					return
				}
			}
			m, err := s.Recv()
			if err != nil {
				if s.closing() || s.ctx.Err() != nil {
					return
				}
				b.mu.Lock()
				if len(b.errs) < 1000 {
					b.errs = append(b.errs, err)
				}
				b.mu.Unlock()
				if bad++; bad > 3 {
					time.Sleep(2 * time.Millisecond)
				}
				continue
			}
			bad = 0
			b.mu.Lock()
			b.msgs = append(b.msgs, m.Frames)
			b.mu.Unlock()
			if b.on != nil {
				b.on(m.Frames)
			}
		}
	})
	return b
}

func (b *inbox) n() int {
	b.mu.Lock()
	defer b.mu.Unlock()
	return len(b.msgs)
}

func (b *inbox) all() [][][]byte {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.msgs[:len(b.msgs):len(b.msgs)]
}

func (b *inbox) errors() []error {
	b.mu.Lock()
	defer b.mu.Unlock()
	return append([]error(nil), b.errs...)
}

// wait waits for n messages in all. Progress renews its patience.
func (b *inbox) wait(n int, d time.Duration) bool {
	last, dl := b.n(), after(d)
	for i := 0; ; i++ {
		c := b.n()
		if c >= n {
			return true
		}
		if c != last {
			last, dl = c, after(d)
		}
		if dl.passed() {
			return b.n() >= n
		}
		if i < 100 {
			time.Sleep(100 * time.Microsecond)
		} else {
			time.Sleep(time.Millisecond)
		}
	}
}

func eqFrames(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if string(a[i]) != string(b[i]) {
			return false
		}
	}
	return true
}

func show(fs [][]byte) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d frame(s)[", len(fs))
	for i, f := range fs {
		if i == 6 {
			sb.WriteString(" ...")
			break
		}
		if i > 0 {
			sb.WriteByte(' ')
		}
		if len(f) <= 40 {
			fmt.Fprintf(&sb, "%q", f)
		} else {
			fmt.Fprintf(&sb, "%q...(%d bytes, %s)", f[:16], len(f), digest(f))
		}
	}
	sb.WriteByte(']')
	return sb.String()
}

func cloneFrames(fs [][]byte) [][]byte {
	o := make([][]byte, len(fs))
	for i := range fs {
		o[i] = append([]byte{}, fs[i]...)
	}
	return o
}

func topics(s *Sock) []string { return s.Socket.(zmq4.Topics).Topics() }

func hasTopic(s *Sock, topic string) bool {
	for _, x := range topics(s) {
		if x == topic {
			return true
		}
	}
	return false
}

func exists(path string) bool {
	_, err := os.Lstat(path)
	return err == nil
}
