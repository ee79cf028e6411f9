package main

import (
	"fmt"
	"sync/atomic"
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
)

// duplex is a link with traffic in both directions.
type duplex struct {
	name string
	a, b zmq4.SocketType
}

var duplexes = []duplex{
	{"PAIR-PAIR", zmq4.Pair, zmq4.Pair},
	{"DEALER-DEALER", zmq4.Dealer, zmq4.Dealer},
	{"DEALER-ROUTER", zmq4.Dealer, zmq4.Router},
}

// c03Duplex: concurrent senders at both ends, receivers that stall and go on.
func c03Duplex(t *T) {
	k := duplexes[t.idx%len(duplexes)]
	tr := transports[t.idx/len(duplexes)%len(transports)]
	bindA := t.Bool()
	id := t.ident()
	a, b := t.Sock(k.a, zmq4.WithID(id)), t.Sock(k.b)
	t.join(a, b, tr, bindA)
	if k.b == zmq4.Router {
		t.send(a, false, []byte("hello"))
		t.recv(b)
	}
	what := fmt.Sprintf("%s over %s", k.name, tr)
	la, lb := t.ledger(what+", forth"), t.ledger(what+", back")
	ga, gb := 1+t.Intn(3), 1+t.Intn(3)
	sh := shape{1 + t.Intn(6), pick(t, 0, 30, 300, 2000, 12000, 40000)}
	per := 100
	if sh.maxSize >= 2000 {
		per = 40
	}
	stallA, stallB := t.Chance(40), t.Chance(40)
	var gateA, gateB chan struct{}
	if stallA {
		gateA = make(chan struct{}, 1<<16)
	}
	if stallB {
		gateB = make(chan struct{}, 1<<16)
	}
	t.Log("%s, bindA %v, %d+%d goroutines, shape %v, %d each, stalls %v %v", what, bindA, ga, gb, sh, per, stallA, stallB)
	pb := t.pumpWith(b, gateB, func(fs [][]byte) {
		if k.b == zmq4.Router {
			if string(fs[0]) != string(id) {
				t.Violate("%s: identity frame %q, want %q", what, fs[0], id)
			}
			fs = fs[1:]
		}
		la.receive("B", fs)
	})
	pa := t.pumpWith(a, gateA, func(fs [][]byte) { lb.receive("A", fs) })

	var progress atomic.Int64
	var work []func()
	sender := func(s *Sock, l *ledger, src string, g int, pre [][]byte) {
		r := t.fork()
		work = append(work, func() {
			for i := 0; i < per; i++ {
				id := msgID{src, g, i}
				l.begin(id)
				if err := s.put(r.Intn(2) == 0, append(append([][]byte(nil), pre...), mkMsg(src, g, i, sh)...)...); err != nil {
					t.Violate("%s: Send: %v", what, err)
				}
				l.end(id)
				progress.Add(1)
				if r.Intn(30) == 0 {
					time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
				}
			}
		})
	}
	for g := 0; g < ga; g++ {
		sender(a, la, "a", g, nil)
	}
	var pre [][]byte
	if k.b == zmq4.Router {
		pre = [][]byte{[]byte(id)}
	}
	for g := 0; g < gb; g++ {
		sender(b, lb, "b", g, pre)
	}
	if stallA || stallB {
		work = append(work, func() {
			// Open the gates a little at a time, each time after the
			// senders have come to a halt.
			total := int64((ga + gb) * per)
			for i := 0; i < 12 && progress.Load() < total; i++ {
				last := int64(-1)
				for last != progress.Load() {
					last = progress.Load()
					time.Sleep(6 * time.Millisecond)
				}
				if last < total {
					count("senders held up", 1)
				}
				n := 1 + t.Intn(40)
				for j := 0; j < n; j++ {
					if stallA {
						gateA <- struct{}{}
					}
					if stallB {
						gateB <- struct{}{}
					}
				}
			}
			for j := 0; j < 4*int(total); j++ {
				if stallA {
					gateA <- struct{}{}
				}
				if stallB {
					gateB <- struct{}{}
				}
			}
		})
	}
	t.Par(100*time.Second, what, work...)
	la.settle()
	lb.settle()
	time.Sleep(5 * time.Millisecond)
	if e := append(pa.errors(), pb.errors()...); len(e) > 0 {
		t.Violate("%s: Recv fails while the connection is up: %v", what, e[0])
	}
	t.Key(k.name, tr, bindA, ga, gb, sh, stallA, stallB)
}

// c03Wall: with a receiver that does not read and a transport that holds
// little, the sender must come to a halt, and nothing is lost.
func c03Wall(t *T) {
	k := duplexes[t.idx%len(duplexes)]
	a, b := t.Sock(k.a, zmq4.WithID(t.ident())), t.Sock(k.b)
	tr := pick(t, "vmem", "inproc")
	t.join(a, b, tr, t.Bool())
	what := fmt.Sprintf("%s over %s, receiver stalled", k.name, tr)
	l := t.ledger(what)
	const n, size = 300, 20000
	var sent atomic.Int64
	done := make(chan struct{})
	t.Go(func() {
		defer close(done)
		for i := 0; i < n; i++ {
			id := msgID{"a", 0, i}
			l.begin(id)
			// 20 kB each: at most a few fit into the transport
			m := append(mkMsg("a", 0, i, shape{1, 0}), make([]byte, size))
			if err := a.put(i%2 == 0, m...); err != nil {
				t.Violate("%s: Send: %v", what, err)
			}
			l.end(id)
			sent.Add(1)
		}
	})
	last := int64(-1)
	for last != sent.Load() {
		last = sent.Load()
		time.Sleep(20 * time.Millisecond)
	}
	if last > 100 {
		t.Violate("%s: %d messages of %d bytes were accepted and none received", what, last, size)
	}
	count("senders held up", 1)
	for i := 0; i < n; i++ {
		m := t.recv(b)
		if k.b == zmq4.Router {
			m = m[1:]
		}
		if len(m) != 2 || len(m[1]) != size {
			t.Violate("%s: message %d: %s", what, i, show(m))
		}
		id := l.receive("B", m[:1])
		if id.seq != i {
			t.Violate("%s: received message %d where %d was due", what, id.seq, i)
		}
	}
	if !waitCh(done, patience) {
		t.Violate("%s: the sender is still held up", what)
	}
	t.Key("wall", k.name, tr)
}

func c03Long(t *T) {
	k := duplexes[t.idx%len(duplexes)]
	t.longStall(k.name, k.a, k.b)
}

func cat2(ms ...[][]byte) (o [][]byte) {
	for _, m := range ms {
		o = append(o, m...)
	}
	return o
}

// longStall: the receiver does not read for seconds. The messages wait, at
// the receiver, in transit and with the sender.
func (t *T) longStall(name string, ta, tb zmq4.SocketType) {
	t.longStallBy(name, ta, tb, func(a, b *Sock, tr string) { t.join(a, b, tr, t.Bool()) })
}

func (t *T) longStallBy(name string, ta, tb zmq4.SocketType, join func(a, b *Sock, tr string)) {
	id := t.ident()
	a, b := t.Sock(ta, zmq4.WithID(t.ident())), t.Sock(tb, zmq4.WithID(id))
	tr := pick(t, "vmem", "inproc", "tcp", "ipc")
	join(a, b, tr)
	var pre [][]byte
	switch {
	case ta == zmq4.Router: // it must know the peer
		pre = [][]byte{[]byte(id)}
		t.send(b, false, []byte("hello"))
		t.recv(a)
	case tb == zmq4.Rep:
		pre = [][]byte{nil}
	case tb == zmq4.Sub:
		_ = b.SetOption(zmq4.OptionSubscribe, "")
		t.Until(patience, "subscription", func() bool { return hasTopic(a, "") })
	case tb == zmq4.XSub:
		t.send(b, false, []byte{1})
		t.Until(patience, "subscription", func() bool { return hasTopic(a, "") })
	}
	what := name + " over " + tr + ", receiver stalled"
	l := t.ledger(what)
	n, size := 60, pick(t, 10, 1000)
	if t.Bool() {
		n, size = 400, 20000
	}
	var sent atomic.Int64
	t.Go(func() {
		for i := 0; i < n; i++ {
			id := msgID{"a", 0, i}
			l.begin(id)
			if err := a.put(i%2 == 0, cat2(pre, mkMsg("a", 0, i, shape{1, 0}), [][]byte{make([]byte, size)})...); err != nil {
				t.Violate("%s: Send: %v", what, err)
			}
			l.end(id)
			sent.Add(1)
		}
	})
	d := time.Duration(1100+t.Intn(5000)) * time.Millisecond
	if tier == "thorough" {
		d = time.Duration(1+t.Intn(70)) * time.Second
	}
	time.Sleep(d)
	t.Log("%s: %d messages of %d bytes, %d sent while stalled for %v", what, n, size, sent.Load(), d)
	if int(sent.Load()) < n {
		count("senders held up", 1)
	}
	count("seconds stalled", int64(d.Seconds()))
	for i := 0; i < n; i++ {
		m := t.recv(b)
		if tb == zmq4.Router {
			m = m[1:]
		}
		if len(m) != 2 || len(m[1]) != size {
			t.Violate("%s: message %d: %s", what, i, show(m))
		}
		if id := l.receive("B", m[:1]); id.seq != i {
			t.Violate("%s: received message %d where %d was due after %v", what, id.seq, i, d)
		}
	}
	t.Until(patience, what+": the last Send returns", func() bool { return int(sent.Load()) == n })
	l.settle()
	t.Key("long", name, tr, n, size)
}

// c03Rep: a dealer sends requests without waiting; a REP answers one by one.
func c03Rep(t *T) {
	tr := transports[t.idx%len(transports)]
	nd := 1 + t.Intn(3)
	rep := t.Sock(zmq4.Rep)
	repBinds := t.Bool()
	what := "DEALER-REP over " + tr
	ep := ""
	if repBinds {
		ep = t.bind(rep, t.fresh(tr))
	}
	lf, lb := t.ledger(what+", requests"), t.ledger(what+", replies")
	sh := shape{1 + t.Intn(4), pick(t, 20, 300, 4000)}
	const per = 80
	total := 0
	var work []func()
	for i := 0; i < nd; i++ {
		d := t.Sock(zmq4.Dealer)
		if repBinds {
			t.dial(d, ep)
		} else {
			t.dial(rep, t.bind(d, t.fresh(tr)))
		}
		src := fmt.Sprintf("d%d", i)
		r := t.fork()
		total += per
		nrep := 0
		t.pumpWith(d, nil, func(fs [][]byte) {
			if len(fs) < 1 || len(fs[0]) != 0 {
				t.Violate("%s: reply without delimiter: %s", what, show(fs))
			}
			id := lb.receive(src, fs[1:])
			if id.src != src {
				t.Violate("%s: %s received a reply for %s", what, src, id.src)
			}
			if id.seq != nrep {
				t.Violate("%s: %s received reply %d where %d was due", what, src, id.seq, nrep)
			}
			nrep++
			if r.Intn(10) == 0 {
				time.Sleep(time.Duration(r.Intn(500)) * time.Microsecond)
			}
		})
		work = append(work, func() {
			for j := 0; j < per; j++ {
				id := msgID{src, 0, j}
				lf.begin(id)
				lb.begin(id)
				if err := d.put(j%2 == 0, append([][]byte{nil}, mkMsg(src, 0, j, sh)...)...); err != nil {
					t.Violate("%s: Send: %v", what, err)
				}
				lf.end(id)
			}
		})
	}
	work = append(work, func() {
		for i := 0; i < total; i++ {
			m := t.recv(rep)
			id := lf.receive("REP", m)
			var err error
			t.Within(patience, "REP: Send", func() { err = rep.put(i%3 == 0, m...) })
			if err != nil {
				t.Violate("%s: reply: %v", what, err)
			}
			lb.end(id)
		}
	})
	t.Par(100*time.Second, what, work...)
	lb.settle()
	t.Key("rep", nd, tr, repBinds, sh)
}

// c03Turn: a dealer takes its peers in turn.
func c03Turn(t *T) {
	tr := transports[t.idx%len(transports)]
	n := t.several()
	binds := t.Bool()
	kind := pick(t, zmq4.Dealer, zmq4.Router, zmq4.Rep)
	s := t.Sock(zmq4.Dealer)
	l := t.ledger(fmt.Sprintf("DEALER rotation over %s %ss over %s", fmt.Sprint(n), kind, tr))
	ep := ""
	if binds {
		ep = t.bind(s, t.fresh(tr))
	}
	for i := 0; i < n; i++ {
		c := t.Sock(kind)
		if binds {
			t.dial(c, ep)
		} else {
			t.dial(s, t.bind(c, t.fresh(tr)))
		}
		name := fmt.Sprintf("peer%d", i)
		t.pumpWith(c, nil, func(fs [][]byte) {
			if kind == zmq4.Router {
				fs = fs[1:]
			}
			l.receive(name, fs)
		})
	}
	var pre [][]byte
	if kind == zmq4.Rep {
		pre = [][]byte{nil}
	}
	multi := t.Intn(3)
	t.rotation(l, s, n, pre, func(k int) bool { return multi == 0 || multi == 1 && k%2 == 0 })
	t.Key("turn", kind, n, tr, binds, multi)
}

// c03Fan: a dealer with several peers and several goroutines, both ways.
func c03Fan(t *T) {
	tr := transports[t.idx%len(transports)]
	n := 2 + t.Intn(3)
	s := t.Sock(zmq4.Dealer)
	what := fmt.Sprintf("DEALER with %d peers over %s", n, tr)
	out, in := t.ledger(what+", out"), t.ledger(what+", in")
	ep := t.bind(s, t.fresh(tr))
	t.pumpWith(s, nil, func(fs [][]byte) { in.receive("hub", fs) })
	sh := shape{1 + t.Intn(5), pick(t, 30, 300, 5000)}
	const per = 60
	var work []func()
	for i := 0; i < n; i++ {
		c := t.Sock(zmq4.Dealer)
		t.dial(c, ep)
		name := fmt.Sprintf("peer%d", i)
		t.pumpWith(c, nil, func(fs [][]byte) { out.receive(name, fs) })
		work = append(work, func() {
			for j := 0; j < per; j++ {
				id := msgID{name, 0, j}
				in.begin(id)
				if err := c.put(j%2 == 0, mkMsg(name, 0, j, sh)...); err != nil {
					t.Violate("%s: Send: %v", what, err)
				}
				in.end(id)
			}
		})
	}
	for g := 0; g < 3; g++ {
		work = append(work, func() {
			for j := 0; j < per; j++ {
				id := msgID{"hub", g, j}
				out.begin(id)
				if err := s.put(j%2 == 0, mkMsg("hub", g, j, sh)...); err != nil {
					t.Violate("%s: Send: %v", what, err)
				}
				out.end(id)
			}
		})
	}
	t.Par(100*time.Second, what, work...)
	in.settle()
	out.settle()
	time.Sleep(5 * time.Millisecond)
	t.Key("fan", n, tr, sh)
}

func init() {
	register(&check{
		id:     "C03",
		rule:   "one execution runs traffic over a PAIR or DEALER link (or a DEALER with several peers), in both directions, with concurrent senders and receivers that stall, and enters every Send and Recv in a ledger of unique messages; distinct cases are (pattern, transport, bind side, senders per side, message shape, stalls)",
		assume: []string{"rotation is asserted for a steady set of peers with no backlog"},
		need:   map[string]int64{"messages alike": 100000, "other peers gone": 500, "messages received": 5000, "senders held up": 5, "rotations checked": 50},
		scenarios: func() []scenario {
			return []scenario{
				{"resume", 30, 400, func(t *T) { t.resume(zmq4.Dealer) }},
				{"alike", 8, 160, func(t *T) { t.alike("pair-pair", "dealer-dealer", "dealer-router", "dealer-rep") }},
				{"others", 120, 1500, func(t *T) { t.others(zmq4.Dealer) }},
				{"duplex", 300, 3000, c03Duplex},
				{"wall", 12, 100, c03Wall},
				{"long", 16, 100, c03Long},
				{"rep", 60, 600, c03Rep},
				{"turn", 60, 600, c03Turn},
				{"fan", 50, 500, c03Fan},
			}
		},
	})
}
