package main

import (
	"fmt"
	"sync"
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
)

// c02Topology: any number of pushers and pullers, all connected with each
// other, with concurrent senders, late joiners and slow pullers.
func c02Topology(t *T) {
	tr := transports[t.idx%len(transports)]
	np, nc := 1+t.Intn(3), 1+t.Intn(4)
	pushBinds := t.Bool()
	g := 1 + t.Intn(3)
	sh := shape{1 + t.Intn(5), pick(t, 0, 10, 300, 3000, 30000)}
	per := 60
	if sh.maxSize >= 3000 {
		per = 25
	}
	t.Log("%d pushers x %d goroutines, %d pullers over %s, push binds %v, shape %v", np, g, nc, tr, pushBinds, sh)
	l := t.ledger(fmt.Sprintf("PUSH/PULL over %s", tr))

	// Bind one side; the other side dials, some of it late.
	var pushes, pulls []*Sock
	for i := 0; i < np; i++ {
		pushes = append(pushes, t.Sock(zmq4.Push))
	}
	for i := 0; i < nc; i++ {
		pulls = append(pulls, t.Sock(zmq4.Pull))
	}
	binders, dialers := pulls, pushes
	if pushBinds {
		binders, dialers = pushes, pulls
	}
	var eps []string
	for _, b := range binders {
		eps = append(eps, t.bind(b, t.fresh(tr)))
	}
	var work []func()
	for i, d := range dialers {
		late := i > 0 && t.Chance(40)
		r := t.fork()
		conn := func() {
			for _, e := range eps {
				if late {
					time.Sleep(time.Duration(r.Intn(3000)) * time.Microsecond)
				}
				t.dial(d, e)
			}
		}
		if late {
			work = append(work, conn)
		} else {
			conn()
		}
	}
	for i, c := range pulls {
		name := fmt.Sprintf("puller%d", i)
		slow := t.Chance(25)
		r := t.fork()
		t.pumpWith(c, nil, func(fs [][]byte) {
			l.receive(name, fs)
			if slow && r.Intn(3) == 0 {
				time.Sleep(time.Duration(r.Intn(2000)) * time.Microsecond)
			}
		})
	}
	for i, p := range pushes {
		for j := 0; j < g; j++ {
			src := fmt.Sprintf("p%d", i)
			r := t.fork()
			work = append(work, func() {
				for k := 0; k < per; k++ {
					id := msgID{src, j, k}
					m := mkMsg(src, j, k, sh)
					l.begin(id)
					var err error
					t.Within(patience, "PUSH: Send", func() { err = p.put(r.Intn(2) == 0, m...) })
					if err != nil {
						t.Violate("PUSH: Send: %v", err)
					}
					l.end(id)
					if r.Intn(20) == 0 {
						time.Sleep(time.Duration(r.Intn(500)) * time.Microsecond)
					}
				}
			})
		}
	}
	t.Par(100*time.Second, "PUSH/PULL", work...)
	l.settle()
	time.Sleep(10 * time.Millisecond) // a duplicate would be on its way
	t.Key("topology", np, nc, g, tr, pushBinds, sh)
	l.mu.Lock()
	for i := range pulls {
		if l.by[fmt.Sprintf("puller%d", i)] > 0 {
			t.Key("split", np, nc, tr, i)
		}
	}
	l.mu.Unlock()
}

// several is a number of peers, sometimes a big one.
func (t *T) several() int {
	if t.Chance(15) {
		return 6 + t.Intn(15)
	}
	return 2 + t.Intn(4)
}

// c02Turn: with a steady set of pullers and no backlog, message i+n goes
// where message i went, and n messages in a row go to n pullers.
func c02Turn(t *T) {
	tr := transports[t.idx%len(transports)]
	n := t.several()
	pushBinds := t.Bool()
	push := t.Sock(zmq4.Push)
	l := t.ledger("PUSH rotation over " + tr)
	ep := ""
	if pushBinds {
		ep = t.bind(push, t.fresh(tr))
	}
	for i := 0; i < n; i++ {
		c := t.Sock(zmq4.Pull)
		if pushBinds {
			t.dial(c, ep)
		} else {
			t.dial(push, t.bind(c, t.fresh(tr)))
		}
		name := fmt.Sprintf("puller%d", i)
		t.pumpWith(c, nil, func(fs [][]byte) { l.receive(name, fs) })
	}
	multi := t.Intn(3)
	t.rotation(l, push, n, nil, func(k int) bool { return multi == 0 || multi == 1 && k%2 == 0 })
	t.Key("turn", n, tr, pushBinds, multi)
}

// rotation drives one sender whose n peers report to the ledger.
func (t *T) rotation(l *ledger, s *Sock, n int, pre [][]byte, multi func(k int) bool) {
	seq := 0
	one := func(g int) string {
		id := msgID{"p", g, seq}
		m := mkMsg("p", g, seq, shape{3, 50})
		seq++
		l.begin(id)
		var err error
		t.Within(patience, "Send", func() { err = s.put(multi(seq), append(append([][]byte(nil), pre...), m...)...) })
		if err != nil {
			t.Violate("%s: Send: %v", l.what, err)
		}
		l.end(id)
		l.settle()
		l.mu.Lock()
		defer l.mu.Unlock()
		return l.got[id]
	}
	// Warm up until everybody has been heard of: then all are connected.
	seen := map[string]bool{}
	for i := 0; len(seen) < n; i++ {
		seen[one(0)] = true
		if i > 5000 {
			t.Violate("%s: after %d messages only %d of %d peers have received anything", l.what, i, len(seen), n)
		}
		if i > 4*n {
			time.Sleep(time.Millisecond)
		}
	}
	var order []string
	for i := 0; i < 4*n+t.Intn(7); i++ {
		order = append(order, one(0))
	}
	for i := range order {
		if i+n < len(order) && order[i] != order[i+n] {
			t.Violate("%s: peers are not taken in turn: %v", l.what, order)
		}
		for j := i + 1; j < i+n && j < len(order); j++ {
			if order[i] == order[j] {
				t.Violate("%s: peers are not taken in turn: %v", l.what, order)
			}
		}
	}
	// The same without waiting for each message.
	l.mu.Lock()
	base := map[string]int{}
	for k, v := range l.by {
		base[k] = v
	}
	l.mu.Unlock()
	g := 1 + t.Intn(3)
	per := n * 8
	var fs []func()
	for j := 1; j <= g; j++ {
		fs = append(fs, func() {
			for k := 0; k < per; k++ {
				id := msgID{"q", j, k}
				l.begin(id)
				if err := s.put(multi(k), append(append([][]byte(nil), pre...), mkMsg("q", j, k, shape{3, 50})...)...); err != nil {
					t.Violate("%s: Send: %v", l.what, err)
				}
				l.end(id)
			}
		})
	}
	t.Par(patience, l.what, fs...)
	l.settle()
	l.mu.Lock()
	lo, hi := 1<<30, 0
	for k, v := range l.by {
		lo, hi = min(lo, v-base[k]), max(hi, v-base[k])
	}
	l.mu.Unlock()
	if hi-lo > g {
		t.Violate("%s: %d goroutines sent %d messages, and one of %d peers received %d of them, another one %d", l.what, g, g*per, n, hi, lo)
	}
	count("rotations checked", int64(len(order)))
}

// c02Slow: a puller that does not read holds the pusher up, and loses nothing.
func c02Slow(t *T) {
	tr := transports[t.idx%len(transports)]
	push, pull := t.Sock(zmq4.Push), t.Sock(zmq4.Pull)
	t.join(push, pull, tr, t.Bool())
	l := t.ledger("PUSH to a slow puller over " + tr)
	gate := make(chan struct{}, 1<<20)
	t.pumpWith(pull, gate, func(fs [][]byte) { l.receive("puller", fs) })
	const n = 400
	sh := shape{4, pick(t, 1000, 8000, 20000)}
	var mu sync.Mutex
	sent := 0
	done := make(chan struct{})
	r := t.fork()
	t.Go(func() {
		defer close(done)
		for k := 0; k < n; k++ {
			id := msgID{"p", 0, k}
			l.begin(id)
			if err := push.put(r.Intn(2) == 0, mkMsg("p", 0, k, sh)...); err != nil {
				t.Violate("PUSH: Send: %v", err)
			}
			l.end(id)
			mu.Lock()
			sent++
			mu.Unlock()
		}
	})
	// Let it run into the wall, then read in bursts.
	prev := -1
	for i := 0; i < 40; i++ {
		time.Sleep(10 * time.Millisecond)
		mu.Lock()
		s := sent
		mu.Unlock()
		if s == prev || s == n {
			break
		}
		prev = s
	}
	if prev < n {
		count("senders held up", 1)
	}
	for i := 0; i < n; {
		k := 1 + t.Intn(60)
		for j := 0; j < k; j++ {
			gate <- struct{}{}
		}
		i += k
		time.Sleep(time.Duration(t.Intn(2000)) * time.Microsecond)
	}
	for i := 0; i < 100; i++ {
		gate <- struct{}{}
	}
	if !waitCh(done, 60*time.Second) {
		t.Violate("PUSH over %s is still held up after its puller has resumed", tr)
	}
	l.settle()
	t.Key("slow", tr, sh, prev < n)
}

func init() {
	register(&check{
		id:     "C02",
		rule:   "one execution runs a PUSH/PULL topology and enters every Send and Recv in a ledger of unique messages (exactly once, nothing altered or unknown, order per sending goroutine and puller, pullers in turn); distinct cases are (topology, transport, bind side, message shape), rotation set-ups and back-pressure situations",
		assume: []string{"rotation is asserted for a steady set of pullers with no backlog, and as balance when several goroutines send"},
		need:   map[string]int64{"messages alike": 50000, "other peers gone": 500, "messages received": 5000, "rotations checked": 100},
		scenarios: func() []scenario {
			return []scenario{
				{"resume", 30, 400, func(t *T) { t.resume(zmq4.Push) }},
				{"alike", 6, 120, func(t *T) { t.alike("push-pull") }},
				{"others", 120, 1500, func(t *T) { t.others([]zmq4.SocketType{zmq4.Pull, zmq4.Push}[t.idx%2]) }},
				{"topology", 300, 4000, c02Topology},
				{"turn", 100, 1000, c02Turn},
				{"slow", 40, 400, c02Slow},
				{"long", 8, 60, func(t *T) { t.longStall("PUSH-PULL", zmq4.Push, zmq4.Pull) }},
			}
		},
	})
}
