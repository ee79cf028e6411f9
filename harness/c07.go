package main

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
)

// Requests and replies are functions of an id, which is one of the frames.

func c7payload(kind, id string) [][]byte {
	r := rand.New(rand.NewSource(subseed(kind, id)))
	n := 1 + r.Intn(5)
	at := r.Intn(n)
	fs := make([][]byte, n)
	for i := range fs {
		switch {
		case i == at:
			fs[i] = []byte(kind + id)
		case r.Intn(2) == 0:
			fs[i] = []byte{}
		default:
			fs[i] = make([]byte, 1+r.Intn(pickR(r, 5, 300, 3000)))
			r.Read(fs[i])
		}
	}
	return fs
}

func pickR(r *rand.Rand, xs ...int) int { return xs[r.Intn(len(xs))] }

// c7id finds the id of a request.
func c7id(kind string, fs [][]byte) string {
	for _, f := range fs {
		if strings.HasPrefix(string(f), kind) && len(f) < 60 {
			return string(f[len(kind):])
		}
	}
	return ""
}

const (
	c7req = "request:"
	c7rep = "reply:"
)

type c7 struct {
	t      *T
	served sync.Map // id -> times
	bad    atomic.Int64
}

// answer checks a request and gives its reply.
func (c *c7) answer(fs [][]byte) [][]byte {
	id := c7id(c7req, fs)
	if id == "" || !eqFrames(fs, c7payload(c7req, id)) {
		c.t.Violate("request %q arrives as %s, sent %s", id, show(fs), show(c7payload(c7req, id)))
	}
	n, _ := c.served.LoadOrStore(id, new(atomic.Int32))
	if n.(*atomic.Int32).Add(1) > 1 {
		c.t.Violate("request %s is served twice", id)
	}
	count("requests served", 1)
	return c7payload(c7rep, id)
}

// rep serves with a REP socket.
func (c *c7) rep(s *Sock, slow *rand.Rand) {
	c.t.Go(func() {
		for {
			m, err := s.Recv()
			if err != nil {
				if s.closing() {
					return
				}
				if strings.Contains(err.Error(), "invalid REP") {
					c.bad.Add(1)
				}
				continue
			}
			rep := c.answer(m.Frames)
			if slow != nil && slow.Intn(3) == 0 {
				time.Sleep(time.Duration(slow.Intn(400)) * time.Microsecond)
			}
			if err := s.put(len(rep)%2 == 0, rep...); err != nil && !s.closing() {
				c.t.Violate("REP: Send: %v", err)
			}
		}
	})
}

// router serves with a ROUTER socket, replying out of order.
func (c *c7) router(s *Sock, r *rand.Rand) {
	c.t.Go(func() {
		var held [][][]byte
		flush := func() {
			r.Shuffle(len(held), func(i, j int) { held[i], held[j] = held[j], held[i] })
			for _, m := range held {
				_ = s.put(r.Intn(2) == 0, m...) // the client may be gone
			}
			held = nil
		}
		box := c.t.pump(s)
		seen := 0
		for !s.closing() {
			all := box.all()
			if len(all) == seen {
				flush()
				time.Sleep(100 * time.Microsecond)
				continue
			}
			fs := all[seen]
			seen++
			cut := -1
			for i := 1; i < len(fs); i++ {
				if len(fs[i]) == 0 {
					cut = i
					break
				}
			}
			if cut < 0 {
				c.bad.Add(1)
				continue
			}
			held = append(held, append(append([][]byte{}, fs[:cut+1]...), c.answer(fs[cut+1:])...))
			if r.Intn(4) == 0 {
				flush()
			}
		}
	})
}

// req is a client that asks one thing at a time.
func (c *c7) req(s *Sock, name string, n int) {
	t := c.t
	for i := 0; i < n; i++ {
		id := fmt.Sprintf("%s/%d", name, i)
		t.send(s, i%2 == 0, c7payload(c7req, id)...)
		got := t.recv(s)
		if want := c7payload(c7rep, id); !eqFrames(got, want) {
			t.Violate("REQ %s: reply to request %s is %s, sent was %s", name, id, show(got), show(want))
		}
		count("replies checked", 1)
	}
}

// dealer is a client with an envelope of its own and several requests at a time.
func (c *c7) dealer(s *Sock, name string, n, window int, r *rand.Rand) {
	t := c.t
	box := t.pump(s)
	envs := map[string][][]byte{}
	for i := 0; i < n; i++ {
		id := fmt.Sprintf("%s/%d", name, i)
		var env [][]byte
		for j := r.Intn(pickR(r, 4, 4, 4, 4, 4, 30, 300)); j > 0; j-- {
			b := make([]byte, 1+r.Intn(pickR(r, 3, 300)))
			r.Read(b)
			env = append(env, b)
		}
		env = append(env, []byte{})
		envs[id] = env
		t.send(s, r.Intn(2) == 0, append(append([][]byte{}, env...), c7payload(c7req, id)...)...)
		if !box.wait(i+1-window, patience) {
			t.Violate("DEALER %s: %d requests sent, %d replies received", name, i+1, box.n())
		}
	}
	if !box.wait(n, patience) {
		t.Violate("DEALER %s: %d requests sent, %d replies received", name, n, box.n())
	}
	for _, m := range box.all() {
		id := c7id(c7rep, m)
		env, ok := envs[id]
		if !ok {
			t.Violate("DEALER %s: reply %s is to no request of its own, or comes twice", name, show(m))
		}
		delete(envs, id)
		if want := append(append([][]byte{}, env...), c7payload(c7rep, id)...); !eqFrames(m, want) {
			t.Violate("DEALER %s: reply to %s is %s, due was %s", name, id, show(m), show(want))
		}
		count("replies checked", 1)
	}
}

// clients runs a mixed crowd against an end-point.
func (c *c7) clients(ep string, n int, leave bool) {
	t := c.t
	var fs []func()
	var names []string
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("c%d", i)
		reqs := 5 + t.Intn(25)
		r := t.fork()
		var opts []zmq4.Option
		if t.Bool() {
			opts = append(opts, zmq4.WithID(zmq4.SocketIdentity(fmt.Sprintf("id-%d", i))))
		}
		kind := t.Intn(10)
		if kind == 8 && !leave {
			kind = 0
		}
		switch kind {
		case 0, 1, 2, 3, 4:
			s := t.Sock(zmq4.Req, opts...)
			names = append(names, "req")
			fs = append(fs, func() { t.dial(s, ep); c.req(s, name, reqs) })
		case 5, 6, 7:
			s := t.Sock(zmq4.Dealer, opts...)
			names = append(names, "dealer")
			w := 1 + t.Intn(8)
			fs = append(fs, func() { t.dial(s, ep); c.dealer(s, name, reqs, w, r) })
		case 8: // asks and does not wait for the answer
			names = append(names, "hasty")
			fs = append(fs, func() {
				for j := 0; j < 1+r.Intn(4); j++ {
					p := t.connectTo(ep).mustNull("REQ", "")
					_ = p.sendMsg(append([][]byte{nil}, c7payload(c7req, fmt.Sprintf("%s/%d", name, j))...)...)
					if r.Intn(2) == 0 {
						time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
					}
					_ = p.c.Close()
				}
			})
		case 9: // sends what is no request
			names = append(names, "confused")
			fs = append(fs, func() {
				p := t.connectTo(ep).mustNull("DEALER", "")
				for j := 0; j < 1+r.Intn(4); j++ {
					_ = p.sendMsg([]byte("no"), []byte("delimiter"))
				}
			})
		}
	}
	t.Par(60*time.Second, "clients", fs...)
	t.Key("clients", n, strings.Join(names, ","))
}

func c07Direct(t *T) {
	c := &c7{t: t}
	tr := transports[t.idx%len(transports)]
	typ := pick(t, zmq4.Rep, zmq4.Rep, zmq4.Router)
	s := t.Sock(typ)
	ep := t.bind(s, t.fresh(tr))
	if typ == zmq4.Rep {
		var slow *rand.Rand
		if t.Bool() {
			slow = t.fork()
		}
		c.rep(s, slow)
	} else {
		c.router(s, t.fork())
	}
	t.Log("%s over %s", typ, tr)
	c.clients(ep, 1+t.Intn(10), true)
	t.Key("direct", typ, tr)
}

func c07Proxy(t *T) {
	c := &c7{t: t}
	depth := 1 + t.Intn(3)
	trs := ""
	hop := func() string {
		tr := transports[t.Intn(len(transports))]
		trs += tr + " "
		return t.fresh(tr)
	}
	front := t.Sock(zmq4.Router)
	ep := t.bind(front, hop())
	for i := 0; i < depth; i++ {
		back := t.Sock(zmq4.Dealer)
		f := front
		if i < depth-1 {
			next := t.Sock(zmq4.Router)
			if t.Bool() {
				t.dial(back, t.bind(next, hop()))
			} else {
				t.dial(next, t.bind(back, hop()))
			}
			front = next
		} else {
			wep := ""
			bindBack := t.Bool()
			if bindBack {
				wep = t.bind(back, hop())
			}
			for w := 1 + t.Intn(4); w > 0; w-- {
				s := t.Sock(zmq4.Rep)
				if bindBack {
					t.dial(s, wep)
				} else {
					t.dial(back, t.bind(s, hop()))
				}
				c.rep(s, t.fork())
			}
		}
		b := back
		go func() { _ = zmq4.Proxy(f.Socket, b.Socket) }()
	}
	t.Log("proxies %d, hops %s", depth, trs)
	c.clients(ep, 1+t.Intn(8), false) // a client that leaves may end a proxy
	t.Key("proxy", depth, trs)
}

// c07Servers: a REQ with several servers, some of which are lost.
func c07Servers(t *T) {
	tr := transports[t.idx%len(transports)]
	k := t.several()
	req := t.Sock(zmq4.Req, zmq4.WithDialerRetry(5*time.Millisecond), zmq4.WithDialerMaxRetries(-1))
	type server struct {
		s    *Sock
		ep   string
		drop atomic.Bool // closes instead of replying
		down bool
	}
	var srvs []*server
	start := func(v *server, i int) {
		v.s = t.Sock(zmq4.Rep)
		if v.ep == "" {
			v.ep = t.bind(v.s, t.fresh(tr))
		} else {
			t.Until(patience, "server listens again", func() bool { return v.s.Listen(v.ep) == nil })
		}
		s := v.s
		t.Go(func() {
			for {
				m, err := s.Recv()
				if err != nil {
					if s.closing() || s.ctx.Err() != nil {
						return
					}
					continue
				}
				if v.drop.Load() {
					s.shut()
					return
				}
				_ = s.put(false, append(m.Frames, []byte(fmt.Sprint(i)))...)
			}
		})
	}
	for i := 0; i < k; i++ {
		v := &server{}
		start(v, i)
		srvs = append(srvs, v)
		t.dial(req, v.ep)
	}
	n := 0
	ask := func() (int, error) {
		n++
		id := fmt.Sprintf("q%d", n)
		var m zmq4.Msg
		var err error
		t.Within(patience, "request", func() {
			if err = req.put(n%2 == 0, []byte(id), nil); err == nil {
				m, err = req.Recv()
			}
		})
		if err != nil {
			return -1, err
		}
		if len(m.Frames) != 3 || string(m.Frames[0]) != id || len(m.Frames[1]) != 0 {
			t.Violate("REQ: reply to %s is %s", id, show(m.Frames))
		}
		var i int
		fmt.Sscan(string(m.Frames[2]), &i)
		count("requests over several servers", 1)
		return i, nil
	}
	turns := func(up []int, what string) {
		var seq []int
		for j := 0; j < 2*len(up)+1; j++ {
			i, err := ask()
			if err != nil {
				t.Violate("REQ with %d servers %v left %s over %s: request fails: %v", len(up), up, what, tr, err)
			}
			seq = append(seq, i)
		}
		for j := range seq {
			for l := j + 1; l < j+len(up) && l < len(seq); l++ {
				if seq[l] == seq[j] {
					t.Violate("REQ with servers %v left %s: served by %v, not in turn", up, what, seq)
				}
			}
			ok := false
			for _, u := range up {
				ok = ok || u == seq[j]
			}
			if !ok {
				t.Violate("REQ with servers %v left %s: served by %v", up, what, seq)
			}
		}
		count("rotations checked", 1)
	}
	all := make([]int, k)
	for i := range all {
		all[i] = i
	}
	turns(all, "at first")
	for round := 0; round < 1+t.Intn(3); round++ {
		for i := 0; i < t.Intn(k+1); i++ { // lose it at any point of the turn
			if _, err := ask(); err != nil {
				t.Violate("REQ: request fails though no server has been lost: %v", err)
			}
		}
		lost := 1 + t.Intn(k-1)
		perm := t.Perm(k)[:lost]
		what := "after "
		for _, i := range perm {
			v := srvs[i]
			v.down = true
			if t.Bool() {
				what += fmt.Sprintf("server %d closed, ", i)
				v.s.shut()
			} else {
				what += fmt.Sprintf("server %d will close on a request, ", i)
				v.drop.Store(true)
			}
		}
		t.Log("%s", what)
		fails := 0
		var up []int
		for i, v := range srvs {
			if !v.down {
				up = append(up, i)
			}
		}
		// in some turns all lost servers are met
		okRun := 0
		dl := after(patience)
		for okRun < 2*k {
			i, err := ask()
			if err != nil {
				fails++
				okRun = 0
				t.Log("request %d fails: %v", n, err)
				if fails > lost {
					t.Violate("REQ over %s: %d requests fail, %d servers lost (%s): %v", tr, fails, lost, what, err)
				}
			} else {
				okRun++
				if srvs[i].down {
					t.Violate("REQ: served by server %d, which is down", i)
				}
			}
			if dl.passed() {
				t.Violate("REQ: no recovery %s", what)
			}
		}
		settle() // lost connections are removed
		turns(up, what)
		count("servers lost", int64(lost))
		// and back again
		for _, i := range perm {
			srvs[i].s.shut()
			srvs[i].down = false
			srvs[i].drop.Store(false)
			start(srvs[i], i)
		}
		seen := map[int]bool{}
		dl = after(patience)
		for len(seen) < k {
			i, err := ask()
			if err == nil {
				seen[i] = true
			}
			if dl.passed() {
				t.Violate("REQ over %s: servers that came back are not used; seen %v of %d", tr, seen, k)
			}
		}
		settle()
		turns(all, "after all came back")
	}
	t.Key("servers", tr, k)
}

// c07Cut: a server that breaks off in the middle of its reply.
func c07Cut(t *T) {
	h := t.Host()
	l, _ := h.listen()
	t.Cleanup(func() { _ = l.Close() })
	req := t.Sock(zmq4.Req, zmq4.WithDialerRetry(5*time.Millisecond), zmq4.WithDialerMaxRetries(-1))
	good := t.Sock(zmq4.Rep)
	c := &c7{t: t}
	c.rep(good, nil)
	go func() { _ = req.Dial(h.ep()) }()
	r := t.accept(l).mustNull("REP", "")
	t.dial(req, t.bind(good, t.fresh("vmem")))
	n := 0
	{
		got := make(chan [][]byte, 1)
		rr := r
		go func() {
			fs, _ := rr.next(patience)
			got <- fs
		}()
		hit := false
		for i := 0; i < 4 && !hit; i++ {
			n++
			id := fmt.Sprintf("cut/%d", n)
			t.send(req, false, c7payload(c7req, id)...)
			select {
			case fs := <-got:
				if !eqFrames(fs, append([][]byte{nil}, c7payload(c7req, id)...)) {
					t.Violate("REQ: request %s goes out as %s", id, show(fs))
				}
				hit = true
				wire := encodeMsg(append([][]byte{nil}, c7payload(c7rep, id)...))
				_ = rr.write(wire[:t.Intn(len(wire))])
				if t.Bool() {
					_ = rr.c.Close()
				} else {
					ls := h.live()
					ls[len(ls)-1].reset()
				}
				var m zmq4.Msg
				var err error
				t.Within(patience, "REQ: Recv while the server breaks off", func() { m, err = req.Recv() })
				if err == nil {
					t.Violate("REQ: %s received from a server that broke off in the middle of its reply", show(m.Frames))
				}
			case <-time.After(20 * time.Millisecond):
				if rep := t.recv(req); !eqFrames(rep, c7payload(c7rep, id)) {
					t.Violate("REQ: reply to request %s is %s", id, show(rep))
				}
			}
		}
		if !hit {
			t.Violate("REQ: one of two servers gets none of four requests")
		}
		count("replies cut off", 1)
		// the other one serves until this one is back
		l2 := after(patience)
		for {
			n++
			id := fmt.Sprintf("cut/%d", n)
			err := req.put(false, c7payload(c7req, id)...)
			if err == nil {
				var m zmq4.Msg
				t.Within(patience, "REQ: Recv", func() { m, err = req.Recv() })
				if err == nil && !eqFrames(m.Frames, c7payload(c7rep, id)) {
					t.Violate("REQ: reply to request %s is %s", id, show(m.Frames))
				}
			}
			if err == nil {
				break
			}
			if l2.passed() {
				t.Violate("REQ: the server that is left does not serve: %v", err)
			}
		}
	}
	t.Key("cut", n)
	for i := 0; i < 5; i++ {
		n++
		id := fmt.Sprintf("cut/%d", n)
		t.send(req, false, c7payload(c7req, id)...)
		if rep := t.recv(req); !eqFrames(rep, c7payload(c7rep, id)) {
			t.Violate("REQ: reply to request %s is %s", id, show(rep))
		}
	}
}

func init() {
	register(&check{
		id:     "C07",
		rule:   "one execution runs a PRNG-chosen crowd of REQ and DEALER clients (and ones that leave early or send no request) against servers, directly or through proxy chains, and compares each request served and each reply received with what its id stands for; or loses some of a REQ's servers and checks failures and turns; distinct cases are crowds, topologies with transports, and server sets",
		assume: []string{"requests and replies have at least one frame", "clients read their replies"},
		need:   map[string]int64{"messages alike": 20000, "other peers gone": 500, "replies checked": 5000, "rotations checked": 60, "servers lost": 30, "replies cut off": 10},
		scenarios: func() []scenario {
			return []scenario{
				{"alike", 12, 240, func(t *T) { t.alike("req-rep", "rep-req", "req-router", "router-req", "dealer-rep", "rep-dealer") }},
				{"others", 120, 1500, func(t *T) { t.others(zmq4.Rep) }},
				{"long", 8, 60, func(t *T) { t.longStall("DEALER-REP", zmq4.Dealer, zmq4.Rep) }},
				{"direct", 80, 1500, c07Direct},
				{"proxy", 60, 1000, c07Proxy},
				{"servers", 50, 600, c07Servers},
				{"cut", 60, 600, c07Cut},
			}
		},
	})
}
