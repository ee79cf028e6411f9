package main

import (
	"bytes"
	"fmt"
	"strings"
	"sync"
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
)

// Identities that are easily mixed up.
func c8ids(t *T) []string {
	long := string(bytes.Repeat([]byte{'x'}, 255))
	pool := []string{"a", "aa", "aaa", "A", "a\x00", "a\x00b", "\x01", "\x01\x00", "b a", " a", "a ", "\xff\xfe", "\x80",
		long, long[:254], long[:253] + "y", long[:254] + "z", "identity", "Identity", "0", "00", "é"}
	p := t.Perm(len(pool))
	out := make([]string, len(pool))
	for i, j := range p {
		out[i] = pool[j]
	}
	return out
}

// neighbours of an identity, which nobody has.
func c8near(t *T, id string) string {
	b := []byte(id)
	switch t.Intn(8) {
	case 0:
		return ""
	case 1:
		if len(b) > 1 {
			return string(b[:len(b)-1])
		}
	case 2:
		return id + "\x00"
	case 3:
		return id + id
	case 4:
		if len(b) > 0 {
			b[t.Intn(len(b))] ^= 1 << t.Intn(8)
			return string(b)
		}
	case 5:
		return strings.ToUpper(id) + "!"
	case 6:
		if len(b) > 1 {
			return string(b[1:])
		}
	}
	return string(t.Bytes(1 + t.Intn(300)))
}

// c8 is the view from the ROUTER under test.
type c8 struct {
	t   *T
	s   *Sock
	in  *ledger // peers to ROUTER
	out *ledger // ROUTER to peers

	mu    sync.Mutex
	peers map[string]*c8peer // by name
	owner map[string]string  // identity -> name of the peer that has it
	seen  map[string]bool    // generated identities

	probes sync.Map
}

type c8peer struct {
	name     string
	announce string
	id       string // as the ROUTER says
	ready    chan struct{}
	env      int // leading frames the peer type adds: 1 for REQ
	tell     func(fs [][]byte) error
	raw      *raw
	sock     *Sock
}

func (t *T) c8(s *Sock, what string) *c8 {
	c := &c8{t: t, s: s, in: t.ledger(what + ", to the ROUTER"), out: t.ledger(what + ", from the ROUTER"),
		peers: map[string]*c8peer{}, owner: map[string]string{}, seen: map[string]bool{}}
	t.pumpWith(s, nil, c.got)
	return c
}

func (c *c8) add(p *c8peer) {
	p.ready = make(chan struct{})
	c.mu.Lock()
	c.peers[p.name] = p
	c.mu.Unlock()
}

// got judges what the ROUTER delivers.
func (c *c8) got(fs [][]byte) {
	t := c.t
	if len(fs) < 2 {
		t.Violate("ROUTER delivers %s", show(fs))
	}
	id := string(fs[0])
	body := fs[1:]
	if string(body[0]) == "probe" && len(body) == 2 {
		c.probes.Store(string(body[1]), true)
		return
	}
	if len(body[0]) == 0 { // from a REQ
		body = body[1:]
	}
	m := c.in.receive("router", body)
	c.mu.Lock()
	p := c.peers[m.src]
	c.mu.Unlock()
	if p == nil {
		t.Violate("ROUTER delivers a message of %q, which is nobody", m.src)
	}
	if (p.env == 1) != (len(fs[1]) == 0) {
		t.Violate("ROUTER delivers %s from a peer that puts %d empty frame(s) in front", show(fs), p.env)
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	switch {
	case p.announce != "" && id != p.announce:
		t.Violate("ROUTER delivers a message of peer %s (%q) under identity %q", p.name, p.announce, id)
	case id == "":
		t.Violate("ROUTER delivers a message of peer %s under an empty identity", p.name)
	}
	if p.id == "" {
		if p.announce == "" {
			if c.seen[id] {
				t.Violate("generated identity %q is given twice", id)
			}
			c.seen[id] = true
			if o, ok := c.owner[id]; ok {
				t.Violate("generated identity %q of %s is that of %s", id, p.name, o)
			}
			count("generated identities", 1)
		}
		p.id = id
		c.owner[id] = p.name
		close(p.ready)
	} else if p.id != id {
		t.Violate("ROUTER delivers a message of peer %s under identity %q, before it was %q", p.name, id, p.id)
	}
	count("identities checked", 1)
}

// atPeer judges what a peer receives from the ROUTER.
func (c *c8) atPeer(p *c8peer, fs [][]byte) {
	m := c.out.receive(p.name, fs)
	if m.src != "to "+p.name {
		c.t.Violate("peer %s (identity %q) receives a message %q", p.name, p.announce, fs[0])
	}
}

// announceTo connects nothing: it makes the peer known to the ROUTER.
func (c *c8) hello(p *c8peer) {
	t := c.t
	fs := mkMsg(p.name, 9, 0, shape{2, 10})
	c.in.begin(msgID{p.name, 9, 0})
	if err := p.tell(fs); err != nil {
		t.Violate("peer %s cannot send: %v", p.name, err)
	}
	c.in.end(msgID{p.name, 9, 0})
	if !waitCh(p.ready, patience) {
		t.Violate("first message of peer %s is not received", p.name)
	}
}

const c8main = "the router"

// connect makes a peer of some kind. lib: only library sockets.
func (c *c8) connect(name, announce, ep string, kind string) *c8peer {
	t := c.t
	p := &c8peer{name: name, announce: announce}
	c.add(p)
	switch kind {
	case "dealer", "router":
		var opts []zmq4.Option
		if announce != "" {
			opts = append(opts, zmq4.WithID(zmq4.SocketIdentity(announce)))
		}
		typ := zmq4.Dealer
		if kind == "router" {
			typ = zmq4.Router
		}
		s := t.Sock(typ, opts...)
		p.sock = s
		if ep == "" {
			t.dial(c.s, t.bind(s, t.fresh(pick(t, transports...))))
		} else {
			t.dial(s, ep)
		}
		p.tell = func(fs [][]byte) error {
			if kind == "router" {
				fs = append([][]byte{[]byte(c8main)}, fs...)
			}
			return s.put(len(fs)%2 == 0, fs...)
		}
		if kind == "router" && ep == "" {
			// the side that accepts registers the connection a little later
			c.probes.Delete(name)
			t.Until(patience, "a ROUTER that binds gets its peer", func() bool {
				_ = s.put(false, []byte(c8main), []byte("probe"), []byte(name))
				return until(3*time.Millisecond, func() bool { _, ok := c.probes.Load(name); return ok })
			})
		}
		t.pumpWith(s, nil, func(fs [][]byte) {
			if kind == "router" {
				if len(fs) == 0 || string(fs[0]) != c8main {
					t.Violate("ROUTER %s receives %s from the peer that calls itself %q", name, show(fs), c8main)
				}
				fs = fs[1:]
			}
			c.atPeer(p, fs)
		})
	default: // raw: "DEALER", "ROUTER", "REQ"
		var r *raw
		if ep == "" {
			l, lep := t.listenRaw(pick(t, "tcp", "ipc", "vmem"))
			ch := make(chan error, 1)
			go func() { ch <- c.s.Dial(lep) }()
			r = t.accept(l)
			c.shake(r, kind, announce)
			if !waitCh(ch, patience) {
				t.Violate("Dial to a %s peer does not return", kind)
			}
		} else {
			r = t.connectTo(ep)
			c.shake(r, kind, announce)
		}
		p.raw = r
		if kind == "REQ" {
			p.env = 1
		}
		p.tell = func(fs [][]byte) error {
			if kind == "REQ" {
				fs = append([][]byte{nil}, fs...)
			}
			return r.sendMsg(fs...)
		}
		t.Go(func() {
			for {
				fs, err := r.readMsg()
				if err != nil {
					if strings.Contains(err.Error(), errProto.Error()) {
						t.Violate("peer %s: %v", name, err)
					}
					return
				}
				if kind == "REQ" {
					if len(fs) == 0 || len(fs[0]) != 0 {
						t.Violate("REQ peer receives %s", show(fs))
					}
					fs = fs[1:]
				}
				c.atPeer(p, fs)
			}
		})
	}
	return p
}

func (c *c8) shake(r *raw, kind, announce string) {
	t := c.t
	r.kind = kind
	kv := [][2]string{{pick(t, "Socket-Type", "socket-type", "SOCKET-TYPE"), kind}}
	if announce != "" {
		kv = append(kv, [2]string{pick(t, "Identity", "Identity", "identity", "IDENTITY"), announce})
	} else if t.Bool() {
		kv = append(kv, [2]string{"Identity", ""})
	}
	if t.Bool() {
		kv = append(kv, [2]string{"X-Identity", "somebody else"})
	}
	var flat []string
	for _, i := range t.Perm(len(kv)) {
		flat = append(flat, kv[i][0], kv[i][1])
	}
	if err := r.nullWith(props(flat...)); err != nil {
		t.Violate("handshake with identity %q fails: %v", announce, err)
	}
	_ = r.c.SetDeadline(time.Time{})
}

func c08Crowd(t *T) {
	s := t.Sock(zmq4.Router, zmq4.WithID(zmq4.SocketIdentity(c8main)))
	tr := pick(t, transports...)
	ep := ""
	ep = t.bind(s, t.fresh(tr))
	c := t.c8(s, "ROUTER over "+tr)
	ids := c8ids(t)
	n := 2 + t.Intn(9)
	var ps []*c8peer
	var kinds []string
	for i := 0; i < n; i++ {
		announce := ""
		if t.Chance(70) {
			announce = ids[i]
		}
		kind := pick(t, "dealer", "dealer", "router", "DEALER", "ROUTER", "REQ")
		to := ep
		if t.Chance(30) {
			to = ""
		}
		p := c.connect(fmt.Sprintf("p%d", i), announce, to, kind)
		c.hello(p)
		ps = append(ps, p)
		kinds = append(kinds, kind)
		t.Log("peer %s: %s %q dials=%v, is %q", p.name, kind, announce, to != "", p.id)
	}
	sh := shape{1 + t.Intn(4), pick(t, 10, 300, 3000)}
	each := 10 + t.Intn(30)
	var fs []func()
	for _, p := range ps {
		p := p
		fs = append(fs, func() {
			for i := 0; i < each; i++ {
				id := msgID{p.name, 0, i}
				c.in.begin(id)
				var err error
				if !t.Done(patience, func() { err = p.tell(mkMsg(p.name, 0, i, sh)) }) || err != nil {
					t.Violate("peer %s: sending: %v", p.name, err)
				}
				c.in.end(id)
			}
		})
	}
	for g := 0; g < 1+t.Intn(3); g++ {
		g := g
		r := t.fork()
		fs = append(fs, func() {
			for i := 0; i < each*n; i++ {
				if r.Intn(6) == 0 {
					no := c8near(t, ps[r.Intn(n)].id)
					c.mu.Lock()
					_, taken := c.owner[no]
					c.mu.Unlock()
					if !taken {
						t.Within(patience, "Send to an unknown identity", func() {
							_ = s.put(r.Intn(2) == 0, []byte(no), []byte("for nobody"))
						})
						count("messages for unknown identities", 1)
					}
				}
				p := ps[r.Intn(n)]
				id := msgID{"to " + p.name, g, i}
				c.out.begin(id)
				m := append([][]byte{[]byte(p.id)}, make([][]byte, p.env)...)
				t.send(s, r.Intn(2) == 0, append(m, mkMsg(id.src, g, i, sh)...)...)
				c.out.end(id)
			}
		})
	}
	t.Par(60*time.Second, "traffic", fs...)
	c.in.settle()
	c.out.settle()
	t.Key("crowd", tr, n, strings.Join(kinds, ","))
}

// c08Churn: identities go from one connection to the next.
func c08Churn(t *T) {
	tr := transports[t.idx%len(transports)]
	s := t.Sock(zmq4.Router, zmq4.WithID(zmq4.SocketIdentity(c8main)))
	ep := t.bind(s, t.fresh(tr))
	c := t.c8(s, "ROUTER over "+tr)
	ids := c8ids(t)[:2+t.Intn(5)]
	holder := map[string]*c8peer{}
	anon := []*c8peer{}
	seq := 0
	lastGone := ""
	to := func(p *c8peer) {
		for i := 0; i < 1+t.Intn(3); i++ {
			seq++
			id := msgID{"to " + p.name, 0, seq}
			c.out.begin(id)
			m := append([][]byte{[]byte(p.id)}, make([][]byte, p.env)...)
			var err error
			t.Within(patience, "Send on a ROUTER", func() { err = s.put(t.Bool(), append(m, mkMsg(id.src, 0, seq, shape{3, 100})...)...) })
			c.out.end(id) // an error may be that of a connection that is gone
			t.Log("to %s (%q): %v", p.name, p.id, err)
		}
		c.out.settle()
	}
	gone := func(p *c8peer) {
		if p.raw != nil {
			_ = p.raw.c.Close()
		} else {
			p.sock.shut()
		}
		lastGone = p.id
		t.Log("%s (%q) goes", p.name, p.id)
	}
	for step := 0; step < 15+t.Intn(25); step++ {
		switch t.Intn(6) {
		case 0, 1: // comes
			name := fmt.Sprintf("s%d", step)
			announce := ids[t.Intn(len(ids))]
			if holder[announce] != nil {
				gone(holder[announce])
				delete(holder, announce)
			}
			if t.Chance(25) {
				announce = ""
			}
			p := c.connect(name, announce, ep, pick(t, "dealer", "router", "DEALER", "ROUTER", "REQ"))
			c.hello(p)
			t.Log("%s (%q) comes", p.name, p.id)
			if announce != "" {
				holder[announce] = p
			} else {
				anon = append(anon, p)
			}
			to(p)
			count("identities taken over", 1)
		case 2: // goes
			for id, p := range holder {
				gone(p)
				delete(holder, id)
				break
			}
		case 3: // to somebody
			for _, p := range holder {
				to(p)
				break
			}
			for _, p := range anon {
				to(p)
				break
			}
		case 4, 5: // to nobody
			if len(holder)+len(anon) == 0 && step == 0 {
				continue
			}
			no := ids[t.Intn(len(ids))]
			if t.Chance(30) {
				no = lastGone
			}
			if _, here := holder[no]; here || step == 0 {
				continue
			}
			for _, a := range anon {
				if a.id == no {
					no = "nobody"
				}
			}
			if len(c.in.got) > 0 { // with no peer ever it would wait for one
				t.Within(patience, "Send to an identity that is gone", func() { _ = s.put(t.Bool(), []byte(no), []byte("for nobody")) })
				count("messages for identities that are gone", 1)
			}
		}
	}
	for _, p := range holder {
		to(p)
	}
	c.in.settle()
	c.out.settle()
	t.Key("churn", tr, len(ids), seq)
}

// c08Reconnect: the identity outlives the connection if it is announced.
func c08Reconnect(t *T) {
	h := t.Host()
	s := t.Sock(zmq4.Router, zmq4.WithID(zmq4.SocketIdentity(c8main)))
	t.bind(s, h.ep())
	in := t.pump(s)
	ids := c8ids(t)
	n := 1 + t.Intn(4)
	var ss []*Sock
	var boxes []*inbox
	for i := 0; i < n; i++ {
		opts := []zmq4.Option{zmq4.WithDialerRetry(2 * time.Millisecond), zmq4.WithDialerMaxRetries(-1)}
		if i%3 != 2 {
			opts = append(opts, zmq4.WithID(zmq4.SocketIdentity(ids[i])))
		}
		d := t.Sock(zmq4.Dealer, opts...)
		t.dial(d, h.ep())
		ss = append(ss, d)
		boxes = append(boxes, t.pump(d))
	}
	used := map[string]int{} // generated identity -> socket
	round := func(k int) {
		for i, d := range ss {
			tag := fmt.Sprintf("hello %d %d", k, i)
			last := ""
			n0 := in.n()
			t.Until(patience, "message of a DEALER that has reconnected", func() bool {
				_ = d.put(false, []byte(tag))
				found := false
				until(5*time.Millisecond, func() bool {
					for _, m := range in.all()[n0:] {
						if len(m) == 2 && string(m[1]) == tag {
							last, found = string(m[0]), true
						}
					}
					return found
				})
				return found
			})
			if i%3 != 2 && last != ids[i] {
				t.Violate("DEALER %q is called %q after %d reconnections", ids[i], last, k)
			}
			if i%3 == 2 {
				if o, dup := used[last]; dup && o != i {
					t.Violate("generated identity %q is that of peers %d and %d", last, o, i)
				}
				used[last] = i
			}
			want := fmt.Sprintf("answer %d %d", k, i)
			// (at first there may still be the connection that is lost)
			var err error
			if !until(patience, func() bool { err = s.put(false, []byte(last), []byte(want)); return err == nil }) {
				t.Violate("message to %q cannot be sent after %d reconnections: %v", last, k, err)
			}
			if !until(patience, func() bool {
				for _, m := range boxes[i].all() {
					if len(m) == 1 && string(m[0]) == want {
						return true
					}
				}
				return false
			}) {
				t.Violate("message to %q is not received after %d reconnections", last, k)
			}
			for j, b := range boxes {
				if j == i {
					continue
				}
				for _, m := range b.all() {
					if string(m[len(m)-1]) == want {
						t.Violate("message to %q is received by %d, not %d", last, j, i)
					}
				}
			}
			count("identities after reconnection", 1)
		}
	}
	round(0)
	for k := 1; k <= 3; k++ {
		for _, l := range h.live() {
			l.reset()
		}
		t.Until(patience, "reconnection", func() bool { return len(h.live()) == n })
		round(k)
	}
	t.Key("reconnect", n)
}

func init() {
	register(&check{
		id:     "C08",
		rule:   "one execution connects a PRNG-chosen set of peers (library and raw DEALER, ROUTER and REQ, identities that are prefixes, extensions or bit-flips of each other, or none) to a ROUTER, in both directions of connecting, lets all send at once while the ROUTER sends to them and to identities nobody has, or lets peers come, go and take identities over, and checks every delivery at both ends; distinct cases are crowds and histories",
		assume: []string{"no two connected peers have the same identity", "peers read what they are sent"},
		need:   map[string]int64{"messages alike": 60000, "other peers gone": 500, "identities checked": 5000, "generated identities": 60, "messages for unknown identities": 1000, "identities taken over": 150, "identities after reconnection": 100},
		scenarios: func() []scenario {
			return []scenario{
				{"alike", 6, 120, func(t *T) { t.alike("router-dealer", "dealer-router", "router-router") }},
				{"others", 120, 1500, func(t *T) { t.others(zmq4.Router) }},
				{"crowd", 60, 1200, c08Crowd},
				{"churn", 50, 800, c08Churn},
				{"reconnect", 20, 300, c08Reconnect},
				{"long", 8, 60, func(t *T) { t.longStall("ROUTER-DEALER", zmq4.Router, zmq4.Dealer) }},
			}
		},
	})
}
