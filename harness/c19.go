package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"net"
	"reflect"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/networking"
)

// node is a Transport with a log of what its handlers have been given.
type node struct {
	*networking.Transport
	t      *T
	id     string
	port   int
	cancel context.CancelFunc

	// the model, changed only between phases
	tags  map[string]int // type -> registered handler
	peers []string

	mu   sync.Mutex
	log  []heard
	gate chan struct{}

	nsent, nrecv, ndrop uint64 // what the counters must say, nrecv without handled messages
	mmu                 sync.Mutex
}

type heard struct {
	tag int
	msg networking.Message
}

var bindTypes = []string{"vote", "block", "", "vote/2", "ж", "Vote"}

func (t *T) nodes(n int) []*node {
	base := 20000+t.Intn(11000)
	names := []string{"alpha", "node-1", "node-10", "N", "узел", `q"uo\te`, "a b", strings.Repeat("long", 50), "<&>"}
	if t.Bool() { // all alike
		names = [][]string{
			{"node", "Node", "NODE", " node", "node ", "nod", "nodes", "node\x00", "node\n", "nodé"},
			{"1", "01", "1.0", "+1", "10", "0", "-1", "１", "1e0", " 1"},
			{"straße", "STRASSE", "strasse", "Straße", "strase", "stra e", "stra%20e", "straße/", "./straße", "straße#"},
			{"kK", "KK", "k\u212a", "K\u212a", "kk", "k", "K", "kk.", "kk/1", "kk/../kk"}, // the Kelvin sign folds to k
		}[t.Intn(4)]
	}
	var ns []*node
	for i, k := range t.Perm(len(names))[:n] {
		ns = append(ns, t.node(names[k], base+10*i+t.Intn(9)))
	}
	return ns
}

func (t *T) node(id string, port int) *node {
	n := t.unstarted(networking.Config{NodeID: id, BasePort: port, BindAddress: t.ip, MaxRetries: t.Intn(4), RetryDelay: time.Duration(t.Intn(10)) * time.Millisecond, BufferSize: t.Intn(5)})
	if err := n.Start(); err != nil {
		t.Violate("Start at %s:%d: %v", t.ip, port, err)
	}
	return n
}

func (t *T) unstarted(c networking.Config) *node {
	ctx, cancel := context.WithCancel(context.Background())
	n := &node{Transport: networking.New(ctx, c), t: t, id: c.NodeID, port: c.BasePort, cancel: cancel, tags: map[string]int{}}
	if got := n.GetNodeID(); got != c.NodeID {
		t.Violate("node %q calls itself %q", c.NodeID, got)
	}
	n.register("probe", 0)
	t.Cleanup(func() {
		n.stop()
		cancel()
	})
	count("nodes", 1)
	return n
}

// stop takes a hanging Stop for a violation.
func (n *node) stop() {
	ch := make(chan struct{})
	go func() {
		n.Stop()
		close(ch)
	}()
	if !waitCh(ch, patience/2) {
		n.t.Violate("Stop of node %q does not return", n.id)
	}
}

func (n *node) register(typ string, tag int) {
	n.RegisterHandler(typ, func(m *networking.Message) {
		c := *m
		c.Data = append(json.RawMessage(nil), m.Data...)
		c.SessionID = append([]byte(nil), m.SessionID...)
		n.mu.Lock()
		n.log = append(n.log, heard{tag, c})
		gate := n.gate
		n.mu.Unlock()
		if gate != nil && tag%3 == 1 {
			<-gate // a handler that takes its time
		}
	})
	n.tags[typ] = tag
}

func (n *node) unregister(typ string) {
	n.UnregisterHandler(typ)
	delete(n.tags, typ)
}

func (n *node) heard() []heard {
	n.mu.Lock()
	defer n.mu.Unlock()
	return n.log[:len(n.log):len(n.log)]
}

func (n *node) add(p *uint64) {
	n.mmu.Lock()
	*p++
	n.mmu.Unlock()
}

// heardProbe tells whether it got this probe.
func (n *node) heardProbe(uid string) bool {
	for _, h := range n.heard() {
		if h.msg.Type == "probe" && strings.Contains(string(h.msg.Data), uid) {
			return true
		}
	}
	return false
}

func (n *node) connect(p *node) {
	t := n.t
	var err error
	t.Within(patience, "ConnectPeer", func() {
		if t.Bool() {
			err = n.ConnectPeer(p.id, p.port)
		} else {
			err = n.ConnectPeerWithAddress(p.id, t.ip, p.port)
		}
	})
	if err != nil {
		t.Violate("node %q: connecting to %q: %v", n.id, p.id, err)
	}
}

func (n *node) knows(id string) bool {
	for _, p := range n.peers {
		if p == id {
			return true
		}
	}
	return false
}

func (n *node) checkPeers() {
	got := n.GetPeers()
	if len(got) != len(n.peers) || len(got) > 0 && !reflect.DeepEqual(got, n.peers) {
		n.t.Violate("node %q: peers are %q, it is connected to %q", n.id, got, n.peers)
	}
	for i := range got {
		got[i] = "overwritten"
	}
}

// sentMsg is a message on its way, and who has to get it.
type sentMsg struct {
	uid    string
	m      networking.Message
	from   *node
	to     map[*node]bool
	t0, t1 int64
}

type net19 struct {
	t    *T
	ns   []*node
	mu   sync.Mutex
	sent map[string]*sentMsg
	seq  atomic.Int64
	nm   int
	big  bool
}

func (w *net19) msg(r interface{ Intn(int) int }, typ string) (networking.Message, string) {
	uid := fmt.Sprintf("u%d.", w.seq.Add(1))
	m := networking.Message{Type: typ, From: []string{"", "forged"}[r.Intn(2)], Height: uint64(r.Intn(3)) * (1 << 60), Round: uint32(r.Intn(3)) << 30}
	if r.Intn(2) == 0 {
		m.SessionID = make([]byte, r.Intn(40))
		for i := range m.SessionID {
			m.SessionID[i] = byte(r.Intn(256))
		}
	}
	n := []int{0, 10, 1000, 20000}[r.Intn(4)]
	if w.big && r.Intn(20) == 0 {
		n = 8 << 20
	}
	pad := strings.Repeat([]string{"x", "ж", "<&>", `\n`, "1"}[r.Intn(5)], r.Intn(n+1)/4)
	switch r.Intn(3) {
	case 0:
		m.Data = json.RawMessage(`"` + uid + pad + `"`)
	case 1:
		m.Data = json.RawMessage(`{"b":[1,2.5,null,true], "uid" : "` + uid + `","p":"` + pad + `"}`)
	default:
		m.Data = json.RawMessage("[\n\"" + uid + "\", {}]")
	}
	return m, uid
}

// publish broadcasts a message.
func (w *net19) publish(n *node, r interface{ Intn(int) int }, typ string) *sentMsg {
	m, uid := w.msg(r, typ)
	if !n.knows(n.id) && typ != "probe" && r.Intn(6) == 0 {
		m.To = []string{"everybody", w.ns[0].id, n.id}[r.Intn(3)]
	}
	s := &sentMsg{uid: uid, m: m, from: n, to: map[*node]bool{}}
	for _, p := range w.ns {
		if p.knows(n.id) && p != n {
			s.to[p] = true
		}
	}
	w.dispatch(s, func(m *networking.Message) error {
		if r.Intn(4) == 0 {
			return n.BroadcastWithRetry(m)
		}
		return n.Broadcast(m)
	})
	return s
}

func (w *net19) direct(n, p *node, r interface{ Intn(int) int }, typ string) {
	m, uid := w.msg(r, typ)
	s := &sentMsg{uid: uid, m: m, from: n, to: map[*node]bool{p: true}}
	s.m.To = p.id
	w.dispatch(s, func(m *networking.Message) error {
		m.To = []string{"", "somebody else"}[r.Intn(2)]
		if r.Intn(4) == 0 {
			return n.SendWithRetry(p.id, m)
		}
		return n.Send(p.id, m)
	})
}

func (w *net19) dispatch(s *sentMsg, f func(*networking.Message) error) {
	w.mu.Lock()
	w.sent[s.uid] = s
	w.mu.Unlock()
	s.t0 = time.Now().UnixNano()
	m := s.m
	if err := f(&m); err != nil {
		w.t.Violate("node %q: sending: %v", s.from.id, err)
	}
	s.t1 = time.Now().UnixNano()
	s.from.add(&s.from.nsent)
	for p := range s.to {
		if _, ok := p.tags[s.m.Type]; !ok {
			p.add(&p.nrecv)
		}
	}
	count("messages sent", 1)
}

func sameJSON(a, b []byte) bool {
	if len(a) == 0 || len(b) == 0 {
		return len(a) == len(b)
	}
	var x, y any
	if json.Unmarshal(a, &x) != nil || json.Unmarshal(b, &y) != nil {
		return false
	}
	return reflect.DeepEqual(x, y)
}

// uidOf finds the name of a message in its data.
func uidOf(data []byte) string {
	i := bytes.IndexByte(data, 'u')
	for i >= 0 {
		j := i + 1
		for j < len(data) && data[j] >= '0' && data[j] <= '9' {
			j++
		}
		if j > i+1 && j < len(data) && data[j] == '.' {
			return string(data[i : j+1])
		}
		k := bytes.IndexByte(data[i+1:], 'u')
		if k < 0 {
			break
		}
		i += 1 + k
	}
	return ""
}

// settle waits for what is under way and compares.
func (w *net19) settle() {
	t := w.t
	type key struct {
		n   *node
		uid string
	}
	scan := func(report bool) bool {
		got := map[key]int{}
		for _, n := range w.ns {
			for _, h := range n.heard() {
				uid := uidOf(h.msg.Data)
				w.mu.Lock()
				s := w.sent[uid]
				w.mu.Unlock()
				if s == nil {
					t.Violate("node %q: a handler gets a message nobody sent: %+v", n.id, clip(h.msg))
				}
				k := key{n, uid}
				got[k]++
				if got[k] > 1 {
					t.Violate("node %q: a handler gets message %s twice: %+v", n.id, uid, clip(h.msg))
				}
				if s.m.Type == "probe" {
					if h.msg.Type != "probe" || !n.knows(s.from.id) && !s.to[n] {
						t.Violate("node %q: a handler gets %+v from a node it is not connected to", n.id, clip(h.msg))
					}
					continue
				}
				if !s.to[n] {
					t.Violate("node %q: a handler gets message %s of %q, which is not for it: %+v", n.id, uid, s.from.id, clip(h.msg))
				}
			}
		}
		w.mu.Lock()
		defer w.mu.Unlock()
		for uid, s := range w.sent {
			if s.m.Type == "probe" {
				continue
			}
			for n := range s.to {
				if _, ok := n.tags[s.m.Type]; ok && got[key{n, uid}] == 0 {
					if report {
						t.Violate("node %q: its handler has not got message %s (%q) of node %q", n.id, uid, s.m.Type, s.from.id)
					}
					return false
				}
			}
		}
		return true
	}
	if !until(patience, func() bool { return scan(false) }) {
		scan(true)
	}
	counters := func(n *node) string {
		s, r, d := n.GetMetrics()
		ws, wr, wd := n.nsent, n.nrecv+uint64(len(n.heard())), n.ndrop
		if s != ws || r != wr || d != wd {
			return fmt.Sprintf("node %q: counters say %d sent, %d received, %d dropped; it was %d, %d, %d", n.id, s, r, d, ws, wr, wd)
		}
		return ""
	}
	for _, n := range w.ns {
		if !until(5*time.Second, func() bool { return counters(n) == "" }) {
			t.Violate("%s", counters(n))
		}
	}
	settle()
	scan(false)
	for _, n := range w.ns {
		if s := counters(n); s != "" {
			t.Violate("%s", s)
		}
		n.checkPeers()
	}
	// content and handler; what is checked is put away
	for _, n := range w.ns {
		for _, h := range n.heard() {
			s := w.sent[uidOf(h.msg.Data)]
			if s.m.Type == "probe" {
				continue
			}
			if tag := n.tags[h.msg.Type]; tag != h.tag {
				t.Violate("node %q: message of type %q gets to handler %d, registered is %d", n.id, h.msg.Type, h.tag, tag)
			}
			g := h.msg
			if g.Type != s.m.Type || g.From != s.from.id || g.To != s.m.To || !bytes.Equal(g.SessionID, s.m.SessionID) || g.Height != s.m.Height || g.Round != s.m.Round || !sameJSON(g.Data, s.m.Data) {
				t.Violate("node %q: message %s of %q is not as sent: %+v, sent %+v", n.id, s.uid, s.from.id, clip(g), clip(s.m))
			}
			if s.from != nil && s.t0 != 0 && (g.Timestamp < s.t0 || g.Timestamp > s.t1) {
				t.Violate("node %q: message %s of %q: timestamp %d, sent between %d and %d", n.id, s.uid, s.from.id, g.Timestamp, s.t0, s.t1)
			}
		}
		n.mu.Lock()
		k := len(n.log)
		n.log = nil
		n.mu.Unlock()
		n.nrecv += uint64(k)
		w.nm += k
		count("messages received", int64(k))
	}
	w.sent = map[string]*sentMsg{}
}

func clip(m networking.Message) networking.Message {
	if len(m.Data) > 80 {
		m.Data = m.Data[:80]
	}
	return m
}

// probe waits until subscriptions are in place.
func (w *net19) probe() {
	for _, n := range w.ns {
		var to []*node
		for _, p := range w.ns {
			if p.knows(n.id) && p != n {
				to = append(to, p)
			}
		}
		var first string
		w.t.Until(patience, fmt.Sprintf("broadcasts of node %q reach those connected to it", n.id), func() bool {
			if len(to) == 0 {
				return true
			}
			s := w.publish(n, w.t, "probe")
			if first == "" {
				first = s.uid
			}
			return until(50*time.Millisecond, func() bool {
				for _, p := range to {
					if !p.heardProbe(`"` + s.uid) {
						return false
					}
				}
				return true
			})
		})
	}
}

// c19Nodes: histories of connecting, disconnecting, and traffic.
func c19Nodes(t *T) {
	w := &net19{t: t, ns: t.nodes(2 + t.Intn(4)), sent: map[string]*sentMsg{}, big: t.Chance(20)}
	tag := 0
	// a node may be its own peer
	self := t.Chance(30)
	twice := 0
	for phase := 0; phase < 3+t.Intn(3); phase++ {
		for _, n := range w.ns {
			for _, typ := range bindTypes {
				switch {
				case t.Chance(40):
					tag++
					n.register(typ, tag)
				case t.Chance(15):
					n.unregister(typ)
				}
			}
		}
		// each node changes its own connections
		var fs []func()
		for _, n := range w.ns {
			var ps []*node
			for _, i := range t.Perm(len(w.ns)) {
				if p := w.ns[i]; p != n || self {
					ps = append(ps, p)
				}
			}
			// A node that leaves a phase's table untouched is fine too.
			k := t.Intn(2*len(ps) + 1)
			var steps []func()
			for i := 0; i < k; i++ {
				p := ps[t.Intn(len(ps))]
				switch {
				case t.Chance(65):
					same := 1
					if t.Chance(30) {
						same = 2 + t.Intn(2)
						twice++
					}
					steps = append(steps, func() {
						var wg sync.WaitGroup
						for j := 0; j < same; j++ {
							wg.Add(1)
							t.Go(func() { defer wg.Done(); n.connect(p) })
						}
						wg.Wait()
						if !n.knows(p.id) {
							n.peers = append(n.peers, p.id)
						}
					})
				default:
					steps = append(steps, func() {
						t.Within(patience, "DisconnectPeer", func() { n.DisconnectPeer(p.id) })
						for i, q := range n.peers {
							if q == p.id {
								n.peers = append(n.peers[:i:i], n.peers[i+1:]...)
								break
							}
						}
					})
				}
			}
			fs = append(fs, func() {
				for _, s := range steps {
					s()
					n.checkPeers()
				}
			})
		}
		if t.Bool() {
			t.Par(time.Minute, "connecting", fs...)
		} else {
			for _, f := range fs {
				f()
			}
		}
		w.probe()
		// Handlers that do not return hold nothing up.
		gate := make(chan struct{})
		if t.Bool() {
			for _, n := range w.ns {
				n.mu.Lock()
				n.gate = gate
				n.mu.Unlock()
			}
		}
		w.traffic(10 + t.Intn(60))
		w.settle()
		for _, n := range w.ns {
			n.mu.Lock()
			n.gate = nil
			n.mu.Unlock()
		}
		close(gate)
		edges := 0
		for _, n := range w.ns {
			edges += len(n.peers)
		}
		t.Key("nodes", len(w.ns), self, edges, min(phase, 3), twice > 0)
		count("phases", 1)
	}
	// The end, in any order.
	for _, i := range t.Perm(len(w.ns)) {
		w.ns[i].stop()
	}
	t.noGoroutines("all nodes stopped")
}

// traffic: everybody talks at once.
func (w *net19) traffic(k int) {
	t := w.t
	stray := t.Bool()
	var fs []func()
	for _, n := range w.ns {
		for g := 0; g < 1+t.Intn(2); g++ {
			r := t.fork()
			fs = append(fs, func() {
				for i := 0; i < k; i++ {
					typ := bindTypes[r.Intn(len(bindTypes))]
					switch r.Intn(8) {
					case 0, 1, 2, 3:
						w.publish(n, r, typ)
					case 4, 5, 6:
						if len(n.peers) > 0 {
							id := n.peers[r.Intn(len(n.peers))]
							for _, p := range w.ns {
								if p.id == id {
									w.direct(n, p, r, typ)
								}
							}
						}
					case 7:
						m, _ := w.msg(r, typ)
						if err := n.Send("nobody", &m); err == nil {
							t.Violate("node %q: Send to a node it is not connected to succeeds", n.id)
						}
						for _, p := range w.ns {
							if !n.knows(p.id) {
								if err := n.Send(p.id, &m); err == nil {
									t.Violate("node %q: Send to %q succeeds without a connection", n.id, p.id)
								}
							}
						}
						m.Data = json.RawMessage("{")
						if err := n.Broadcast(&m); err == nil {
							t.Violate("node %q: Broadcast of data that is not JSON succeeds", n.id)
						}
						if len(n.peers) > 0 && n.Send(n.peers[0], &m) == nil {
							t.Violate("node %q: Send of data that is not JSON succeeds", n.id)
						}
					}
				}
			})
		}
		r := t.fork()
		fs = append(fs, func() {
			var a, b, c uint64
			for i := 0; i < k; i++ {
				x, y, z := n.GetMetrics()
				if x < a || y < b || z < c {
					t.Violate("node %q: counters go back: %d %d %d after %d %d %d", n.id, x, y, z, a, b, c)
				}
				a, b, c = x, y, z
				n.checkPeers()
				n.RegisterHandler("unused", nil)
				n.UnregisterHandler("unused")
				if r.Intn(3) == 0 {
					time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
				}
			}
		})
		if stray {
			fs = append(fs, func() { w.stray(n) })
		}
	}
	t.Par(time.Minute, "traffic", fs...)
}

// What is not a message.
func malformed(r interface{ Intn(int) int }) []byte {
	xs := []string{"", "garbage", "{", `{"type":1}`, `{"type":"vote","height":-1}`, `{"type":"vote","round":4294967296}`, "[]", `"vote"`, "1",
		`{"type":"vote"`, `{"type":"vote"} x`, "\x00\x01", `{"session_id":"***"}`, `{"timestamp":"now"}`, `{"type":"vote","data":}`, strings.Repeat("[", 20000), "\xff\xfe", "true"}
	return []byte(xs[r.Intn(len(xs))])
}

// stray connects to the ports of a node.
func (w *net19) stray(n *node) {
	t := w.t
	r := t.fork()
	for i := 0; i < 1+r.Intn(4); i++ {
		switch r.Intn(4) {
		case 0: // not even ZMTP
			for _, p := range []int{n.port, n.port + 1000} {
				c, err := net.Dial("tcp", fmt.Sprintf("%s:%d", t.ip, p))
				if err != nil {
					t.Violate("node %q: port %d does not answer: %v", n.id, p, err)
				}
				_, _ = c.Write(t.Bytes(r.Intn(200)))
				if r.Intn(2) == 0 {
					c.(*net.TCPConn).SetLinger(0)
				}
				_ = c.Close()
			}
		case 1: // messages to the publisher
			c := t.connectTo(fmt.Sprintf("tcp://%s:%d", t.ip, n.port)).mustNull("SUB", "")
			_ = c.sendMsg(malformed(r))
			_ = c.sendMsg([]byte("a"), malformed(r))
			_ = c.c.Close()
		case 2: // malformed, directed
			c := t.connectTo(fmt.Sprintf("tcp://%s:%d", t.ip, n.port+1000)).mustNull("DEALER", "stray")
			for j := 0; j < 1+r.Intn(5); j++ {
				fs := [][]byte{malformed(r)}
				if r.Intn(3) == 0 {
					fs = [][]byte{{}, []byte(`{"type":"vote"}`), malformed(r)}
				}
				n.add(&n.ndrop)
				if err := c.sendMsg(fs...); err != nil {
					t.Violate("node %q: closes the connection after malformed messages: %v", n.id, err)
				}
				count("malformed", 1)
			}
		case 3: // by hand, and with what nobody knows
			c := t.connectTo(fmt.Sprintf("tcp://%s:%d", t.ip, n.port+1000)).mustNull("DEALER", "")
			m, uid := w.msg(r, "vote")
			m.From, m.To = "stray", n.id
			s := &sentMsg{uid: uid, m: m, from: &node{id: "stray"}, to: map[*node]bool{n: true}}
			w.mu.Lock()
			w.sent[uid] = s
			w.mu.Unlock()
			if _, ok := n.tags["vote"]; !ok {
				n.add(&n.nrecv)
			}
			buf, err := json.Marshal(m)
			if err != nil {
				t.Violate("%v", err)
			}
			buf = append([]byte(`{"unknown":[{}],`), buf[1:]...)
			fs := [][]byte{buf}
			if r.Intn(2) == 0 { // the last frame counts
				fs = [][]byte{{}, malformed(r), buf}
			}
			if err := c.sendMsg(fs...); err != nil {
				t.Violate("node %q: stray message: %v", n.id, err)
			}
		}
	}
}

// c19Fake: a peer that publishes anything.
func c19Fake(t *T) {
	w := &net19{t: t, ns: t.nodes(2), sent: map[string]*sentMsg{}}
	a, b := w.ns[0], w.ns[1]
	port := a.port + 500
	pub, router := t.Sock(zmq4.Pub), t.Sock(zmq4.Router)
	t.bind(pub, fmt.Sprintf("tcp://%s:%d", t.ip, port))
	t.bind(router, fmt.Sprintf("tcp://%s:%d", t.ip, port+1000))
	fake := &node{id: "fake", port: port}
	for i, typ := range bindTypes {
		a.register(typ, i+1)
		b.register(typ, i+10)
	}
	a.connect(fake)
	a.peers = append(a.peers, "fake")
	for _, p := range [][2]*node{{a, b}, {b, a}} {
		p[0].connect(p[1])
		p[0].peers = append(p[0].peers, p[1].id)
	}
	t.Until(patience, "subscription of the node", func() bool { return hasTopic(pub, "") })
	w.probe()
	n := 20 + t.Intn(80)
	r := t.fork()
	t.Par(time.Minute, "traffic", func() {
		for i := 0; i < n; i++ {
			switch r.Intn(3) {
			case 0: // by hand, in pieces
				m, uid := w.msg(r, bindTypes[r.Intn(len(bindTypes))])
				m.From = "fake"
				w.mu.Lock()
				w.sent[uid] = &sentMsg{uid: uid, m: m, from: fake, to: map[*node]bool{a: true}}
				w.mu.Unlock()
				buf, _ := json.Marshal(m)
				k := 1 + r.Intn(len(buf)-1)
				t.send(pub, true, buf[:k], buf[k:])
			case 1: // as if a had sent it
				m, _ := w.msg(r, "vote")
				m.From = a.id
				buf, _ := json.Marshal(m)
				t.send(pub, false, buf)
			case 2:
				a.add(&a.ndrop)
				t.send(pub, false, malformed(r))
				count("malformed", 1)
			}
		}
	}, func() { w.trafficOf(a, b, n) }, func() {
		// what the node sends to it
		for i := 0; i < 10; i++ {
			m, _ := w.msg(t, "vote")
			if err := a.Send("fake", &m); err != nil {
				t.Violate("node %q: Send: %v", a.id, err)
			}
			a.add(&a.nsent)
			fs := t.recv(router)
			var g networking.Message
			if len(fs) != 2 || string(fs[0]) != identOf(a.id) || json.Unmarshal(fs[1], &g) != nil || g.From != a.id || g.To != "fake" || !sameJSON(g.Data, m.Data) {
				t.Violate("node %q: Send arrives as %s", a.id, show(fs))
			}
		}
	})
	w.settle()
	// nothing from it once it is disconnected
	t.Within(patience, "DisconnectPeer", func() { a.DisconnectPeer("fake") })
	a.peers = a.peers[1:]
	for i := 0; i < 5; i++ {
		t.send(pub, false, malformed(r))
	}
	w.trafficOf(a, b, 10)
	w.settle()
	t.Key("fake", bucket(n), a.id)
}

// identOf is what a DEALER of a node announces.
func identOf(id string) string {
	if len(id) > 255 {
		return id[:255]
	}
	return id
}

func (w *net19) trafficOf(a, b *node, n int) {
	r := w.t.fork()
	for i := 0; i < n; i++ {
		typ := bindTypes[r.Intn(len(bindTypes))]
		switch r.Intn(4) {
		case 0:
			w.publish(a, r, typ)
		case 1:
			w.publish(b, r, typ)
		case 2:
			w.direct(a, b, r, typ)
		case 3:
			w.direct(b, a, r, typ)
		}
	}
}

// c19Stop: Stop at any moment, and what is left.
func c19Stop(t *T) {
	w := &net19{t: t, ns: t.nodes(2 + t.Intn(2)), sent: map[string]*sentMsg{}}
	a, rest := w.ns[0], w.ns[1:]
	for _, n := range w.ns {
		for _, p := range w.ns {
			if n != p && (n == a || t.Bool()) {
				n.connect(p)
				n.peers = append(n.peers, p.id)
			}
		}
	}
	busy := t.Bool()
	orphan := t.Chance(30) // a peer has gone: Send waits for it
	if orphan {
		rest[0].stop()
	}
	how := pick(t, "Stop", "Stop", "many", "cancel")
	quit := make(chan struct{})
	var wg sync.WaitGroup
	if busy {
		for g := 0; g < 4; g++ {
			r := t.fork()
			wg.Add(1)
			t.Go(func() {
				defer wg.Done()
				for {
					select {
					case <-quit:
						return
					default:
					}
					m, _ := w.msg(r, "vote")
					switch r.Intn(5) {
					case 0:
						_ = a.Broadcast(&m)
					case 1:
						_ = a.Send(rest[r.Intn(len(rest))].id, &m)
					case 2:
						p := rest[r.Intn(len(rest))]
						if p != rest[0] {
							a.DisconnectPeer(p.id)
							_ = a.ConnectPeer(p.id, p.port)
						}
					case 3:
						if !rest[len(rest)-1].knows(a.id) || orphan && len(rest) == 1 {
							continue
						}
						_ = rest[len(rest)-1].Broadcast(&m)
					case 4:
						_ = a.ConnectPeer("nobody", a.port+700)
					}
				}
			})
		}
	}
	time.Sleep(time.Duration(t.Intn(8000)) * time.Microsecond)
	k := 1
	if how == "many" {
		k = 4
	}
	if how == "cancel" {
		a.cancel()
	}
	var fs []func()
	for i := 0; i < k; i++ {
		fs = append(fs, a.Stop)
	}
	ch := make(chan struct{})
	go func() {
		defer close(ch)
		var wg sync.WaitGroup
		for _, f := range fs {
			wg.Add(1)
			go func() { defer wg.Done(); f() }()
		}
		wg.Wait()
	}()
	if !waitCh(ch, 5*time.Second) {
		t.Violate("Stop does not return (%s, busy %v, a peer gone %v)", how, busy, orphan)
	}
	close(quit)
	for _, p := range []int{a.port, a.port + 1000} {
		l, err := net.Listen("tcp", fmt.Sprintf("%s:%d", t.ip, p))
		if err != nil {
			t.Violate("after Stop, port %d is taken: %v", p, err)
		}
		_ = l.Close()
	}
	t.Within(5*time.Second, "calls under way at Stop return", wg.Wait)
	// Nothing works any more, nor hangs, nor panics.
	t.Within(5*time.Second, "calls after Stop", func() {
		m, _ := w.msg(t, "vote")
		s0, _, _ := a.GetMetrics()
		if a.Broadcast(&m) == nil {
			t.Violate("Broadcast succeeds after Stop")
		}
		for _, p := range rest {
			if a.Send(p.id, &m) == nil {
				t.Violate("Send succeeds after Stop")
			}
		}
		if a.ConnectPeer("another", rest[0].port) == nil {
			t.Violate("ConnectPeer succeeds after Stop")
		}
		if a.SendWithRetry(rest[0].id, &m) == nil || a.BroadcastWithRetry(&m) == nil {
			t.Violate("sending with retries succeeds after Stop")
		}
		if s1, _, _ := a.GetMetrics(); s1 != s0 {
			t.Violate("counted as sent after Stop: %d", s1-s0)
		}
		a.DisconnectPeer(rest[0].id)
		a.Stop()
		a.Stop()
	})
	count("stops", 1)
	// In its place, another one.
	again := t.node(a.id, a.port)
	p := rest[len(rest)-1]
	if p == rest[0] && orphan {
		again.stop()
		t.noGoroutines("all nodes stopped")
		t.Key("stop", how, busy, orphan, "last")
		return
	}
	t.Within(patience, "DisconnectPeer", func() { p.DisconnectPeer(a.id) })
	p.peers, again.peers = nil, nil
	for _, q := range w.ns[1:] {
		if q != p {
			q.stop()
			p.DisconnectPeer(q.id)
		}
	}
	p.connect(again)
	again.connect(p)
	p.peers, again.peers = []string{again.id}, []string{p.id}
	w2 := &net19{t: t, ns: []*node{again, p}, sent: map[string]*sentMsg{}}
	// what p sent and got until now
	settle()
	p.mu.Lock()
	p.log = nil
	p.mu.Unlock()
	p.nsent, p.nrecv, p.ndrop = p.GetMetrics()
	again.register("vote", 1)
	p.register("block", 2)
	w2.probe()
	w2.trafficOf(again, p, 20)
	w2.settle()
	for _, n := range append(w.ns, again) {
		n.stop()
	}
	t.noGoroutines("all nodes stopped")
	t.Key("stop", how, busy, orphan)
}

// c19Ports: ports that are taken, Stop without Start.
func c19Ports(t *T) {
	port := 20000+t.Intn(11000)
	which := t.idx % 4
	n := t.unstarted(networking.DefaultConfig("n", port))
	cfg := networking.DefaultConfig("n", port)
	cfg.BindAddress = t.ip
	n = t.unstarted(cfg)
	if which == 3 {
		n.stop()
		n.stop()
		t.Key("ports", "never started")
		return
	}
	var ls []net.Listener
	for i, p := range []int{port, port + 1000} {
		if which == i || which == 2 {
			l, err := net.Listen("tcp", fmt.Sprintf("%s:%d", t.ip, p))
			if err != nil {
				t.Skip("%v", err)
			}
			ls = append(ls, l)
		}
	}
	var err error
	t.Within(patience, "Start", func() { err = n.Start() })
	if err == nil {
		t.Violate("Start succeeds though a port (%d) is taken", which)
	}
	n.stop()
	for _, l := range ls {
		_ = l.Close()
	}
	for _, p := range []int{port, port + 1000} {
		l, err := net.Listen("tcp", fmt.Sprintf("%s:%d", t.ip, p))
		if err != nil {
			t.Violate("port %d is taken after a failed Start and Stop: %v", p, err)
		}
		_ = l.Close()
	}
	t.noGoroutines("Stop after a failed Start")
	_ = t.node("n", port)
	count("stops", 1)
	t.Key("ports", which)
}

// c19Retry: sending with retries.
func c19Retry(t *T) {
	base := 20000+t.Intn(11000)
	cfg := networking.Config{NodeID: "a", BasePort: base, BindAddress: t.ip, MaxRetries: t.Intn(6), RetryDelay: time.Duration(t.Intn(20)) * time.Millisecond}
	tries, delay := cfg.MaxRetries, cfg.RetryDelay
	if tries == 0 {
		tries = 3
	}
	if delay == 0 {
		delay = 100 * time.Millisecond
	}
	var wait time.Duration
	for i := 1; i < tries; i++ {
		wait += time.Duration(i) * delay
	}
	a := t.unstarted(cfg)
	if err := a.Start(); err != nil {
		t.Violate("Start: %v", err)
	}
	b := t.node("b", base+10)
	b.register("vote", 1)
	w := &net19{t: t, ns: []*node{a, b}, sent: map[string]*sentMsg{}}
	m, _ := w.msg(t, "vote")
	t0, k0 := time.Now(), tick.Load()
	err := a.SendWithRetry("b", &m)
	d, k := time.Since(t0), time.Duration(tick.Load()-k0)*tickLen
	if err == nil {
		t.Violate("SendWithRetry to a node that is not connected succeeds")
	}
	if d < wait || k > wait+2*time.Second {
		t.Violate("SendWithRetry (%d times, %v): gives up after %v, not %v", tries, delay, d, wait)
	}
	w.settle()
	// Connected in the meantime.
	if wait < 20*time.Millisecond {
		a.connect(b)
		a.peers = []string{"b"}
	} else {
		t.Go(func() {
			time.Sleep(time.Duration(t.Intn(int(wait / 2))))
			a.connect(b)
		})
	}
	m, uid := w.msg(t, "vote")
	s := &sentMsg{uid: uid, m: m, from: a, to: map[*node]bool{b: true}}
	s.m.To = "b"
	w.sent[uid] = s
	ok := a.SendWithRetry("b", &m) == nil
	until(patience, func() bool { return len(a.GetPeers()) == 1 })
	a.peers = []string{"b"}
	if !ok { // connecting took its time
		delete(w.sent, uid)
	} else {
		a.nsent++
	}
	w.settle()
	if ok {
		count("sent at a later try", 1)
	}
	// And while it waits, the others go on.
	t.Par(patience, "sending while another Send waits", func() {
		if a.SendWithRetry("nobody", &networking.Message{Type: "vote"}) == nil {
			t.Violate("SendWithRetry to nobody succeeds")
		}
	}, func() {
		for i := 0; i < 10; i++ {
			w.direct(a, b, t, "vote")
		}
	})
	w.settle()
	t.Key("retry", cfg.MaxRetries, cfg.RetryDelay.Milliseconds(), ok)
}

// busy19 counts the goroutines of the nodes.
func (t *T) busy19() int {
	most := 0
	for i := 0; i < 8; i++ {
		most = max(most, total(t.libGoroutines()))
		time.Sleep(5 * time.Millisecond)
	}
	return most
}

// quiet19: no more of them are left.
func (t *T) quiet19(base int, what string) {
	var left []string
	if !until(patience, func() bool { left = t.libGoroutines(); return total(left) <= base }) {
		t.Violate("%s leaves goroutines behind: %d, before it %d: %.2000s", what, total(left), base, strings.Join(left, "\n\n"))
	}
	count("goroutine censuses", 1)
}

// c19Failed: connecting to nobody leaves nothing.
func c19Failed(t *T) {
	w := &net19{t: t, ns: t.nodes(2), sent: map[string]*sentMsg{}}
	a, b := w.ns[0], w.ns[1]
	half := t.idx%3 == 1
	port := a.port + 600
	if half { // only the publisher answers
		pub := t.Sock(zmq4.Pub)
		t.bind(pub, fmt.Sprintf("tcp://%s:%d", t.ip, port))
	}
	base := t.busy19()
	var err error
	if !t.Done(patience, func() { err = a.ConnectPeer("ghost", port) }) {
		t.Violate("ConnectPeer to nobody does not return")
	}
	if err == nil {
		t.Violate("ConnectPeer to nobody succeeds")
	}
	a.checkPeers()
	m := networking.Message{Type: "vote"}
	if a.Send("ghost", &m) == nil {
		t.Violate("Send to a node that could not be connected succeeds")
	}
	a.DisconnectPeer("ghost")
	t.quiet19(base, "a failed ConnectPeer")
	// now it is there
	if !half {
		g := t.node("ghost", port)
		w.ns = append(w.ns, g)
		g.register("vote", 5)
		a.connect(g)
		a.peers = append(a.peers, "ghost")
	}
	// connections come and go
	base = t.busy19()
	for i := 0; i < 1+t.Intn(3); i++ {
		a.connect(b)
		t.Within(patience, "DisconnectPeer", func() { a.DisconnectPeer(b.id) })
	}
	t.quiet19(base, "DisconnectPeer")
	a.connect(b)
	a.peers = append(a.peers, b.id)
	b.connect(a)
	b.peers = append(b.peers, a.id)
	a.register("vote", 1)
	b.register("block", 2)
	w.probe()
	w.traffic(20)
	w.settle()
	ps := a.GetPeers()
	sort.Strings(ps)
	t.Key("failed", half, len(ps))
}

// c19Restart: a node stops and another one takes its place at once. The
// others stay connected to it without doing anything.
func c19Restart(t *T) {
	w := &net19{t: t, ns: t.nodes(2 + t.Intn(2)), sent: map[string]*sentMsg{}}
	tag := 0
	for _, n := range w.ns {
		for _, typ := range bindTypes {
			if t.Chance(60) {
				tag++
				n.register(typ, tag)
			}
		}
	}
	join := func(n, p *node) {
		n.connect(p)
		n.peers = append(n.peers, p.id)
	}
	for _, n := range w.ns {
		for _, p := range w.ns {
			if n != p {
				join(n, p)
			}
		}
	}
	w.probe()
	w.traffic(10)
	w.settle()
	for round := 0; round < 1+t.Intn(2); round++ {
		k := t.Intn(len(w.ns))
		old := w.ns[k]
		time.Sleep(time.Duration(t.Intn(300)) * time.Millisecond)
		start := time.Now()
		old.stop()
		var a *node
		for {
			a = t.unstarted(networking.Config{NodeID: old.id, BasePort: old.port, BindAddress: t.ip, MaxRetries: 2})
			if a.Start() == nil {
				break
			}
			if time.Since(start) > time.Second {
				t.Skip("ports taken")
				return
			}
			time.Sleep(10 * time.Millisecond)
		}
		if time.Since(start) > time.Second {
			t.Skip("the others may have given up")
			return
		}
		w.ns[k] = a
		for typ := range old.tags {
			if typ != "probe" {
				tag++
				a.register(typ, tag)
			}
		}
		for _, p := range w.ns {
			if p != a && t.Chance(70) {
				join(a, p)
			}
		}
		// Messages reach it again.
		for _, p := range w.ns {
			if !p.knows(a.id) {
				continue
			}
			t.Until(patience, fmt.Sprintf("messages of node %q reach %q, which was started anew", p.id, a.id), func() bool {
				m, uid := w.msg(t, "probe")
				w.mu.Lock()
				w.sent[uid] = &sentMsg{uid: uid, m: m, from: p, to: map[*node]bool{a: true}}
				w.mu.Unlock()
				var err error
				if !t.Done(patience, func() { err = p.Send(a.id, &m) }) {
					t.Violate("node %q: Send to %q, which was started anew, does not return", p.id, a.id)
				}
				if err == nil {
					p.add(&p.nsent)
				}
				return until(50*time.Millisecond, func() bool { return a.heardProbe(`"` + uid) })
			})
		}
		w.probe()
		w.traffic(20)
		w.settle()
		count("restarts", 1)
		t.Key("restart", len(w.ns), round, len(a.peers))
	}
}

// c19Same: the same content again is another message.
func c19Same(t *T) {
	w := &net19{t: t, ns: t.nodes(2), sent: map[string]*sentMsg{}}
	a, b := w.ns[0], w.ns[1]
	a.connect(b)
	a.peers = append(a.peers, b.id)
	b.connect(a)
	b.peers = append(b.peers, a.id)
	w.probe()
	content := []networking.Message{
		{Type: "same", Data: json.RawMessage("1")},
		{Type: "same", Data: json.RawMessage("1"), Height: 1},
		{Type: "same"},
		{Type: "same", Data: json.RawMessage(`"x"`), Round: 2, SessionID: []byte("s")},
	}
	count1 := func(m *networking.Message) string {
		return fmt.Sprintf("data %s height %d round %d session %q", m.Data, m.Height, m.Round, m.SessionID)
	}
	got := map[string]int{}
	var mu sync.Mutex
	b.RegisterHandler("same", func(m *networking.Message) {
		mu.Lock()
		got[count1(m)]++
		mu.Unlock()
	})
	want := map[string]int{}
	n := 20 + t.Intn(200)
	cur := 0
	for i := 0; i < n; i++ {
		if t.Chance(30) {
			cur = t.Intn(len(content))
		}
		m := content[cur]
		var err error
		if t.Bool() {
			err = a.Send(b.id, &m)
		} else {
			err = a.Broadcast(&m)
		}
		if err != nil {
			t.Violate("node %q: sending: %v", a.id, err)
		}
		want[count1(&m)]++
	}
	same := func() (ok, over bool) {
		mu.Lock()
		defer mu.Unlock()
		ok = true
		for k, n := range want {
			if got[k] < n {
				ok = false
			}
			if got[k] > n {
				over = true
			}
		}
		return ok, over
	}
	if !until(patience, func() bool { ok, _ := same(); return ok }) {
		t.Violate("node %q sent equal messages %v, and the handler of %q got %v", a.id, want, b.id, got)
	}
	settle()
	if _, over := same(); over {
		t.Violate("node %q sent equal messages %v, and the handler of %q got %v", a.id, want, b.id, got)
	}
	count("equal messages", int64(n))
	t.Key("same", n)
}

func init() {
	register(&check{
		id:     "C19",
		rule:   "executions run two to five transports on addresses of their own through phases: each changes its peers (repeatedly, concurrently, itself included) and handlers, then all broadcast and send at once with stray and malformed input on their ports; every handler call is compared with the messages sent, and the counters with both, at the end of each phase; other executions publish anything from a fake peer, call Stop at some moment of such use and then reuse the ports, take ports beforehand, connect to nobody, and time the retries; distinct cases are (nodes, connections, phase), (how stopped, busy, peer gone), (retries, delay)",
		assume: []string{"broadcasts stay below the send queue of the publisher (1000)", "node ids differ", "data is compared as JSON values: json.Marshal may rewrite its text", "a peer that connected to us may send to us though we disconnected from it: there is one connection per direction", "the same Message value is not sent twice at once"},
		need:   map[string]int64{"equal messages": 300, "messages received": 5000, "malformed": 200, "stops": 20, "phases": 80, "restarts": 10},
		scenarios: func() []scenario {
			return []scenario{
				{"nodes", 150, 1200, labelled(c19Nodes)},
				{"fake", 24, 300, c19Fake},
				{"stop", 100, 800, labelled(c19Stop)},
				{"ports", 8, 80, labelled(c19Ports)},
				{"retry", 24, 200, c19Retry},
				{"failed", 6, 60, labelled(c19Failed)},
				{"same", 10, 150, labelled(c19Same)},
				{"restart", 16, 200, labelled(c19Restart)},
			}
		},
	})
}
