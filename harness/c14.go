package main

import (
	"fmt"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/security/plain"
)

// c14party is a socket used by many goroutines at once.
type c14party struct {
	*Sock
	t     *T
	name  string
	wg    sync.WaitGroup
	seq   atomic.Int64
	calls atomic.Int64
	busy  sync.Map // goroutine -> call in progress
	n     int

	listens atomic.Value
}

// where the socket listens, having been made to by fiddle.
func (p *c14party) where() string {
	if !until(patience, func() bool { return p.listens.Load() != nil }) {
		p.t.Violate("%s: Listen fails, and no other one succeeded", p.typ)
	}
	return p.listens.Load().(string)
}

// in notes the call in progress, for the report on a deadlock.
func (p *c14party) in(g int, what string, f func()) {
	p.busy.Store(g, what)
	f()
	p.busy.Delete(g)
	p.calls.Add(1)
}

func (p *c14party) stuck() string {
	var o []string
	p.busy.Range(func(k, v any) bool { o = append(o, fmt.Sprint(v)); return true })
	return strings.Join(o, ", ")
}

func (p *c14party) loop(what string, f func() error) {
	p.n++
	g := p.n
	p.wg.Add(1)
	p.t.Go(func() {
		defer p.wg.Done()
		for i := 0; ; i++ {
			closing := p.closing() // before the call
			var err error
			p.in(g, what, func() { err = f() })
			if closing || p.t.dead.Load() {
				return
			}
			if err != nil {
				time.Sleep(time.Duration(50+p.t.Intn(400)) * time.Microsecond)
			}
			if i > 20000 {
				return
			}
		}
	})
}

// whole: what is received has to be something that was sent.
func (p *c14party) whole(fs [][]byte) {
	if len(fs) == 1 && len(fs[0]) > 0 && fs[0][0] <= 1 {
		return // a subscription
	}
	for i := 0; i < 4 && i < len(fs); i++ {
		if _, err := ckMsg(fs[i:]); err == nil {
			count("messages received", 1)
			return
		}
	}
	p.t.Violate("%s (%s) received a message that is not whole: %s", p.name, p.typ, show(fs))
}

func (p *c14party) msg() [][]byte {
	return mkMsg(p.name, 0, int(p.seq.Add(1)), shape{4, 400})
}

// drive starts the goroutines that use the socket. ids gives the peers a
// ROUTER may know.
func (p *c14party) drive(k int, ids func() []string) {
	t, s := p.t, p.Sock
	switch s.typ {
	case zmq4.Req:
		p.loop("Send+Recv", func() error {
			if err := s.put(t.Bool(), p.msg()...); err != nil {
				return err
			}
			m, err := s.Recv()
			if err == nil {
				p.whole(m.Frames)
			}
			return err
		})
	case zmq4.Rep:
		p.loop("Recv+Send", func() error {
			m, err := s.Recv()
			if err != nil {
				return err
			}
			p.whole(m.Frames)
			return s.put(t.Bool(), p.msg()...)
		})
	default:
		for i := 0; i < k; i++ {
			if s.typ != zmq4.Pull && s.typ != zmq4.Sub {
				p.loop("Send", func() error {
					fs := p.msg()
					switch s.typ {
					case zmq4.Router:
						l := ids()
						if len(l) == 0 {
							return fmt.Errorf("nobody")
						}
						fs = append([][]byte{[]byte(l[t.Intn(len(l))])}, fs...)
					case zmq4.XSub:
						if t.Chance(30) {
							fs = [][]byte{[]byte(pick(t, "\x01", "\x00") + pick(t, "", "s", "p0"))}
						}
					}
					err := s.put(t.Bool(), fs...)
					time.Sleep(time.Duration(t.Intn(300)) * time.Microsecond)
					return err
				})
			}
			if receives(s.typ) {
				p.loop("Recv", func() error {
					m, err := s.Recv()
					if err == nil {
						p.whole(m.Frames)
					}
					return err
				})
			}
		}
	}
	if s.typ == zmq4.Sub || s.typ == zmq4.XSub {
		p.subscribe("")
	}
}

func (p *c14party) subscribe(topic string) {
	if p.typ == zmq4.Sub {
		_ = p.SetOption(zmq4.OptionSubscribe, topic)
	} else {
		_ = p.put(false, []byte("\x01"+topic))
	}
}

// fiddle calls everything else there is to call.
func (p *c14party) fiddle(eps func() []string) {
	t, s := p.t, p.Sock
	ops := []struct {
		name string
		f    func() error
	}{
		{"GetOption", func() error {
			_, err := s.GetOption(pick(t, zmq4.OptionSubscribe, zmq4.OptionUnsubscribe, zmq4.OptionHWM, "x"))
			return err
		}},
		{"SetOption", func() error {
			switch s.typ {
			case zmq4.Sub:
				return s.SetOption(pick(t, zmq4.OptionSubscribe, zmq4.OptionUnsubscribe), pick(t, "a", "s", "", "p1", "zz"))
			case zmq4.Pub, zmq4.XPub:
				return s.SetOption(zmq4.OptionHWM, pick(t, 1, 10, 1000))
			}
			return s.SetOption(pick(t, "x", "y"), t.Intn(10))
		}},
		{"Addr", func() error {
			if a := s.Addr(); a != nil {
				_ = a.String()
			}
			return nil
		}},
		{"Type", func() error { _ = s.Type(); return nil }},
		{"Topics", func() error {
			if tp, ok := s.Socket.(zmq4.Topics); ok {
				_ = tp.Topics()
			}
			return nil
		}},
		{"Listen", func() error {
			ep := t.fresh(pick(t, "inproc", "vmem"))
			err := s.Listen(ep)
			if err == nil {
				p.listens.Store(ep)
			}
			return err
		}},
		{"Dial", func() error {
			l := eps()
			if len(l) == 0 || t.Chance(70) {
				return fmt.Errorf("no")
			}
			return s.Dial(l[t.Intn(len(l))])
		}},
	}
	for _, o := range ops {
		p.loop(o.name, func() error {
			time.Sleep(time.Duration(t.Intn(500)) * time.Microsecond)
			return o.f()
		})
	}
}

func (p *c14party) end() {
	p.shut()
	ch := make(chan struct{})
	go func() { p.wg.Wait(); close(ch) }()
	if !waitCh(ch, 2*patience) {
		p.t.Violate("%s (%s): calls that do not return after Close: %s", p.name, p.typ, p.stuck())
	}
	count("concurrent calls", p.calls.Load())
}

// c14Stress: one socket, many goroutines, peers that come and go.
func c14Stress(t *T) {
	typ := zmtpTypes[t.idx%11]
	tr := transports[(t.idx/11+t.idx)%5]
	opts := func() []zmq4.Option {
		o := []zmq4.Option{zmq4.WithTimeout(40 * time.Millisecond), zmq4.WithDialerRetry(time.Millisecond), zmq4.WithDialerMaxRetries(2)}
		if t.idx%4 == 1 {
			o = append(o, zmq4.WithSecurity(plain.Security("user", "pass")))
		}
		return o
	}
	hub := &c14party{Sock: t.Sock(typ, append(opts(), zmq4.WithID(zmq4.SocketIdentity("hub")))...), t: t, name: "hub"}
	var (
		mu   sync.Mutex
		eps  []string
		ids  []string
		nsub = atomic.Int64{}
	)
	getEps := func() []string { mu.Lock(); defer mu.Unlock(); return append([]string(nil), eps...) }
	getIds := func() []string { mu.Lock(); defer mu.Unlock(); return append([]string(nil), ids...) }
	hub.drive(1+t.Intn(3), getIds)
	hub.fiddle(getEps)
	ep := t.fresh(tr) // unless one of the others listens first
	if err := hub.Listen(ep); err != nil {
		tr, ep = "", hub.where()
	} else if tr == "tcp" || tr == "chaos" {
		ep = tr + "://" + hub.Addr().String()
	}
	var stop atomic.Bool
	var fs []func()
	for c := 0; c < 3; c++ {
		fs = append(fs, func() {
			for round := 0; round < 3 && !stop.Load(); round++ {
				if t.Chance(15) { // a peer that breaks the rules
					_, _ = hosts.Load("")
					r := t.connectTo(ep)
					_ = r.write(cat(greetingBytes("NULL", 0), command("READY", props("Socket-Type", t.rawPeer(typ))), []byte(pick(t, "", "\x00", "\x04\x00", "\xff\xff"))))
					_ = r.c.Close()
					continue
				}
				name := fmt.Sprintf("p%d", nsub.Add(1))
				var ptyp zmq4.SocketType
				for { // one that answers, if it has to
					ptyp = compatible(t, typ)
					if typ == zmq4.Req && ptyp != zmq4.Rep || typ == zmq4.Rep && ptyp != zmq4.Req || ptyp == zmq4.Rep && typ != zmq4.Req || ptyp == zmq4.Req && typ != zmq4.Rep {
						continue
					}
					break
				}
				p := &c14party{Sock: t.Sock(ptyp, append(opts(), zmq4.WithID(zmq4.SocketIdentity(name)))...), t: t, name: name}
				mu.Lock()
				ids = append(ids, name)
				mu.Unlock()
				own := t.bind(p.Sock, t.fresh(pick(t, "inproc", "vmem", "tcp", "ipc")))
				mu.Lock()
				eps = append(eps, own)
				if len(eps) > 4 {
					eps = eps[1:]
				}
				mu.Unlock()
				p.drive(1, func() []string { return []string{"hub"} })
				if t.Bool() {
					p.fiddle(func() []string { return nil })
				}
				if t.Chance(70) {
					_ = p.Dial(ep)
				}
				until(time.Duration(10+t.Intn(40))*time.Millisecond, stop.Load)
				p.end()
				count("peers that came and went", 1)
			}
		})
	}
	early := t.Chance(40)
	if early {
		fs = append(fs, func() {
			until(time.Duration(t.Intn(80))*time.Millisecond, func() bool { return false })
			stop.Store(true)
			if t.Bool() {
				hub.cancel()
			}
			hub.end()
		})
	}
	t.Par(2*time.Minute, fmt.Sprintf("%s over %s under stress", typ, tr), fs...)
	hub.end()
	t.Log("%s at %s: %d calls on one socket, %d peers", typ, ep, hub.calls.Load(), nsub.Load())
	t.Key("stress", typ, ep[:4], early)
}

// c14Mesh: sockets of all kinds connected to each other in both directions,
// closed in any order while in use.
func c14Mesh(t *T) {
	kinds := [][2]zmq4.SocketType{{zmq4.Pub, zmq4.Sub}, {zmq4.XPub, zmq4.XSub}, {zmq4.Dealer, zmq4.Router}, {zmq4.Push, zmq4.Pull}, {zmq4.Router, zmq4.Router}, {zmq4.Dealer, zmq4.Dealer}, {zmq4.XPub, zmq4.Sub}}
	k := kinds[t.idx%len(kinds)]
	tr := transports[(t.idx/len(kinds)+t.idx)%5]
	var as, bs []*c14party
	var aeps, beps []string
	mk := func(typ zmq4.SocketType, i int, c string) (*c14party, string) {
		name := fmt.Sprint(c, i)
		p := &c14party{Sock: t.Sock(typ, zmq4.WithTimeout(40*time.Millisecond), zmq4.WithDialerRetry(time.Millisecond), zmq4.WithID(zmq4.SocketIdentity(name))), t: t, name: name}
		return p, t.bind(p.Sock, t.fresh(tr))
	}
	n := 2 + t.Intn(2)
	for i := 0; i < n; i++ {
		a, e := mk(k[0], i, "a")
		as, aeps = append(as, a), append(aeps, e)
		b, e := mk(k[1], i, "b")
		bs, beps = append(bs, b), append(beps, e)
	}
	names := func(ps []*c14party) func() []string {
		var o []string
		for _, p := range ps {
			o = append(o, p.name)
		}
		return func() []string { return o }
	}
	var fs []func()
	for i := 0; i < n; i++ {
		a, b := as[i], bs[i]
		a.drive(2, names(bs))
		b.drive(2, names(as))
		fs = append(fs, func() {
			for _, j := range t.Perm(n) {
				_ = a.Dial(beps[j])
			}
		}, func() {
			for _, j := range t.Perm(n) {
				if t.Bool() {
					_ = b.Dial(aeps[j])
				}
			}
		})
	}
	t.Par(time.Minute, "connecting", fs...)
	until(time.Duration(10+t.Intn(50))*time.Millisecond, func() bool { return false })
	fs = nil
	for _, p := range append(as, bs...) {
		fs = append(fs, func() {
			until(time.Duration(t.Intn(20))*time.Millisecond, func() bool { return false })
			p.end()
		})
	}
	t.Par(2*time.Minute, "closing", fs...)
	t.Key("mesh", k, tr, n)
}

// c14Registry: transports are registered while others are in use.
func c14Registry(t *T) {
	base := fmt.Sprintf("r%d-%d", seed, t.idx)
	const n = 12
	var fs []func()
	var last [n]atomic.Int32 // how many of each have been taken
	for g := 0; g < 3; g++ {
		order := t.Perm(n)
		fs = append(fs, func() {
			for _, i := range order {
				if zmq4.RegisterTransport(fmt.Sprint(base, ".", i), vmem{}) == nil {
					last[i].Add(1)
				}
			}
		}, func() {
			for _, i := range order {
				name := fmt.Sprint(base, ".", i)
				xs := zmq4.Transports()
				for _, x := range []string{"tcp", "ipc", "inproc"} {
					if !slices.Contains(xs, x) {
						t.Violate("Transports does not name %s: %q", x, xs)
					}
				}
				s := t.Sock(zmq4.Pull, zmq4.WithAutomaticReconnect(false))
				c := t.Sock(zmq4.Push, zmq4.WithAutomaticReconnect(false), zmq4.WithDialerMaxRetries(0))
				ep := name + "://" + t.Host().name
				if s.Listen(ep) == nil && c.Dial(ep) == nil {
					t.oneWay(c, s, "a transport just registered")
				} else {
					ep = t.bind(s, t.fresh("inproc"))
					t.dial(c, ep)
					t.oneWay(c, s, "another transport")
				}
				_ = s.Close()
				_ = c.Close()
			}
		})
	}
	t.Par(time.Minute, "registering and using transports", fs...)
	for i := range last {
		if k := last[i].Load(); k != 1 {
			t.Violate("of three RegisterTransport with one name at once, %d succeed", k)
		}
	}
	count("concurrent registrations", 3*n)
	t.Key("registry", t.idx%4)
}

// borrowed runs the workload of another check, under the race detector;
// what its own monitors say is not this check's business.
func borrowed(name string, quick, full int, fn func(*T)) scenario {
	return scenario{"of " + name, quick, full, func(t *T) {
		t.foreign = true
		fn(t)
		t.Key("borrowed", name)
		count("borrowed workloads", 1)
	}}
}

func init() {
	register(&check{
		id:      "C14",
		rule:    "the library and the monitors are built with the race detector; executions call everything a socket offers from many goroutines while peers connect, break off and misbehave, on sockets of all types over all transports, with and without PLAIN, closed in the middle or at the end; workloads of the other checks run as well; distinct cases are socket type x transport x early close, meshes and borrowed workloads",
		assume:  []string{"a race is seen if the two accesses happen in one of the executions without synchronization in between", "REQ and REP are used by one goroutine at a time for Send and Recv"},
		workers: 6,
		need:    map[string]int64{"concurrent calls": 30000, "messages received": 2000, "peers that came and went": 200, "borrowed workloads": 60},
		scenarios: func() []scenario {
			return []scenario{
				{"stress", 55, 600, c14Stress},
				{"mesh", 14, 250, c14Mesh},
				{"registry", 8, 80, c14Registry},
				borrowed("C19 nodes", 6, 60, c19Nodes),
				borrowed("C19 stop", 20, 200, c19Stop),
				borrowed("C18 close", 20, 200, c18Close),
				borrowed("C22 race", 100, 1000, c22Race),
				borrowed("C22 several", 20, 200, c22Several),
				borrowed("C12 busy", 18, 200, c12Busy),
				borrowed("C12 ops", 33, 400, c12Ops),
				borrowed("C12 race", 10, 100, c12Race),
				borrowed("C06 several", 6, 100, c06Several),
				borrowed("C13 stall", 12, 100, c13Stall),
				borrowed("C13 broken", 5, 50, c13Broken),
				borrowed("C01 fan", 15, 100, c01Fan),
				borrowed("C02 topology", 20, 300, c02Topology),
				borrowed("C03 duplex", 20, 300, c03Duplex),
				borrowed("C04 history", 10, 200, c04History),
				borrowed("C04 churn", 8, 100, c04Churn),
				borrowed("C05 schedule", 10, 200, c05Schedule),
				borrowed("C05 vanish", 15, 200, c05Vanish),
				borrowed("C06 loss", 22, 200, c06Loss),
				borrowed("C07 proxy", 6, 100, c07Proxy),
				borrowed("C07 servers", 8, 100, c07Servers),
				borrowed("C08 churn", 6, 100, c08Churn),
			}
		},
	})
}
