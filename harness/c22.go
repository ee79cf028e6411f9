package main

import (
	"errors"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
)

// ---- names that could be taken for one another

// hostNamed is a vmem host of a given name.
func (t *T) hostNamed(name string) *host {
	h := &host{name: name, capac: 64 << 10}
	if _, dup := hosts.LoadOrStore(name, h); dup {
		return nil
	}
	t.Cleanup(func() { hosts.Delete(name) })
	return h
}

// family is a set of different end-points that look alike.
func (t *T) family(tr string) []string {
	base := fmt.Sprintf("n%d%s%d", os.Getpid(), t.name[:1], t.idx)
	var ns []string
	switch tr {
	case "ipc":
		for _, n := range []string{"s", "S", "ss", "sS", "s ", " s", "s0", "s00", "s.", "s.0", ".s", "s:0", "s:", "s*", "*", "0", "s\t", "s\\", "S ", "%73", "s%20", "é", "É", "s?x=1", "s#1", "~s", "-s", "s,s", "s;s", "\"s\""} {
			ns = append(ns, "ipc://"+filepath.Join(t.Dir(), n))
		}
		// names of the kernel's own
		ns = append(ns, "ipc://@"+base, "ipc://@"+strings.ToUpper(base), "ipc://@"+base+" ", "ipc://@"+base+"/")
	default:
		for _, n := range []string{"", "0", " ", ".", "/", "//", ":", ":0", ":*", "*", "\n", "\x00", "?", "#a", "%", "/..", "/.", base, "é"} {
			ns = append(ns, tr+"://"+base+n)
		}
		for _, n := range []string{" ", "/", "./", "*", "0.0.0.0:", "@", "~", "//", "%", "x", "\x00", "../"} {
			ns = append(ns, tr+"://"+n+base)
		}
		ns = append(ns, tr+"://"+strings.ToUpper(base), tr+"://"+strings.ToUpper(base[:1])+base[1:], tr+"://"+base[:len(base)-1]+"%"+fmt.Sprintf("%x", base[len(base)-1]))
	}
	if tr == "vmem" {
		for _, n := range ns {
			t.hostNamed(strings.TrimPrefix(n, "vmem://"))
		}
	}
	return ns
}

// answerer is a listening socket that tells who it is.
type answerer struct {
	s   *Sock
	ep  string
	box *inbox
	got atomic.Int64
}

var pairs22 = [][2]zmq4.SocketType{
	{zmq4.Req, zmq4.Rep}, {zmq4.Push, zmq4.Pull}, {zmq4.Dealer, zmq4.Router}, {zmq4.Pair, zmq4.Pair},
	{zmq4.Dealer, zmq4.Dealer}, {zmq4.Req, zmq4.Router}, {zmq4.Pub, zmq4.Sub}, {zmq4.XPub, zmq4.Sub},
}

// answer makes a socket listen.
func (t *T) answer(typ zmq4.SocketType, ep string) *answerer {
	a := &answerer{s: t.Sock(typ)}
	a.ep = t.bind(a.s, ep)
	t.serve(a)
	return a
}

func (t *T) serve(a *answerer) {
	s := a.s
	if s.typ == zmq4.Sub {
		if err := s.SetOption(zmq4.OptionSubscribe, ""); err != nil {
			t.Violate("SUB: Subscribe: %v", err)
		}
	}
	if s.typ != zmq4.Rep {
		a.box = t.pump(s)
		return
	}
	a.box = t.pumpWith(s, nil, func(m [][]byte) { _ = s.put(false, append([][]byte{[]byte(a.ep)}, m...)...) })
}

// reached tells which of the listeners a socket that dials the end-point
// reaches; nil, if Dial fails.
func (t *T) reached(typ zmq4.SocketType, all []*answerer, ep, what string) *answerer {
	c := t.Sock(typ, zmq4.WithDialerMaxRetries(0), zmq4.WithAutomaticReconnect(false))
	defer c.shut()
	var err error
	t.Within(patience, what+": Dial of "+ep, func() { err = c.Dial(ep) })
	if err != nil {
		return nil
	}
	tag := fmt.Sprintf("t%d", seqNo.Add(1))
	if typ == zmq4.Pub || typ == zmq4.XPub {
		// It may be late to know what is wanted.
		t.Until(patience, what+": subscription", func() bool { return hasTopic(c, "") })
	}
	t.sendReq(c, []byte(tag))
	var hit *answerer
	if !until(patience, func() bool {
		for _, a := range all {
			for _, m := range a.box.all() {
				if len(m) > 0 && string(m[len(m)-1]) == tag {
					hit = a
					return true
				}
			}
		}
		return false
	}) {
		t.Violate("%s: Dial of %q succeeds, but what is sent arrives at none of the listeners", what, ep)
	}
	if hit.s.typ == zmq4.Rep {
		if m := t.recv(c); len(m) != 2 || string(m[0]) != hit.ep || string(m[1]) != tag {
			t.Violate("%s: %q answers %s", what, ep, show(m))
		}
	}
	count("end-points reached", 1)
	return hit
}

var seqNo atomic.Int64

// c22Names: sockets listen on some of a family of names.
func c22Names(t *T) {
	tr := []string{"ipc", "inproc", "vmem"}[t.idx%3]
	p := pairs22[(t.idx/3)%len(pairs22)]
	ns := t.family(tr)
	if t.Chance(40) { // the same names elsewhere
		other := pick(t, "inproc", "vmem")
		for _, n := range append([]string(nil), ns...) {
			_, name, _ := strings.Cut(n, "://")
			if n2 := other + "://" + name; other != tr {
				ns = append(ns, n2)
				if other == "vmem" {
					t.hostNamed(name)
				}
			}
		}
	}
	var all []*answerer
	at := map[string]*answerer{}
	order := t.Perm(len(ns))
	n := 4 + t.Intn(12)
	for _, i := range order[:n] {
		a := t.answer(p[1], ns[i])
		all = append(all, a)
		at[ns[i]] = a
		t.addrOf(a.s, ns[i])
	}
	what := fmt.Sprintf("%s to %s over %s", p[0], p[1], tr)
	check := func(ep string) {
		got := t.reached(p[0], all, ep, what)
		want := at[ep]
		switch {
		case got == nil && want != nil:
			t.Violate("%s: cannot dial %q though a socket listens there", what, ep)
		case got != nil && want == nil:
			t.Violate("%s: nobody listens on %q, but Dial succeeds, and reaches the socket on %q", what, ep, got.ep)
		case got != want:
			t.Violate("%s: Dial of %q reaches the socket on %q", what, ep, got.ep)
		}
		if want == nil {
			count("end-points with no listener", 1)
		}
	}
	some := func(k int) {
		for _, i := range t.Perm(len(ns))[:k] {
			check(ns[i])
		}
	}
	for _, i := range order[:n] {
		check(ns[i])
	}
	some(len(ns) / 2)
	for round := 0; round < 4; round++ {
		ep := ns[order[t.Intn(n)]]
		if a := at[ep]; a != nil {
			// taken
			b := t.Sock(p[1])
			if err := b.Listen(ep); err == nil {
				t.Violate("%s: two sockets listen on %q", what, ep)
			}
			if b.Addr() != nil {
				t.Violate("%s: has the address %v though Listen failed", what, b.Addr())
			}
			b.shut()
			check(ep)
			// given up
			a.s.shut()
			delete(at, ep)
			check(ep)
			some(3)
		}
		if at[ep] == nil && t.Bool() {
			a := t.answer(p[1], ep)
			all = append(all, a)
			at[ep] = a
			check(ep)
		}
		some(2)
	}
	t.Key("names", tr, p, bucket(n))
}

// addrOf checks what a listening socket says of its address.
func (t *T) addrOf(s *Sock, ep string) {
	tr, name, _ := strings.Cut(ep, "://")
	a := s.Addr()
	if a == nil {
		t.Violate("%s: no address after Listen on %q", s.typ, ep)
	}
	want := map[string]string{"ipc": "unix", "chaos": "tcp"}[tr]
	if want == "" {
		want = tr
	}
	if a.Network() != want {
		t.Violate("%s: network %q after Listen on %q", s.typ, a.Network(), ep)
	}
	if tr != "tcp" && tr != "chaos" && a.String() != name {
		t.Violate("%s: address %q after Listen on %q", s.typ, a, ep)
	}
	count("addresses", 1)
}

// ---- TCP

var has6 = func() bool {
	l, err := net.Listen("tcp", "[::1]:0")
	if err == nil {
		_ = l.Close()
	}
	return err == nil
}()

var hasLocalhost = func() bool {
	as, err := net.LookupHost("localhost")
	return err == nil && len(as) > 0 && as[0] == "127.0.0.1"
}()

// freePort is a port that was free a moment ago.
func freePort(host string) (int, error) {
	l, err := net.Listen("tcp", net.JoinHostPort(host, "0"))
	if err != nil {
		return 0, err
	}
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port, nil
}

// c22TCP: hosts and ports in all the forms there are.
func c22TCP(t *T) {
	typ := zmtpTypes[t.idx%len(zmtpTypes)]
	type form struct {
		host string
		ip   string   // what the address has to be
		via  []string // where it has to be reached
		not  []string // where it must not
	}
	other := "127.9." + t.ip[strings.Index(t.ip, ".")+1:][strings.Index(t.ip[4:], ".")+1:]
	if net.ParseIP(other) == nil {
		other = "127.9.8.7"
	}
	every := []string{"127.0.0.1", t.ip, other}
	forms := []form{
		{"*", "0.0.0.0", every, nil},
		{"", "0.0.0.0", every, nil},
		{"0.0.0.0", "0.0.0.0", every, nil},
		{t.ip, t.ip, []string{t.ip}, []string{"127.0.0.1", other}},
		{"127.0.0.1", "127.0.0.1", []string{"127.0.0.1"}, []string{t.ip, other}},
	}
	if hasLocalhost {
		forms = append(forms, form{"localhost", "127.0.0.1", []string{"127.0.0.1", "localhost"}, []string{t.ip}})
	}
	if has6 {
		forms = append(forms, form{"[::1]", "::1", []string{"[::1]"}, []string{t.ip}}, form{"[::]", "::", []string{"[::1]"}, nil})
	}
	f := forms[(t.idx/len(zmtpTypes)+t.idx)%len(forms)]
	port := []string{"0", "*", "", "explicit"}[(t.idx/3)%4]
	s := t.Sock(typ)
	if s.Addr() != nil {
		t.Violate("%s: has the address %v, but does not listen", typ, s.Addr())
	}
	var ep string
	explicit := 0
	for try := 0; ; try++ {
		pt := port
		if port == "explicit" {
			host := strings.Trim(f.host, "[]")
			if host == "*" {
				host = ""
			}
			n, err := freePort(host)
			if err != nil {
				t.Skip("%v", err)
			}
			explicit = n
			pt = fmt.Sprint(n)
		}
		ep = "tcp://" + f.host + ":" + pt
		var err error
		t.Within(patience, "Listen", func() { err = s.Listen(ep) })
		if err == nil {
			break
		}
		if port != "explicit" || !errors.Is(err, syscall.EADDRINUSE) || try > 20 {
			t.Violate("%s: Listen on %q: %v", typ, ep, err)
		}
	}
	t.addrOf(s, ep)
	a, ok := s.Addr().(*net.TCPAddr)
	if !ok {
		t.Violate("%s: address of type %T after Listen on %q", typ, s.Addr(), ep)
	}
	if a.Port == 0 || explicit != 0 && a.Port != explicit {
		t.Violate("%s: port %d after Listen on %q", typ, a.Port, ep)
	}
	// (There is one wildcard for both families.)
	if want := net.ParseIP(f.ip); !a.IP.Equal(want) && !(a.IP.IsUnspecified() && want.IsUnspecified()) {
		t.Violate("%s: address %v after Listen on %q", typ, a, ep)
	}
	k := t.talk(s)
	for _, h := range f.via {
		// a raw peer
		e := fmt.Sprintf("tcp://%s:%d", h, a.Port)
		c, err := net.DialTimeout("tcp", strings.TrimPrefix(e, "tcp://"), patience)
		if err != nil {
			t.Violate("%s listening on %q (%v) is not reached at %s: %v", typ, ep, a, e, err)
		}
		r := t.raw(c).mustNull(t.rawPeer(typ), "")
		k.exchange(r, fmt.Sprintf("listening on %q, reached at %s", ep, e))
		// a socket
		d := t.Sock(compatible(t, typ), zmq4.WithDialerMaxRetries(0), zmq4.WithAutomaticReconnect(false))
		t.dial(d, e)
		d.shut()
		count("end-points reached", 1)
		if typ == zmq4.Rep || typ == zmq4.Req {
			break
		}
		_ = r.c.Close()
	}
	for _, h := range f.not {
		d := t.Sock(compatible(t, typ), zmq4.WithDialerMaxRetries(0))
		e := fmt.Sprintf("tcp://%s:%d", h, a.Port)
		ch := make(chan error, 1)
		go func() { ch <- d.Dial(e) }()
		var err error
		t.Within(patience, "Dial", func() { err = <-ch })
		if err == nil {
			t.Violate("%s listens on %q only (%v), but Dial of %s succeeds", typ, ep, a, e)
		}
		d.shut()
		count("end-points with no listener", 1)
	}
	// the port is taken
	b := t.Sock(typ)
	e := "tcp://" + a.String()
	if err := b.Listen(e); err == nil {
		t.Violate("%s: two sockets listen on %s", typ, e)
	}
	if err := s.Listen("tcp://" + t.ip + ":0"); err == nil {
		t.Violate("%s: one socket listens twice", typ)
	}
	if x := s.Addr(); x == nil || x.String() != a.String() {
		t.Violate("%s: address %v, it was %v before another Listen failed", typ, x, a)
	}
	// others get ports of their own
	seen := map[string]bool{a.String(): true}
	for i := 0; i < 4; i++ {
		o := t.Sock(typ)
		t.bind(o, "tcp://"+strings.TrimSuffix(f.host, "/")+":"+pick(t, "0", "*", ""))
		if seen[o.Addr().String()] {
			t.Violate("%s: two sockets listen on %v", typ, o.Addr())
		}
		seen[o.Addr().String()] = true
	}
	s.shut()
	// free again
	var err error
	c := t.Sock(typ)
	until(patience, func() bool { err = c.Listen(e); return err == nil })
	if err != nil && !errors.Is(err, syscall.EADDRINUSE) { // may have been taken
		t.Violate("%s: Listen on %s after the one that had it was closed: %v", typ, e, err)
	}
	t.Key("tcp", typ, f.host, port)
}

// c22Race: who comes first has it.
func c22Race(t *T) {
	tr := []string{"inproc", "ipc", "vmem", "tcp"}[t.idx%4]
	p := pairs22[(t.idx/4)%len(pairs22)]
	what := fmt.Sprintf("%s over %s", p[1], tr)
	if (t.idx/8)%2 == 0 { // many sockets, one end-point
		ep := t.fresh(tr)
		if tr == "tcp" {
			n, err := freePort(t.ip)
			if err != nil {
				t.Skip("%v", err)
			}
			ep = fmt.Sprintf("tcp://%s:%d", t.ip, n)
		}
		for round := 0; round < 4; round++ {
			n := 2 + t.Intn(6)
			ss := make([]*Sock, n)
			errs := make([]error, n)
			var fs []func()
			for i := range ss {
				i := i
				ss[i] = t.Sock(p[1])
				fs = append(fs, func() { errs[i] = ss[i].Listen(ep) })
			}
			t.Par(patience, "Listen on "+ep, fs...)
			var a *answerer
			for i, err := range errs {
				if err != nil {
					if ss[i].Addr() != nil {
						t.Violate("%s: has the address %v though Listen failed", what, ss[i].Addr())
					}
					continue
				}
				if a != nil {
					t.Violate("%s: two of %d sockets that listen on %s at the same time succeed", what, n, ep)
				}
				a = &answerer{s: ss[i], ep: ep}
			}
			if a == nil {
				t.Violate("%s: none of %d sockets that listen on %s at the same time succeeds: %v", what, n, ep, errs[0])
			}
			for _, s := range ss {
				if s != a.s {
					s.shut()
				}
			}
			t.serve(a)
			if got := t.reached(p[0], []*answerer{a}, ep, what); got == nil {
				t.Violate("%s: cannot dial %s after %d sockets listened there at the same time", what, ep, n)
			}
			a.s.shut()
			count("races", 1)
		}
	} else { // one socket, many end-points
		s := t.Sock(p[1])
		n := 2 + t.Intn(5)
		eps := make([]string, n)
		errs := make([]error, n)
		var fs []func()
		for i := range eps {
			i := i
			eps[i] = t.fresh(pick(t, tr, "inproc", "ipc", "vmem"))
			fs = append(fs, func() { errs[i] = s.Listen(eps[i]) })
		}
		t.Par(patience, "Listen", fs...)
		a := &answerer{s: s}
		for i, err := range errs {
			if err == nil {
				if a.ep != "" {
					t.Violate("%s: one socket listens on both %s and %s", what, a.ep, eps[i])
				}
				a.ep = eps[i]
			}
		}
		if a.ep == "" {
			t.Violate("%s: none of %d Listens at the same time succeeds: %v", what, n, errs[0])
		}
		t.addrOf(s, a.ep)
		t.serve(a)
		for i, ep := range eps {
			if strings.HasPrefix(ep, "tcp://") {
				if errs[i] != nil {
					continue
				}
				ep = "tcp://" + s.Addr().String()
			}
			got := t.reached(p[0], []*answerer{a}, ep, what)
			if (got != nil) != (errs[i] == nil) {
				t.Violate("%s: Listen on %s: %v; but is it reached there? %v", what, ep, errs[i], got != nil)
			}
			if path := strings.TrimPrefix(ep, "ipc://"); path != ep && exists(path) != (errs[i] == nil) {
				t.Violate("%s: Listen on %s: %v; but is there a file? %v", what, ep, errs[i], exists(path))
			}
		}
		count("races", 1)
	}
	t.Key("race", tr, p, (t.idx/8)%2)
}

// c22Several: one socket dials several listeners.
func c22Several(t *T) {
	p := pairs22[t.idx%len(pairs22)]
	if p[0] == zmq4.Pair || p[0] == zmq4.Req {
		p = pairs22[1]
	}
	ns := t.family(pick(t, "ipc", "inproc", "vmem"))
	for i := 0; i < 4; i++ {
		ns = append(ns, t.fresh("tcp"), t.fresh("ipc"), t.fresh("inproc"), t.fresh("vmem"))
	}
	var all []*answerer
	c := t.Sock(p[0])
	for _, i := range t.Perm(len(ns))[:3+t.Intn(8)] {
		a := t.answer(p[1], ns[i])
		all = append(all, a)
		t.dial(c, a.ep)
	}
	if p[0] == zmq4.Pub || p[0] == zmq4.XPub {
		for i, a := range all { // to see that all of them are there
			for j := 0; j < 2; j++ { // the second comes after all others
				topic := fmt.Sprintf("topic%d/%d", i, j)
				if err := a.s.SetOption(zmq4.OptionSubscribe, topic); err != nil {
					t.Violate("SUB: Subscribe: %v", err)
				}
				t.Until(patience, "subscription", func() bool { return hasTopic(c, topic) })
			}
		}
		if n := len(topics(c)); n != 2*len(all)+1 {
			t.Violate("%s: %d topics of %d subscribers", p[0], n, len(all))
		}
	}
	const rounds = 3
	for i := 0; i < rounds*len(all); i++ {
		t.send(c, t.Bool(), []byte(fmt.Sprintf("topic-m%d", i)))
	}
	for _, a := range all {
		want := rounds
		if a.s.typ == zmq4.Sub {
			want *= len(all)
		}
		if !a.box.wait(want, patience) {
			t.Violate("%s to %d %s: %d of %d messages arrive at %q", p[0], len(all), p[1], a.box.n(), want, a.ep)
		}
	}
	time.Sleep(2 * time.Millisecond)
	for _, a := range all {
		if n := a.box.n(); a.s.typ != zmq4.Sub && n != rounds {
			t.Violate("%s to %d %s: %d messages arrive at %q, not %d", p[0], len(all), p[1], n, a.ep, rounds)
		}
		count("end-points reached", 1)
	}
	t.Key("several", p, len(all))
}

func init() {
	register(&check{
		id:     "C22",
		rule:   "executions make sockets listen on random members of families of similar end-points (ipc, inproc and a registered transport, the same names on several), dial members with and without a listener, and tell by messages whom they reached; listeners come, go and compete; TCP hosts and ports in all forms, reached at each address they stand for and at no other; distinct cases are transport, socket types, form of host and port, and number of listeners",
		assume: []string{"the kernel's own naming rules for TCP addresses and ipc paths are taken as they are"},
		need:   map[string]int64{"end-points reached": 5000, "end-points with no listener": 5000, "addresses": 2000, "races": 300},
		scenarios: func() []scenario {
			return []scenario{
				{"names", 432, 6000, c22Names},
				{"tcp", 528, 6000, c22TCP},
				{"race", 384, 6000, c22Race},
				{"several", 160, 2500, c22Several},
			}
		},
	})
}
