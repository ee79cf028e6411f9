package main

import (
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
)

// Others: what a socket does with the connections of well-behaved peers
// must not depend on what becomes of its other connections, whatever state
// those end in, and whoever they said they were.

type stayer struct {
	r    *raw
	name string
	id   string
	out  *ledger // what this peer receives, for types that send to all
}

type others struct {
	t    *T
	typ  zmq4.SocketType
	what string
	s    *Sock
	h    *host // vmem, if that is the transport
	ep   string
	ids  int // 0: none, 1: all the same, 2: distinct
	ss   []*stayer
	in   *ledger
	out  *ledger
	n    atomic.Int64
}

func (o *others) identity(k int) string {
	if o.typ == zmq4.Router {
		return fmt.Sprintf("id%d", k)
	}
	switch o.ids {
	case 0:
		return ""
	case 1:
		return "same"
	}
	return fmt.Sprintf("id%d", k)
}

// kind is what raw peers claim to be.
func (o *others) kind() string {
	switch o.typ {
	case zmq4.Router:
		return pick(o.t, "DEALER", "ROUTER")
	case zmq4.Rep:
		return "DEALER"
	}
	return o.t.rawPeer(o.typ)
}

// pause gives the library some time to notice.
func (o *others) pause() { time.Sleep(time.Duration(o.t.Intn(5000)) * time.Microsecond) }

// churn has one more peer come, do something, and go.
func (o *others) churn() {
	t := o.t
	k := int(o.n.Add(1))
	r := t.connectTo(o.ep)
	id := o.identity(1000 + k)
	if o.ids == 2 && o.typ != zmq4.Router && t.Bool() {
		id = o.ss[t.Intn(len(o.ss))].id
	}
	way := t.Intn(8)
	bye := func() {
		if t.Bool() {
			if mc, ok := r.c.(*memConn); ok {
				mc.r.cut(0, errReset)
				mc.w.cut(0, errReset)
			}
			rst(r.c)
		} else {
			_ = r.c.Close()
		}
		count("other peers gone", 1)
	}
	kind := o.kind()
	r.kind = kind
	whole := cat(greetingBytes("NULL", 0), command("READY", props("Socket-Type", kind, "Identity", id)))
	switch way {
	case 0:
		_ = r.write(whole[:t.Intn(len(whole))])
		if t.Bool() {
			o.pause()
		}
		bye()
		return
	case 1: // not ZMTP
		_ = r.write(t.Bytes(70))
		if t.Bool() {
			o.pause()
		}
		bye()
		return
	case 2: // a type that does not fit, or none
		_ = r.nullWith(props("Socket-Type", pick(t, "SUB", "PUSH", "REQ", "XYZ"), "Identity", id))
		bye()
		return
	}
	if err := r.null(kind, id); err != nil {
		t.Violate("%s: handshake with another peer fails: %v", o.what, err)
	}
	_ = r.c.SetDeadline(time.Time{})
	if o.typ == zmq4.Rep { // which may wait for us to read a reply
		_ = r.c.SetWriteDeadline(time.Now().Add(50 * time.Millisecond))
	}
	src := fmt.Sprintf("other%d", k)
	wrap := func(fs [][]byte) [][]byte {
		if o.typ == zmq4.Rep {
			return append([][]byte{nil}, fs...)
		}
		return fs
	}
	if o.in != nil {
		for i := 0; i < t.Intn(6); i++ {
			m := mkMsg(src, 0, i, shape{3, 300})
			o.in.begin(msgID{src, 0, i})
			if r.sendMsg(wrap(m)...) != nil {
				bye()
				return
			}
		}
	}
	if o.typ == zmq4.Pub || o.typ == zmq4.XPub {
		for i := 0; i < 1+t.Intn(4); i++ {
			_ = r.sendMsg([]byte("\x01" + pick(t, "", "p", "q", "hub")))
		}
	}
	if t.Bool() {
		o.pause()
	}
	switch way {
	case 3: // in the middle of a message, none of which may surface
		m := encodeMsg(wrap([][]byte{[]byte("half/0/0/1.0"), t.Bytes(300)}))
		_ = r.write(m[:1+t.Intn(len(m)-1)])
	case 4: // with a frame that is malformed
		_ = r.write(cat([]byte{fCmd | fMore}, command("PING", nil)[1:]))
	case 5: // with a command that is
		_ = r.write(frame(4, pick(t, nil, []byte{0}, []byte{9, 'x'})))
	}
	if t.Bool() {
		o.pause()
	}
	bye()
}

// gone waits until the library has let go of all other connections. That it
// does is not what is checked here.
func (o *others) gone(but int) bool {
	return until(patience, func() bool {
		n := 0
		for _, l := range o.h.allLinks() {
			if !l.l.isClosed() {
				n++
			}
		}
		return n <= but
	})
}

func (t *T) others(typ zmq4.SocketType) {
	tr := pick(t, "vmem", "vmem", "vmem", "tcp", "ipc")
	o := &others{t: t, typ: typ, ids: t.Intn(3)}
	o.what = fmt.Sprintf("%s over %s whose other peers come and go (identities %d)", typ, tr, o.ids)
	o.s = t.Sock(typ)
	if tr == "vmem" {
		o.h = t.Host()
		if t.Bool() {
			o.h.capac = pick(t, 100, 1000, 5000)
		}
		o.ep = t.bind(o.s, o.h.ep())
	} else {
		o.ep = t.bind(o.s, t.fresh(tr))
	}
	if typ == zmq4.Sub {
		_ = o.s.SetOption(zmq4.OptionSubscribe, "")
	}
	n := 1 + t.Intn(4)
	per := pick(t, 10, 60, 150)
	sh := shape{1 + t.Intn(4), pick(t, 20, 300, 2000)}
	crowd := t.idx%15 == 7 // more than any limit somebody might think of
	if crowd {
		n, per, sh = pick(t, 150, 300), 8, shape{2, 30}
	}
	toAll := typ == zmq4.Pub || typ == zmq4.XPub
	if receives(typ) && typ != zmq4.XPub {
		o.in = t.ledger(o.what + ", in")
	}
	if typ == zmq4.Push || typ == zmq4.Dealer {
		o.out = t.ledger(o.what + ", out")
	}
	steady := 0
	for i := 0; i < n; i++ {
		st := &stayer{name: fmt.Sprintf("p%d", i), id: o.identity(i)}
		kind := o.kind()
		if o.typ == zmq4.Rep && t.Bool() {
			kind = "REQ"
		}
		if t.Chance(30) && tr == "vmem" {
			ln, ep := t.listenRaw("vmem")
			done := make(chan struct{})
			go func() { st.r = t.accept(ln).mustNull(kind, st.id); close(done) }()
			t.dial(o.s, ep)
			if !waitCh(done, patience) {
				t.Violate("%s: Dial succeeds before the handshake does", o.what)
			}
		} else {
			st.r = t.connectTo(o.ep).mustNull(kind, st.id)
			if tr == "vmem" {
				steady++
			}
		}
		o.ss = append(o.ss, st)
	}
	all := o.ss

	var stop, over atomic.Bool
	defer over.Store(true)
	var work []func()
	var live sync.WaitGroup // what the churn goes along with
	join := func(f func()) {
		live.Add(1)
		work = append(work, func() { defer live.Done(); f() })
	}

	// What the application does.
	switch {
	case typ == zmq4.Rep:
		r := t.fork()
		t.pumpWith(o.s, nil, func(fs [][]byte) {
			o.in.receive("REP", fs)
			if r.Intn(3) == 0 {
				time.Sleep(time.Duration(r.Intn(3000)) * time.Microsecond)
			}
			_ = o.s.put(r.Intn(2) == 0, append([][]byte{[]byte("re")}, fs...)...)
		})
	case o.in != nil:
		gate := make(chan struct{}, 1<<20)
		t.pumpWith(o.s, gate, func(fs [][]byte) {
			if typ == zmq4.Router {
				if len(fs) < 2 {
					t.Violate("%s: received %s", o.what, show(fs))
				}
				id := o.in.receive("hub", fs[1:])
				for _, st := range all {
					if st.name == id.src && st.id != string(fs[0]) {
						t.Violate("%s: message of %q is said to be from %q", o.what, st.id, fs[0])
					}
				}
				return
			}
			if typ == zmq4.XSub && len(fs) > 0 && len(fs[0]) == 0 {
				return
			}
			o.in.receive("hub", fs)
		})
		r := t.fork()
		work = append(work, func() {
			for !stop.Load() {
				time.Sleep(time.Duration(r.Intn(4000)) * time.Microsecond)
				for i := 0; i < r.Intn(30); i++ {
					gate <- struct{}{}
				}
			}
			for i := 0; i < 1<<16; i++ {
				gate <- struct{}{}
			}
		})
	}

	// What the steady peers do.
	for _, st := range all {
		st := st
		r := t.fork()
		switch {
		case typ == zmq4.Rep:
			join(func() {
				for k := 0; k < per/4+1; k++ {
					id := msgID{st.name, 0, k}
					m := mkMsg(st.name, 0, k, sh)
					o.in.begin(id)
					if err := st.r.sendMsg(append([][]byte{nil}, m...)...); err != nil {
						t.Violate("%s: connection of a peer that stays: %v", o.what, err)
					}
					got, err := st.r.next(patience)
					if err != nil {
						t.Violate("%s: reply to a peer that stays: %v", o.what, err)
					}
					if !eqFrames(got, append([][]byte{nil, []byte("re")}, m...)) {
						t.Violate("%s: reply to request %q of %s is %s", o.what, m[0], st.name, show(got))
					}
					o.in.end(id)
					count("replies checked", 1)
				}
			})
		case o.in != nil:
			join(func() {
				for k := 0; k < per; k++ {
					id := msgID{st.name, 0, k}
					o.in.begin(id)
					if err := st.r.sendMsg(mkMsg(st.name, 0, k, sh)...); err != nil {
						t.Violate("%s: connection of a peer that stays: %v", o.what, err)
					}
					o.in.end(id)
					if r.Intn(10) == 0 {
						time.Sleep(time.Duration(r.Intn(2000)) * time.Microsecond)
					}
				}
			})
		}
		if o.out != nil || toAll {
			l := o.out
			if toAll {
				st.out = t.ledger(o.what + ", " + st.name)
				l = st.out
			}
			t.Go(func() {
				for {
					got, err := st.r.readMsg()
					if err != nil {
						if !over.Load() {
							t.Violate("%s: connection of a peer that stays: %v", o.what, err)
						}
						return
					}
					l.receive(st.name, got)
				}
			})
		}
	}
	if toAll {
		for i, st := range all {
			tag := fmt.Sprintf("tag%d", i)
			if err := st.r.sendMsg([]byte("\x01hub")); err != nil {
				t.Violate("%s: %v", o.what, err)
			}
			if err := st.r.sendMsg([]byte("\x01" + tag)); err != nil {
				t.Violate("%s: %v", o.what, err)
			}
			t.Until(patience, "subscription", func() bool { return hasTopic(o.s, tag) })
		}
		multi := t.fork()
		join(func() {
			for k := 0; k < per; k++ {
				id := msgID{"hub", 0, k}
				for _, st := range all {
					st.out.begin(id)
				}
				// The error may be about any of the others.
				t.Within(patience, o.what+": Send", func() { _ = o.s.put(multi.Intn(2) == 0, mkMsg("hub", 0, k, sh)...) })
				for _, st := range all {
					st.out.end(id)
				}
				if k%20 == 19 {
					for _, st := range all {
						st.out.settle()
					}
				}
			}
		})
	}
	seq := 0
	probe := func() msgID {
		id := msgID{"probe", 0, seq}
		seq++
		o.out.begin(id)
		t.Within(patience, o.what+": Send", func() { _ = o.s.put(t.Bool(), mkMsg("probe", 0, id.seq, sh)...) })
		return id
	}
	if o.out != nil {
		join(func() {
			for k := 0; k < per/4; k++ {
				probe()
			}
		})
	}
	work = append(work, func() {
		done := make(chan struct{})
		go func() { live.Wait(); close(done) }()
		least := 3 + t.Intn(12)
		for i := 0; i < 60; i++ {
			select {
			case <-done:
				least--
				i += 3
			default:
			}
			if least < 0 {
				break
			}
			o.churn()
			if t.Bool() {
				o.pause()
			}
		}
		stop.Store(true)
	})
	t.Par(100*time.Second, o.what, work...)
	if o.in != nil {
		o.in.settle()
	}
	for _, st := range all {
		if st.out != nil {
			st.out.settle()
		}
	}

	// Now that the others are gone.
	if o.out != nil && tr == "vmem" && o.gone(steady) {
		row := 0
		dl := after(patience)
		for row < min(3*n, n+50) {
			id := probe()
			var there bool
			until(100*time.Millisecond, func() bool {
				o.out.mu.Lock()
				defer o.out.mu.Unlock()
				_, there = o.out.got[id]
				return there
			})
			if row++; !there {
				row = 0
			}
			if dl.passed() {
				t.Violate("%s: the others are gone, and messages are lost still", o.what)
			}
		}
		var order []string
		for k := 0; k < min(4*n, n+50)+2; k++ {
			id := msgID{"after", 0, k}
			o.out.begin(id)
			t.send(o.s, t.Bool(), mkMsg("after", 0, k, sh)...)
			o.out.end(id)
			o.out.settle()
			o.out.mu.Lock()
			order = append(order, o.out.got[id])
			o.out.mu.Unlock()
		}
		for i := range order {
			for j := i + 1; j < i+n && j < len(order); j++ {
				if order[i] == order[j] {
					t.Violate("%s: the others are gone, and %d peers are not taken in turn: %s", o.what, n, strings.Join(order, " "))
				}
			}
		}
		count("rotations checked", int64(len(order)))
	}
	t.Key("others", typ, tr, o.ids, n, per, sh)
}

// resume: a peer that stopped reading until a Send timed out, and reads on,
// takes its turn as before.
func (t *T) resume(typ zmq4.SocketType) {
	d := time.Duration(20+t.Intn(60)) * time.Millisecond
	s := t.Sock(typ, zmq4.WithTimeout(d))
	h := t.Host()
	h.capac = pick(t, 100, 2000)
	ep := t.bind(s, h.ep())
	n := 2 + t.Intn(4)
	what := fmt.Sprintf("%s with %d peers, some of which stop reading for a while", typ, n)
	l := t.ledger(what)
	var over atomic.Bool
	defer over.Store(true)
	gates := make([]sync.RWMutex, n)
	for i := 0; i < n; i++ {
		i := i
		r := t.connectTo(ep).mustNull(t.rawPeer(typ), "")
		t.Go(func() {
			for {
				gates[i].RLock()
				gates[i].RUnlock()
				got, err := r.readMsg()
				if err != nil {
					if !over.Load() {
						t.Violate("%s: connection of a peer: %v", what, err)
					}
					return
				}
				l.receive(fmt.Sprintf("peer%d", i), got)
			}
		})
	}
	size := 200
	seq := 0
	one := func() (msgID, error) {
		id := msgID{"m", 0, seq}
		m := mkMsg("m", 0, seq, shape{3, size})
		seq++
		l.begin(id)
		var err error
		t.Within(patience, what+": Send", func() { err = s.put(t.Bool(), m...) })
		if err == nil {
			l.end(id)
		}
		return id, err
	}
	for round := 0; round < 1+t.Intn(3); round++ {
		var held []int
		for _, i := range t.Perm(n)[:1+t.Intn(n)] {
			gates[i].Lock()
			held = append(held, i)
		}
		late := 0
		for i := 0; i < 4000 && late <= t.Intn(3); i++ {
			if _, err := one(); err != nil {
				late++
			}
		}
		for _, i := range held {
			gates[i].Unlock()
		}
		count("sends timed out", int64(late))
		l.settle()
		// All of them are there again.
		row := 0
		dl := after(patience)
		seen := map[string]bool{}
		var order []string
		for row < 3*n {
			id, err := one()
			if err == nil {
				l.settle()
				l.mu.Lock()
				at := l.got[id]
				l.mu.Unlock()
				seen[at] = true
				order = append(order, at)
				row++
			} else {
				row, order = 0, nil
			}
			if dl.passed() {
				t.Violate("%s: all peers read again, and Send fails still: %v", what, err)
			}
		}
		if len(seen) != n {
			t.Violate("%s: all peers read again, and %d of them get messages", what, len(seen))
		}
		order = order[len(order)-2*n:]
		for i := range order {
			for j := i + 1; j < i+n && j < len(order); j++ {
				if order[i] == order[j] {
					t.Violate("%s: all peers read again, and are not taken in turn: %s", what, strings.Join(order, " "))
				}
			}
		}
		count("rotations checked", int64(len(order)))
	}
	t.Key("resume", typ, n, h.capac)
}
