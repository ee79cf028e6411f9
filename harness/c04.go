package main

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
)

var c04Topics = []string{"", "a", "ab", "abc", "abd", "b", "ba", "\x00", "\x01", "\x00\x01", "\x01a", "\xff", "a\x00", "a\x00b", "é", "topic", "topic/", "topic/1",
	strings.Repeat("x", 254), strings.Repeat("x", 255), strings.Repeat("x", 256), strings.Repeat("long", 200)}

const c4end = "\xfd\xfd"

type c4pub struct {
	s   *Sock
	ep  string
	seq int
	log []string // everything published, for the witness
}

type c4sub struct {
	n      int
	s      *Sock
	pubs   map[int]bool
	topics map[string]bool
	sent   string // current sentinel topic
	box    *inbox
	seen   int // messages of box compared so far
	want   map[int][][][]byte
	closed bool
}

type c4 struct {
	t     *T
	tr    string
	pubs  []*c4pub
	subs  []*c4sub
	nsent int
}

func (c *c4) change(s *c4sub, topic string, on bool) {
	var err error
	if s.s.typ == zmq4.XSub {
		v := byte(0)
		if on {
			v = 1
		}
		c.t.Within(patience, "XSUB: Send", func() { err = s.s.put(false, append([]byte{v}, topic...)) })
	} else {
		o := zmq4.OptionUnsubscribe
		if on {
			o = zmq4.OptionSubscribe
		}
		c.t.Within(patience, "SUB: SetOption", func() { err = s.s.SetOption(o, topic) })
	}
	if err != nil {
		c.t.Violate("%s: changing subscription to %q (on=%v): %v", s.s.typ, topic, on, err)
	}
	if on {
		s.topics[topic] = true
	} else {
		delete(s.topics, topic)
	}
	if s.s.typ == zmq4.Sub {
		if got, want := topics(s.s), setOf(s.topics); !sameStrings(got, want) {
			c.t.Violate("SUB: topics are %q, subscribed to %q", got, want)
		}
	}
	count("subscription changes", 1)
}

func setOf(m map[string]bool) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// barrier makes sure that all changes of s are in force at its publishers.
func (c *c4) barrier(s *c4sub) {
	c.nsent++
	if s.sent != "" {
		c.change(s, s.sent, false)
	}
	s.sent = fmt.Sprintf("\xff\xfe%d-%d", s.n, c.nsent) // after all others: a new connection gets them sorted
	c.change(s, s.sent, true)
	for p := range s.pubs {
		pub := c.pubs[p]
		c.t.Until(patience, fmt.Sprintf("subscription %q registered by %s", s.sent, pub.s.typ), func() bool { return hasTopic(pub.s, s.sent) })
		c.checkTopics(p)
	}
}

func (c *c4) union(p int) []string {
	m := map[string]bool{}
	for _, s := range c.subs {
		if s.pubs[p] && !s.closed {
			for k := range s.topics {
				m[k] = true
			}
		}
	}
	return setOf(m)
}

func (c *c4) checkTopics(p int) {
	want := c.union(p)
	// (an accepted connection may be told the newest change before the others)
	if !until(patience, func() bool { return sameStrings(topics(c.pubs[p].s), want) }) {
		got := topics(c.pubs[p].s)
		c.t.Violate("%s: topic list is %.300q, subscribers have %.300q", c.pubs[p].s.typ, got, want)
	}
	count("topic lists compared", 1)
}

func (c *c4) publish(p int, fs [][]byte) {
	pub := c.pubs[p]
	var err error
	c.t.Within(patience, "publishing", func() { err = pub.s.put(c.t.Bool(), cloneFrames(fs)...) })
	if err != nil {
		c.t.Violate("%s: Send: %v", pub.s.typ, err)
	}
	first := string(fs[0])
	hit := 0
	for _, s := range c.subs {
		if s.closed || !s.pubs[p] {
			continue
		}
		n := 0
		for tp := range s.topics {
			if strings.HasPrefix(first, tp) {
				n++
			}
		}
		if n > 0 {
			s.want[p] = append(s.want[p], fs)
			hit++
		}
		if n > 1 {
			count("messages with several matching topics", 1)
		}
	}
	count("messages published", 1)
	if hit == 0 {
		count("messages nobody wants", 1)
	}
}

func (s *c4sub) matches(first string) bool {
	for tp := range s.topics {
		if strings.HasPrefix(first, tp) {
			return true
		}
	}
	return false
}

// drain waits until all that is due has arrived.
func (c *c4) drain() {
	for _, s := range c.subs {
		if s.closed {
			continue
		}
		total := s.seen
		for _, w := range s.want {
			total += len(w)
		}
		s.box.wait(total, patience)
	}
}

// sync compares what has been received with what was due.
func (c *c4) sync() {
	for p := range c.pubs {
		// everybody wants this one: nothing is pending once it is there
		c.pubs[p].seq++
		c.publish(p, [][]byte{[]byte(c4end), []byte(fmt.Sprintf("%d|end%d", p, c.pubs[p].seq))})
	}
	c.drain()
	for _, s := range c.subs {
		if s.closed {
			continue
		}
		got := map[int][][][]byte{}
		all := s.box.all()
		for _, m := range all[s.seen:] {
			if len(m) == 0 {
				c.t.Violate("%s received a message without frames", s.s.typ)
			}
			last := string(m[len(m)-1])
			var p int
			if i := strings.LastIndexByte(last, '#'); i >= 0 {
				last = last[i+1:]
			}
			if _, err := fmt.Sscanf(last, "%d|", &p); err != nil {
				c.t.Violate("%s received %s, which nobody published", s.s.typ, show(m))
			}
			got[p] = append(got[p], m)
		}
		s.seen = len(all)
		for p := range c.pubs {
			g, w := got[p], s.want[p]
			for i := 0; i < len(g) || i < len(w); i++ {
				switch {
				case i >= len(g):
					c.t.Violate("%s %d (topics %.200q) of %s %d over %s: message %s is missing at the end", s.s.typ, s.n, setOf(s.topics), c.pubs[p].s.typ, p, c.tr, show(w[i]))
				case i >= len(w):
					c.t.Violate("%s %d (topics %.200q) of %s %d over %s: received %s after all that was due", s.s.typ, s.n, setOf(s.topics), c.pubs[p].s.typ, p, c.tr, show(g[i]))
				case !eqFrames(g[i], w[i]):
					c.t.Violate("%s %d (topics %.200q) of %s %d over %s: received %s where %s was due", s.s.typ, s.n, setOf(s.topics), c.pubs[p].s.typ, p, c.tr, show(g[i]), show(w[i]))
				}
			}
			count("deliveries compared", int64(len(w)))
			s.want[p] = nil
		}
	}
}

func (c *c4) addSub() {
	t := c.t
	typ := pick(t, zmq4.Sub, zmq4.Sub, zmq4.XSub)
	s := &c4sub{n: len(c.subs), s: t.Sock(typ), pubs: map[int]bool{}, topics: map[string]bool{}, want: map[int][][][]byte{}}
	early := typ == zmq4.Sub && t.Bool()
	if early { // subscribe before there is a connection
		for i := 0; i < 1+t.Intn(3); i++ {
			tp := c04Topics[t.Intn(len(c04Topics))]
			if !s.topics[tp] {
				c.change(s, tp, true)
			}
		}
	}
	if typ == zmq4.Sub {
		// An accepted connection gets all topics in order, but a change
		// made meanwhile may overtake them: have a last one to wait for.
		c.change(s, c4end, true)
		s.sent = fmt.Sprintf("\xff\xfe%d-first", s.n)
		c.change(s, s.sent, true)
	}
	subBinds := typ == zmq4.Sub && t.Chance(40)
	ep := ""
	if subBinds {
		ep = t.bind(s.s, t.fresh(c.tr))
	}
	for p := range c.pubs {
		if p == 0 || t.Bool() {
			s.pubs[p] = true
			if subBinds {
				t.dial(c.pubs[p].s, ep)
			} else {
				t.dial(s.s, c.pubs[p].ep)
			}
		}
	}
	c.subs = append(c.subs, s)
	s.box = t.pump(s.s)
	if typ == zmq4.Sub {
		for p := range s.pubs {
			t.Until(patience, "subscription made before the connection", func() bool { return hasTopic(c.pubs[p].s, s.sent) })
		}
	} else {
		c.change(s, c4end, true)
	}
	c.barrier(s)
	t.Log("subscriber %d: %s, early %v, binds %v, publishers %d", s.n, typ, early, subBinds, len(s.pubs))
	t.Key("sub", typ, early, subBinds, c.tr, len(s.pubs))
}

func c04History(t *T) {
	c := &c4{t: t, tr: transports[t.idx%len(transports)]}
	for i := 0; i < 1+t.Intn(2); i++ {
		p := &c4pub{s: t.Sock(pick(t, zmq4.Pub, zmq4.XPub))}
		p.ep = t.bind(p.s, t.fresh(c.tr))
		c.pubs = append(c.pubs, p)
	}
	c.addSub()
	pool := t.Perm(len(c04Topics))[:3+t.Intn(6)]
	topic := func() string { return c04Topics[pool[t.Intn(len(pool))]] }
	steps := 30 + t.Intn(30)
	for i := 0; i < steps; i++ {
		s := c.subs[t.Intn(len(c.subs))]
		switch t.Intn(10) {
		case 0, 1:
			if s.closed {
				continue
			}
			if tp := topic(); !s.topics[tp] {
				c.sync() // pending messages may be judged by the old or the new set
				t.Log("%d +%q", s.n, tp)
				c.change(s, tp, true)
				c.barrier(s)
			}
		case 2:
			if s.closed {
				continue
			}
			tp := topic() // perhaps not subscribed: that has no effect
			c.sync()
			t.Log("%d -%q", s.n, tp)
			c.change(s, tp, false)
			c.barrier(s)
		case 3:
			if len(c.subs) < 4 {
				c.addSub()
			}
		case 4:
			if len(c.subs) > 1 && !s.closed && t.Chance(30) {
				c.sync()
				t.Log("close subscriber %d", s.n)
				s.s.shut()
				s.closed = true
				for p := range s.pubs {
					t.Until(patience, "the topics of a closed subscriber are gone", func() bool { return sameStrings(topics(c.pubs[p].s), c.union(p)) })
				}
			}
		case 5: // the same topic while it is subscribed to, is not, and is again
			if s.closed {
				break
			}
			tp := topic()
			p := t.Intn(len(c.pubs))
			say := func() {
				pub := c.pubs[p]
				pub.seq++
				c.publish(p, [][]byte{[]byte(tp), []byte(fmt.Sprintf("%d|%d", p, pub.seq))})
			}
			c.sync()
			for on := !s.topics[tp]; ; on = !on {
				say()
				if s.matches(tp) {
					c.drain() // the message has been judged once it is there
				} else {
					c.sync()
				}
				t.Log("%d %v %q", s.n, on, tp)
				c.change(s, tp, on)
				c.barrier(s)
				say()
				if t.Bool() {
					break
				}
			}
		default:
			p := t.Intn(len(c.pubs))
			n := 1 + t.Intn(12)
			for j := 0; j < n; j++ {
				pub := c.pubs[p]
				pub.seq++
				id := fmt.Sprintf("%d|%d", p, pub.seq)
				tp := topic()
				var fs [][]byte
				switch t.Intn(5) {
				case 0: // the topic itself
					fs = [][]byte{[]byte(tp), []byte(id)}
				case 1: // less than the topic
					if len(tp) > 0 {
						tp = tp[:len(tp)-1]
					}
					fs = [][]byte{[]byte(tp), t.Bytes(t.Intn(300)), []byte(id)}
				case 2: // the topic is not at the start
					fs = [][]byte{[]byte("-" + tp), nil, []byte(id)}
				case 3: // in the second frame only
					fs = [][]byte{[]byte("q"), []byte(tp), []byte(id)}
				default:
					fs = [][]byte{[]byte(tp + string(t.Bytes(t.Intn(3))) + "#" + id)}
				}
				c.publish(p, fs)
			}
		}
		if t.Chance(25) {
			c.sync()
		}
	}
	c.sync()
	for p := range c.pubs {
		c.checkTopics(p)
	}
	t.Key("history", c.tr, len(c.pubs), len(c.subs), digest([]byte(fmt.Sprint(pool))))
}

// c04Churn: steady subscribers get exactly their share while others come,
// change their mind and go.
func c04Churn(t *T) {
	tr := transports[t.idx%len(transports)]
	pubT := pick(t, zmq4.Pub, zmq4.XPub)
	pub := t.Sock(pubT)
	ep := t.bind(pub, t.fresh(tr))
	n := 2 + t.Intn(2)
	tops := [][]string{{"a"}, {"b", "ab"}, {"", "a"}, {"abc"}}
	type steady struct {
		s    *Sock
		tops []string
		box  *inbox
		want [][]byte
	}
	var subs []*steady
	for i := 0; i < n; i++ {
		st := &steady{s: t.Sock(pick(t, zmq4.Sub, zmq4.XSub)), tops: append([]string{fmt.Sprintf("mark%d", i)}, tops[i]...)}
		t.dial(st.s, ep)
		for j := len(st.tops) - 1; j >= 0; j-- {
			if st.s.typ == zmq4.Sub {
				_ = st.s.SetOption(zmq4.OptionSubscribe, st.tops[j])
			} else {
				t.send(st.s, false, append([]byte{1}, st.tops[j]...))
			}
		}
		t.Until(patience, "subscription", func() bool { return hasTopic(pub, st.tops[0]) })
		st.box = t.pump(st.s)
		subs = append(subs, st)
	}
	stop := make(chan struct{})
	var once sync.Once
	end := func() { once.Do(func() { close(stop) }) }
	defer end()
	var work []func()
	for i := 0; i < 2; i++ {
		r := t.fork()
		work = append(work, func() {
			for {
				select {
				case <-stop:
					return
				default:
				}
				s := t.Sock(zmq4.Sub)
				_ = s.SetOption(zmq4.OptionSubscribe, "a")
				if err := s.Dial(ep); err != nil {
					t.Violate("SUB: Dial: %v", err)
				}
				for j := 0; j < r.Intn(20); j++ {
					tp := []string{"a", "ab", "", "abc", "zz"}[r.Intn(5)]
					o := zmq4.OptionSubscribe
					if r.Intn(2) == 0 {
						o = zmq4.OptionUnsubscribe
					}
					_ = s.SetOption(o, tp)
				}
				if r.Intn(2) == 0 {
					time.Sleep(time.Duration(r.Intn(1000)) * time.Microsecond)
				}
				s.shut()
				count("subscribers come and gone", 1)
			}
		})
	}
	work = append(work, func() {
		defer end()
		seq := 0
		for round := 0; round < 12; round++ {
			for i := 0; i < 60; i++ {
				tp := []string{"a", "ab", "abc", "b", "ba", "c", "", "abd"}[t.Intn(8)]
				seq++
				f := []byte(fmt.Sprintf("%s#%d", tp, seq))
				t.send(pub, t.Bool(), f)
				for _, st := range subs {
					for _, x := range st.tops {
						if strings.HasPrefix(string(f), x) {
							st.want = append(st.want, f)
							break
						}
					}
				}
			}
			for _, st := range subs {
				f := []byte(fmt.Sprintf("%s-%d", st.tops[0], round))
				t.send(pub, false, f)
				for _, o := range subs {
					for _, x := range o.tops {
						if strings.HasPrefix(string(f), x) {
							o.want = append(o.want, f)
							break
						}
					}
				}
			}
			for i, st := range subs {
				st.box.wait(len(st.want), patience)
				all := st.box.all()
				for j := range st.want {
					if j >= len(all) {
						t.Violate("subscriber %d %q: message %q of %d is missing", i, st.tops, st.want[j], len(st.want))
					}
					if len(all[j]) != 1 || string(all[j][0]) != string(st.want[j]) {
						t.Violate("subscriber %d %q: received %s where %q was due", i, st.tops, show(all[j]), st.want[j])
					}
				}
				if len(all) > len(st.want) {
					t.Violate("subscriber %d %q: received %s, which was not due", i, st.tops, show(all[len(st.want)]))
				}
				count("deliveries compared", 60)
			}
		}
	})
	t.Par(100*time.Second, "churn", work...)
	t.Key("churn", pubT, tr, n)
}

// c04Few: subscribers with hardly any topics, none of them for the sake of
// the check: topic lists are all there is to tell when a change is in force.
func c04Few(t *T) {
	tr := transports[t.idx%len(transports)]
	pub := t.Sock(pick(t, zmq4.Pub, zmq4.XPub))
	ep := t.bind(pub, t.fresh(tr))
	type few struct {
		s    *Sock
		on   map[string]bool
		box  *inbox
		want []string
	}
	var subs []*few
	for i := 0; i < 1+t.Intn(2); i++ {
		f := &few{s: t.Sock(pick(t, zmq4.Sub, zmq4.XSub)), on: map[string]bool{}}
		t.dial(f.s, ep)
		f.box = t.pump(f.s)
		subs = append(subs, f)
	}
	pools := [][]string{{"", "a"}, {"a", "ab"}, {"", "a", "b"}, {"\x00", "\x00\x01", ""}, {"topic", "topic/1", "top"}}
	seq := 0
	wants := func(f *few, tp string) bool {
		for k := range f.on {
			if strings.HasPrefix(tp, k) {
				return true
			}
		}
		return false
	}
	say := func(tp string) {
		seq++
		id := fmt.Sprint(seq)
		t.send(pub, t.Bool(), []byte(tp), []byte(id))
		for _, f := range subs {
			if wants(f, tp) {
				f.want = append(f.want, id)
			}
		}
	}
	check := func() {
		for i, f := range subs {
			f.box.wait(len(f.want), patience)
			for j, m := range f.box.all() {
				if j >= len(f.want) || len(m) != 2 || string(m[1]) != f.want[j] {
					t.Violate("%s %d over %s (topics %q): receives %s as number %d, due are %q", f.s.typ, i, tr, setOf(f.on), show(m), j, f.want)
				}
			}
			if n := f.box.n(); n != len(f.want) {
				t.Violate("%s %d over %s (topics %q): %d messages, due are %q", f.s.typ, i, tr, setOf(f.on), n, f.want)
			}
			count("deliveries compared", 1)
		}
	}
	// The pools of several subscribers are apart: a change of one of them
	// can be told by the union.
	var pool [][]string
	for i, p := range t.Perm(len(pools))[:len(subs)] {
		pool = append(pool, nil)
		for _, x := range pools[p] {
			if len(subs) > 1 {
				x = string(rune('P'+i)) + x
			}
			pool[i] = append(pool[i], x)
		}
	}
	for i := 0; i < 12; i++ {
		k := t.Intn(len(subs))
		f := subs[k]
		tp := pool[k][t.Intn(len(pool[k]))]
		on := !f.on[tp]
		var err error
		if f.s.typ == zmq4.Sub {
			o := zmq4.OptionUnsubscribe
			if on {
				o = zmq4.OptionSubscribe
			}
			err = f.s.SetOption(o, tp)
		} else {
			v := byte(0)
			if on {
				v = 1
			}
			err = f.s.put(false, append([]byte{v}, tp...))
		}
		if err != nil {
			t.Violate("%s: changing subscription to %q (on=%v): %v", f.s.typ, tp, on, err)
		}
		f.on[tp] = on
		if !on {
			delete(f.on, tp)
		}
		all := map[string]bool{}
		for _, o := range subs {
			for x := range o.on {
				all[x] = true
			}
		}
		want := setOf(all)
		if !until(patience, func() bool { return sameStrings(topics(pub), want) }) {
			t.Violate("%s: topic list is %q, subscribers have %q", pub.typ, topics(pub), want)
		}
		count("topic lists compared", 1)
		count("subscription changes", 1)
		none := 0
		for _, o := range subs {
			if len(o.on) == 0 {
				none++
			}
		}
		// A subscriber that wants nothing does not tell what has been
		// judged: then these messages are the last ones.
		if none > 0 && !t.Chance(40) {
			continue
		}
		for _, p := range pool {
			for _, x := range p {
				say(x + pick(t, "", "b", "\x01z"))
				say("-" + x)
			}
		}
		for _, o := range subs {
			if len(o.on) > 0 { // judged after all others
				say(setOf(o.on)[t.Intn(len(o.on))])
			}
		}
		if none > 0 {
			count("ends without subscriptions", 1)
			time.Sleep(20 * time.Millisecond)
			check()
			break
		}
		check()
	}
	t.Key("few", tr, pub.typ, len(subs), pool)
}

// c04Many: one publisher, many overlapping subscriptions at once.
func c04Many(t *T) {
	tr := transports[t.idx%len(transports)]
	pub := t.Sock(pick(t, zmq4.Pub, zmq4.XPub))
	sub := t.Sock(zmq4.Sub)
	t.join(pub, sub, tr, t.Bool())
	n := 100 + t.Intn(300)
	long := 3
	if t.Chance(20) {
		n, long = 1000+t.Intn(2000), 6
	}
	on := map[string]bool{}
	name := func() string {
		b := t.Bytes(1 + t.Intn(long))
		for i := range b {
			b[i] = "abcd\x00\xff"[int(b[i])%6]
		}
		return string(b)
	}
	_ = sub.SetOption(zmq4.OptionSubscribe, "\xff\xff\xff\xfemark")
	on["\xff\xff\xff\xfemark"] = true
	var ops int
	for i := 0; i < n; i++ {
		tp := name()
		if !on[tp] {
			_ = sub.SetOption(zmq4.OptionSubscribe, tp)
			on[tp] = true
		} else {
			_ = sub.SetOption(zmq4.OptionUnsubscribe, tp)
			delete(on, tp)
		}
		ops++
	}
	_ = sub.SetOption(zmq4.OptionSubscribe, "\xff\xff\xff\xfflast")
	on["\xff\xff\xff\xfflast"] = true
	t.Until(patience, "subscriptions", func() bool { return hasTopic(pub, "\xff\xff\xff\xfflast") })
	if got, want := topics(pub), setOf(on); !until(patience, func() bool { got = topics(pub); return sameStrings(got, want) }) {
		t.Violate("%s: topic list is %.400q, subscriber has %.400q", pub.typ, got, want)
	}
	if got, want := topics(sub), setOf(on); !sameStrings(got, want) {
		t.Violate("SUB: topic list is %.400q, subscribed to %.400q", got, want)
	}
	box := t.pump(sub)
	var want [][]byte
	for i := 0; i < 400; i++ {
		f := []byte(name())
		if t.Bool() {
			f = append(f, t.Bytes(2)...)
		}
		if i%80 == 79 {
			f = []byte("\xff\xff\xff\xfemark")
		}
		t.send(pub, false, f, []byte(fmt.Sprint(i)))
		hit := false
		for tp := range on {
			hit = hit || strings.HasPrefix(string(f), tp)
		}
		if hit {
			want = append(want, []byte(fmt.Sprint(i)))
		}
		if i%80 == 79 {
			box.wait(len(want), patience)
		}
	}
	all := box.all()
	for i := range want {
		if i >= len(all) || string(all[i][len(all[i])-1]) != string(want[i]) {
			t.Violate("SUB with %d topics: delivery %d of %d is not message %s", len(on), i, len(want), want[i])
		}
	}
	if len(all) != len(want) {
		t.Violate("SUB with %d topics: %d messages received, %d were due", len(on), len(all), len(want))
	}
	count("deliveries compared", int64(len(want)))
	count("subscription changes", int64(ops))
	t.Key("many", tr, pub.typ, len(on))
}

func init() {
	register(&check{
		id:     "C04",
		rule:   "one execution drives a PRNG-chosen history of subscribe, unsubscribe, publish, connect and close and compares every delivery and topic list with a set model; registration is awaited through the publisher's own topic list; distinct cases are subscriber kinds (type, early subscription, bind side, transport), topic pools and churn set-ups",
		assume: []string{"never the same topic twice by one subscriber (libzmq counts, this library does not)", "fewer than 1000 messages pending"},
		need:   map[string]int64{"messages alike": 100000, "other peers gone": 500, "deliveries compared": 10000, "topic lists compared": 500, "messages with several matching topics": 100, "messages nobody wants": 100},
		scenarios: func() []scenario {
			return []scenario{
				{"alike", 8, 160, func(t *T) { t.alike("pub-sub", "xpub-sub", "pub-xsub", "xpub-xsub") }},
				{"others", 120, 1500, func(t *T) { t.others([]zmq4.SocketType{zmq4.Sub, zmq4.XSub, zmq4.Pub, zmq4.XPub}[t.idx%4]) }},
				{"history", 300, 4000, c04History},
				{"churn", 30, 300, c04Churn},
				{"few", 80, 1000, c04Few},
				{"many", 30, 300, c04Many},
				{"long", 8, 60, func(t *T) {
					t.longStall("PUB-SUB", pick(t, zmq4.Pub, zmq4.XPub), pick(t, zmq4.Sub, zmq4.XSub))
				}},
			}
		},
	})
}
