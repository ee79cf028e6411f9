package main

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
)

// A subscriber whose reading is under full control: a raw peer on a vmem
// link, whose byte counter tells how much the publisher has got rid of.
type c5sub struct {
	t     *T
	r     *raw
	h     *half
	hwm   int
	form  c5form
	size  int64 // bytes of one message on the wire
	base  int64 // bytes on the wire before the first message
	marks []c5mark
	got   []int
	next  int // first message it may get
	gone  bool
}

type c5mark struct{ before, after int64 }

// c5form is how the messages of an execution look.
type c5form struct {
	size   int // bytes of the body
	frames int // frames it is spread over
}

// c5forms: big messages are for small high-water marks only, as all of it
// is held in memory.
func c5forms(t *T, hwm int) c5form {
	sizes := []int{0, 1, 100, 600, 600}
	switch {
	case hwm > 1000:
		return c5form{t.Intn(2), 1}
	case hwm > 50:
	case hwm > 10:
		sizes = append(sizes, 5000)
	default:
		sizes = append(sizes, 5000, 20000, 100000)
	}
	return c5form{sizes[t.Intn(len(sizes))], pick(t, 1, 1, 1, 2, 5)}
}

// make makes message n; all have the same size on the wire.
func (f c5form) make(n int) [][]byte {
	fs := [][]byte{[]byte(fmt.Sprintf("T%07d", n))}
	for i := 0; i < f.frames; i++ {
		fs = append(fs, []byte(strings.Repeat(string(rune('a'+(n+i)%26)), f.size/f.frames)))
	}
	return fs
}

func (f c5form) wire() int { return len(encodeMsg(f.make(0))) }

func (c *c5) sub() *c5sub {
	t := c.t
	r := t.connectTo(c.ep).mustNull("SUB", "")
	s := &c5sub{t: t, r: r, h: r.c.(*memConn).r, hwm: c.hwm, form: c.form, size: int64(c.form.wire()), next: c.n}
	pub := c.pub
	topic := fmt.Sprintf("T\x00sub-%p", s)
	_ = r.sendMsg([]byte("\x01T"))
	_ = r.sendMsg([]byte("\x01" + topic))
	t.Until(patience, "subscription of a raw peer", func() bool { return hasTopic(pub, topic) })
	// everything before is the handshake
	s.h.mu.Lock()
	s.base = s.h.total
	s.h.mu.Unlock()
	return s
}

func (s *c5sub) written() int64 {
	s.h.mu.Lock()
	defer s.h.mu.Unlock()
	return (s.h.total - s.base) / s.size
}

// take reads one message.
func (s *c5sub) take(d time.Duration) bool {
	fs, err := s.r.next(d)
	if err != nil {
		if isTimeout(err) {
			return false
		}
		s.t.Violate("slow subscriber: reading: %v", err)
	}
	s.note(fs)
	return true
}

func (s *c5sub) note(fs [][]byte) {
	var n int
	if len(fs) == 0 {
		s.t.Violate("slow subscriber received %s", show(fs))
	}
	if _, err := fmt.Sscanf(string(fs[0]), "T%07d", &n); err != nil || !eqFrames(fs, s.form.make(n)) {
		s.t.Violate("slow subscriber received %s, which is no message as sent", show(fs))
	}
	if k := len(s.got); k > 0 && s.got[k-1] >= n {
		s.t.Violate("slow subscriber received message %d after %d", n, s.got[k-1])
	}
	s.got = append(s.got, n)
	count("messages at slow subscribers", 1)
}

// pending tells whether the publisher still has bytes for it in transit.
func (s *c5sub) drained() bool {
	s.h.mu.Lock()
	n := len(s.h.buf)
	s.h.mu.Unlock()
	return n == 0 && s.r.br.Buffered() == 0
}

// judge compares what was received with what may be dropped.
func (s *c5sub) judge(first, last int) {
	in := map[int]bool{}
	for _, n := range s.got {
		in[n] = true
	}
	enq := int64(0)
	drop := 0
	for n := first; n < last; n++ {
		m := s.marks[n-first]
		if in[n] {
			enq++
			// the queue, one message being written, and what is written
			if held := enq - m.after; held > int64(s.hwm)+1 {
				s.t.Violate("slow subscriber: message %d queued with %d held back, high-water mark %d", n, held-1, s.hwm)
			}
		} else {
			drop++
			if held := enq - m.before; held < int64(s.hwm) {
				s.t.Violate("slow subscriber: message %d (of %d..%d) dropped with at most %d held back, high-water mark %d", n, first, last-1, held, s.hwm)
			}
		}
	}
	count("drops judged", int64(drop))
	count("deliveries judged", enq)
}

type c5 struct {
	t     *T
	pub   *Sock
	ep    string
	host  *host
	form  c5form
	hwm   int
	n     int // next message
	good  []*inbox
	slow  []*c5sub
	ahead int // messages healthy subscribers have not confirmed
	base  int
}

func newC5(t *T, hwm int, healthy int) *c5 {
	c := &c5{t: t, hwm: hwm}
	typ := zmq4.Pub
	if hwm == 0 { // the default
		c.hwm = zmq4.DefaultSendHwm
		typ = pick(t, zmq4.Pub, zmq4.XPub)
	}
	c.form = c5forms(t, c.hwm)
	c.pub = t.Sock(typ)
	if hwm != 0 {
		if err := c.pub.SetOption(zmq4.OptionHWM, hwm); err != nil {
			t.Violate("PUB: high-water mark %d refused: %v", hwm, err)
		}
	}
	c.host = t.Host()
	c.host.capac = max(1500, c.form.wire()*5/2) + t.Intn(max(6000, 10*c.form.wire()))
	c.ep = t.bind(c.pub, c.host.ep())
	for i := 0; i < healthy; i++ {
		s := t.Sock(pick(t, zmq4.Sub, zmq4.XSub))
		t.dial(s, c.ep)
		top := fmt.Sprintf("T\x01%d", i)
		for _, x := range []string{"T", top} {
			if s.typ == zmq4.Sub {
				_ = s.SetOption(zmq4.OptionSubscribe, x)
			} else {
				t.send(s, false, append([]byte{1}, x...))
			}
		}
		t.Until(patience, "subscription", func() bool { return hasTopic(c.pub, top) })
		c.good = append(c.good, t.pump(s))
	}
	return c
}

// publish sends one message, promptly.
func (c *c5) publish() {
	fs := c.form.make(c.n)
	for _, s := range c.slow {
		if !s.gone {
			s.marks = append(s.marks, c5mark{before: s.written()})
		}
	}
	t0 := time.Now()
	var err error
	if !c.t.Done(8*time.Second, func() { err = c.pub.put(c.t.Bool(), fs...) }) {
		c.t.Violate("%s: Send is held up by a subscriber", c.pub.typ)
	}
	if err != nil {
		c.t.Violate("%s: Send: %v", c.pub.typ, err)
	}
	if d := time.Since(t0); d > time.Second {
		count("sends over 1 s", 1)
	}
	for _, s := range c.slow {
		if !s.gone {
			s.marks[len(s.marks)-1].after = s.written()
		}
	}
	c.n++
	count("messages published", 1)
	if c.ahead++; c.ahead >= min(c.hwm, 100) {
		c.confirm()
	}
}

func (c *c5) confirm() {
	c.ahead = 0
	for i, b := range c.good {
		if !b.wait(c.n-c.base, patience) {
			c.t.Violate("healthy subscriber %d: %d of %d messages received", i, b.n(), c.n-c.base)
		}
	}
}

func (c *c5) checkGood() {
	c.confirm()
	for i, b := range c.good {
		all := b.all()
		for j := range all {
			if !eqFrames(all[j], c.form.make(c.base+j)) {
				c.t.Violate("healthy subscriber %d: received %s where message %d was due", i, show(all[j]), c.base+j)
			}
		}
		if len(all) != c.n-c.base {
			c.t.Violate("healthy subscriber %d: %d messages received, %d published", i, len(all), c.n-c.base)
		}
		count("deliveries to healthy subscribers", int64(len(all)))
	}
}

// recover lets the slow subscriber catch up and shows that it is served.
func (c *c5) recover(s *c5sub) {
	last := c.n - 1
	dl := after(patience)
	for len(s.got) == 0 || s.got[len(s.got)-1] != last {
		if !s.take(20 * time.Millisecond) {
			c.publish()
			last = c.n - 1
		}
		if dl.passed() {
			c.t.Violate("slow subscriber: nothing arrives any more though it reads again (%d messages so far)", len(s.got))
		}
	}
	for i := 0; i < 10; i++ {
		c.publish()
		if !s.take(patience) || s.got[len(s.got)-1] != c.n-1 {
			c.t.Violate("slow subscriber that has caught up does not get message %d", c.n-1)
		}
	}
	count("recoveries", 1)
}

func c05Schedule(t *T) {
	hwm := pick(t, 1, 2, 3, 5, 10, 50, 200, 0)
	c := newC5(t, hwm, t.Intn(3))
	type life struct {
		s     *c5sub
		first int
	}
	var subs []life
	add := func() {
		s := c.sub()
		c.slow = append(c.slow, s)
		subs = append(subs, life{s, c.n})
		t.Log("slow subscriber from message %d, hwm %d, link of %d bytes", c.n, c.hwm, c.host.capac)
	}
	add()
	steps := 6 + t.Intn(10)
	for i := 0; i < steps; i++ {
		switch k := t.Intn(4); k {
		case 0:
			if len(subs) < 3 {
				add()
			}
		case 1:
			s := subs[t.Intn(len(subs))].s
			n := 1 + t.Intn(c.hwm+10)
			t.Log("read up to %d", n)
			for j := 0; j < n && s.take(5*time.Millisecond); j++ {
			}
		default:
			n := 1 + t.Intn(2*c.hwm+20)
			t.Log("publish %d", n)
			for j := 0; j < n; j++ {
				c.publish()
				if t.Chance(2) {
					time.Sleep(time.Duration(t.Intn(300)) * time.Microsecond)
				}
			}
		}
	}
	for _, l := range subs {
		c.recover(l.s)
		l.s.judge(l.first, c.n)
		l.s.gone = true
	}
	c.checkGood()
	t.Key("schedule", hwm, c.pub.typ, len(subs), len(c.good), c.form, c.host.capac/c.form.wire())
}

// c05Vanish: subscribers stop reading and then break off in every way.
func c05Vanish(t *T) {
	hwm := pick(t, 1, 5, 20, 0)
	c := newC5(t, hwm, 1+t.Intn(2))
	n := 1 + t.Intn(6)
	kinds := ""
	for i := 0; i < n; i++ {
		s := c.sub()
		s.gone = true // not judged
		for j := 0; j < 1+t.Intn(2*min(c.hwm, 60)); j++ {
			c.publish()
		}
		kind := t.Intn(5)
		kinds += fmt.Sprint(kind)
		l := c.host.allLinks()
		lk := l[len(l)-1]
		switch kind {
		case 0:
			_ = s.r.c.Close()
		case 1:
			lk.reset()
		case 2: // in the middle of a frame of its own
			_ = s.r.write([]byte{0, 200, 1, 'x'})
			_ = s.r.c.Close()
		case 3: // breaks the protocol
			_ = s.r.write([]byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff})
		case 4: // stays as it is, not reading
		}
		for j := 0; j < 1+t.Intn(40); j++ {
			c.publish()
		}
	}
	c.checkGood()
	t.Key("vanish", hwm, kinds, c.form)
}

// c05Noise: subscribers send what nobody asked for.
func c05Noise(t *T) {
	c := newC5(t, pick(t, 10, 100, 0), 1+t.Intn(2))
	if c.pub.typ == zmq4.XPub {
		t.pump(c.pub)
	}
	s := t.connectTo(c.ep).mustNull(pick(t, "SUB", "XSUB"), "")
	n := 1 + t.Intn(60)
	var wg sync.WaitGroup
	wg.Add(1)
	t.Go(func() {
		defer wg.Done()
		for i := 0; i < n; i++ {
			var fs [][]byte
			switch t.Intn(5) {
			case 0:
				fs = [][]byte{nil}
			case 1:
				fs = [][]byte{{2}}
			case 2:
				fs = [][]byte{[]byte("\x01T"), []byte("x")} // two frames: no subscription
			case 3:
				fs = [][]byte{[]byte("hello"), t.Bytes(t.Intn(400)), nil}
			default:
				fs = [][]byte{append([]byte{byte(2 + t.Intn(250))}, t.Bytes(t.Intn(20))...)}
			}
			if err := s.sendMsg(fs...); err != nil {
				t.Violate("connection of a subscriber that sends messages is broken: %v", err)
			}
		}
		_ = s.sendMsg([]byte("\x01T\x02noise"))
		_ = s.sendMsg([]byte("\x01T"))
		_ = s.sendMsg([]byte("\x00T\x02noise"))
		_ = s.sendMsg([]byte("\x01T\x03after"))
	})
	for i := 0; i < 30; i++ {
		c.publish()
	}
	wg.Wait()
	t.Until(patience, "subscription after unsolicited messages", func() bool { return hasTopic(c.pub, "T\x03after") })
	dl := after(patience)
	for c.publish(); ; {
		fs, err := s.next(20 * time.Millisecond)
		if err == nil && eqFrames(fs, c.form.make(c.n-1)) {
			break
		}
		if err != nil {
			if !isTimeout(err) || dl.passed() {
				t.Violate("subscriber that sent unsolicited messages is not served: %v", err)
			}
			c.publish() // the one before may have been dropped
		}
	}
	c.checkGood()
	count("unsolicited messages", int64(n))
	t.Key("noise", c.pub.typ, c.hwm, n/10)
}

// c05Invalid: what is no high-water mark changes nothing.
func c05Invalid(t *T) {
	pub := t.Sock(zmq4.Pub)
	hwm := zmq4.DefaultSendHwm
	set := t.Bool()
	if set {
		hwm = pick(t, 1, 4, 30)
		if err := pub.SetOption(zmq4.OptionHWM, hwm); err != nil {
			t.Violate("PUB: high-water mark %d refused: %v", hwm, err)
		}
	}
	for i := 0; i < 3; i++ {
		v := pick[any](t, -1, -1000, "10", "", nil, 3.5, true, []int{1})
		if err := pub.SetOption(zmq4.OptionHWM, v); err == nil {
			t.Violate("PUB: high-water mark %#v accepted", v)
		}
		got, err := pub.GetOption(zmq4.OptionHWM)
		if set && (err != nil || got != any(hwm)) {
			t.Violate("PUB: high-water mark is %v, %v after %#v was refused; it was set to %d", got, err, v, hwm)
		}
		if !set && err == nil && got != any(hwm) {
			t.Violate("PUB: high-water mark is %v after %#v was refused; none was set", got, v)
		}
		t.Key("invalid", set, hwm, fmt.Sprintf("%#v", v))
	}
	host := t.Host()
	form := c5forms(t, hwm)
	host.capac = max(3000, 5*form.wire())
	ep := t.bind(pub, host.ep())
	c := &c5{t: t, hwm: hwm, pub: pub, ep: ep, host: host, form: form}
	s := c.sub()
	c.slow = []*c5sub{s}
	for i := 0; i < hwm+40; i++ {
		c.publish()
	}
	c.recover(s)
	s.judge(0, c.n)
	count("high-water marks refused", 3)
}

// c05Long: a subscriber does not read for seconds, and then does.
func c05Long(t *T) {
	hwm := pick(t, 1, 5, 50, 0, 70000)
	c := newC5(t, hwm, 1)
	s := c.sub()
	c.slow = []*c5sub{s}
	n := pick(t, 1, c.hwm, c.hwm+300)
	for i := 0; i < n; i++ {
		c.publish()
	}
	d := time.Duration(1100+t.Intn(5000)) * time.Millisecond
	if tier == "thorough" {
		d = time.Duration(1+t.Intn(70)) * time.Second
	}
	time.Sleep(d)
	c.publish()
	c.recover(s)
	s.judge(0, c.n)
	c.checkGood()
	count("seconds stalled", int64(d.Seconds()))
	t.Key("long", hwm, c.form, n)
}

// c05Prompt: publishing to a subscriber whose queue is full takes no longer
// than publishing to nobody.
func c05Prompt(t *T) {
	hwm := pick(t, 1, 5, 50)
	c := newC5(t, hwm, t.Intn(2))
	idle := t.Sock(zmq4.Pub)
	t.bind(idle, t.fresh("vmem"))
	for i := 0; i < 1+t.Intn(3); i++ {
		c.sub().gone = true
	}
	for i := 0; i < hwm+60; i++ { // the links hold a dozen or so
		c.publish()
	}
	c.confirm()
	var full, none []time.Duration
	for i := 0; i < 151; i++ {
		fs := c.form.make(0)
		fs[0] = []byte("T-timing") // not compared
		multi := t.Bool()
		clock := func(s *Sock) time.Duration {
			t0 := time.Now()
			var err error
			if !t.Done(8*time.Second, func() { err = s.put(multi, fs...) }) {
				t.Violate("%s: Send is held up by a subscriber", s.typ)
			}
			if err != nil {
				t.Violate("%s: Send: %v", s.typ, err)
			}
			return time.Since(t0)
		}
		none = append(none, clock(idle))
		full = append(full, clock(c.pub))
	}
	sort.Slice(full, func(i, j int) bool { return full[i] < full[j] })
	sort.Slice(none, func(i, j int) bool { return none[i] < none[j] })
	f, n := full[len(full)/2], none[len(none)/2]
	// (generous: copying a big message takes less than a millisecond)
	if f > 10*time.Millisecond && f > 10*n {
		t.Violate("%s: messages of %d bytes: Send takes %v while a queue is full, and %v without subscribers", c.pub.typ, c.form.wire(), f, n)
	}
	count("sends timed", int64(len(full)))
	t.Key("prompt", hwm, c.form, len(c.good))
}

// c05Crowd: many that do not read.
func c05Crowd(t *T) {
	c := newC5(t, pick(t, 1, 20, 0), 1)
	for i := 0; i < 25; i++ {
		s := c.sub()
		s.gone = true
	}
	for i := 0; i < 300; i++ {
		c.publish()
	}
	c.checkGood()
	t.Key("crowd", c.hwm)
}

func init() {
	register(&check{
		id:     "C05",
		rule:   "one execution publishes to healthy subscribers and to ones that stop reading, resume, break off or send noise under a PRNG schedule; for stalled ones the byte counter of their link bounds the queue at each Send, and every drop and delivery is judged by it; distinct cases are schedules by high-water mark, population, link size and kinds of failure",
		assume: []string{"high-water mark set before the subscriber connects", "Send counts as prompt if it returns within 8 s on the machine at hand"},
		need:   map[string]int64{"drops judged": 300, "deliveries judged": 3000, "recoveries": 30, "unsolicited messages": 200, "deliveries to healthy subscribers": 3000},
		scenarios: func() []scenario {
			return []scenario{
				{"alike", 8, 160, func(t *T) { t.alike("pub-sub", "xpub-sub", "pub-xsub", "xpub-xsub") }},
				{"schedule", 150, 3000, c05Schedule},
				{"vanish", 60, 1000, c05Vanish},
				{"noise", 60, 1000, c05Noise},
				{"invalid", 40, 400, c05Invalid},
				{"crowd", 6, 60, c05Crowd},
				{"long", 8, 60, c05Long},
				{"prompt", 40, 400, c05Prompt},
			}
		},
	})
}
