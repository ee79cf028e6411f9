package main

import (
	"fmt"
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
)

var oddSizes = []int{0, 1, 2, 3, 7, 8, 9, 15, 16, 31, 32, 63, 64, 100, 127, 128, 129, 200, 253, 254, 255, 256, 257, 258,
	300, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 9999, 16384, 32767, 32768, 32769,
	65279, 65280, 65534, 65535, 65536, 65537, 66000, 100000, 131071, 131072, 131073, 262144, 1<<20 - 1, 1 << 20, 1<<20 + 1, 1<<20 + 4096, 3 << 20}

// frameSize favours boundaries; big ones come out of a budget.
func (t *T) frameSize(budget *int) int {
	var n int
	switch t.Intn(10) {
	case 0, 1:
		n = 0
	case 2, 3, 4:
		n = t.Intn(40)
	case 5:
		n = 240 + t.Intn(40)
	case 6:
		n = t.Intn(5000)
	default:
		n = oddSizes[t.Intn(len(oddSizes))]
	}
	if n > *budget {
		n = t.Intn(300)
	}
	*budget -= n
	return n
}

func (t *T) randMsg(budget *int) [][]byte {
	n := 1
	switch t.Intn(12) {
	case 0, 1, 2:
		n = 1
	case 3, 4:
		n = 2
	case 5, 6:
		n = 3
	case 7, 8:
		n = 1 + t.Intn(8)
	case 9:
		n = 1 + t.Intn(40)
	case 10:
		n = 1 + t.Intn(200)
	case 11:
		if *budget > 100000 {
			n = pick(t, 255, 256, 257, 511, 512, 513, 1022, 1023, 1024, 1025, 1026, 2100)
			*budget -= 40 * n
		}
	}
	fs := make([][]byte, n)
	for i := range fs {
		sz := 0
		if n > 50 {
			sz = t.Intn(12)
		} else {
			sz = t.frameSize(budget)
		}
		fs[i] = t.Bytes(sz)
		if sz == 0 && t.Bool() {
			fs[i] = nil
		}
	}
	return fs
}

func scribble(fs [][]byte, v byte) {
	for _, f := range fs {
		f = f[:cap(f)]
		for i := range f {
			f[i] = v
		}
	}
}

type held struct {
	got  [][]byte
	want [][]byte
	n    int
}

// c01Flow sends messages of all shapes over one link, reusing every buffer as
// soon as Send returns, and checks what comes out, at once and again later.
func c01Flow(k flowKind) func(t *T) {
	return func(t *T) {
		tr := transports[t.idx%len(transports)]
		bindA := t.idx/len(transports)%2 == 0
		f := t.newFlow(k, tr, bindA)
		c01Run(t, f, tr, bindA)
	}
}

func c01Run(t *T, f *flow, tr string, bindA bool) {
	nmsg := 40 + t.Intn(30)
	if f.step {
		nmsg = 25
	}
	budget := 2500000
	if tier == "thorough" && t.Chance(10) {
		budget = 12000000
	}
	if tr == "chaos" {
		budget /= 4
	}
	upstream := f.name == "xsub-xpub" || f.name == "sub-xpub"
	msgs := make([][][]byte, nmsg)
	multi := make([]bool, nmsg)
	for i := range msgs {
		msgs[i] = t.randMsg(&budget)
		if upstream && len(msgs[i]) == 1 {
			msgs[i][0] = append([]byte{2}, msgs[i][0]...) // not a subscription
		}
		multi[i] = t.Bool()
	}
	mode := t.Intn(3) // send calls: Send, SendMulti, both
	for i := range multi {
		if mode < 2 {
			multi[i] = mode == 1
		}
	}
	slowS, slowR := t.Chance(20), t.Chance(20)
	t.Log("%s over %s, bindA=%v, %d messages, mode %d", f.name, tr, bindA, nmsg, mode)

	var keep []held
	sendOne := func(i int) {
		fs := cloneFrames(msgs[i])
		for j := range fs {
			if msgs[i][j] == nil {
				fs[j] = nil
			}
		}
		if err := f.put(multi[i], fs); err != nil {
			t.Violate("%s over %s: sending message %d: %v", f.name, tr, i, err)
		}
		scribble(fs, 0xAA)
		count("messages sent", 1)
	}
	checkOne := func(i int, rawMsg [][]byte) {
		got, ok := f.strip(rawMsg)
		if !ok || !eqFrames(got, msgs[i]) {
			t.Violate("%s over %s: message %d (multi=%v): sent %s, received %s", f.name, tr, i, multi[i], show(msgs[i]), show(got))
		}
		count("messages received", 1)
		count("frames compared", int64(len(got)))
		nb := 0
		for _, x := range got {
			nb += len(x)
			t.keySize(f.name, tr, len(x))
		}
		count("bytes compared", int64(nb))
		t.Key(f.name, tr, bindA, multi[i], "n", bucket(len(got)))
	}
	post := func(i int, rawMsg [][]byte) {
		got, _ := f.strip(rawMsg)
		if t.Bool() {
			scribble(rawMsg, 0x55) // the receiver owns it
		} else {
			keep = append(keep, held{rawMsg, append(cloneFrames(rawMsg[:len(rawMsg)-len(got)]), msgs[i]...), i})
		}
	}

	if f.step {
		for i := range msgs {
			if f.turn != nil {
				f.turn()
			}
			var m [][]byte
			t.Par(patience, f.name, func() { sendOne(i) }, func() {
				m = t.recv(f.B)
				checkOne(i, m)
			})
			f.answer(m)
			post(i, m)
		}
	} else {
		rs, rr := t.fork(), t.fork()
		t.Par(100*time.Second, f.name+" over "+tr, func() {
			for i := range msgs {
				t.Within(patience, fmt.Sprintf("%s over %s: Send %d", f.name, tr, i), func() { sendOne(i) })
				if slowS && rs.Intn(4) == 0 {
					time.Sleep(time.Millisecond)
				}
			}
		}, func() {
			for i := range msgs {
				m := t.recv(f.B)
				checkOne(i, m)
				post(i, m)
				if slowR && rr.Intn(4) == 0 {
					time.Sleep(time.Millisecond)
				}
			}
		})
	}
	for _, h := range keep {
		if !eqFrames(h.got, h.want) {
			t.Violate("%s over %s: message %d changed after it had been received: %s, was %s", f.name, tr, h.n, show(h.got), show(h.want))
		}
	}
	count("messages checked again later", int64(len(keep)))
}

func (t *T) keySize(name, tr string, n int) {
	for _, s := range oddSizes {
		if n == s {
			t.Key("size", tr, n)
			return
		}
	}
}

func bucket(n int) int {
	b := 0
	for n > 0 {
		n >>= 1
		b++
	}
	return b
}

// c01Fan has several receivers of the same messages, each of which owns its
// copies, and several sending sockets.
func c01Fan(t *T) {
	tr := transports[t.idx%len(transports)]
	pubT := pick(t, zmq4.Pub, zmq4.XPub)
	pub := t.Sock(pubT)
	ep := t.bind(pub, t.fresh(tr))
	n := 2 + t.Intn(3)
	subs := make([]*Sock, n)
	for i := range subs {
		subs[i] = t.Sock(zmq4.Sub)
		_ = subs[i].SetOption(zmq4.OptionSubscribe, fmt.Sprintf("T%d", i))
		_ = subs[i].SetOption(zmq4.OptionSubscribe, "all")
		t.dial(subs[i], ep)
	}
	t.Until(patience, "subscriptions", func() bool {
		return len(topics(pub)) == n+1
	})
	// Everybody has subscribed to "all" only when each has been seen to.
	for i := range subs {
		t.send(pub, false, []byte(fmt.Sprintf("T%d", i)))
		t.recv(subs[i])
	}
	budget := 1500000
	const nm = 60
	msgs := make([][][]byte, nm)
	for i := range msgs {
		m := t.randMsg(&budget)
		m[0] = append([]byte("all"), m[0]...)
		msgs[i] = m
	}
	t.Log("%s over %s with %d subscribers", pubT, tr, n)
	fs := []func(){func() {
		for i := range msgs {
			c := cloneFrames(msgs[i])
			t.Within(patience, "Send", func() {
				if err := pub.put(i%2 == 0, c...); err != nil {
					t.Violate("%s: Send: %v", pubT, err)
				}
			})
			scribble(c, 0xAA)
		}
	}}
	for i := range subs {
		r := t.fork()
		fs = append(fs, func() {
			var keep []held
			for j := range msgs {
				m := t.recv(subs[i])
				if !eqFrames(m, msgs[j]) {
					t.Violate("%s over %s, subscriber %d: message %d: sent %s, received %s", pubT, tr, i, j, show(msgs[j]), show(m))
				}
				count("messages received", 1)
				if r.Intn(2) == 0 {
					scribble(m, byte(i))
				} else {
					keep = append(keep, held{m, msgs[j], j})
				}
			}
			for _, h := range keep {
				if !eqFrames(h.got, h.want) {
					t.Violate("%s: message %d changed after it had been received", pubT, h.n)
				}
			}
		})
	}
	t.Par(100*time.Second, "fan-out", fs...)
	t.Key("fan", pubT, tr, n)
}

// c01Huge: frames bigger than any limit somebody might think of.
func c01Huge(t *T) {
	k := flowKinds[t.Intn(len(flowKinds))]
	tr := []string{"vmem", "inproc", "tcp", "ipc"}[t.Intn(4)]
	f := t.newFlow(k, tr, t.Bool(), zmq4.WithTimeout(patience))
	size := []int{70 << 20, 17 << 20, 33<<20 + t.Intn(100), 5<<20 + t.Intn(1<<20)}[t.idx%4]
	big := make([]byte, size)
	for i := 0; i < size; i += 997 {
		big[i] = byte(i >> 10)
	}
	m := [][]byte{[]byte("big"), big, []byte("end")}
	if t.Bool() {
		m = m[:2]
	}
	if f.turn != nil {
		f.turn()
	}
	var got [][]byte
	multi := t.Bool()
	t.Par(patience, fmt.Sprintf("%s over %s: a frame of %d bytes", k.name, tr, size), func() {
		if err := f.put(multi, m); err != nil {
			t.Violate("%s over %s: Send of %d bytes: %v", k.name, tr, size, err)
		}
	}, func() { got = t.recv(f.B) })
	x, ok := f.strip(got)
	if !ok || !eqFrames(x, m) {
		t.Violate("%s over %s: a frame of %d bytes arrives as %s", k.name, tr, size, show(got))
	}
	f.answer(got)
	count("bytes compared", int64(size))
	t.Key("huge", k.name, tr, t.idx%4)
}

func init() {
	register(&check{
		id:   "C01",
		rule: "one execution connects two (or 1+n) sockets of a pattern over a transport, sends PRNG-chosen messages while reusing the buffers, and compares every received message; distinct cases are (pattern, transport, bind side, send call, frame-count class) and (transport, boundary frame size)",
		assume: []string{"publishers: fewer messages pending than the high-water mark, so nothing may be dropped",
			"chaos and vmem stand for registered transports"},
		need: map[string]int64{"messages alike": 200000, "messages received": 1000, "frames compared": 3000},
		scenarios: func() []scenario {
			var ss []scenario
			for _, k := range flowKinds {
				ss = append(ss, scenario{k.name, 10, 200, c01Flow(k)})
			}
			ss = append(ss, scenario{"fan", 15, 200, c01Fan})
			ss = append(ss, scenario{"huge", 4, 16, c01Huge})
			ss = append(ss, scenario{"alike", 2 * len(flowKinds), 300, func(t *T) {
				var names []string
				for _, k := range flowKinds {
					names = append(names, k.name)
				}
				t.alike(names...)
			}})
			return ss
		},
	})
}
