package main

import (
	"fmt"
	"sync/atomic"
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
)

// alike sends messages that are mostly equal to ones sent before, many of
// them in a row, and compares the sequence that arrives: a message is not a
// repetition because it looks like another one. Some runs are longer than
// any counter of sixteen bits.
func (t *T) alike(names ...string) {
	var k flowKind
	want := names[t.idx%len(names)]
	for _, x := range flowKinds {
		if x.name == want {
			k = x
		}
	}
	tr := pick(t, transports...)
	n := 60 + t.Intn(200)
	if t.idx < len(names) {
		n, tr = 66000+t.Intn(3000), pick(t, "vmem", "inproc", "ipc")
	}
	f := t.newFlow(k, tr, t.Bool())
	if f.step {
		if n > 30000 {
			n = 3000
		}
	}
	what := fmt.Sprintf("%s over %s", k.name, tr)
	pool := [][][]byte{{[]byte("a")}, {[]byte("a"), []byte("b")}, {[]byte("ab")}, {[]byte("a"), nil}, {[]byte("b")}, {t.Bytes(300)}}
	seq := make([]byte, n)
	for i := range seq {
		switch {
		case i > 0 && t.Chance(60):
			seq[i] = seq[i-1]
		case i > 1 && t.Chance(50):
			seq[i] = seq[i-2]
		default:
			seq[i] = byte(t.Intn(len(pool)))
		}
	}
	upstream := k.name == "xsub-xpub" || k.name == "sub-xpub"
	form := func(c byte) [][]byte {
		fs := cloneFrames(pool[c])
		if upstream {
			fs[0] = append([]byte{2}, fs[0]...)
		}
		return fs
	}
	var got atomic.Int64
	check := func(i int, m [][]byte) {
		x, ok := f.strip(m)
		if !ok || !eqFrames(x, form(seq[i])) {
			t.Violate("%s: of messages that are much alike, number %d of %d is %s, and %s is received", what, i, n, show(form(seq[i])), show(m))
		}
		got.Add(1)
	}
	rs := t.fork()
	multi := make([]bool, n)
	for i := range multi {
		multi[i] = rs.Intn(2) == 0
	}
	put := func(i int) {
		if err := f.put(multi[i], form(seq[i])); err != nil {
			t.Violate("%s: Send of message %d: %v", what, i, err)
		}
	}
	if f.step {
		for i := range seq {
			if f.turn != nil {
				f.turn()
			}
			var m [][]byte
			t.Par(patience, what, func() { put(i) }, func() { m = t.recv(f.B) })
			check(i, m)
			f.answer(m)
		}
	} else {
		t.Par(300*time.Second, what, func() {
			for i := range seq {
				// Publishers drop what is too much, and others would wait.
				if i%200 == 199 {
					t.Until(patience, what+": messages arrive", func() bool { return int(got.Load()) > i-500 })
				}
				put(i)
			}
		}, func() {
			for i := range seq {
				var m zmq4.Msg
				var err error
				if n > 30000 { // no watch on each
					m, err = f.B.Recv()
				} else {
					t.Within(patience, fmt.Sprintf("%s: Recv of message %d", what, i), func() { m, err = f.B.Recv() })
				}
				if err != nil {
					t.Violate("%s: Recv: %v", what, err)
				}
				check(i, m.Frames)
			}
		})
	}
	count("messages alike", int64(n))
	t.Key("alike", k.name, tr, n > 30000)
}
