package main

import (
	"bytes"
	"context"
	"fmt"
	"sync"

	zmq4 "github.com/luxfi/zmq/v4"
)

// c20Queue: operations on a Queue, and on a slice.
func c20Queue(t *T) {
	q := zmq4.NewQueue()
	var model []zmq4.Msg
	seq := 0
	same := func(a, b zmq4.Msg) bool {
		if !eqFrames(a.Frames, b.Frames) || a.Type != b.Type || len(a.Frames) > 0 && len(a.Frames[0]) > 0 && &a.Frames[0][0] != &b.Frames[0][0] {
			return false
		}
		return true
	}
	check := func(after string) {
		if q.Len() != len(model) {
			t.Violate("queue: length %d after %s, pushes minus pops are %d", q.Len(), after, len(model))
		}
		m, ok := q.Peek()
		if ok != (len(model) > 0) {
			t.Violate("queue: Peek after %s: %v, with %d messages", after, ok, len(model))
		}
		if ok && !same(m, model[0]) {
			t.Violate("queue: Peek after %s: %s, the oldest of %d messages is %s", after, show(m.Frames), len(model), show(model[0].Frames))
		}
		if !ok && (m.Frames != nil || m.Type != 0 || m.Err() != nil) {
			t.Violate("queue: Peek of the empty queue: %v", m)
		}
	}
	push := func() {
		seq++
		m := zmq4.NewMsgFrom([]byte(fmt.Sprint(seq)), t.Bytes(seq%3))
		switch seq % 97 {
		case 3:
			m = zmq4.Msg{}
		case 5:
			m = zmq4.NewMsg(nil)
		case 7:
			m.Type = zmq4.CmdMsg
		}
		q.Push(m)
		model = append(model, m)
		check("Push")
	}
	pop := func() {
		if len(model) == 0 {
			func() {
				defer func() {
					if recover() == nil {
						t.Violate("queue: Pop of the empty queue does not panic")
					}
				}()
				q.Pop()
			}()
			check("Pop of the empty queue")
			count("empty pops", 1)
			return
		}
		q.Pop()
		model = model[1:]
		check("Pop")
	}
	// Phases, many of which end at block boundaries.
	const block = 512
	var long, resets int
	for ph := 0; ph < 4+t.Intn(12); ph++ {
		n := pick(t, 1, t.Intn(20), block-1, block, block+1, 2*block+t.Intn(3)-1, t.Intn(3*block))
		switch t.Intn(7) {
		case 0, 1:
			for i := 0; i < n; i++ {
				push()
			}
		case 2:
			for i := 0; i < n && len(model) > 0; i++ {
				pop()
			}
		case 3: // empty it, and once more
			for len(model) > 0 {
				pop()
			}
			for i := 0; i < 1+t.Intn(3); i++ {
				pop()
			}
		case 4: // in and out, at any level
			for i := 0; i < 2*n; i++ {
				push()
				pop()
			}
		case 5:
			for i := 0; i < 2*n; i++ {
				if t.Bool() {
					push()
				} else if len(model) > 0 {
					pop()
				}
			}
		case 6:
			if t.Bool() {
				q.Init()
				model = nil
				resets++
				check("Init")
			}
		}
		long = max(long, len(model))
		t.Key("queue", len(model)%block < 2, len(model)/block, seq%block < 2, resets)
	}
	for len(model) > 0 {
		pop()
	}
	pop()
	count("operations", int64(2*seq))
	count("blocks", int64(seq/block))
}

// c20Msg: message values.
func c20Msg(t *T) {
	for k := 0; k < 50; k++ {
		budget := 200000
		fs := t.randMsg(&budget)
		if t.Chance(10) {
			fs = nil
		}
		if t.Chance(20) && len(fs) > 0 { // frames that are parts of one buffer, with room behind
			buf := bytes.Join(fs, nil)
			at := 0
			for i := range fs {
				n := len(fs[i])
				fs[i] = buf[at : at+n]
				at += n
			}
		}
		if t.Chance(20) && len(fs) > 0 {
			fs[t.Intn(len(fs))] = nil
		}
		want := make([][]byte, len(fs))
		var cat []byte
		for i := range fs {
			want[i] = append([]byte(nil), fs[i]...)
			cat = append(cat, fs[i]...)
		}
		m := zmq4.NewMsgFrom(fs...)
		how := "NewMsgFrom"
		if len(fs) == 1 && t.Bool() {
			m, how = zmq4.NewMsg(fs[0]), "NewMsg"
		}
		if len(m.Frames) != len(fs) || m.Type != zmq4.UsrMsg || m.Err() != nil {
			t.Violate("%s: %v of %s", how, m, show(fs))
		}
		for i := range fs {
			if !bytes.Equal(m.Frames[i], want[i]) || len(fs[i]) > 0 && &m.Frames[i][0] != &fs[i][0] {
				t.Violate("%s: frame %d is not the one given: %s", how, i, show(m.Frames))
			}
		}
		ss := make([]string, len(fs))
		for i := range fs {
			ss[i] = string(fs[i])
		}
		for i, x := range []zmq4.Msg{zmq4.NewMsgFromString(ss), zmq4.NewMsgString(string(cat))} {
			w := want
			if i == 1 {
				w = [][]byte{cat}
			}
			if !eqFrames(x.Frames, w) || x.Type != zmq4.UsrMsg || x.Err() != nil {
				t.Violate("message of strings (%d): %s, given %s", i, show(x.Frames), show(w))
			}
			if !bytes.Equal(x.Bytes(), cat) {
				t.Violate("Bytes of a message of strings: %d bytes, %d given", len(x.Bytes()), len(cat))
			}
		}
		if t.Bool() {
			m.Type = zmq4.CmdMsg
		}
		if t.Chance(10) { // with an error
			if e, _ := refused20().Recv(); e.Err() != nil {
				e.Frames, e.Type = m.Frames, m.Type
				m = e
				count("messages with an error", 1)
			}
		}
		b := m.Bytes()
		if !bytes.Equal(b, cat) {
			t.Violate("Bytes of %s: %d bytes (%s), the frames are %d (%s)", show(want), len(b), digest(b), len(cat), digest(cat))
		}
		_ = m.String()
		c := m.Clone()
		if !eqFrames(c.Frames, want) || c.Type != m.Type || c.Err() != m.Err() {
			t.Violate("Clone of %s is %s", show(want), show(c.Frames))
		}
		if !eqFrames(m.Frames, want) {
			t.Violate("Clone or Bytes changes the message: %s, was %s", show(m.Frames), show(want))
		}
		// What is done to one is not seen in the other, nor in what Bytes gave.
		c2 := c.Clone()
		spoil := func(fs [][]byte) {
			for i := range fs {
				for j := range fs[i] {
					fs[i][j] ^= 0xff
				}
				fs[i] = append(fs[i], "more"...)
			}
			for i := range fs {
				fs[i] = []byte("gone")
			}
		}
		switch t.Intn(4) {
		case 0:
			spoil(m.Frames)
			m.Frames = append(m.Frames, []byte("x"))
			if !eqFrames(c.Frames, want) || !eqFrames(c2.Frames, want) {
				t.Violate("Clone of %s: changes with the original: %s", show(want), show(c.Frames))
			}
		case 1:
			spoil(c.Frames)
			if !eqFrames(m.Frames, want) || !eqFrames(c2.Frames, want) {
				t.Violate("Clone of %s: changing it changes the original: %s", show(want), show(m.Frames))
			}
		case 2: // frames of the clone are apart from each other
			for i := range c.Frames {
				_ = append(c.Frames[i], bytes.Repeat([]byte{0xaa}, 1+t.Intn(50))...)
			}
			if !eqFrames(c.Frames, want) || !eqFrames(m.Frames, want) {
				t.Violate("Clone of %s: appending to a frame changes others: %s", show(want), show(c.Frames))
			}
		case 3:
			for i := range b {
				b[i] ^= 0xff
			}
			_ = append(b, 1, 2, 3)
			if !eqFrames(m.Frames, want) || !eqFrames(c.Frames, want) || !bytes.Equal(c.Bytes(), cat) {
				t.Violate("Bytes of %s shares memory with the message", show(want))
			}
		}
		count("messages", 1)
		t.Key("msg", how, min(len(fs), 6), bucket(len(cat)))
	}
}

// refused20 receives nothing but errors.
var refused20 = sync.OnceValue(func() zmq4.Socket { return zmq4.NewPub(context.Background()) })

func init() {
	register(&check{
		id:   "C20",
		rule: "executions drive a Queue and a slice with the same operations, in phases that fill, drain, hover and reset and often end at a block boundary (512), comparing length and head after each operation; others build messages of random frames (nil, empty, parts of one buffer), and compare constructors, Clone and Bytes with copies before and after either side is overwritten and appended to; distinct cases are (position in block, blocks, resets), (constructor, frames, size)",
		need: map[string]int64{"operations": 100000, "blocks": 200, "messages": 5000, "empty pops": 200},
		scenarios: func() []scenario {
			return []scenario{
				{"queue", 400, 8000, c20Queue},
				{"msg", 400, 8000, c20Msg},
			}
		},
	})
}
