package main

import (
	"fmt"
	"math/rand"
	"strconv"
	"strings"
	"sync"
)

// A message made by mkMsg is a function of its name, which is its first
// frame: the receiver rebuilds it, and so notices any change to any frame.

type shape struct {
	maxFrames int
	maxSize   int
}

func mkMsg(src string, g, seq int, sh shape) [][]byte {
	name := fmt.Sprintf("%s/%d/%d/%d.%d", src, g, seq, sh.maxFrames, sh.maxSize)
	return mkNamed(name, sh)
}

func mkNamed(name string, sh shape) [][]byte {
	r := rand.New(rand.NewSource(subseed(name)))
	n := 1
	if sh.maxFrames > 1 {
		n = 1 + r.Intn(sh.maxFrames)
	}
	fs := make([][]byte, n)
	fs[0] = []byte(name)
	for i := 1; i < n; i++ {
		sz := 0
		if sh.maxSize > 0 {
			switch r.Intn(4) {
			case 0:
				sz = r.Intn(min(sh.maxSize, 20) + 1)
			case 1:
				sz = min(sh.maxSize, 250+r.Intn(12))
			default:
				sz = r.Intn(sh.maxSize + 1)
			}
		}
		b := make([]byte, sz)
		r.Read(b)
		fs[i] = b
	}
	return fs
}

type msgID struct {
	src string
	g   int
	seq int
}

// ckMsg tells which message this is, if it is one, whole and unchanged.
func ckMsg(fs [][]byte) (msgID, error) {
	if len(fs) == 0 {
		return msgID{}, fmt.Errorf("message without frames")
	}
	p := strings.Split(string(fs[0]), "/")
	if len(p) != 4 {
		return msgID{}, fmt.Errorf("not a message anybody sent: %s", show(fs))
	}
	g, e1 := strconv.Atoi(p[1])
	seq, e2 := strconv.Atoi(p[2])
	a, b, _ := strings.Cut(p[3], ".")
	mf, e3 := strconv.Atoi(a)
	ms, e4 := strconv.Atoi(b)
	if e1 != nil || e2 != nil || e3 != nil || e4 != nil {
		return msgID{}, fmt.Errorf("not a message anybody sent: %s", show(fs))
	}
	want := mkNamed(string(fs[0]), shape{mf, ms})
	if !eqFrames(fs, want) {
		return msgID{}, fmt.Errorf("message %q is not as sent: %s, sent %s", fs[0], show(fs), show(want))
	}
	return msgID{p[0], g, seq}, nil
}

// ledger checks conservation and order.
type ledger struct {
	t    *T
	what string
	mu   sync.Mutex
	sent map[msgID]bool
	got  map[msgID]string
	last map[string]int // receiver + source + goroutine -> last seq
	by   map[string]int // receiver -> count
	seqs map[string][]msgID
	n    int
	here int // received of those n
}

func (t *T) ledger(what string) *ledger {
	return &ledger{t: t, what: what, sent: map[msgID]bool{}, got: map[msgID]string{}, last: map[string]int{}, by: map[string]int{}, seqs: map[string][]msgID{}}
}

// begin notes that a Send is about to start, end that it has succeeded.
func (l *ledger) begin(id msgID) {
	l.mu.Lock()
	if _, dup := l.sent[id]; !dup {
		l.sent[id] = false
	}
	l.mu.Unlock()
}

func (l *ledger) end(id msgID) {
	l.mu.Lock()
	l.sent[id] = true
	l.n++
	if _, there := l.got[id]; there {
		l.here++
	}
	l.mu.Unlock()
	count("messages sent", 1)
}

// receive notes what a receiver got.
func (l *ledger) receive(at string, fs [][]byte) msgID {
	id, err := ckMsg(fs)
	if err != nil {
		l.t.Violate("%s: %s received: %v", l.what, at, err)
	}
	l.mu.Lock()
	if _, known := l.sent[id]; !known {
		l.mu.Unlock()
		l.t.Violate("%s: %s received %v, which has not been sent", l.what, at, id)
	}
	if who, dup := l.got[id]; dup {
		l.mu.Unlock()
		l.t.Violate("%s: %v received twice: by %s and by %s", l.what, id, who, at)
	}
	l.got[id] = at
	if l.sent[id] {
		l.here++
	}
	k := fmt.Sprintf("%s<%s/%d", at, id.src, id.g)
	if last, ok := l.last[k]; ok && last >= id.seq {
		l.mu.Unlock()
		l.t.Violate("%s: %s received %v after number %d", l.what, at, id, last)
	}
	l.last[k] = id.seq
	l.by[at]++
	l.seqs[at] = append(l.seqs[at], id)
	l.mu.Unlock()
	count("messages received", 1)
	return id
}

// counts tells how many messages were sent, and how many of those received.
func (l *ledger) counts() (sent, got int) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.n, l.here
}

// settle waits until everything sent has been received.
func (l *ledger) settle() {
	_, last := l.counts()
	dl := after(patience)
	for {
		s, g := l.counts()
		if g >= s {
			break
		}
		if g != last {
			last, dl = g, after(patience)
		}
		if dl.passed() {
			var lost []string
			l.mu.Lock()
			for id, ok := range l.sent {
				if _, there := l.got[id]; ok && !there && len(lost) < 8 {
					lost = append(lost, fmt.Sprint(id))
				}
			}
			l.mu.Unlock()
			l.t.Violate("%s: %d messages sent, %d received; lost: %s", l.what, s, g, strings.Join(lost, " "))
		}
		until(tickLen, func() bool { return false })
	}
}
