package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"sync"
	"sync/atomic"
	"time"
)

// inprocPair is a connection and the name it was made by.
func (t *T) inprocPair() (d, a net.Conn) {
	name := t.inprocName()
	l, err := inprocListen(name)
	if err != nil {
		t.Violate("Listen on a fresh name: %v", err)
	}
	t.Within(patience, "Dial and Accept", func() {
		ch := make(chan net.Conn, 1)
		go func() {
			c, err := l.Accept()
			if err != nil {
				t.Violate("Accept: %v", err)
			}
			ch <- c
		}()
		if d, err = inprocDial(name); err != nil {
			t.Violate("Dial: %v", err)
		}
		a = <-ch
	})
	if t.Bool() { // the listener has nothing to do with its connections
		_ = l.Close()
	} else {
		t.Cleanup(func() { _ = l.Close() })
	}
	t.Cleanup(func() { _ = d.Close(); _ = a.Close() })
	count("connections", 1)
	if t.Bool() {
		return a, d
	}
	return d, a
}

func (t *T) inprocName() string {
	return t.fresh("inproc")[len("inproc://"):]
}

// c15writer writes a stream of bytes that only it could have written.
type c15writer struct {
	t     *T
	c     net.Conn
	rng   *rand.Rand // content
	total int64
	hash  []byte // everything written, as far as it was reported
}

func (w *c15writer) write(n int) (int, error) {
	b := make([]byte, n)
	// Content goes on where it stopped, whatever became of the rest.
	w.rng.Read(b)
	k, err := w.c.Write(b)
	if k < 0 || k > n || err == nil && k != n {
		w.t.Violate("Write of %d bytes returns %d, %v", n, k, err)
	}
	w.hash = append(w.hash, b[:k]...)
	for i := range b {
		b[i] = 0xee
	}
	w.total += int64(k)
	return k, err
}

func sizes(r *rand.Rand, most int) int {
	switch r.Intn(6) {
	case 0:
		return r.Intn(3)
	case 1:
		return r.Intn(10)
	default:
		return r.Intn(most + 1)
	}
}

// c15Stream: both directions at once, cut up anyhow, with pauses, then Close.
func c15Stream(t *T) {
	a, b := t.inprocPair()
	var fs []func()
	for _, cs := range [][2]net.Conn{{a, b}, {b, a}} {
		from, to := cs[0], cs[1]
		w := &c15writer{t: t, c: from, rng: t.fork()}
		wr, rr := t.fork(), t.fork()
		most := pick(t, 1, 5, 100, 5000, 100000)
		rmost := pick(t, 1, 5, 100, 5000, 100000)
		nw := 20 + t.Intn(200)
		if most/rmost > 1000 {
			nw = 5
		}
		deadlines := t.Bool()
		var got bytes.Buffer
		var wdone atomic.Bool
		fs = append(fs, func() {
			for i := 0; i < nw; i++ {
				if deadlines && wr.Intn(3) == 0 {
					_ = from.SetWriteDeadline(time.Now().Add(time.Duration(wr.Intn(2000)-500) * time.Microsecond))
				}
				n := sizes(wr, most)
				_, err := w.write(n)
				if err != nil {
					if !isTimeout(err) {
						t.Violate("Write: %v", err)
					}
					_ = from.SetWriteDeadline(time.Time{})
					count("writes that timed out", 1)
				}
				if wr.Intn(30) == 0 {
					time.Sleep(time.Duration(wr.Intn(300)) * time.Microsecond)
				}
			}
			_ = from.SetWriteDeadline(time.Time{})
			wdone.Store(true)
		})
		rdead := deadlines
		fs = append(fs, func() {
			for {
				// Reading is bounded by what the writer is going to write.
				if wdone.Load() && int64(got.Len()) >= w.total {
					break
				}
				if rdead && rr.Intn(3) == 0 {
					_ = to.SetReadDeadline(time.Now().Add(time.Duration(rr.Intn(2000)-500) * time.Microsecond))
				} else {
					_ = to.SetReadDeadline(time.Now().Add(20 * time.Millisecond))
				}
				buf := make([]byte, sizes(rr, rmost))
				k, err := to.Read(buf)
				if k < 0 || k > len(buf) {
					t.Violate("Read of %d bytes returns %d", len(buf), k)
				}
				got.Write(buf[:k])
				if err != nil {
					if !isTimeout(err) {
						t.Violate("Read: %v", err)
					}
					if k != 0 {
						t.Violate("Read returns %d bytes and %v", k, err)
					}
					_ = to.SetReadDeadline(time.Time{})
				} else if k == 0 && len(buf) > 0 {
					t.Violate("Read of %d bytes returns nothing", len(buf))
				}
				if rr.Intn(50) == 0 {
					time.Sleep(time.Duration(rr.Intn(300)) * time.Microsecond)
				}
			}
			if !bytes.Equal(got.Bytes(), w.hash) {
				i := 0
				for i < got.Len() && i < len(w.hash) && got.Bytes()[i] == w.hash[i] {
					i++
				}
				t.Violate("inproc: %d bytes written, %d read, the first difference at %d", len(w.hash), got.Len(), i)
			}
			count("bytes compared", int64(got.Len()))
		})
		t.Key("stream", most, rmost, deadlines)
	}
	t.Par(time.Minute, "streams in both directions", fs...)

	_ = a.SetDeadline(time.Time{})
	_ = b.SetDeadline(time.Time{})

	// what was written before Close can still be read
	w := &c15writer{t: t, c: a, rng: t.fork()}
	n := t.Intn(20)
	var wg sync.WaitGroup
	wg.Add(1)
	t.Go(func() {
		defer wg.Done()
		_ = a.SetWriteDeadline(time.Now().Add(20 * time.Millisecond)) // the buffer may be too small
		for i := 0; i < n; i++ {
			if _, err := w.write(1 + t.Intn(3000)); err != nil {
				break
			}
		}
		_ = a.Close()
	})
	if t.Bool() {
		wg.Wait()
	}
	var got []byte
	t.Within(patience, "reading up to the end of file", func() {
		buf := make([]byte, 1+t.Intn(5000))
		for {
			k, err := b.Read(buf)
			got = append(got, buf[:k]...)
			if err == io.EOF {
				break
			}
			if err != nil {
				t.Violate("Read before the end of file: %v", err)
			}
		}
	})
	wg.Wait()
	if !bytes.Equal(got, w.hash) {
		t.Violate("inproc: %d bytes written before Close, %d read before the end of file", len(w.hash), len(got))
	}
	if k, err := b.Read(make([]byte, 5)); err != io.EOF || k != 0 {
		t.Violate("inproc: Read after the end of file: %d, %v", k, err)
	}
	if k, err := a.Read(make([]byte, 5)); err == nil || k != 0 {
		t.Violate("inproc: Read on a closed connection: %d, %v", k, err)
	}
	for _, c := range []net.Conn{a, b} {
		if k, err := c.Write([]byte("late")); err == nil || k != 0 {
			t.Violate("inproc: Write after Close: %d, %v", k, err)
		}
	}
	count("bytes compared", int64(len(got)))
	count("ends of file", 1)
}

// fill writes until the connection takes no more.
func (t *T) fill(c net.Conn) (total int64) {
	fails := 0
	for i := 0; i < 10000; i++ {
		_ = c.SetWriteDeadline(time.Now().Add(5 * time.Millisecond))
		n, err := c.Write(make([]byte, 10000))
		total += int64(n)
		if err == nil {
			fails = 0
		} else if fails++; fails == 3 { // one may be due to a slow machine
			_ = c.SetWriteDeadline(time.Time{})
			return total
		}
	}
	t.Skip("the connection takes any amount")
	return 0
}

// c15Wake: Close at either end wakes what is blocked at both.
func c15Wake(t *T) {
	a, b := t.inprocPair()
	type call struct {
		what string
		eof  bool // may be an end of file
		done chan struct{}
		n    int
		err  error
	}
	var calls []*call
	full := t.Bool()
	if full {
		t.fill(a)
		if t.Bool() {
			t.fill(b)
		}
	}
	block := func(what string, c net.Conn, read bool) {
		k := &call{what: what, done: make(chan struct{})}
		calls = append(calls, k)
		t.Go(func() {
			defer close(k.done)
			for k.err == nil {
				if read {
					k.n, k.err = c.Read(make([]byte, 100))
				} else {
					k.n, k.err = c.Write(make([]byte, 20000))
				}
			}
		})
	}
	// Reads only where nothing is there to read for ever.
	for i := 0; i < 1+t.Intn(4); i++ {
		switch t.Intn(4) {
		case 0:
			block("Read at a", a, true)
		case 1:
			block("Read at b", b, true)
		case 2:
			block("Write at a", a, false)
		case 3:
			block("Write at b", b, false)
		}
	}
	settle()
	var fs []func()
	ends := t.Intn(3)
	n := 1 + t.Intn(3)
	for i := 0; i < n; i++ {
		if ends != 1 {
			fs = append(fs, func() { _ = a.Close() })
		}
		if ends != 0 {
			fs = append(fs, func() { _ = b.Close() })
		}
	}
	t.Par(patience, "Close", fs...)
	for _, k := range calls {
		if !waitCh(k.done, 3*time.Second) {
			t.Violate("inproc: %s is not woken by Close (ends %d)", k.what, ends)
		}
		if isTimeout(k.err) {
			t.Violate("inproc: %s woken by Close returns a timeout", k.what)
		}
		count("calls woken", 1)
		t.Key("wake", k.what, ends, full)
	}
}

// c15Deadline: reads and writes end at their deadline, not before, and can
// go on afterwards.
func c15Deadline(t *T) {
	a, b := t.inprocPair()
	w := &c15writer{t: t, c: a, rng: t.fork()}
	for i := 0; i < 6; i++ {
		read := t.Bool()
		c := b
		var there atomic.Int64
		if !read {
			c = a
			there.Add(t.fill(a))
		}
		set := func(at time.Time) {
			switch {
			case t.Chance(30) && c == b:
				_ = c.SetDeadline(at)
			case read:
				_ = c.SetReadDeadline(at)
			default:
				_ = c.SetWriteDeadline(at)
			}
		}
		d := time.Duration(t.Intn(25)) * time.Millisecond
		op := func() (int, error) {
			if read {
				return c.Read(make([]byte, 10))
			}
			n, err := c.Write(make([]byte, 10))
			there.Add(int64(n))
			return n, err
		}
		kind := pick(t, "future", "past", "moved", "shortened", "cleared", "while blocked", "again")
		var want time.Time
		t0 := time.Now()
		type res struct {
			n   int
			err error
			at  time.Time
		}
		ch := make(chan res, 1)
		start := func() {
			go func() {
				n, err := op()
				for i := 0; i < 10000 && !read && kind != "past" && err == nil; i++ {
					n, err = op() // it was not full
				}
				ch <- res{n, err, time.Now()}
			}()
		}
		switch kind {
		case "future":
			want = t0.Add(d)
			set(want)
			start()
		case "past":
			want = t0.Add(-d)
			set(want)
			start()
		case "moved": // later, twice, while blocked
			set(t0.Add(30 * time.Millisecond))
			start()
			want = t0.Add(60*time.Millisecond + d)
			set(t0.Add(50 * time.Millisecond))
			set(want)
			if time.Since(t0) > 25*time.Millisecond {
				want = t0 // too slow to tell
			}
		case "shortened":
			set(t0.Add(time.Hour))
			start()
			settle()
			want = time.Now().Add(d)
			set(want)
		case "cleared":
			set(t0.Add(25 * time.Millisecond))
			start()
			set(time.Time{})
			slow := time.Since(t0) > 20*time.Millisecond
			settle()
			select {
			case r := <-ch:
				if !slow {
					t.Violate("inproc: deadline cleared, yet %d, %v", r.n, r.err)
				}
				ch <- r
			default:
			}
			want = t0
			set(time.Now())
		case "while blocked":
			start()
			settle()
			want = time.Now().Add(d)
			set(want)
		case "again":
			for j := 0; j < 3; j++ {
				set(time.Now().Add(-time.Second))
				if _, err := op(); !isTimeout(err) {
					t.Violate("inproc: %v with a deadline in the past", err)
				}
				set(time.Time{})
				set(time.Now().Add(time.Hour))
			}
			want = time.Now().Add(d)
			set(want)
			start()
		}
		var r res
		if !t.Done(3*time.Second+100*time.Millisecond, func() { r = <-ch }) {
			t.Violate("inproc: read=%v does not return at its deadline (%s)", read, kind)
		}
		if !isTimeout(r.err) || r.n != 0 {
			t.Violate("inproc: read=%v at its deadline (%s): %d, %v", read, kind, r.n, r.err)
		}
		var ne net.Error
		if !errors.As(r.err, &ne) {
			t.Violate("inproc: the error at the deadline is no net.Error: %v", r.err)
		}
		if r.at.Before(want.Add(-time.Millisecond)) {
			t.Violate("inproc: read=%v times out %v before its deadline (%s)", read, want.Sub(r.at), kind)
		}
		count("deadlines", 1)
		t.Key("deadline", kind, read)
		// the connection goes on
		_ = a.SetDeadline(time.Time{})
		_ = b.SetDeadline(time.Time{})
		if !read {
			// take out what fill put in
			t.Within(patience, "draining", func() {
				if _, err := io.CopyN(io.Discard, b, there.Load()); err != nil {
					t.Violate("inproc: Read after a write deadline (%s): %v", kind, err)
				}
			})
		}
		w.hash = nil
		if _, err := w.write(1 + t.Intn(100)); err != nil {
			t.Violate("inproc: Write after a deadline (%s): %v", kind, err)
		}
		buf := make([]byte, len(w.hash))
		t.Within(patience, "Read after a deadline", func() {
			if _, err := io.ReadFull(b, buf); err != nil {
				t.Violate("inproc: Read after a deadline (%s): %v", kind, err)
			}
		})
		if !bytes.Equal(buf, w.hash) {
			t.Violate("inproc: other bytes after a deadline (%s, read=%v)", kind, read)
		}
	}
}

// c15Many: several goroutines read and write the same connection.
func c15Many(t *T) {
	a, b := t.inprocPair()
	n := 2 + t.Intn(4)
	var sent, got [256]int64
	var fs []func()
	for i := 0; i < n; i++ {
		fs = append(fs, func() {
			for j := 0; j < 30; j++ {
				sz := 1 + t.Intn(500)
				buf := bytes.Repeat([]byte{byte(i + 1)}, sz)
				if k, err := a.Write(buf); err != nil || k != sz {
					t.Violate("inproc: Write of %d: %d, %v", sz, k, err)
				}
				for x := range buf {
					buf[x] = 0xee
				}
				atomic.AddInt64(&sent[i+1], int64(sz))
			}
		})
	}
	var rg sync.WaitGroup
	for i := 0; i < 1+t.Intn(3); i++ {
		rg.Add(1)
		t.Go(func() {
			defer rg.Done()
			buf := make([]byte, 1+t.Intn(900))
			for {
				k, err := b.Read(buf)
				for _, x := range buf[:k] {
					atomic.AddInt64(&got[x], 1)
				}
				if err != nil {
					if err != io.EOF {
						t.Violate("inproc: Read: %v", err)
					}
					return
				}
			}
		})
	}
	t.Par(time.Minute, "concurrent writers", fs...)
	_ = a.Close()
	t.Within(patience, "concurrent readers", rg.Wait)
	if sent != got {
		for i := range sent {
			if sent[i] != got[i] {
				t.Violate("inproc: writer %d wrote %d bytes, %d were read", i, sent[i], got[i])
			}
		}
	}
	t.Key("many", n)
	count("ends of file", 1)
}

// c15Pairing: many Dials and Accepts at once, on several names.
func c15Pairing(t *T) {
	names := 1 + t.Intn(4)
	type lst struct {
		l    net.Listener
		name string
	}
	var ls []lst
	for i := 0; i < names; i++ {
		name := t.inprocName()
		l, err := inprocListen(name)
		if err != nil {
			t.Violate("Listen: %v", err)
		}
		if l.Addr() == nil || l.Addr().Network() != "inproc" {
			t.Violate("inproc: the listener's address is %v", l.Addr())
		}
		t.Cleanup(func() { _ = l.Close() })
		ls = append(ls, lst{l, name})
	}
	var (
		mu       sync.Mutex
		accepted = map[string]string{} // token -> name
		answers  = map[string]int{}
	)
	var ag sync.WaitGroup
	for _, x := range ls {
		for k := 0; k < 1+t.Intn(3); k++ { // several Accepts at once
			ag.Add(1)
			t.Go(func() {
				defer ag.Done()
				for {
					c, err := x.l.Accept()
					if err != nil {
						return
					}
					t.Go(func() {
						_ = c.SetDeadline(time.Now().Add(2 * patience))
						buf := make([]byte, 16)
						if _, err := io.ReadFull(c, buf); err != nil {
							t.Violate("inproc: the accepted end reads: %v", err)
						}
						mu.Lock()
						if n, dup := accepted[string(buf)]; dup {
							mu.Unlock()
							t.Violate("inproc: one Dial is accepted twice, at %s and %s", n, x.name)
						}
						accepted[string(buf)] = x.name
						mu.Unlock()
						_, _ = c.Write(append(buf, x.name...))
						_ = c.Close()
					})
				}
			})
		}
	}
	var fs []func()
	total := 0
	for g := 0; g < 4; g++ {
		n := 5 + t.Intn(20)
		total += n
		fs = append(fs, func() {
			for i := 0; i < n; i++ {
				x := ls[t.Intn(len(ls))]
				c, err := inprocDial(x.name)
				if err != nil {
					t.Violate("inproc: Dial: %v", err)
				}
				_ = c.SetDeadline(time.Now().Add(2 * patience))
				tok := fmt.Sprintf("%04d-%04d.......", g, i)[:16]
				if _, err := c.Write([]byte(tok)); err != nil {
					t.Violate("inproc: the dialled end writes: %v", err)
				}
				ans, err := io.ReadAll(c)
				if err != nil || string(ans) != tok+x.name {
					t.Violate("inproc: the answer to %q at %s is %q, %v", tok, x.name, ans, err)
				}
				mu.Lock()
				answers[tok]++
				mu.Unlock()
				_ = c.Close()
			}
		})
	}
	t.Par(time.Minute, "dials", fs...)
	if len(answers) != total || len(accepted) != total {
		t.Violate("inproc: %d Dials, %d accepted, %d answered", total, len(accepted), len(answers))
	}
	for _, x := range ls {
		_ = x.l.Close()
	}
	if !t.Done(3*time.Second, ag.Wait) {
		t.Violate("inproc: Accept is not released by closing the listener")
	}
	count("dials paired", int64(total))
	count("calls woken", 1)
	t.Key("pairing", names, total)
}

// c15Names: the table of names.
func c15Names(t *T) {
	name := t.inprocName()
	refused := func(when string) {
		var c net.Conn
		var err error
		if !t.Done(3*time.Second, func() { c, err = inprocDial(name) }) {
			t.Violate("inproc: Dial %s does not return", when)
		}
		if err == nil {
			_ = c.Close()
			t.Violate("inproc: Dial %s succeeds", when)
		}
	}
	refused("with nobody listening")
	var old []net.Listener
	for i := 0; i < 3; i++ {
		l, err := inprocListen(name)
		if err != nil {
			t.Violate("inproc: Listen on a free name (time %d): %v", i+1, err)
		}
		if x, err := inprocListen(name); err == nil {
			_ = x.Close()
			t.Violate("inproc: two listeners of one name")
		}
		// a listener that was closed before is not concerned any more
		for _, o := range old {
			_ = o.Close()
			if c, err := o.Accept(); err == nil {
				t.Violate("inproc: a closed listener accepts %v", c)
			}
		}
		acc := 0
		var calls []chan error
		if t.Bool() {
			acc = 1 + t.Intn(3)
			for j := 0; j < acc; j++ {
				ch := make(chan error, 1)
				go func() { _, err := l.Accept(); ch <- err }()
				calls = append(calls, ch)
			}
			settle()
		}
		// Some dial, and are not accepted.
		var ds []net.Conn
		if acc == 0 {
			for j := 0; j < t.Intn(4); j++ {
				c, err := inprocDial(name)
				if err != nil {
					t.Violate("inproc: Dial with a listener: %v", err)
				}
				ds = append(ds, c)
				if t.Bool() {
					_ = c.SetWriteDeadline(time.Now().Add(5 * time.Millisecond))
					_, _ = c.Write([]byte("early"))
					_ = c.SetWriteDeadline(time.Time{})
				}
				ch := make(chan error, 1)
				go func() { _, err := c.Read(make([]byte, 10)); ch <- err }()
				calls = append(calls, ch)
			}
			if len(ds) > 0 && t.Bool() { // accepted in order, the first one
				c, err := l.Accept()
				if err != nil {
					t.Violate("inproc: Accept: %v", err)
				}
				_ = c.Close()
			}
		}
		var fs []func()
		for j := 0; j < 1+t.Intn(3); j++ {
			fs = append(fs, func() { _ = l.Close() })
		}
		t.Par(patience, "Close of a listener", fs...)
		for _, ch := range calls {
			var err error
			if !t.Done(3*time.Second, func() { err = <-ch }) {
				t.Violate("inproc: a call is not released by closing the listener (accepts %d, dials %d)", acc, len(ds))
			}
			if err == nil {
				t.Violate("inproc: a call released by closing the listener returns no error")
			}
			count("calls woken", 1)
		}
		for _, c := range ds {
			if _, err := c.Write([]byte("late")); err == nil {
				t.Violate("inproc: Write to a listener that is closed succeeds")
			}
			_ = c.Close()
		}
		refused("after the listener was closed")
		old = append(old, l)
		t.Key("names", acc, len(ds))
	}
	// Listen races with Listen and Close
	for i := 0; i < 20; i++ {
		var won atomic.Int64
		var holder atomic.Int64
		var fs []func()
		for j := 0; j < 3; j++ {
			fs = append(fs, func() {
				l, err := inprocListen(name)
				if err != nil {
					return
				}
				won.Add(1)
				if holder.Add(1) != 1 {
					t.Violate("inproc: two listeners of one name at a time")
				}
				holder.Add(-1)
				_ = l.Close()
			})
		}
		t.Par(patience, "Listen", fs...)
		if won.Load() == 0 {
			t.Violate("inproc: nobody gets a free name")
		}
	}
	count("names", 1)
}

// c15Churn: listeners come and go while others dial.
func c15Churn(t *T) {
	name := t.inprocName()
	var stop atomic.Bool
	var dials, answered, refusals atomic.Int64
	var fs []func()
	for g := 0; g < 3; g++ {
		fs = append(fs, func() {
			for i := 0; !stop.Load(); i++ {
				c, err := inprocDial(name)
				if err != nil {
					refusals.Add(1)
					time.Sleep(50 * time.Microsecond)
					continue
				}
				dials.Add(1)
				_ = c.SetDeadline(time.Now().Add(2 * patience))
				tok := fmt.Sprintf("%d/%d", g, i)
				_, _ = c.Write([]byte(tok))
				ans, err := io.ReadAll(c)
				// The listener may go without accepting; then nothing comes.
				if isTimeout(err) {
					t.Violate("inproc: nobody answers a connection, and nobody closes it")
				}
				if len(ans) > 0 {
					if string(ans) != tok {
						t.Violate("inproc: wrote %q, the echo is %q", tok, ans)
					}
					answered.Add(1)
				}
				_ = c.Close()
			}
		})
	}
	fs = append(fs, func() {
		defer stop.Store(true)
		for i := 0; i < 30; i++ {
			l, err := inprocListen(name)
			if err != nil {
				t.Violate("inproc: the name is not free: %v", err)
			}
			done := make(chan struct{})
			go func() {
				defer close(done)
				for {
					c, err := l.Accept()
					if err != nil {
						return
					}
					buf := make([]byte, 20)
					n, _ := c.Read(buf)
					_, _ = c.Write(buf[:n])
					_ = c.Close()
				}
			}()
			until(time.Duration(t.Intn(3000))*time.Microsecond, func() bool { return false })
			_ = l.Close()
			if !waitCh(done, 3*time.Second) {
				t.Violate("inproc: Accept is not released by closing the listener")
			}
		}
	})
	t.Par(time.Minute, "listeners that come and go", fs...)
	count("dials paired", answered.Load())
	t.Key("churn", answered.Load() > 0, refusals.Load() > 0, dials.Load() > answered.Load())
}

// c15Table is held alone by scenarios about the table of names, which is one
// for the whole process: others at work would wake what nobody wakes.
var c15Table sync.RWMutex

func c15Alone(n int, fn func(*T)) func(*T) {
	return func(t *T) {
		c15Table.Lock()
		defer c15Table.Unlock()
		for i := 0; i < n; i++ {
			fn(t)
		}
	}
}

func c15Shared(fn func(*T)) func(*T) {
	return func(t *T) {
		c15Table.RLock()
		defer c15Table.RUnlock()
		fn(t)
	}
}

func init() {
	register(&check{
		id:     "C15",
		rule:   "executions use inproc connections directly: random cuts of writes and reads in both directions with deadlines running out in between, buffers overwritten after each Write, Close at either end with calls blocked at both, deadlines set, moved and cleared, concurrent readers and writers, many Dials and Accepts on several names, listeners that come and go; distinct cases are size classes, ways of waking, deadline histories and name histories",
		assume: []string{"promptly: within 3 s of running time"},
		need:   map[string]int64{"bytes compared": 1000000, "ends of file": 60, "calls woken": 150, "deadlines": 200, "dials paired": 1000, "names": 20},
		scenarios: func() []scenario {
			return []scenario{
				{"stream", 60, 1000, c15Shared(c15Stream)},
				{"wake", 60, 800, c15Shared(c15Wake)},
				{"deadline", 40, 500, c15Shared(c15Deadline)},
				{"many", 20, 300, c15Shared(c15Many)},
				{"pairing", 3, 50, c15Alone(10, c15Pairing)},
				{"names", 3, 40, c15Alone(8, c15Names)},
				{"churn", 2, 40, c15Alone(5, c15Churn)},
			}
		},
	})
}
