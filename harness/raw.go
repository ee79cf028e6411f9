package main

import (
	"bufio"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"strings"
	"sync"
	"time"
)

// raw is a ZMTP 3.0 peer that is independent of the library: a strict
// parser and an encoder that can also produce what no honest peer would.
type raw struct {
	t  *T
	c  net.Conn
	br *bufio.Reader
	wm sync.Mutex

	greeting [64]byte
	meta     map[string]string
	peerType string
	kind     string // the type it claims to be
}

func (t *T) raw(c net.Conn) *raw {
	r := &raw{t: t, c: c, br: bufio.NewReaderSize(c, 64<<10)}
	t.Cleanup(func() { _ = c.Close() })
	count("raw peers", 1)
	return r
}

// connectTo dials the end-point of a library socket.
func (t *T) connectTo(ep string) *raw {
	tr, addr, _ := strings.Cut(ep, "://")
	var c net.Conn
	var err error
	switch tr {
	case "tcp", "chaos":
		c, err = net.DialTimeout("tcp", addr, patience)
	case "ipc":
		c, err = net.DialTimeout("unix", addr, patience)
	case "vmem":
		v, _ := hosts.Load(addr)
		c, err = v.(*host).dial(nilCtx)
	default:
		c, err = inprocDial(addr)
	}
	if err != nil {
		t.Skip("raw peer cannot connect to %s: %v", ep, err)
	}
	return t.raw(c)
}

// listenRaw is a listener for library sockets to dial.
func (t *T) listenRaw(tr string) (net.Listener, string) {
	var l net.Listener
	var err error
	var ep string
	switch tr {
	case "tcp":
		l, err = net.Listen("tcp", t.ip+":0")
		if err == nil {
			ep = "tcp://" + l.Addr().String()
		}
	case "ipc":
		ep = t.fresh("ipc")
		l, err = net.Listen("unix", strings.TrimPrefix(ep, "ipc://"))
	case "vmem":
		ep = t.fresh("vmem")
		v, _ := hosts.Load(strings.TrimPrefix(ep, "vmem://"))
		l, err = v.(*host).listen()
	default:
		panic(tr)
	}
	if err != nil {
		t.Skip("raw listener: %v", err)
	}
	t.Cleanup(func() { _ = l.Close() })
	return l, ep
}

// accept waits for the next connection of a library socket.
func (t *T) accept(l net.Listener) *raw {
	c := t.tryAccept(l, patience)
	if c == nil {
		t.Violate("no connection arrives at %v", l.Addr())
	}
	return c
}

func (t *T) tryAccept(l net.Listener, d time.Duration) *raw {
	type res struct {
		c   net.Conn
		err error
	}
	ch := make(chan res, 1)
	go func() {
		c, err := l.Accept()
		ch <- res{c, err}
	}()
	dl := after(d)
	tk := time.NewTicker(10 * time.Millisecond)
	defer tk.Stop()
	for {
		select {
		case r := <-ch:
			if r.err != nil {
				return nil
			}
			return t.raw(r.c)
		case <-tk.C:
			if dl.passed() {
				_ = l.Close()
				r := <-ch
				if r.err == nil {
					return t.raw(r.c)
				}
				return nil
			}
		}
	}
}

// step gives the next operations some time. (Wall time, but generous.)
func (r *raw) step() { _ = r.c.SetDeadline(time.Now().Add(2 * patience)) }

func (r *raw) write(p []byte) error {
	r.wm.Lock()
	defer r.wm.Unlock()
	_, err := r.c.Write(p)
	return err
}

func greetingBytes(mech string, server byte) []byte {
	var g [64]byte
	g[0], g[9], g[10] = 0xff, 0x7f, 3
	copy(g[12:32], mech)
	g[32] = server
	return g[:]
}

func (r *raw) readGreeting() error {
	if _, err := io.ReadFull(r.br, r.greeting[:]); err != nil {
		return err
	}
	return nil
}

// checkGreeting is strict about what the library emits.
func checkGreeting(g []byte, mech string) error {
	if g[0] != 0xff || g[9] != 0x7f {
		return fmt.Errorf("signature % x", g[:10])
	}
	if g[10] != 3 {
		return fmt.Errorf("version %d.%d", g[10], g[11])
	}
	want := make([]byte, 20)
	copy(want, mech)
	if string(g[12:32]) != string(want) {
		return fmt.Errorf("mechanism %q, want %q", g[12:32], mech)
	}
	if g[32] > 1 {
		return fmt.Errorf("as-server %d", g[32])
	}
	for _, b := range g[33:] {
		if b != 0 {
			return fmt.Errorf("filler % x", g[33:])
		}
	}
	return nil
}

const (
	fMore = 1
	fLong = 2
	fCmd  = 4
)

func frame(flags byte, body []byte) []byte {
	return frameForm(flags, body, len(body) > 255)
}

func frameForm(flags byte, body []byte, long bool) []byte {
	if long {
		b := make([]byte, 9, 9+len(body))
		b[0] = flags | fLong
		binary.BigEndian.PutUint64(b[1:], uint64(len(body)))
		return append(b, body...)
	}
	return append([]byte{flags, byte(len(body))}, body...)
}

func command(name string, data []byte) []byte {
	b := append([]byte{byte(len(name))}, name...)
	return frame(fCmd, append(b, data...))
}

func props(kv ...string) []byte {
	var b []byte
	for i := 0; i+1 < len(kv); i += 2 {
		b = append(b, byte(len(kv[i])))
		b = append(b, kv[i]...)
		b = binary.BigEndian.AppendUint32(b, uint32(len(kv[i+1])))
		b = append(b, kv[i+1]...)
	}
	return b
}

func parseProps(b []byte) (map[string]string, error) {
	m := map[string]string{}
	for len(b) > 0 {
		n := int(b[0])
		if n == 0 || len(b) < 1+n+4 {
			return nil, fmt.Errorf("property name %d of %d bytes", n, len(b))
		}
		k := string(b[1 : 1+n])
		b = b[1+n:]
		v := binary.BigEndian.Uint32(b)
		b = b[4:]
		if uint64(v) > uint64(len(b)) {
			return nil, fmt.Errorf("property value of %d bytes with %d left", v, len(b))
		}
		k = strings.ToLower(k)
		if _, dup := m[k]; dup {
			return nil, fmt.Errorf("property %q twice", k)
		}
		m[k] = string(b[:v])
		b = b[v:]
	}
	return m, nil
}

func encodeMsg(frames [][]byte) []byte {
	var b []byte
	for i, f := range frames {
		var fl byte
		if i < len(frames)-1 {
			fl = fMore
		}
		b = append(b, frame(fl, f)...)
	}
	return b
}

var errProto = errors.New("not ZMTP 3.0")

// readFrame is strict: anything ZMTP 3.0 does not allow is an errProto.
func (r *raw) readFrame() (fl byte, body []byte, err error) {
	return parseFrame(r.br)
}

func parseFrame(br io.Reader) (fl byte, body []byte, err error) {
	var h [9]byte
	if _, err = io.ReadFull(br, h[:1]); err != nil {
		return
	}
	fl = h[0]
	if fl&^7 != 0 {
		return fl, nil, fmt.Errorf("%w: reserved bits in flags %#x", errProto, fl)
	}
	if fl&fCmd != 0 && fl&fMore != 0 {
		return fl, nil, fmt.Errorf("%w: command with MORE (flags %#x)", errProto, fl)
	}
	var size uint64
	if fl&fLong != 0 {
		if _, err = io.ReadFull(br, h[1:9]); err != nil {
			return fl, nil, unexpected(err)
		}
		size = binary.BigEndian.Uint64(h[1:9])
		if size <= 255 {
			return fl, nil, fmt.Errorf("%w: long form for %d bytes", errProto, size)
		}
	} else {
		if _, err = io.ReadFull(br, h[1:2]); err != nil {
			return fl, nil, unexpected(err)
		}
		size = uint64(h[1])
	}
	if size > 1<<28 {
		return fl, nil, fmt.Errorf("%w: frame of %d bytes", errProto, size)
	}
	body = make([]byte, size)
	if _, err = io.ReadFull(br, body); err != nil {
		return fl, nil, unexpected(err)
	}
	return fl, body, nil
}

func unexpected(err error) error {
	if err == io.EOF {
		return io.ErrUnexpectedEOF
	}
	return err
}

func (r *raw) readCmd() (name string, data []byte, err error) {
	fl, body, err := r.readFrame()
	if err != nil {
		return "", nil, err
	}
	if fl&fCmd == 0 {
		return "", nil, fmt.Errorf("%w: frame %q where a command was due", errProto, body)
	}
	return parseCmd(body)
}

func parseCmd(body []byte) (string, []byte, error) {
	if len(body) == 0 || int(body[0]) == 0 || len(body) < 1+int(body[0]) {
		return "", nil, fmt.Errorf("%w: command %q", errProto, body)
	}
	n := int(body[0])
	return string(body[1 : 1+n]), body[1+n:], nil
}

// readMsg returns the next message; commands go to onCmd.
func (r *raw) readMsg() ([][]byte, error) {
	var fs [][]byte
	for {
		fl, body, err := r.readFrame()
		if err != nil {
			if len(fs) > 0 {
				err = unexpected(err)
			}
			return nil, err
		}
		if fl&fCmd != 0 {
			if len(fs) > 0 {
				return nil, fmt.Errorf("%w: command inside a message", errProto)
			}
			if _, _, err := parseCmd(body); err != nil {
				return nil, err
			}
			continue
		}
		fs = append(fs, body)
		if fl&fMore == 0 {
			return fs, nil
		}
	}
}

func (r *raw) sendMsg(frames ...[]byte) error { return r.write(encodeMsg(frames)) }

// null performs the NULL handshake as a peer of the given type.
func (r *raw) null(typ, id string) error {
	kv := []string{"Socket-Type", typ}
	if id != "" {
		kv = append(kv, "Identity", id)
	}
	r.kind = typ
	return r.nullWith(props(kv...))
}

// nullWith announces the given metadata.
func (r *raw) nullWith(meta []byte) error {
	r.step()
	if err := r.write(greetingBytes("NULL", 0)); err != nil {
		return err
	}
	if err := r.readGreeting(); err != nil {
		return err
	}
	if err := checkGreeting(r.greeting[:], "NULL"); err != nil {
		return fmt.Errorf("%w: %v", errProto, err)
	}
	if err := r.write(command("READY", meta)); err != nil {
		return err
	}
	return r.readReady()
}

func (r *raw) readReady() error {
	name, data, err := r.readCmd()
	if err != nil {
		return err
	}
	if name != "READY" {
		return fmt.Errorf("%w: %s where READY was due", errProto, name)
	}
	m, err := parseProps(data)
	if err != nil {
		return fmt.Errorf("%w: %v", errProto, err)
	}
	r.meta = m
	r.peerType = m["socket-type"]
	return nil
}

// mustNull is for handshakes that have to succeed.
func (r *raw) mustNull(typ, id string) *raw {
	if err := r.null(typ, id); err != nil {
		r.t.Violate("handshake of a %s peer fails: %v", typ, err)
	}
	_ = r.c.SetDeadline(time.Time{})
	return r
}

// eof waits until the peer has closed the connection, discarding what comes.
func (r *raw) eof(d time.Duration) bool {
	dl := after(d)
	buf := make([]byte, 4096)
	for !dl.passed() {
		_ = r.c.SetReadDeadline(time.Now().Add(100 * time.Millisecond))
		_, err := r.br.Read(buf)
		if err == nil {
			continue
		}
		var ne net.Error
		if errors.As(err, &ne) && ne.Timeout() {
			continue
		}
		return true
	}
	return false
}

// next reads a message that begins to arrive within d.
func (r *raw) next(d time.Duration) (fs [][]byte, err error) {
	_ = r.c.SetReadDeadline(time.Now().Add(d))
	defer r.c.SetReadDeadline(time.Time{})
	if _, err := r.br.Peek(1); err != nil {
		return nil, err
	}
	r.step() // no timeout in the middle
	return r.readMsg()
}

func isTimeout(err error) bool {
	var ne net.Error
	return errors.As(err, &ne) && ne.Timeout()
}

func (r *raw) greet(mech string, server byte) error {
	r.step()
	if err := r.write(greetingBytes(mech, server)); err != nil {
		return err
	}
	if err := r.readGreeting(); err != nil {
		return err
	}
	if err := checkGreeting(r.greeting[:], mech); err != nil {
		return fmt.Errorf("%w: %v", errProto, err)
	}
	return nil
}

func hello(user, pass string) []byte {
	b := append([]byte{byte(len(user))}, user...)
	b = append(b, byte(len(pass)))
	return append(b, pass...)
}

func (r *raw) expect(name string) ([]byte, error) {
	n, data, err := r.readCmd()
	if err != nil {
		return nil, err
	}
	if n != name {
		return nil, fmt.Errorf("%w: %s where %s was due", errProto, n, name)
	}
	return data, nil
}

// plainClient performs the PLAIN handshake in the role of the client.
func (r *raw) plainClient(typ, user, pass string) error {
	r.kind = typ
	if err := r.greet("PLAIN", 0); err != nil {
		return err
	}
	if err := r.write(command("HELLO", hello(user, pass))); err != nil {
		return err
	}
	data, err := r.expect("WELCOME")
	if err != nil {
		return err
	}
	if len(data) != 0 {
		return fmt.Errorf("%w: WELCOME with %q", errProto, data)
	}
	if err := r.write(command("INITIATE", props("Socket-Type", typ))); err != nil {
		return err
	}
	return r.readReady()
}

// plainServer performs the PLAIN handshake in the role of the server.
func (r *raw) plainServer(typ string) (user, pass string, err error) {
	r.kind = typ
	if err = r.greet("PLAIN", 1); err != nil {
		return
	}
	data, err := r.expect("HELLO")
	if err != nil {
		return
	}
	if len(data) < 1 || len(data) < 2+int(data[0]) || len(data) != 2+int(data[0])+int(data[1+int(data[0])]) {
		return "", "", fmt.Errorf("%w: HELLO with %q", errProto, data)
	}
	n := int(data[0])
	user, pass = string(data[1:1+n]), string(data[2+n:])
	if err = r.write(command("WELCOME", nil)); err != nil {
		return
	}
	data, err = r.expect("INITIATE")
	if err != nil {
		return
	}
	m, err := parseProps(data)
	if err != nil {
		return user, pass, fmt.Errorf("%w: %v", errProto, err)
	}
	r.meta, r.peerType = m, m["socket-type"]
	err = r.write(command("READY", props("Socket-Type", typ)))
	return
}

// must is for handshakes that have to succeed, with either mechanism.
func (r *raw) must(plain, server bool, typ string) *raw {
	var err error
	switch {
	case !plain:
		err = r.null(typ, "")
	case server:
		_, _, err = r.plainServer(typ)
	default:
		err = r.plainClient(typ, "user", "pass")
	}
	if err != nil {
		r.t.Violate("handshake of a %s peer (plain=%v, server=%v) fails: %v", typ, plain, server, err)
	}
	_ = r.c.SetDeadline(time.Time{})
	return r
}
