package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"strings"

	zmq4 "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/security/null"
	"github.com/luxfi/zmq/v4/security/plain"
)

const nameChars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.+"

// propName is a name ZMTP allows.
func (t *T) propName(n int) string {
	b := make([]byte, n)
	style := t.Intn(4)
	for i := range b {
		switch style {
		case 0:
			b[i] = nameChars[t.Intn(26)]
		case 1:
			b[i] = nameChars[t.Intn(52)]
		default:
			b[i] = nameChars[t.Intn(len(nameChars))]
		}
	}
	return string(b)
}

func allowedName(s string) bool {
	for i := 0; i < len(s); i++ {
		if strings.IndexByte(nameChars, s[i]) < 0 {
			return false
		}
	}
	return s != ""
}

func (t *T) propValue() string {
	if t.Intn(3000) == 0 {
		return string(t.Bytes(1<<20 + t.Intn(2<<20)))
	}
	switch t.Intn(12) {
	case 0:
		return ""
	case 1:
		return string(t.Bytes(oddSizes[t.Intn(len(oddSizes)-8)]))
	case 2:
		return string(t.Bytes(t.Intn(70000)))
	default:
		return string(t.Bytes(t.Intn(40)))
	}
}

type kv struct{ k, v string }

// refProps takes an encoding apart: the properties in front of the first
// thing that is wrong, and whether something is.
func refProps(b []byte) (ps []kv, ok bool) {
	for len(b) > 0 {
		n := int(b[0])
		if len(b) < 1+n+4 {
			return ps, false
		}
		k := string(b[1 : 1+n])
		v := uint64(binary.BigEndian.Uint32(b[1+n:]))
		b = b[1+n+4:]
		if v > uint64(len(b)) {
			return ps, false
		}
		ps = append(ps, kv{k, string(b[:v])})
		b = b[v:]
	}
	return ps, true
}

// fair tells whether the properties have proper names, none twice.
func fair(ps []kv) bool {
	seen := map[string]bool{}
	for _, p := range ps {
		k := strings.ToLower(p.k)
		if !allowedName(p.k) || seen[k] {
			return false
		}
		seen[k] = true
	}
	return true
}

// contained checks decoded properties against those the bytes contain. Only
// the given keys of md need to come from there.
func (t *T) contained(what string, md zmq4.Metadata, ps []kv, in []byte) {
	exact := fair(ps)
	if exact && len(md) != len(ps) {
		t.Violate("%s: %d properties decoded, the bytes contain %d: %s", what, len(md), len(ps), short(in))
	}
	if len(md) > len(ps) {
		t.Violate("%s: %d properties decoded, the bytes contain %d: %s", what, len(md), len(ps), short(in))
	}
	for k, v := range md {
		found, named := false, false
		for _, p := range ps {
			if strings.EqualFold(p.k, k) {
				named = true
				found = found || p.v == v
			}
			if !allowedName(p.k) && p.v == v {
				named, found = true, true // whatever becomes of such a name
			}
		}
		if !named {
			t.Violate("%s: property %q is not among what the bytes contain: %s", what, k, short(in))
		}
		if !found {
			t.Violate("%s: property %q decoded as %s, which the bytes do not contain: %s", what, k, short([]byte(v)), short(in))
		}
	}
}

func short(b []byte) string {
	if len(b) <= 80 {
		return fmt.Sprintf("%q", b)
	}
	return fmt.Sprintf("%q...(%d bytes, %s)", b[:60], len(b), digest(b))
}

// c17Meta: maps are encoded and decoded.
func c17Meta(t *T) {
	for i := 0; i < 300; i++ {
		md := zmq4.Metadata{}
		want := map[string]string{} // lower case name on the wire
		bad := ""
		n := t.Intn(8)
		if t.Chance(5) {
			n = t.Intn(200)
		}
		for j := 0; j < n; j++ {
			ln := 1 + t.Intn(12)
			switch t.Intn(20) {
			case 0:
				ln = 250 + t.Intn(4)
			case 1:
				ln = 1 + t.Intn(253)
			}
			k, v := t.propName(ln), t.propValue()
			lk := strings.ToLower(k)
			if _, dup := want["x-"+lk]; dup || lk == "identity" || lk == "socket-type" {
				continue
			}
			md[k], want["x-"+lk] = v, v
		}
		if t.Bool() {
			v := string(t.Bytes(t.Intn(256)))
			md["Identity"], want["identity"] = v, v
		}
		if t.Bool() {
			md["Socket-Type"], want["socket-type"] = "DEALER", "DEALER"
		}
		if t.Chance(25) {
			switch t.Intn(3) {
			case 0:
				md[""], bad = t.propValue(), "an empty name"
			case 1:
				md[t.propName(254+t.Intn(600))], bad = t.propValue(), "a name that is too long"
			case 2:
				var some string
				for k := range want {
					if strings.HasPrefix(k, "x-") && strings.ToUpper(k) != k {
						some = strings.TrimPrefix(k, "x-")
					}
				}
				if some == "" || strings.ToUpper(some) == some {
					some = "abc"
				}
				md[strings.ToUpper(some)], md[some], bad = "1", "2", "a name twice"
			}
		}
		before := map[string]string{}
		for k, v := range md {
			before[k] = v
		}
		b, err := md.MarshalZMTP()
		if bad != "" {
			if err == nil {
				t.Violate("metadata: %s is encoded: %s", bad, short(b))
			}
			count("refusals", 1)
			t.Key("refused", bad)
			continue
		}
		if err != nil {
			t.Violate("metadata: %d properties are not encoded: %v", len(md), err)
		}
		if len(before) != len(md) {
			t.Violate("metadata: encoding changes the map")
		}
		got, err := parseProps(b)
		if err != nil {
			t.Violate("metadata: the encoding is wrong: %v: %s", err, short(b))
		}
		if len(got) != len(want) {
			t.Violate("metadata: %d properties, %d encoded", len(want), len(got))
		}
		for k, v := range want {
			if g, ok := got[k]; !ok || g != v {
				t.Violate("metadata: property %q = %s is encoded as %s (%v)", k, short([]byte(v)), short([]byte(g)), ok)
			}
		}
		back := zmq4.Metadata{}
		if err := back.UnmarshalZMTP(b); err != nil {
			t.Violate("metadata: what was encoded is not decoded: %v", err)
		}
		for i := range b {
			b[i] = 0xee // the buffer belongs to the caller
		}
		if len(back) != len(want) {
			t.Violate("metadata: %d properties encoded, %d decoded", len(want), len(back))
		}
		for k, v := range back {
			if w, ok := want[strings.ToLower(k)]; !ok || w != v {
				t.Violate("metadata: decoded %q = %s, encoded %s (%v)", k, short([]byte(v)), short([]byte(w)), ok)
			}
		}
		if _, ok := want["identity"]; ok && back["Identity"] != want["identity"] {
			t.Violate("metadata: Identity is not decoded under its name")
		}
		count("maps", 1)
		t.Key("map", bucket(len(want)), bucket(len(b)))
	}
}

// mess makes bytes that are almost an encoding.
func (t *T) mess() []byte {
	var b []byte
	if t.Chance(10) {
		return t.Bytes(t.Intn(40))
	}
	n := t.Intn(5)
	for j := 0; j < n; j++ {
		ln := 1 + t.Intn(12)
		if t.Chance(5) {
			ln = 255 - t.Intn(3)
		}
		k := t.propName(ln)
		switch t.Intn(12) {
		case 0:
			k = pick(t, "Socket-Type", "Identity", "SOCKET-TYPE", "identity", "X-foo", "x-FOO", "X-", "")
		case 1:
			k = string(t.Bytes(ln)) // no name at all
		case 2:
			k = pick(t, "é", "ŉ", "ß", "ﬁ", "ǆ", "İ", "ı", "ΐ", "\xff\xfe", "a\x00b", " ", "ſocket-type", "\u212aelvin")
		}
		v := string(t.Bytes(t.Intn(30)))
		if t.Chance(5) {
			v = t.propValue()
		}
		if t.Chance(10) {
			v = "DEALER"
		}
		b = append(b, props(k, v)...)
	}
	if t.Chance(30) {
		return b
	}
	for m := 1 + t.Intn(2); m > 0; m-- {
		switch t.Intn(7) {
		case 0: // cut
			b = b[:t.Intn(len(b)+1)]
		case 1: // a byte
			if len(b) > 0 {
				b[t.Intn(len(b))] = byte(t.Intn(256))
			}
		case 2: // a bit
			if len(b) > 0 {
				b[t.Intn(len(b))] ^= 1 << t.Intn(8)
			}
		case 3: // more
			b = append(b, t.Bytes(1+t.Intn(8))...)
		case 4: // out of the middle
			if len(b) > 0 {
				i := t.Intn(len(b))
				b = append(b[:i:i], b[i+1:]...)
			}
		case 5: // a size
			b = append(b, byte(t.Intn(4)))
			b = append(b, t.propName(int(b[len(b)-1]))...)
			b = binary.BigEndian.AppendUint32(b, pick(t, uint32(0), 1, 2, 1<<31-1, 1<<31, 1<<32-1, 1<<32-2, 1<<24, uint32(t.Int63())))
			b = append(b, t.Bytes(t.Intn(4))...)
		case 6: // twice
			b = append(b, b...)
		}
	}
	return b
}

// hidden gives the bytes in a slice that goes on beyond them, with what would
// complete them.
func (t *T) hidden(b []byte) []byte {
	h := make([]byte, 0, len(b)+300)
	h = append(h, b...)
	switch t.Intn(3) {
	case 0:
		return h[:len(b):len(b)]
	case 1:
		copy(h[len(b):cap(h)], t.Bytes(300))
	case 2:
		copy(h[len(b):cap(h)], bytes.Repeat([]byte{0, 0, 0, 1}, 75))
	}
	return h
}

// c17Bytes: any bytes are decoded.
func c17Bytes(t *T) {
	for i := 0; i < 4000; i++ {
		in := t.mess()
		ps, ok := refProps(in)
		buf := t.hidden(in)
		md := zmq4.Metadata{}
		err := md.UnmarshalZMTP(buf)
		if !bytes.Equal(buf, in) {
			t.Violate("metadata: decoding changes the bytes: %s", short(in))
		}
		for j := range buf {
			buf[j] = 0xee
		}
		if !ok && err == nil {
			t.Violate("metadata: malformed bytes are decoded without an error, as %q: %s", md, short(in))
		}
		if ok && fair(ps) && err != nil {
			t.Violate("metadata: well-formed bytes are not decoded: %v: %s", err, short(in))
		}
		if err == nil {
			t.contained("metadata", md, ps, in)
		}
		count("byte strings", 1)
		if err != nil {
			count("refusals", 1)
		}
		t.Key("bytes", ok, err == nil, bucket(len(in)), len(ps))

		// the same for a single property
		buf = t.hidden(in)
		var p zmq4.Property
		n, err := p.Write(buf)
		switch {
		case n < 0 || n > len(in):
			t.Violate("property: Write of %d bytes returns %d", len(in), n)
		case len(ps) == 0 && err == nil:
			t.Violate("property: malformed bytes are decoded without an error: %s", short(in))
		case len(ps) > 0 && allowedName(ps[0].k) && (err != nil || n != 1+len(ps[0].k)+4+len(ps[0].v) || !strings.EqualFold(p.K, ps[0].k) || p.V != ps[0].v):
			t.Violate("property: %q = %s is decoded as %q = %s, %d bytes, %v", ps[0].k, short([]byte(ps[0].v)), p.K, short([]byte(p.V)), n, err)
		}
	}
	// and back
	for i := 0; i < 1000; i++ {
		p := zmq4.Property{K: t.propName(t.Intn(300)), V: t.propValue()}
		size := 1 + len(p.K) + 4 + len(p.V)
		buf := bytes.Repeat([]byte{0xcc}, max(0, size+t.Intn(40)-20)+10)
		end := len(buf) - 10
		n, err := p.Read(buf[: end : end+5])
		fits := end >= size && len(p.K) <= 255
		if !fits {
			if err == nil || err == io.EOF {
				t.Violate("property: %d bytes of name and %d of value are encoded into %d: %d, %v", len(p.K), len(p.V), end, n, err)
			}
			count("refusals", 1)
			continue
		}
		if err != nil && err != io.EOF || n != size {
			t.Violate("property: %d bytes of name and %d of value are not encoded into %d: %d, %v", len(p.K), len(p.V), end, n, err)
		}
		if !bytes.Equal(buf[n:], bytes.Repeat([]byte{0xcc}, len(buf)-n)) {
			t.Violate("property: Read writes beyond its %d bytes", n)
		}
		if ps, ok := refProps(buf[:n]); !ok || len(ps) != 1 || !strings.EqualFold(ps[0].k, p.K) || ps[0].v != p.V {
			t.Violate("property: %q is encoded as %s", p.K, short(buf[:n]))
		}
		count("properties", 1)
	}
}

// announce is a mechanism that announces more.
type announce struct {
	zmq4.Security
	more map[string]string
}

func (a announce) Handshake(c *zmq4.Conn, server bool) error {
	for k, v := range a.more {
		c.Meta[k] = v
	}
	return a.Security.Handshake(c, server)
}

func (t *T) moreProps() map[string]string {
	m := map[string]string{}
	seen := map[string]bool{"identity": true, "socket-type": true}
	for i := t.Intn(6); i > 0; i-- {
		k := t.propName(1 + t.Intn(30))
		if !seen[strings.ToLower(k)] {
			seen[strings.ToLower(k)] = true
			m[k] = t.propValue()
		}
	}
	return m
}

// c17Shake: what one side announces is what the other side sees.
func c17Shake(t *T) {
	for i := 0; i < 40; i++ {
		sec := func() zmq4.Security { return null.Security() }
		mech := t.Intn(3)
		p := t.probe("grow")
		switch mech {
		case 1:
			sec = func() zmq4.Security { return plain.Security("u", "p") }
		case 2:
			sec = func() zmq4.Security { return p }
		}
		ma, mb := t.moreProps(), t.moreProps()
		ida, idb := string(t.Bytes(t.Intn(256))), string(t.Bytes(t.Intn(256)))
		ta, tb := zmq4.Dealer, zmq4.Router
		l := newLink(8 << 20)
		var a, b *zmq4.Conn
		t.Par(patience, "Open", func() {
			var err error
			if a, err = zmq4.Open(l.d, announce{sec(), ma}, ta, zmq4.SocketIdentity(ida), false, nil); err != nil {
				t.Violate("handshake: Open: %v", err)
			}
		}, func() {
			var err error
			if b, err = zmq4.Open(l.l, announce{sec(), mb}, tb, zmq4.SocketIdentity(idb), true, nil); err != nil {
				t.Violate("handshake: Open: %v", err)
			}
		})
		see := func(c *zmq4.Conn, more map[string]string, id string, typ zmq4.SocketType) {
			md := c.Peer.Meta
			want := map[string]string{"identity": id, "socket-type": string(typ)}
			for k, v := range more {
				want["x-"+strings.ToLower(k)] = v
			}
			if len(md) != len(want) {
				t.Violate("handshake: %d properties announced, %d seen", len(want), len(md))
			}
			for k, v := range md {
				if w, ok := want[strings.ToLower(k)]; !ok || w != v {
					t.Violate("handshake: property %q is seen as %s, announced as %s (%v)", k, short([]byte(v)), short([]byte(w)), ok)
				}
			}
			if md["Identity"] != id || md["Socket-Type"] != string(typ) {
				t.Violate("handshake: identity and type are not seen under their names: %q", md)
			}
			count("announcements", 1)
		}
		see(a, mb, idb, tb)
		see(b, ma, ida, ta)
		_, _ = a.Close(), b.Close()
		t.Key("shake", mech, len(ma), len(mb))
	}
}

// c17Raw: announcements of any kind, of a raw peer.
func c17Raw(t *T) {
	for i := 0; i < 60; i++ {
		in := t.mess()
		if t.Bool() {
			in = append(props("Socket-Type", "DEALER"), in...)
		}
		ps, ok := refProps(in)
		l := newLink(8 << 20)
		r := &raw{t: t, br: nil, c: l.l}
		role := t.Intn(3)
		var b []byte
		var sec zmq4.Security = null.Security()
		server := t.Bool()
		switch role {
		case 0:
			b = cat(greetingBytes("NULL", 0), command("READY", in))
		case 1: // the library is the client
			sec, server = plain.Security("u", "p"), false
			b = cat(greetingBytes("PLAIN", 1), command("WELCOME", nil), command("READY", in))
		case 2:
			sec, server = plain.Security("u", "p"), true
			b = cat(greetingBytes("PLAIN", 0), command("HELLO", hello("u", "p")), command("INITIATE", in))
		}
		if t.Bool() {
			l.ab.setCap(1 << 20)
		}
		if err := r.write(b); err != nil {
			t.Skip("%v", err)
		}
		var c *zmq4.Conn
		var err error
		if !t.Done(patience, func() { c, err = zmq4.Open(l.d, sec, zmq4.Dealer, nil, server, nil) }) {
			t.Violate("handshake: Open does not return, though all it needs is there: %s", short(in))
		}
		types := 0
		right := false
		for _, p := range ps {
			if strings.EqualFold(p.k, "Socket-Type") {
				types++
				right = p.v == "DEALER"
			}
		}
		if err == nil {
			if !ok {
				t.Violate("handshake: malformed metadata is accepted: %s", short(in))
			}
			if types == 0 {
				t.Violate("handshake: metadata without a socket type is accepted: %s", short(in))
			}
			t.contained("handshake", c.Peer.Meta, ps, in)
			count("announcements", 1)
		} else {
			if ok && fair(ps) && types == 1 && right {
				t.Violate("handshake: well-formed metadata is refused: %v: %s", err, short(in))
			}
			count("refusals", 1)
		}
		_ = l.d.Close()
		_ = l.l.Close()
		t.Key("raw", role, ok, err == nil, len(ps))
	}
}

// c17Ident: the identity a peer announces is what a ROUTER sees.
func c17Ident(t *T) {
	s := t.Sock(zmq4.Router)
	box := t.pump(s)
	tr := pick(t, "tcp", "ipc", "vmem", "inproc")
	ep := t.bind(s, t.fresh(tr))
	for i := 0; i < 6; i++ {
		id := string(t.Bytes(1 + t.Intn(255)))
		if t.Chance(20) {
			id = string(t.Bytes(pick(t, 1, 2, 127, 128, 129, 254, 255)))
		}
		body := fmt.Sprintf("b%d", i)
		if t.Bool() {
			r := t.connectTo(ep)
			name := pick(t, "Identity", "identity", "IDENTITY")
			if err := r.nullWith(props("X-a", t.propValue(), name, id, "socket-type", "DEALER", t.propName(1+t.Intn(254)), t.propValue())); err != nil {
				t.Violate("handshake: %v", err)
			}
			if err := r.sendMsg([]byte(body)); err != nil {
				t.Violate("handshake: the peer cannot write: %v", err)
			}
		} else {
			d := t.Sock(zmq4.Dealer, zmq4.WithID(zmq4.SocketIdentity(id)))
			t.dial(d, ep)
			t.send(d, false, []byte(body))
		}
		if !box.wait(i+1, patience) {
			t.Violate("handshake: nothing arrives from a peer with identity %s", short([]byte(id)))
		}
		if m := box.all()[i]; !eqFrames(m, [][]byte{[]byte(id), []byte(body)}) {
			t.Violate("handshake: a peer announces identity %s, the router sees %s", short([]byte(id)), show(m))
		}
		count("announcements", 1)
		t.Key("ident", tr, bucket(len(id)))
	}
}

// c17Cmd: commands are encoded and decoded.
func c17Cmd(t *T) {
	for i := 0; i < 10; i++ {
		l := newLink(8 << 20)
		l.ab.record()
		var a, b *zmq4.Conn
		t.Par(patience, "Open", func() {
			var err error
			if a, err = zmq4.Open(l.d, null.Security(), zmq4.Pair, nil, false, nil); err != nil {
				t.Violate("handshake: Open: %v", err)
			}
		}, func() {
			var err error
			if b, err = zmq4.Open(l.l, null.Security(), zmq4.Pair, nil, true, nil); err != nil {
				t.Violate("handshake: Open: %v", err)
			}
		})
		type cm struct {
			name string
			body []byte
		}
		var cs []cm
		budget := 500000
		for j := 0; j < 40; j++ {
			n := 1 + t.Intn(20)
			switch t.Intn(6) {
			case 0:
				n = 255 - t.Intn(3)
			case 1:
				n = 256 + t.Intn(300)
			}
			c := cm{t.propName(n), t.Bytes(t.frameSize(&budget))}
			if t.Bool() {
				c.name = pick(t, "READY", "HELLO", "WELCOME", "INITIATE", "ERROR", "PONG", "SUBSCRIBE", "CANCEL")
			}
			cs = append(cs, c)
		}
		t.Par(patience, "commands", func() {
			for _, c := range cs {
				err := a.SendCmd(c.name, append([]byte(nil), c.body...))
				if len(c.name) > 255 {
					if err == nil {
						t.Violate("command: a name of %d bytes is sent", len(c.name))
					}
					count("refusals", 1)
				} else if err != nil {
					t.Violate("command: %q with %d bytes is not sent: %v", c.name, len(c.body), err)
				}
			}
			_ = a.Close()
		}, func() {
			for j, c := range cs {
				if len(c.name) > 255 {
					continue
				}
				if j%3 == 0 {
					m, err := b.RecvMsg()
					if err != nil || m.Type != zmq4.CmdMsg || !bytes.Equal(m.Bytes(), c.body) {
						t.Violate("command: %q with %s is received as a message of type %d, %s, %v", c.name, short(c.body), m.Type, show(m.Frames), err)
					}
				} else {
					g, err := b.RecvCmd()
					if err != nil || g.Name != c.name || !bytes.Equal(g.Body, c.body) {
						t.Violate("command: %q with %s is received as %q with %s, %v", c.name, short(c.body), g.Name, short(g.Body), err)
					}
				}
				count("commands", 1)
			}
			if _, err := b.RecvCmd(); err == nil {
				t.Violate("command: one more is received than was sent")
			}
		})
		for k, f := range mustFrames(t, l.ab.recorded(), "NULL")[1:] {
			name, _, err := parseCmd(f.body)
			if f.flags&fCmd == 0 || err != nil {
				t.Violate("command: on the wire, command %d (%q) has flags %#x: %v", k, name, f.flags, err)
			}
		}
		_, _ = a.Close(), b.Close()
	}
	// malformed ones
	for i := 0; i < 60; i++ {
		l := newLink(8 << 20)
		r := &raw{t: t, c: l.l}
		name := t.propName(1 + t.Intn(20))
		var body []byte
		kind := t.Intn(5)
		switch kind {
		case 0: // nothing
		case 1: // the name is cut
			body = append([]byte{byte(len(name) + 1 + t.Intn(200))}, name...)
		case 2:
			body = append([]byte{255}, t.Bytes(254)...)
		case 3, 4: // fine
			body = append(append([]byte{byte(len(name))}, name...), t.Bytes(t.Intn(400))...)
		}
		flags := byte(fCmd)
		if kind == 4 {
			flags = 0 // a message
		}
		if err := r.write(cat(greetingBytes("NULL", 0), command("READY", props("Socket-Type", "PAIR")), frame(flags, body))); err != nil {
			t.Skip("%v", err)
		}
		l.ba.cut(0, nil) // that is all
		var c *zmq4.Conn
		var err error
		t.Within(patience, "Open", func() { c, err = zmq4.Open(l.d, null.Security(), zmq4.Pair, nil, false, nil) })
		if err != nil {
			t.Violate("handshake: Open: %v", err)
		}
		var g zmq4.Cmd
		t.Within(patience, "RecvCmd", func() { g, err = c.RecvCmd() })
		switch {
		case kind == 3 && (err != nil || g.Name != name || !bytes.Equal(g.Body, body[1+len(name):])):
			t.Violate("command: %s is received as %q with %s, %v", short(body), g.Name, short(g.Body), err)
		case kind != 3 && err == nil:
			t.Violate("command: RecvCmd takes %s (flags %d) for command %q", short(body), flags, g.Name)
		}
		if kind != 3 {
			count("refusals", 1)
		}
		_ = l.d.Close()
		t.Key("malformed command", kind)
	}
}

func mustFrames(t *T, b []byte, mech string) []wframe {
	fs, whole := t.wireFrames(b, mech)
	if !whole {
		t.Violate("something is left at the end of the wire")
	}
	return fs
}

func init() {
	register(&check{
		id:     "C17",
		rule:   "executions encode PRNG-made property maps (names of all lengths, duplicates, values up to 64 KiB and beyond) and compare with an independent decoder; decode encodings that were cut, extended, flipped, given other sizes, in slices that go on beyond their length, and compare with an independent parser; run handshakes with NULL, PLAIN and an encrypting mechanism that announce such properties; send and receive commands of all sizes and malformed ones; distinct cases are (shape of input, outcome)",
		assume: []string{"names made of other characters than ZMTP allows may be refused or taken, under whatever name", "of properties whose names are the same, any may be kept"},
		need:   map[string]int64{"maps": 2000, "byte strings": 50000, "refusals": 10000, "announcements": 500, "commands": 500, "properties": 1000},
		scenarios: func() []scenario {
			return []scenario{
				{"meta", 24, 600, c17Meta},
				{"bytes", 40, 2000, c17Bytes},
				{"shake", 16, 300, c17Shake},
				{"raw", 40, 1000, c17Raw},
				{"ident", 24, 300, c17Ident},
				{"cmd", 16, 300, c17Cmd},
			}
		},
	})
}
