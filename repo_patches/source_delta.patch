From 71cd6f3fae7b444f6cde41ea26bda4a6dbc5c16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:10 +0000
Subject: [PATCH 01/36] fix: keep the frames of a message contiguous when sends
 overlap

A send that runs into its deadline goes on in the background; the next
send on the same connection then mixed its frames with it.
---
 conn.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/conn.go b/conn.go
index 0524ae6..c0262ab 100644
--- a/conn.go
+++ b/conn.go
@@ -35,6 +35,8 @@ type Conn struct {
 	mu     sync.RWMutex
 	topics map[string]struct{} // set of subscribed topics
 
+	wmu sync.Mutex // keeps the frames of a message together on the wire
+
 	closed         int32
 	onCloseErrorCB func(c *Conn)
 }
@@ -176,6 +178,9 @@ func (c *Conn) SendCmd(name string, body []byte) error {
 	if err != nil {
 		return err
 	}
+
+	c.wmu.Lock()
+	defer c.wmu.Unlock()
 	return c.send(true, buf, 0)
 }
 
@@ -185,6 +190,9 @@ func (c *Conn) SendMsg(msg Msg) error {
 		return ErrClosedConn
 	}
 
+	c.wmu.Lock()
+	defer c.wmu.Unlock()
+
 	// STREAM sockets handle raw TCP data differently
 	if c.typ == Stream {
 		return c.sendStream(msg)
-- 
2.43.0


From 2a33ec900413771df954317715bb2020c9accbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:14 +0000
Subject: [PATCH 02/36] fix: refuse truncated metadata properties instead of
 panicking

---
 protocol.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/protocol.go b/protocol.go
index 82262af..f1f9978 100644
--- a/protocol.go
+++ b/protocol.go
@@ -240,9 +240,12 @@ func (prop Property) Read(data []byte) (n int, err error) {
 }
 
 func (prop *Property) Write(data []byte) (n int, err error) {
+	if len(data) == 0 {
+		return n, io.ErrUnexpectedEOF
+	}
 	klen := int(data[n])
 	n++
-	if klen > len(data) {
+	if n+klen+4 > len(data) {
 		return n, io.ErrUnexpectedEOF
 	}
 
@@ -256,7 +259,7 @@ func (prop *Property) Write(data []byte) (n int, err error) {
 	}
 
 	vlen := int(v)
-	if n+vlen > len(data) {
+	if vlen > len(data)-n {
 		return n, io.ErrUnexpectedEOF
 	}
 
-- 
2.43.0


From 2b04b604351907e6d36627401737692eefc626d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:14 +0000
Subject: [PATCH 03/36] fix: reject a peer with an unknown socket type instead
 of panicking

---
 conn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index c0262ab..1ed4163 100644
--- a/conn.go
+++ b/conn.go
@@ -119,7 +119,7 @@ func (conn *Conn) init(sec Security) error {
 	}
 
 	peer := SocketType(conn.Peer.Meta[sysSockType])
-	if !peer.IsCompatible(conn.typ) {
+	if !conn.typ.IsCompatible(peer) {
 		return fmt.Errorf("zmq4: peer=%q not compatible with %q", peer, conn.typ)
 	}
 
-- 
2.43.0


From 27c20ab4d1536e78533a22e98562dd6235c060f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:14 +0000
Subject: [PATCH 04/36] fix: do not allocate a frame body on the strength of
 its announced size

---
 conn.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/conn.go b/conn.go
index 1ed4163..1ec8ae7 100644
--- a/conn.go
+++ b/conn.go
@@ -487,8 +487,8 @@ func (c *Conn) read() Msg {
 			return msg
 		}
 
-		body := make([]byte, size)
-		_, msg.err = io.ReadFull(c.rw, body)
+		var body []byte
+		body, msg.err = readBody(c.rw, size)
 		if msg.err != nil {
 			c.checkIO(msg.err)
 			return msg
@@ -513,6 +513,24 @@ func (c *Conn) read() Msg {
 	return msg
 }
 
+// readBody reads a frame body of the given size. The size comes from the
+// peer: memory is only allocated as the data arrives.
+func readBody(r io.Reader, size uint64) ([]byte, error) {
+	const max = 1 << 20
+	if size <= max {
+		body := make([]byte, size)
+		_, err := io.ReadFull(r, body)
+		return body, err
+	}
+
+	var buf bytes.Buffer
+	_, err := io.CopyN(&buf, r, int64(size))
+	if err == io.EOF {
+		err = io.ErrUnexpectedEOF
+	}
+	return buf.Bytes(), err
+}
+
 func (conn *Conn) subscribe(msg Msg) {
 	conn.mu.Lock()
 	v := msg.Frames[0]
-- 
2.43.0


From 328bc1f15a8d80332d428c04ee7e4e661df12c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:14 +0000
Subject: [PATCH 05/36] fix: notice a connection that ends inside a frame or
 breaks the protocol

---
 conn.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 1ec8ae7..f287ad8 100644
--- a/conn.go
+++ b/conn.go
@@ -484,6 +484,7 @@ func (c *Conn) read() Msg {
 
 		if size > uint64(maxInt64) {
 			msg.err = errOverflow
+			c.SetClosed()
 			return msg
 		}
 
@@ -503,6 +504,7 @@ func (c *Conn) read() Msg {
 
 		buf := new(bytes.Buffer)
 		if _, msg.err = c.sec.Decrypt(buf, body); msg.err != nil {
+			c.SetClosed()
 			return msg
 		}
 		msg.Frames = append(msg.Frames, buf.Bytes())
@@ -574,7 +576,7 @@ func (conn *Conn) checkIO(err error) {
 		return
 	}
 
-	if err == io.EOF || errors.Is(err, io.EOF) {
+	if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) || errors.Is(err, io.ErrClosedPipe) {
 		conn.SetClosed()
 		return
 	}
-- 
2.43.0


From 64f0589c57fc7f906a3c23a021ecb30930db91b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:14 +0000
Subject: [PATCH 06/36] fix: REP takes the first empty frame as the end of the
 envelope

---
 rep.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rep.go b/rep.go
index d9a1a78..8aa12db 100644
--- a/rep.go
+++ b/rep.go
@@ -196,6 +196,7 @@ func splitReq(envelope Msg) (preamble [][]byte, msg Msg) {
 		if i+1 < len(envelope.Frames) {
 			msg = NewMsgFrom(envelope.Frames[i+1:]...)
 		}
+		break
 	}
 	return
 }
-- 
2.43.0


From 2a99e6d7452af4af8e9cc561e41eb643516db5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:50 +0000
Subject: [PATCH 07/36] fix: frame what Encrypt produces, not what it was given

The header announced the size of the plain body, so that a mechanism that
changes the length broke the stream; and a failing Encrypt left a message
cut off between two frames.
---
 conn.go | 44 ++++++++++++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/conn.go b/conn.go
index f287ad8..482911a 100644
--- a/conn.go
+++ b/conn.go
@@ -179,9 +179,14 @@ func (c *Conn) SendCmd(name string, body []byte) error {
 		return err
 	}
 
+
 	c.wmu.Lock()
 	defer c.wmu.Unlock()
-	return c.send(true, buf, 0)
+	bodies, err := c.encrypt(buf)
+	if err != nil {
+		return err
+	}
+	return c.send(true, bodies[0], 0)
 }
 
 // SendMsg sends a ZMTP message over the wire.
@@ -198,6 +203,12 @@ func (c *Conn) SendMsg(msg Msg) error {
 		return c.sendStream(msg)
 	}
 
+	var err error
+	msg.Frames, err = c.encrypt(msg.Frames...)
+	if err != nil {
+		return err
+	}
+
 	if msg.multipart {
 		return c.sendMulti(msg)
 	}
@@ -344,16 +355,7 @@ func (c *Conn) sendMulti(msg Msg) error {
 			hdr[1] = uint8(size)
 		}
 
-		switch c.sec.Type() {
-		case NullSecurity:
-			buffers = append(buffers, hdr[:hsz], frame)
-		default:
-			var secBuf bytes.Buffer
-			if _, err := c.sec.Encrypt(&secBuf, frame); err != nil {
-				return err
-			}
-			buffers = append(buffers, hdr[:hsz], secBuf.Bytes())
-		}
+		buffers = append(buffers, hdr[:hsz], frame)
 	}
 
 	if _, err := buffers.WriteTo(c.rw); err != nil {
@@ -364,6 +366,24 @@ func (c *Conn) sendMulti(msg Msg) error {
 	return nil
 }
 
+// encrypt returns the bodies as they go on the wire. The header of a frame
+// gives the size of the encrypted body, and nothing of a message is sent if
+// one of its frames cannot be encrypted.
+func (c *Conn) encrypt(bodies ...[]byte) ([][]byte, error) {
+	if c.sec.Type() == NullSecurity {
+		return bodies, nil
+	}
+	enc := make([][]byte, len(bodies))
+	for i, body := range bodies {
+		var buf bytes.Buffer
+		if _, err := c.sec.Encrypt(&buf, body); err != nil {
+			return nil, err
+		}
+		enc[i] = buf.Bytes()
+	}
+	return enc, nil
+}
+
 func (c *Conn) send(isCommand bool, body []byte, flag byte) error {
 	// Long flag
 	size := len(body)
@@ -394,7 +414,7 @@ func (c *Conn) send(isCommand bool, body []byte, flag byte) error {
 		return err
 	}
 
-	if _, err := c.sec.Encrypt(c.rw, body); err != nil {
+	if _, err := c.rw.Write(body); err != nil {
 		c.checkIO(err)
 		return err
 	}
-- 
2.43.0


From af15fa09a28f1a701504b5750caa50006f4a50df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:50 +0000
Subject: [PATCH 08/36] fix: keep the PLAIN credentials for further connections

---
 security/plain/plain.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/security/plain/plain.go b/security/plain/plain.go
index 6a8d87d..071e7fb 100644
--- a/security/plain/plain.go
+++ b/security/plain/plain.go
@@ -126,9 +126,6 @@ func (sec *security) Handshake(conn *zmq4.Conn, server bool) error {
 		if err != nil {
 			return fmt.Errorf("security/plain: could not unmarshal peer metadata: %w", err)
 		}
-
-		sec.user = nil
-		sec.pass = nil
 	}
 	return nil
 }
-- 
2.43.0


From 0f4e651f58a2ea3c6b91f073b555d5538fd844c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:51 +0000
Subject: [PATCH 09/36] fix: PLAIN refuses a malformed HELLO and a handshake
 without INITIATE

---
 security/plain/plain.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/security/plain/plain.go b/security/plain/plain.go
index 071e7fb..2fa2758 100644
--- a/security/plain/plain.go
+++ b/security/plain/plain.go
@@ -64,6 +64,10 @@ func (sec *security) Handshake(conn *zmq4.Conn, server bool) error {
 		if err != nil {
 			return fmt.Errorf("security/plain: could not receive INITIATE from client: %w", err)
 		}
+		if cmd.Name != zmq4.CmdInitiate {
+			_ = conn.SendCmd(zmq4.CmdError, []byte("invalid command")) // FIXME(sbinet) correct ERROR reason
+			return fmt.Errorf("security/plain: expected an INITIATE command from client")
+		}
 
 		err = conn.Peer.Meta.UnmarshalZMTP(cmd.Body)
 		if err != nil {
@@ -82,6 +86,9 @@ func (sec *security) Handshake(conn *zmq4.Conn, server bool) error {
 		}
 
 	case !server:
+		if len(sec.user) > 255 || len(sec.pass) > 255 {
+			return fmt.Errorf("security/plain: user name or password too long")
+		}
 		hello := make([]byte, 0, len(sec.user)+len(sec.pass)+2)
 		hello = append(hello, byte(len(sec.user)))
 		hello = append(hello, sec.user...)
@@ -142,13 +149,16 @@ func (security) Decrypt(w io.Writer, data []byte) (int, error) {
 
 // validateHello validates the user/passwd credentials.
 func validateHello(body []byte) error {
-	//	n := int(body[0])
-	//	user := body[1 : 1+n]
-	//	body = body[1+n:]
-	//	n = int(body[0])
-	//	pass := body[1 : 1+n]
-	//	body = body[1+n:]
-	//	log.Printf("user=%q, pass=%q, body=%q", user, pass, body)
+	// user name and password, each preceded by its length
+	for i := 0; i < 2; i++ {
+		if len(body) == 0 || len(body) < 1+int(body[0]) {
+			return fmt.Errorf("security/plain: malformed HELLO command")
+		}
+		body = body[1+int(body[0]):]
+	}
+	if len(body) != 0 {
+		return fmt.Errorf("security/plain: malformed HELLO command")
+	}
 	return nil
 }
 
-- 
2.43.0


From 846550a8cc66c6679013c5cb602d7d3a7831e212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:15 +0000
Subject: [PATCH 10/36] fix: make an inproc connection a byte stream

A read shorter than the write it met lost the rest, the reader saw later
changes to the writer's buffer, a blocked read ignored Close, and what was
written before Close was lost.
---
 internal/inproc/conn.go | 43 ++++++++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/internal/inproc/conn.go b/internal/inproc/conn.go
index 52a1aa0..829be9f 100644
--- a/internal/inproc/conn.go
+++ b/internal/inproc/conn.go
@@ -20,6 +20,9 @@ type conn struct {
 	r    <-chan []byte
 	w    chan<- []byte
 
+	rmu  sync.Mutex // Guards rest
+	rest []byte     // What is left of the last chunk read
+
 	once       sync.Once // Protects closing localDone
 	localDone  chan struct{}
 	remoteDone <-chan struct{}
@@ -46,9 +49,16 @@ func (c *conn) write(data []byte) (int, error) {
 		return 0, timeoutError{}
 	}
 
+	if len(data) == 0 {
+		return 0, nil
+	}
+
+	// The writer may reuse data as soon as Write returns.
+	buf := append([]byte(nil), data...)
+
 	var n int
 	select {
-	case c.w <- data:
+	case c.w <- buf:
 		n = len(data)
 		return n, nil
 	case <-c.localDone:
@@ -69,25 +79,36 @@ func (c *conn) Read(data []byte) (int, error) {
 }
 
 func (c *conn) read(data []byte) (int, error) {
+	c.rmu.Lock()
+	defer c.rmu.Unlock()
+
 	switch {
 	case isClosedChan(c.localDone):
 		return 0, io.ErrClosedPipe
-	case isClosedChan(c.remoteDone):
-		return 0, io.EOF
 	case isClosedChan(c.rdeadline.wait()):
 		return 0, timeoutError{}
 	}
 
-	select {
-	case bw := <-c.r:
-		nr := copy(data, bw)
-		if len(data) < len(bw) {
-			return nr, io.ErrShortBuffer
+	if len(c.rest) == 0 && len(data) > 0 {
+		select {
+		case c.rest = <-c.r:
+		case <-c.localDone:
+			return 0, io.ErrClosedPipe
+		case <-c.remoteDone:
+			// What was written before the remote end was closed comes first.
+			select {
+			case c.rest = <-c.r:
+			default:
+				return 0, io.EOF
+			}
+		case <-c.rdeadline.wait():
+			return 0, timeoutError{}
 		}
-		return nr, nil
-	case <-c.rdeadline.wait():
-		return 0, timeoutError{}
 	}
+
+	n := copy(data, c.rest)
+	c.rest = c.rest[n:]
+	return n, nil
 }
 
 func (c *conn) LocalAddr() net.Addr  { return c.addr }
-- 
2.43.0


From 26823d130bb9e154c602a867e08e7db0982a32da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:15 +0000
Subject: [PATCH 11/36] fix: pair each inproc Dial with an Accept

Accept returned before anybody had dialled, and a Dial waiting for it was
stuck for good when the listener closed.
---
 conn.go                   |  1 -
 internal/inproc/inproc.go | 42 ++++++++++++++++++---------------------
 2 files changed, 19 insertions(+), 24 deletions(-)

diff --git a/conn.go b/conn.go
index 482911a..72cd07d 100644
--- a/conn.go
+++ b/conn.go
@@ -179,7 +179,6 @@ func (c *Conn) SendCmd(name string, body []byte) error {
 		return err
 	}
 
-
 	c.wmu.Lock()
 	defer c.wmu.Unlock()
 	bodies, err := c.encrypt(buf)
diff --git a/internal/inproc/inproc.go b/internal/inproc/inproc.go
index 8b0d6eb..7519706 100644
--- a/internal/inproc/inproc.go
+++ b/internal/inproc/inproc.go
@@ -41,7 +41,7 @@ type contextType struct {
 type Listener struct {
 	addr Addr
 
-	pipes  []*pipe
+	pipes  []*pipe // Dialed, but not accepted yet
 	closed bool
 }
 
@@ -131,6 +131,7 @@ func (l *Listener) Close() error {
 		}
 	}
 	l.closed = true
+	mgr.cv.Broadcast()
 	delete(mgr.db, string(l.addr))
 	return err
 }
@@ -138,39 +139,34 @@ func (l *Listener) Close() error {
 // Accept waits for and returns the next connection to the listener.
 func (l *Listener) Accept() (net.Conn, error) {
 	mgr.mu.Lock()
-	p := newPipe(l.addr)
-	l.pipes = append(l.pipes, p)
-	closed := l.closed
-	mgr.cv.Broadcast()
-	mgr.mu.Unlock()
+	defer mgr.mu.Unlock()
 
-	if closed {
+	for len(l.pipes) == 0 && !l.closed {
+		mgr.cv.Wait()
+	}
+	if l.closed {
 		return nil, ErrClosed
 	}
+
+	p := l.pipes[0]
+	l.pipes = l.pipes[1:]
 	return p.p1, nil
 }
 
 // Dial connects to the given address.
 func Dial(addr string) (net.Conn, error) {
 	mgr.mu.Lock()
+	defer mgr.mu.Unlock()
 
-	for {
-		var (
-			l  *Listener
-			ok bool
-		)
-		if l, ok = mgr.db[addr]; !ok || l == nil {
-			mgr.mu.Unlock()
-			return nil, ErrConnRefused
-		}
-		if n := len(l.pipes); n != 0 {
-			p := l.pipes[n-1]
-			l.pipes = l.pipes[:n-1]
-			mgr.mu.Unlock()
-			return p.p2, nil
-		}
-		mgr.cv.Wait()
+	l, ok := mgr.db[addr]
+	if !ok || l == nil {
+		return nil, ErrConnRefused
 	}
+
+	p := newPipe(l.addr)
+	l.pipes = append(l.pipes, p)
+	mgr.cv.Broadcast()
+	return p.p2, nil
 }
 
 // Addr represents an in-process "network" end-point address.
-- 
2.43.0


From 9ab233ebeb84cfc2f3aa7f08f01a1bed06c0bc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:14 +0000
Subject: [PATCH 12/36] fix: re-establish the connection that was lost, and
 only that

A lost connection made the socket dial whatever end-point it had last
dialled or listened on: the wrong peer, or itself; and a connection lost
while writing blocked the writer, and with it the socket, until its send
deadline. A failed handshake left the connection open.
---
 conn.go   | 18 ++++++++++--------
 socket.go | 47 ++++++++++++++++++++++++++++++++++++++++-------
 2 files changed, 50 insertions(+), 15 deletions(-)

diff --git a/conn.go b/conn.go
index 72cd07d..12c73af 100644
--- a/conn.go
+++ b/conn.go
@@ -76,14 +76,13 @@ func Open(rw net.Conn, sec Security, sockType SocketType, sockID SocketIdentity,
 	}
 
 	conn := &Conn{
-		typ:            sockType,
-		id:             sockID,
-		rw:             rw,
-		sec:            sec,
-		Server:         server,
-		Meta:           make(Metadata),
-		topics:         make(map[string]struct{}),
-		onCloseErrorCB: onCloseErrorCB,
+		typ:    sockType,
+		id:     sockID,
+		rw:     rw,
+		sec:    sec,
+		Server: server,
+		Meta:   make(Metadata),
+		topics: make(map[string]struct{}),
 	}
 	conn.Meta[sysSockType] = string(conn.typ)
 	conn.Meta[sysSockID] = conn.id.String()
@@ -93,6 +92,7 @@ func Open(rw net.Conn, sec Security, sockType SocketType, sockID SocketIdentity,
 	if sockType == Stream {
 		// For STREAM sockets, we don't perform ZMTP handshake
 		// They're raw TCP connections
+		conn.onCloseErrorCB = onCloseErrorCB
 		return conn, nil
 	}
 
@@ -101,6 +101,8 @@ func Open(rw net.Conn, sec Security, sockType SocketType, sockID SocketIdentity,
 		return nil, fmt.Errorf("zmq4: could not initialize ZMTP connection: %w", err)
 	}
 
+	// A failed handshake is reported by the error above only.
+	conn.onCloseErrorCB = onCloseErrorCB
 	return conn, nil
 }
 
diff --git a/socket.go b/socket.go
index 338062c..e244868 100644
--- a/socket.go
+++ b/socket.go
@@ -34,7 +34,7 @@ type socketMonitor struct{}
 
 // socket implements the ZeroMQ socket interface
 type socket struct {
-	ep            string // socket end-point
+	ep            string // end-point listened on
 	typ           SocketType
 	id            SocketIdentity
 	retry         time.Duration
@@ -271,7 +271,7 @@ func (sck *socket) accept() {
 				continue
 			}
 
-			zconn, err := Open(conn, sck.sec, sck.typ, sck.id, true, sck.scheduleRmConn)
+			zconn, err := sck.open(conn, true, sck.scheduleRmConn)
 			if err != nil {
 				// FIXME(sbinet): maybe bubble up this error to application code?
 				sck.log.Printf("could not open a ZMTP connection with %q: %+v", sck.ep, err)
@@ -290,9 +290,14 @@ func (sck *socket) Dial(endpoint string) error {
 		sck.mu.Unlock()
 		return fmt.Errorf("zmq4: socket is closed")
 	}
-	sck.ep = endpoint
 	sck.mu.Unlock()
 
+	return sck.dial(endpoint, false)
+}
+
+// dial connects to a remote endpoint. It retries when there is no answer,
+// and, if again is true, also when the handshake fails.
+func (sck *socket) dial(endpoint string, again bool) error {
 	network, addr, err := splitAddr(endpoint)
 	if err != nil {
 		return err
@@ -313,7 +318,7 @@ connect:
 		// retry if retry count is lower than maximum retry count and context has not been canceled
 		if (sck.maxRetries == -1 || retries < sck.maxRetries) && sck.ctx.Err() == nil {
 			retries++
-			time.Sleep(sck.retry)
+			sck.sleep(sck.retry)
 			goto connect
 		}
 		return fmt.Errorf("zmq4: could not dial to %q (retry=%v): %w", endpoint, sck.retry, err)
@@ -323,8 +328,18 @@ connect:
 		return fmt.Errorf("zmq4: got a nil dial-conn to %q", endpoint)
 	}
 
-	zconn, err := Open(conn, sck.sec, sck.typ, sck.id, false, sck.scheduleRmConn)
+	zconn, err := sck.open(conn, false, func(c *Conn) {
+		sck.scheduleRmConn(c)
+		if sck.autoReconnect && sck.ctx.Err() == nil {
+			go sck.dial(endpoint, true)
+		}
+	})
 	if err != nil {
+		if again && (sck.maxRetries == -1 || retries < sck.maxRetries) && sck.ctx.Err() == nil {
+			retries++
+			sck.sleep(sck.retry)
+			goto connect
+		}
 		return fmt.Errorf("zmq4: could not open a ZMTP connection: %w", err)
 	}
 	if zconn == nil {
@@ -340,6 +355,20 @@ connect:
 	return nil
 }
 
+// open performs the ZMTP handshake over rw, which is closed if that fails
+// or if the socket is closed in the meantime.
+func (sck *socket) open(rw net.Conn, server bool, onClose func(c *Conn)) (*Conn, error) {
+	stop := context.AfterFunc(sck.ctx, func() { _ = rw.Close() })
+	defer stop()
+
+	c, err := Open(rw, sck.sec, sck.typ, sck.id, server, onClose)
+	if err != nil {
+		_ = rw.Close()
+		return nil, err
+	}
+	return c, nil
+}
+
 func (sck *socket) addConn(c *Conn) {
 	sck.mu.Lock()
 	sck.conns = append(sck.conns, c)
@@ -400,9 +429,13 @@ func (sck *socket) scheduleRmConn(c *Conn) {
 	sck.closedConns = append(sck.closedConns, c)
 	sck.reaperCond.Signal()
 	sck.reaperCond.L.Unlock()
+}
 
-	if sck.autoReconnect {
-		sck.Dial(sck.ep)
+// sleep waits for the given time, or until the socket is closed.
+func (sck *socket) sleep(d time.Duration) {
+	select {
+	case <-time.After(d):
+	case <-sck.ctx.Done():
 	}
 }
 
-- 
2.43.0


From 0cefa77cce0bb8bc07f6c424013fba31d048fcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:40 +0000
Subject: [PATCH 13/36] fix: make listening, connecting and closing safe
 against each other

Listener, options and reaper state were used without the lock; a connection
completed during Close was kept; one peer slow in its handshake held up all
others; and Close removed the ipc file of whatever end-point was dialled
last (the listener removes its own).
---
 socket.go | 91 ++++++++++++++++++++++++++++++++++---------------------
 1 file changed, 57 insertions(+), 34 deletions(-)

diff --git a/socket.go b/socket.go
index e244868..8dca690 100644
--- a/socket.go
+++ b/socket.go
@@ -12,7 +12,6 @@ import (
 	"net"
 	"os"
 	"sort"
-	"strings"
 	"sync"
 	"time"
 )
@@ -142,11 +141,12 @@ func (sck *socket) Close() error {
 	sck.reaperCond.Signal()
 	sck.reaperCond.L.Unlock()
 
+	sck.mu.RLock()
 	if sck.listener != nil {
+		// This also removes the file of a unix socket.
 		defer sck.listener.Close()
 	}
 
-	sck.mu.RLock()
 	var err error
 	for _, conn := range sck.conns {
 		e := conn.Close()
@@ -155,14 +155,8 @@ func (sck *socket) Close() error {
 		}
 	}
 
-	// Remove the unix socket file if created by net.Listen
-	ep := sck.ep
 	sck.mu.RUnlock()
 
-	if sck.listener != nil && strings.HasPrefix(ep, "ipc://") {
-		os.Remove(ep[len("ipc://"):])
-	}
-
 	return err
 }
 
@@ -225,7 +219,6 @@ func (sck *socket) Listen(endpoint string) error {
 		sck.mu.Unlock()
 		return fmt.Errorf("zmq4: socket already listening on %q", sck.ep)
 	}
-	sck.ep = endpoint
 	sck.mu.Unlock()
 	network, addr, err := splitAddr(endpoint)
 	if err != nil {
@@ -243,20 +236,28 @@ func (sck *socket) Listen(endpoint string) error {
 	}
 
 	sck.mu.Lock()
-	sck.listener = l
+	switch {
+	case sck.isClosed:
+		err = fmt.Errorf("zmq4: socket is closed")
+	case sck.listener != nil:
+		err = fmt.Errorf("zmq4: socket already listening on %q", sck.ep)
+	default:
+		sck.ep = endpoint
+		sck.listener = l
+	}
 	sck.mu.Unlock()
-
-	go sck.accept()
-	if !sck.reaperStarted {
-		sck.reaperCond.L.Lock()
-		go sck.connReaper()
-		sck.reaperStarted = true
+	if err != nil {
+		_ = l.Close()
+		return err
 	}
 
+	go sck.accept(l)
+	sck.startReaper()
+
 	return nil
 }
 
-func (sck *socket) accept() {
+func (sck *socket) accept(l net.Listener) {
 	ctx, cancel := context.WithCancel(sck.ctx)
 	defer cancel()
 	for {
@@ -264,21 +265,24 @@ func (sck *socket) accept() {
 		case <-ctx.Done():
 			return
 		default:
-			conn, err := sck.listener.Accept()
+			conn, err := l.Accept()
 			if err != nil {
 				// FIXME(sbinet): maybe bubble up this error to application code?
 				//sck.log.Printf("error accepting connection from %q: %+v", sck.ep, err)
 				continue
 			}
 
-			zconn, err := sck.open(conn, true, sck.scheduleRmConn)
-			if err != nil {
-				// FIXME(sbinet): maybe bubble up this error to application code?
-				sck.log.Printf("could not open a ZMTP connection with %q: %+v", sck.ep, err)
-				continue
-			}
-
-			sck.addConn(zconn)
+			// A peer that is slow to shake hands must not hold up the others.
+			go func() {
+				zconn, err := sck.open(conn, true, sck.scheduleRmConn)
+				if err != nil {
+					// FIXME(sbinet): maybe bubble up this error to application code?
+					sck.log.Printf("could not open a ZMTP connection with %q: %+v", l.Addr(), err)
+					return
+				}
+
+				_ = sck.addConn(zconn)
+			}()
 		}
 	}
 }
@@ -346,13 +350,8 @@ connect:
 		return fmt.Errorf("zmq4: got a nil ZMTP connection to %q", endpoint)
 	}
 
-	if !sck.reaperStarted {
-		sck.reaperCond.L.Lock()
-		go sck.connReaper()
-		sck.reaperStarted = true
-	}
-	sck.addConn(zconn)
-	return nil
+	sck.startReaper()
+	return sck.addConn(zconn)
 }
 
 // open performs the ZMTP handshake over rw, which is closed if that fails
@@ -369,8 +368,13 @@ func (sck *socket) open(rw net.Conn, server bool, onClose func(c *Conn)) (*Conn,
 	return c, nil
 }
 
-func (sck *socket) addConn(c *Conn) {
+func (sck *socket) addConn(c *Conn) error {
 	sck.mu.Lock()
+	if sck.isClosed {
+		sck.mu.Unlock()
+		_ = c.Close()
+		return fmt.Errorf("zmq4: socket is closed")
+	}
 	sck.conns = append(sck.conns, c)
 	if len(c.Peer.Meta[sysSockID]) == 0 {
 		switch c.typ {
@@ -397,6 +401,7 @@ func (sck *socket) addConn(c *Conn) {
 	for _, topic := range topics {
 		_ = sck.Send(NewMsg(append([]byte{1}, topic...)))
 	}
+	return nil
 }
 
 func (sck *socket) rmConn(c *Conn) {
@@ -415,6 +420,7 @@ func (sck *socket) rmConn(c *Conn) {
 		return
 	}
 
+	_ = c.Close()
 	sck.conns = append(sck.conns[:cur], sck.conns[cur+1:]...)
 	if sck.r != nil {
 		sck.r.rmConn(c)
@@ -447,6 +453,8 @@ func (sck *socket) Type() SocketType {
 // Addr returns the listener's address.
 // Addr returns nil if the socket isn't a listener.
 func (sck *socket) Addr() net.Addr {
+	sck.mu.RLock()
+	defer sck.mu.RUnlock()
 	if sck.listener == nil {
 		return nil
 	}
@@ -455,7 +463,9 @@ func (sck *socket) Addr() net.Addr {
 
 // GetOption is used to retrieve an option for a socket.
 func (sck *socket) GetOption(name string) (interface{}, error) {
+	sck.mu.RLock()
 	v, ok := sck.props[name]
+	sck.mu.RUnlock()
 	if !ok {
 		return nil, ErrBadProperty
 	}
@@ -465,7 +475,9 @@ func (sck *socket) GetOption(name string) (interface{}, error) {
 // SetOption is used to set an option for a socket.
 func (sck *socket) SetOption(name string, value interface{}) error {
 	// FIXME(sbinet) different socket types support different options.
+	sck.mu.Lock()
 	sck.props[name] = value
+	sck.mu.Unlock()
 	return nil
 }
 
@@ -473,6 +485,17 @@ func (sck *socket) Timeout() time.Duration {
 	return sck.timeout
 }
 
+// startReaper starts the connReaper, once.
+func (sck *socket) startReaper() {
+	sck.reaperCond.L.Lock()
+	if sck.reaperStarted {
+		sck.reaperCond.L.Unlock()
+		return
+	}
+	sck.reaperStarted = true
+	go sck.connReaper()
+}
+
 func (sck *socket) connReaper() {
 	// We are not locking here sck.reaperCond.L.Lock()
 	// as it should be locked prior starting connReaper as goroutine
-- 
2.43.0


From 952745e02c54ce56d7d7ddbac9662d9676c7143d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:52 +0000
Subject: [PATCH 14/36] fix: let the goroutines of a connection end when the
 socket is closed

A reader with a full queue, and the writer of every subscriber, stayed for
good. The queue of a PUB filled up with what nobody can receive, after
which its subscriptions were no longer seen; and a closed XPUB reported
empty messages.
---
 msgio.go  |  3 +--
 pub.go    | 23 +++++++++++++++++++----
 rep.go    |  6 +++++-
 router.go |  6 +++++-
 4 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/msgio.go b/msgio.go
index 41abc20..41e4aee 100644
--- a/msgio.go
+++ b/msgio.go
@@ -106,8 +106,7 @@ func (q *qreader) listen(ctx context.Context, r *Conn) {
 		select {
 		case <-ctx.Done():
 			return
-		default:
-			q.c <- msg
+		case q.c <- msg:
 			if msg.err != nil {
 				return
 			}
diff --git a/pub.go b/pub.go
index 7dffb59..b79cadc 100644
--- a/pub.go
+++ b/pub.go
@@ -179,6 +179,7 @@ func (q *pubQReader) read(ctx context.Context, msg *Msg) error {
 	q.sem.lock(ctx)
 	select {
 	case <-ctx.Done():
+		return ctx.Err()
 	case *msg = <-q.c:
 	}
 	return msg.err
@@ -200,8 +201,14 @@ func (q *pubQReader) listen(ctx context.Context, r *Conn) {
 			switch {
 			case q.topic(msg):
 				r.subscribe(msg)
+			case r.typ == Pub:
+				// Nobody can receive it.
 			default:
-				q.c <- msg
+				select {
+				case <-ctx.Done():
+					return
+				case q.c <- msg:
+				}
 			}
 		}
 	}
@@ -256,9 +263,17 @@ func (mw *pubMWriter) addConn(w *Conn) {
 	mw.subscribers[w] = c
 	go func() {
 		for {
-			msg, ok := <-c
-			if !ok {
-				break
+			var (
+				msg Msg
+				ok  bool
+			)
+			select {
+			case <-mw.ctx.Done():
+				return
+			case msg, ok = <-c:
+				if !ok {
+					return
+				}
 			}
 			topic := string(msg.Frames[0])
 			if w.subscribed(topic) {
diff --git a/rep.go b/rep.go
index 8aa12db..bb07b87 100644
--- a/rep.go
+++ b/rep.go
@@ -167,7 +167,11 @@ func (r *repReader) listen(ctx context.Context, conn *Conn) {
 			if msg.err != nil {
 				return
 			}
-			r.msgCh <- repMsg{conn, msg}
+			select {
+			case <-ctx.Done():
+				return
+			case r.msgCh <- repMsg{conn, msg}:
+			}
 		}
 	}
 }
diff --git a/router.go b/router.go
index aebb14a..14ac205 100644
--- a/router.go
+++ b/router.go
@@ -167,7 +167,11 @@ func (q *routerQReader) listen(ctx context.Context, r *Conn) {
 				return
 			}
 			msg.Frames = append([][]byte{id}, msg.Frames...)
-			q.c <- msg
+			select {
+			case <-ctx.Done():
+				return
+			case q.c <- msg:
+			}
 		}
 	}
 }
-- 
2.43.0


From 434706dce698c1579028fec591afe2d49545640a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:52 +0000
Subject: [PATCH 15/36] fix: give every message of a ROUTER its own identity
 frame

---
 router.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/router.go b/router.go
index 14ac205..c566635 100644
--- a/router.go
+++ b/router.go
@@ -166,7 +166,8 @@ func (q *routerQReader) listen(ctx context.Context, r *Conn) {
 			if msg.err != nil {
 				return
 			}
-			msg.Frames = append([][]byte{id}, msg.Frames...)
+			// The receiver owns what it gets, the identity included.
+			msg.Frames = append([][]byte{append([]byte(nil), id...)}, msg.Frames...)
 			select {
 			case <-ctx.Done():
 				return
-- 
2.43.0


From dfd5e854a963520451400fd3014b5e3ae2bccafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:52 +0000
Subject: [PATCH 16/36] fix: answer commands instead of delivering them as
 messages

---
 conn.go   | 28 ++++++++++++++++++++++++++++
 msgio.go  |  2 +-
 pub.go    |  2 +-
 rep.go    |  2 +-
 req.go    |  2 +-
 router.go |  2 +-
 6 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/conn.go b/conn.go
index 12c73af..2f30076 100644
--- a/conn.go
+++ b/conn.go
@@ -536,6 +536,34 @@ func (c *Conn) read() Msg {
 	return msg
 }
 
+// readMsg returns the next message. Commands are dealt with on the way.
+func (c *Conn) readMsg() Msg {
+	for {
+		msg := c.read()
+		if msg.err != nil || !msg.isCmd() {
+			return msg
+		}
+
+		var cmd Cmd
+		if len(msg.Frames) != 1 || cmd.unmarshalZMTP(msg.Frames[0]) != nil {
+			msg.err = ErrBadCmd
+			c.SetClosed()
+			return msg
+		}
+		if cmd.Name == CmdPing {
+			// send back a PONG immediately, with the context that
+			// follows the two bytes of the time-to-live.
+			var pong []byte
+			if len(cmd.Body) > 2 {
+				pong = cmd.Body[2:]
+			}
+			if msg.err = c.SendCmd(CmdPong, pong); msg.err != nil {
+				return msg
+			}
+		}
+	}
+}
+
 // readBody reads a frame body of the given size. The size comes from the
 // peer: memory is only allocated as the data arrives.
 func readBody(r io.Reader, size uint64) ([]byte, error) {
diff --git a/msgio.go b/msgio.go
index 41e4aee..ac4a4da 100644
--- a/msgio.go
+++ b/msgio.go
@@ -102,7 +102,7 @@ func (q *qreader) listen(ctx context.Context, r *Conn) {
 	defer r.Close()
 
 	for {
-		msg := r.read()
+		msg := r.readMsg()
 		select {
 		case <-ctx.Done():
 			return
diff --git a/pub.go b/pub.go
index b79cadc..44d7230 100644
--- a/pub.go
+++ b/pub.go
@@ -190,7 +190,7 @@ func (q *pubQReader) listen(ctx context.Context, r *Conn) {
 	defer r.Close()
 
 	for {
-		msg := r.read()
+		msg := r.readMsg()
 		select {
 		case <-ctx.Done():
 			return
diff --git a/rep.go b/rep.go
index bb07b87..f4bf13f 100644
--- a/rep.go
+++ b/rep.go
@@ -159,7 +159,7 @@ func (r *repReader) listen(ctx context.Context, conn *Conn) {
 	defer conn.Close()
 
 	for {
-		msg := conn.read()
+		msg := conn.readMsg()
 		select {
 		case <-ctx.Done():
 			return
diff --git a/req.go b/req.go
index 2b99aed..b9ffe4e 100644
--- a/req.go
+++ b/req.go
@@ -183,7 +183,7 @@ func (r *reqReader) read(ctx context.Context, msg *Msg) error {
 	if curConn == nil {
 		return fmt.Errorf("zmq4: no connections available")
 	}
-	*msg = curConn.read()
+	*msg = curConn.readMsg()
 	if msg.err != nil {
 		return msg.err
 	}
diff --git a/router.go b/router.go
index c566635..f1cfe1d 100644
--- a/router.go
+++ b/router.go
@@ -158,7 +158,7 @@ func (q *routerQReader) listen(ctx context.Context, r *Conn) {
 
 	id := []byte(r.Peer.Meta[sysSockID])
 	for {
-		msg := r.read()
+		msg := r.readMsg()
 		select {
 		case <-ctx.Done():
 			return
-- 
2.43.0


From de3cfb9654d7acf0432d40d2df379a4302d45ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:24 +0000
Subject: [PATCH 17/36] fix: do not report a message as sent when there is
 nobody to send it to

Send returned nil, and the message was gone, when no peer had connected by
the deadline or all had left. The lock held while sending also stalled new
connections, and with them Close, behind a peer that does not read.
---
 msgio.go | 43 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/msgio.go b/msgio.go
index ac4a4da..1610dab 100644
--- a/msgio.go
+++ b/msgio.go
@@ -162,22 +162,49 @@ func (mw *mwriter) rmConn(w *Conn) {
 	}
 	if cur >= 0 {
 		mw.ws = append(mw.ws[:cur], mw.ws[cur+1:]...)
+		if len(mw.ws) == 0 {
+			mw.sem = newSemaphore()
+		}
+	}
+}
+
+// peers returns the live connections. It waits until there is one.
+func (w *mwriter) peers(ctx context.Context) ([]*Conn, error) {
+	for {
+		w.mu.Lock()
+		ws := append([]*Conn(nil), w.ws...)
+		sem := w.sem
+		w.mu.Unlock()
+
+		if err := ctx.Err(); err != nil {
+			return nil, err
+		}
+		if len(ws) > 0 {
+			return ws, nil
+		}
+		sem.lock(ctx)
 	}
 }
 
 func (w *mwriter) write(ctx context.Context, msg Msg) error {
-	w.sem.lock(ctx)
+	ws, err := w.peers(ctx)
+	if err != nil {
+		return err
+	}
+	return sendAll(ctx, ws, msg)
+}
+
+// sendAll sends the message on all the given connections. It returns when
+// that is done, or when the context is.
+func sendAll(ctx context.Context, conns []*Conn, msg Msg) error {
 	grp, _ := errgrp.WithContext(ctx)
-	w.mu.Lock()
-	for i := range w.ws {
-		ww := w.ws[i]
+	for i := range conns {
+		conn := conns[i]
 		grp.Go(func() error {
-			return ww.SendMsg(msg)
+			return conn.SendMsg(msg)
 		})
 	}
-	err := grp.Wait()
-	w.mu.Unlock()
-	return err
+	return grp.Wait()
 }
 
 type semaphore struct {
-- 
2.43.0


From 59bece1472758db636c7b195b38c26369664cd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:50 +0000
Subject: [PATCH 18/36] fix: PUSH and DEALER send each message to one peer, not
 to all

They distribute messages over their peers in turn:
https://rfc.zeromq.org/spec/28/ and https://rfc.zeromq.org/spec/30/
---
 dealer.go |  1 +
 msgio.go  | 34 ++++++++++++++++++++++++++++++++++
 push.go   |  1 +
 3 files changed, 36 insertions(+)

diff --git a/dealer.go b/dealer.go
index 67ade32..c9476d9 100644
--- a/dealer.go
+++ b/dealer.go
@@ -13,6 +13,7 @@ import (
 // The returned socket value is initially unbound.
 func NewDealer(ctx context.Context, opts ...Option) Socket {
 	dealer := &dealerSocket{newSocket(ctx, Dealer, opts...)}
+	dealer.sck.w = newLBWriter(dealer.sck.ctx)
 	return dealer
 }
 
diff --git a/msgio.go b/msgio.go
index 1610dab..ad25ae8 100644
--- a/msgio.go
+++ b/msgio.go
@@ -207,6 +207,39 @@ func sendAll(ctx context.Context, conns []*Conn, msg Msg) error {
 	return grp.Wait()
 }
 
+// lbwriter is a writer that sends each message on one connection, taking
+// the connections in turn.
+type lbwriter struct {
+	*mwriter
+	next int
+}
+
+func newLBWriter(ctx context.Context) *lbwriter {
+	return &lbwriter{mwriter: newMWriter(ctx)}
+}
+
+func (w *lbwriter) write(ctx context.Context, msg Msg) error {
+	ws, err := w.peers(ctx)
+	if err != nil {
+		return err
+	}
+
+	w.mu.Lock()
+	next := w.next % len(ws)
+	w.next = next + 1
+	w.mu.Unlock()
+
+	// A connection that fails is skipped.
+	for i := range ws {
+		cur := (next + i) % len(ws)
+		err = sendAll(ctx, ws[cur:cur+1], msg)
+		if err == nil || ctx.Err() != nil {
+			break
+		}
+	}
+	return err
+}
+
 type semaphore struct {
 	ready chan struct{}
 }
@@ -236,4 +269,5 @@ func (sem *semaphore) lock(ctx context.Context) {
 var (
 	_ rpool = (*qreader)(nil)
 	_ wpool = (*mwriter)(nil)
+	_ wpool = (*lbwriter)(nil)
 )
diff --git a/push.go b/push.go
index 08a346a..49f3df6 100644
--- a/push.go
+++ b/push.go
@@ -15,6 +15,7 @@ import (
 func NewPush(ctx context.Context, opts ...Option) Socket {
 	push := &pushSocket{newSocket(ctx, Push, opts...)}
 	push.sck.r = nil
+	push.sck.w = newLBWriter(push.sck.ctx)
 	return push
 }
 
-- 
2.43.0


From 1a1cc745df1863d83ba21cbf62d4d76972bd1479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:50 +0000
Subject: [PATCH 19/36] fix: let PUSH notice that a peer has gone

It never read its connections, so that a lost one was only found, and
re-established, after further messages had been lost on it.
---
 msgio.go | 27 +++++++++++++++++++++++++++
 push.go  |  2 +-
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/msgio.go b/msgio.go
index ad25ae8..c003581 100644
--- a/msgio.go
+++ b/msgio.go
@@ -6,6 +6,7 @@ package zmq4
 
 import (
 	"context"
+	"fmt"
 	"io"
 	"sync"
 
@@ -114,6 +115,32 @@ func (q *qreader) listen(ctx context.Context, r *Conn) {
 	}
 }
 
+// nilReader is the reader of a socket that receives nothing. It reads its
+// connections nonetheless, to notice when they are closed.
+type nilReader struct{}
+
+func newNilReader() nilReader {
+	return nilReader{}
+}
+
+func (nilReader) Close() error   { return nil }
+func (nilReader) rmConn(r *Conn) {}
+
+func (nilReader) addConn(r *Conn) {
+	go func() {
+		defer r.Close()
+		for {
+			if msg := r.readMsg(); msg.err != nil {
+				return
+			}
+		}
+	}()
+}
+
+func (nilReader) read(ctx context.Context, msg *Msg) error {
+	return fmt.Errorf("zmq4: socket can't recv messages")
+}
+
 type mwriter struct {
 	ctx context.Context
 	mu  sync.Mutex
diff --git a/push.go b/push.go
index 49f3df6..4434354 100644
--- a/push.go
+++ b/push.go
@@ -14,7 +14,7 @@ import (
 // The returned socket value is initially unbound.
 func NewPush(ctx context.Context, opts ...Option) Socket {
 	push := &pushSocket{newSocket(ctx, Push, opts...)}
-	push.sck.r = nil
+	push.sck.r = newNilReader()
 	push.sck.w = newLBWriter(push.sck.ctx)
 	return push
 }
-- 
2.43.0


From fdd7c6875d52740f3c0ffd847fac731691fdd156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:21 +0000
Subject: [PATCH 20/36] fix: REQ goes on to the next server when one fails, and
 can be interrupted

The index of the next connection ran past the end; Send ignored its
deadline and held the lock meanwhile, and Recv the end of the context.
---
 req.go | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/req.go b/req.go
index b9ffe4e..e22344b 100644
--- a/req.go
+++ b/req.go
@@ -107,15 +107,25 @@ func (r *reqWriter) write(ctx context.Context, msg Msg) error {
 	msg.Frames = append([][]byte{nil}, msg.Frames...)
 
 	r.mu.Lock()
-	defer r.mu.Unlock()
-	var err error
-	for i := 0; i < len(r.conns); i++ {
-		cur := i + r.nextConn%len(r.conns)
-		conn := r.conns[cur]
-		err = conn.SendMsg(msg)
+	conns := append([]*Conn(nil), r.conns...)
+	next := r.nextConn
+	r.mu.Unlock()
+
+	err := ctx.Err()
+	if err != nil {
+		return err
+	}
+	for i := range conns {
+		cur := (i + next) % len(conns)
+		err = sendAll(ctx, conns[cur:cur+1], msg)
+		if ctxErr := ctx.Err(); err != nil && ctxErr != nil {
+			return ctxErr
+		}
 		if err == nil {
-			r.nextConn = cur + 1%len(r.conns)
-			r.state.Set(conn)
+			r.mu.Lock()
+			r.nextConn = (cur + 1) % len(conns)
+			r.mu.Unlock()
+			r.state.Set(conns[cur])
 			return nil
 		}
 	}
@@ -183,8 +193,14 @@ func (r *reqReader) read(ctx context.Context, msg *Msg) error {
 	if curConn == nil {
 		return fmt.Errorf("zmq4: no connections available")
 	}
+	// The context ends with the socket: give up the connection as well.
+	stop := context.AfterFunc(ctx, func() { _ = curConn.Close() })
 	*msg = curConn.readMsg()
+	stop()
 	if msg.err != nil {
+		if err := ctx.Err(); err != nil {
+			return err
+		}
 		return msg.err
 	}
 	if len(msg.Frames) > 1 {
-- 
2.43.0


From e38d0e864efd94feb68499ab1750d49c42ad9755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:21 +0000
Subject: [PATCH 21/36] fix: ROUTER keeps to the send deadline

A peer that does not read blocked Send for good, along with everything
that needs the lock held meanwhile. A message without frames panicked.
---
 router.go | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/router.go b/router.go
index f1cfe1d..0dda00e 100644
--- a/router.go
+++ b/router.go
@@ -7,10 +7,9 @@ package zmq4
 import (
 	"bytes"
 	"context"
+	"fmt"
 	"net"
 	"sync"
-
-	"golang.org/x/sync/errgroup"
 )
 
 // NewRouter returns a new ROUTER ZeroMQ socket.
@@ -229,24 +228,28 @@ func (mw *routerMWriter) rmConn(w *Conn) {
 }
 
 func (w *routerMWriter) write(ctx context.Context, msg Msg) error {
+	if len(msg.Frames) == 0 {
+		return fmt.Errorf("zmq4: ROUTER message without an identity frame")
+	}
+
 	w.sem.lock(ctx)
-	grp, _ := errgroup.WithContext(ctx)
-	w.mu.Lock()
+	if err := ctx.Err(); err != nil {
+		return err
+	}
+
 	id := msg.Frames[0]
 	dmsg := NewMsgFrom(msg.Frames[1:]...)
-	for i := range w.ws {
-		ww := w.ws[i]
+	var conns []*Conn
+	w.mu.Lock()
+	for _, ww := range w.ws {
 		pid := []byte(ww.Peer.Meta[sysSockID])
-		if !bytes.Equal(pid, id) {
-			continue
+		if bytes.Equal(pid, id) {
+			conns = append(conns, ww)
 		}
-		grp.Go(func() error {
-			return ww.SendMsg(dmsg)
-		})
 	}
-	err := grp.Wait()
 	w.mu.Unlock()
-	return err
+
+	return sendAll(ctx, conns, dmsg)
 }
 
 var (
-- 
2.43.0


From 54fdc43d5db79eaf1e639fbf3d4fa31b6bfca18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:21 +0000
Subject: [PATCH 22/36] fix: REP sends the reply as it was when given, and
 without the lock

---
 rep.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/rep.go b/rep.go
index f4bf13f..6ae3033 100644
--- a/rep.go
+++ b/rep.go
@@ -267,7 +267,7 @@ func (r *repWriter) write(ctx context.Context, msg Msg) error {
 		return ctx.Err()
 	case <-r.ctx.Done(): // repWriter.run() terminates on this, sendCh <- will not complete
 		return r.ctx.Err()
-	case r.sendCh <- repSendPayload{conn, preamble, msg}:
+	case r.sendCh <- repSendPayload{conn, preamble, msg.Clone()}: // sent after we return
 		return nil
 	}
 }
@@ -287,16 +287,21 @@ func (r *repWriter) run() {
 }
 
 func (r *repWriter) sendPayload(payload repSendPayload) {
+	live := false
 	r.mu.Lock()
-	defer r.mu.Unlock()
 	for _, conn := range r.conns {
 		if conn == payload.conn {
-			reply := payload.buildReplyMsg()
-			// not much we can do at this point. Perhaps log the error?
-			_ = conn.SendMsg(reply)
-			return
+			live = true
+			break
 		}
 	}
+	r.mu.Unlock()
+
+	if live {
+		reply := payload.buildReplyMsg()
+		// not much we can do at this point. Perhaps log the error?
+		_ = payload.conn.SendMsg(reply)
+	}
 }
 
 func (r *repWriter) Close() error {
-- 
2.43.0


From c4ef0f486cdb1f90347d527e3e8b424f12daeb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:55 +0000
Subject: [PATCH 23/36] fix: PUB sends the message as it was when given

The subscribers' goroutines read the frames after Send has returned, when
the caller may have reused them; and a message without frames panicked
there. A closed PUB without subscribers reported success.
---
 msg.go |  3 ++-
 pub.go | 10 ++++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/msg.go b/msg.go
index a908b95..3cbef94 100644
--- a/msg.go
+++ b/msg.go
@@ -84,7 +84,8 @@ func (msg Msg) String() string {
 }
 
 func (msg Msg) Clone() Msg {
-	o := Msg{Frames: make([][]byte, len(msg.Frames))}
+	o := msg
+	o.Frames = make([][]byte, len(msg.Frames))
 	for i, frame := range msg.Frames {
 		o.Frames[i] = make([]byte, len(frame))
 		copy(o.Frames[i], frame)
diff --git a/pub.go b/pub.go
index 44d7230..dbe9e38 100644
--- a/pub.go
+++ b/pub.go
@@ -295,9 +295,19 @@ func (mw *pubMWriter) rmConn(w *Conn) {
 }
 
 func (w *pubMWriter) write(ctx context.Context, msg Msg) error {
+	if err := ctx.Err(); err != nil {
+		return err
+	}
+	if len(msg.Frames) == 0 {
+		return nil // nothing to send, and no topic
+	}
+
 	w.mu.RLock()
 	defer w.mu.RUnlock()
 
+	if len(w.subscribers) > 0 {
+		msg = msg.Clone() // it is sent after we return
+	}
 	for _, channel := range w.subscribers {
 		select {
 		case <-ctx.Done():
-- 
2.43.0


From 9aa1fdaff11df08a84f57f678e1b2beee8e813f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:55 +0000
Subject: [PATCH 24/36] fix: refuse an invalid high-water mark before it does
 harm

---
 pub.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pub.go b/pub.go
index dbe9e38..b0e202d 100644
--- a/pub.go
+++ b/pub.go
@@ -93,20 +93,20 @@ func (pub *pubSocket) GetOption(name string) (interface{}, error) {
 
 // SetOption is used to set an option for a socket.
 func (pub *pubSocket) SetOption(name string, value interface{}) error {
-	err := pub.sck.SetOption(name, value)
-	if err != nil {
-		return err
-	}
-
 	if name != OptionHWM {
 		return ErrBadProperty
 	}
 
 	hwm, ok := value.(int)
-	if !ok {
+	if !ok || hwm < 0 {
 		return ErrBadProperty
 	}
 
+	err := pub.sck.SetOption(name, value)
+	if err != nil {
+		return err
+	}
+
 	w := pub.sck.w.(*pubMWriter)
 	w.hwm.Store(int64(hwm))
 	return nil
-- 
2.43.0


From 1d020be41db2de084ee4c87cb98bdd209cdf9bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:26 +0000
Subject: [PATCH 25/36] fix: SUB changes subscriptions without holding the
 socket's lock

SetOption took the lock twice, a deadlock if a connection came or went in
between; a resent subscription could undo an unsubscription made at the
same time; and a value of the wrong type panicked.
---
 socket.go | 17 ++++++++++-------
 sub.go    | 46 ++++++++++++++++++++++++++++------------------
 2 files changed, 38 insertions(+), 25 deletions(-)

diff --git a/socket.go b/socket.go
index 8dca690..b9ebafa 100644
--- a/socket.go
+++ b/socket.go
@@ -41,6 +41,7 @@ type socket struct {
 	sec           Security
 	log           *log.Logger
 	subTopics     func() []string
+	subMu         sync.Mutex // orders changes of subscriptions
 	autoReconnect bool
 	timeout       time.Duration
 
@@ -390,16 +391,18 @@ func (sck *socket) addConn(c *Conn) error {
 	if sck.r != nil {
 		sck.r.addConn(c)
 	}
-	// Get topics to resend while holding the lock
-	var topics []string
-	if sck.subTopics != nil {
-		topics = sck.subTopics()
-	}
 	sck.mu.Unlock()
 
 	// resend subscriptions for topics if there are any (without holding the lock)
-	for _, topic := range topics {
-		_ = sck.Send(NewMsg(append([]byte{1}, topic...)))
+	if sck.subTopics != nil {
+		sck.subMu.Lock()
+		defer sck.subMu.Unlock()
+
+		ctx, cancel := context.WithTimeout(sck.ctx, sck.Timeout())
+		defer cancel()
+		for _, topic := range sck.subTopics() {
+			_ = sendAll(ctx, []*Conn{c}, NewMsg(append([]byte{1}, topic...)))
+		}
 	}
 	return nil
 }
diff --git a/sub.go b/sub.go
index 008d6b1..8003ba2 100644
--- a/sub.go
+++ b/sub.go
@@ -84,36 +84,46 @@ func (sub *subSocket) GetOption(name string) (interface{}, error) {
 
 // SetOption is used to set an option for a socket.
 func (sub *subSocket) SetOption(name string, value interface{}) error {
-	err := sub.sck.SetOption(name, value)
-	if err != nil {
-		return err
-	}
-
 	var (
-		topic []byte
+		v byte
+		k string
 	)
 
 	switch name {
 	case OptionSubscribe:
-		k := value.(string)
-		sub.subscribe(k, 1)
-		topic = append([]byte{1}, k...)
-
+		v = 1
 	case OptionUnsubscribe:
-		k := value.(string)
-		topic = append([]byte{0}, k...)
-		sub.subscribe(k, 0)
-
+		v = 0
 	default:
 		return ErrBadProperty
 	}
 
-	sub.sck.mu.RLock()
-	if len(sub.sck.conns) > 0 {
-		err = sub.Send(NewMsg(topic))
+	k, ok := value.(string)
+	if !ok {
+		return ErrBadProperty
+	}
+
+	err := sub.sck.SetOption(name, value)
+	if err != nil {
+		return err
 	}
+
+	// Every connection sees the changes in the order they are made.
+	sub.sck.subMu.Lock()
+	defer sub.sck.subMu.Unlock()
+
+	sub.subscribe(k, int(v))
+
+	sub.sck.mu.RLock()
+	conns := append([]*Conn(nil), sub.sck.conns...)
 	sub.sck.mu.RUnlock()
-	return err
+	if len(conns) == 0 {
+		return nil
+	}
+
+	ctx, cancel := context.WithTimeout(sub.sck.ctx, sub.sck.Timeout())
+	defer cancel()
+	return sendAll(ctx, conns, NewMsg(append([]byte{v}, k...)))
 }
 
 // Topics returns the sorted list of topics a socket is subscribed to.
-- 
2.43.0


From 206327fcc4635f247a6b70e4c6d7bcf97ac73c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:26 +0000
Subject: [PATCH 26/36] fix: REP receives nothing once it is closed

---
 rep.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rep.go b/rep.go
index 6ae3033..fc34322 100644
--- a/rep.go
+++ b/rep.go
@@ -137,6 +137,9 @@ func (r *repReader) rmConn(conn *Conn) {
 }
 
 func (r *repReader) read(ctx context.Context, msg *Msg) error {
+	if err := ctx.Err(); err != nil {
+		return err
+	}
 	select {
 	case <-ctx.Done():
 		return ctx.Err()
-- 
2.43.0


From 899ccfffaa8ae6b611d04c8a43e3b3bbbe26dd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:51 +0000
Subject: [PATCH 27/36] fix: encode metadata properties of any size

A property of more than about 500 bytes panicked, and the length of a name
of more than 255 bytes wrapped around.
---
 protocol.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/protocol.go b/protocol.go
index f1f9978..78372e4 100644
--- a/protocol.go
+++ b/protocol.go
@@ -10,6 +10,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"strings"
 
 	"golang.org/x/text/cases"
@@ -186,11 +187,11 @@ func (md Metadata) MarshalZMTP() ([]byte, error) {
 		keys[key] = struct{}{}
 		switch k {
 		case sysSockID, sysSockType:
-			if _, err := io.Copy(buf, Property{K: k, V: v}); err != nil {
+			if err := marshalProperty(buf, Property{K: k, V: v}); err != nil {
 				return nil, err
 			}
 		default:
-			if _, err := io.Copy(buf, Property{K: "X-" + key, V: v}); err != nil {
+			if err := marshalProperty(buf, Property{K: "X-" + key, V: v}); err != nil {
 				return nil, err
 			}
 		}
@@ -198,6 +199,17 @@ func (md Metadata) MarshalZMTP() ([]byte, error) {
 	return buf.Bytes(), nil
 }
 
+// marshalProperty appends the property to buf.
+func marshalProperty(buf *bytes.Buffer, prop Property) error {
+	data := make([]byte, 1+len(prop.K)+4+len(prop.V))
+	n, err := prop.Read(data)
+	if err != nil && err != io.EOF {
+		return err
+	}
+	buf.Write(data[:n])
+	return nil
+}
+
 // UnmarshalZMTP unmarshals MetaData from a ZMTP encoded data.
 func (md *Metadata) UnmarshalZMTP(p []byte) error {
 	i := 0
@@ -228,7 +240,12 @@ func (prop Property) Read(data []byte) (n int, err error) {
 	klen := len(prop.K)
 	vlen := len(prop.V)
 	size := 1 + klen + 4 + vlen
-	_ = data[:size] // help with bound check elision
+	if klen > 255 || uint64(vlen) > math.MaxUint32 {
+		return 0, errOverflow
+	}
+	if len(data) < size {
+		return 0, io.ErrShortBuffer
+	}
 
 	data[n] = byte(klen)
 	n++
-- 
2.43.0


From 378f180a113446f06b7f43d701503da3f0fca590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:52 +0000
Subject: [PATCH 28/36] fix: make AuthStart and AuthStop safe for concurrent
 use

---
 auth.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/auth.go b/auth.go
index 236029e..b022a3f 100644
--- a/auth.go
+++ b/auth.go
@@ -8,6 +8,7 @@ import (
 	"crypto/rand"
 	"encoding/hex"
 	"fmt"
+	"sync/atomic"
 )
 
 // Simple auth - no complex state management, just basic functions
@@ -48,20 +49,19 @@ func Z85decode(text string) ([]byte, error) {
 }
 
 // Simplified auth - removed complex state management
-var authStarted bool
+var authStarted atomic.Bool
 
 // AuthStart starts authentication (simplified)
 func AuthStart() error {
-	if authStarted {
+	if !authStarted.CompareAndSwap(false, true) {
 		return fmt.Errorf("already started")
 	}
-	authStarted = true
 	return nil
 }
 
 // AuthStop stops authentication
 func AuthStop() {
-	authStarted = false
+	authStarted.Store(false)
 }
 
 // AuthSetVerbose sets verbose mode (no-op)
-- 
2.43.0


From a7f7f13e7a7c23bdde97ce8d26a6b9e442f1c778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:48 +0000
Subject: [PATCH 29/36] fix: DisconnectPeer ends the subscription to the peer
 as well

Its broadcasts went on arriving, twice after connecting again. A second
Stop, and DisconnectPeer without peers, panicked; and a failed ConnectPeer
left sockets behind.
---
 networking/transport.go | 67 +++++++++++++++++++++++++++++++----------
 1 file changed, 51 insertions(+), 16 deletions(-)

diff --git a/networking/transport.go b/networking/transport.go
index 6dad206..f40444a 100644
--- a/networking/transport.go
+++ b/networking/transport.go
@@ -22,7 +22,7 @@ type Transport struct {
 	ctx     context.Context
 	cancel  context.CancelFunc
 	pub     zmq4.Socket
-	sub     zmq4.Socket
+	subs    map[string]zmq4.Socket
 	router  zmq4.Socket
 	dealers map[string]zmq4.Socket
 	config  Config
@@ -36,8 +36,9 @@ type Transport struct {
 	msgReceived atomic.Uint64
 	msgDropped  atomic.Uint64
 
-	stopCh chan struct{}
-	wg     sync.WaitGroup
+	stopCh   chan struct{}
+	stopOnce sync.Once
+	wg       sync.WaitGroup
 }
 
 // Config holds transport configuration
@@ -101,6 +102,7 @@ func New(ctx context.Context, config Config) *Transport {
 		config:   config,
 		handlers: make(map[string]MessageHandler),
 		dealers:  make(map[string]zmq4.Socket),
+		subs:     make(map[string]zmq4.Socket),
 		stopCh:   make(chan struct{}),
 	}
 }
@@ -114,10 +116,6 @@ func (t *Transport) Start() error {
 		return fmt.Errorf("failed to bind pub socket on %s: %w", pubAddr, err)
 	}
 
-	// SUB socket for receiving broadcasts
-	t.sub = zmq4.NewSub(t.ctx)
-	t.sub.SetOption(zmq4.OptionSubscribe, "")
-
 	// ROUTER socket for direct messages
 	t.router = zmq4.NewRouter(t.ctx)
 	routerAddr := fmt.Sprintf("tcp://%s:%d", t.config.BindAddress, t.config.BasePort+1000)
@@ -125,8 +123,7 @@ func (t *Transport) Start() error {
 		return fmt.Errorf("failed to bind router socket on %s: %w", routerAddr, err)
 	}
 
-	t.wg.Add(2)
-	go t.subLoop()
+	t.wg.Add(1)
 	go t.routerLoop()
 
 	return nil
@@ -134,17 +131,22 @@ func (t *Transport) Start() error {
 
 // Stop gracefully shuts down the transport
 func (t *Transport) Stop() {
+	t.stopOnce.Do(t.stop)
+}
+
+func (t *Transport) stop() {
 	close(t.stopCh)
 	t.cancel()
+
+	// No loop is started once the context is done.
+	t.mu.Lock()
+	t.mu.Unlock()
 	t.wg.Wait()
 
 	// Close sockets
 	if t.pub != nil {
 		t.pub.Close()
 	}
-	if t.sub != nil {
-		t.sub.Close()
-	}
 	if t.router != nil {
 		t.router.Close()
 	}
@@ -154,6 +156,9 @@ func (t *Transport) Stop() {
 	for _, dealer := range t.dealers {
 		dealer.Close()
 	}
+	for _, sub := range t.subs {
+		sub.Close()
+	}
 	t.mu.Unlock()
 }
 
@@ -175,8 +180,12 @@ func (t *Transport) ConnectPeerWithAddress(peerID, address string, port int) err
 	}
 
 	// Subscribe to peer's broadcasts
+	sub := zmq4.NewSub(t.ctx)
+	sub.SetOption(zmq4.OptionSubscribe, "")
+
 	subAddr := fmt.Sprintf("tcp://%s:%d", address, port)
-	if err := t.sub.Dial(subAddr); err != nil {
+	if err := sub.Dial(subAddr); err != nil {
+		sub.Close()
 		return fmt.Errorf("failed to connect sub to %s at %s: %w", peerID, subAddr, err)
 	}
 
@@ -185,9 +194,21 @@ func (t *Transport) ConnectPeerWithAddress(peerID, address string, port int) err
 
 	routerAddr := fmt.Sprintf("tcp://%s:%d", address, port+1000)
 	if err := dealer.Dial(routerAddr); err != nil {
+		sub.Close()
+		dealer.Close()
 		return fmt.Errorf("failed to connect dealer to %s at %s: %w", peerID, routerAddr, err)
 	}
 
+	if err := t.ctx.Err(); err != nil {
+		sub.Close()
+		dealer.Close()
+		return fmt.Errorf("failed to connect to %s: %w", peerID, err)
+	}
+
+	t.wg.Add(1)
+	go t.subLoop(peerID, sub)
+
+	t.subs[peerID] = sub
 	t.dealers[peerID] = dealer
 	t.peers = append(t.peers, peerID)
 
@@ -205,8 +226,14 @@ func (t *Transport) DisconnectPeer(peerID string) {
 		delete(t.dealers, peerID)
 	}
 
+	// Close and remove sub
+	if sub, ok := t.subs[peerID]; ok {
+		delete(t.subs, peerID)
+		sub.Close()
+	}
+
 	// Remove from peers list
-	newPeers := make([]string, 0, len(t.peers)-1)
+	newPeers := make([]string, 0, len(t.peers))
 	for _, p := range t.peers {
 		if p != peerID {
 			newPeers = append(newPeers, p)
@@ -322,7 +349,7 @@ func (t *Transport) GetMetrics() (sent, received, dropped uint64) {
 }
 
 // subLoop processes broadcast messages
-func (t *Transport) subLoop() {
+func (t *Transport) subLoop(peerID string, sub zmq4.Socket) {
 	defer t.wg.Done()
 
 	for {
@@ -332,7 +359,15 @@ func (t *Transport) subLoop() {
 		case <-t.ctx.Done():
 			return
 		default:
-			msg, err := t.sub.Recv()
+			msg, err := sub.Recv()
+
+			t.mu.RLock()
+			live := t.subs[peerID] == sub
+			t.mu.RUnlock()
+			if !live {
+				return
+			}
+
 			if err != nil {
 				if err == context.Canceled || err == context.DeadlineExceeded {
 					return
-- 
2.43.0


From 7d53f122f7edac42df23abcbe2ff2a75d9a098dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:48 +0000
Subject: [PATCH 30/36] fix: count only messages that were sent as sent

---
 networking/transport.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/networking/transport.go b/networking/transport.go
index f40444a..95d28ca 100644
--- a/networking/transport.go
+++ b/networking/transport.go
@@ -252,8 +252,11 @@ func (t *Transport) Broadcast(msg *Message) error {
 		return fmt.Errorf("failed to marshal message: %w", err)
 	}
 
+	if err := t.pub.Send(zmq4.NewMsg(data)); err != nil {
+		return err
+	}
 	t.msgSent.Add(1)
-	return t.pub.Send(zmq4.NewMsg(data))
+	return nil
 }
 
 // Send sends a direct message to a specific peer
@@ -275,8 +278,11 @@ func (t *Transport) Send(peerID string, msg *Message) error {
 		return fmt.Errorf("failed to marshal message: %w", err)
 	}
 
+	if err := dealer.Send(zmq4.NewMsg(data)); err != nil {
+		return err
+	}
 	t.msgSent.Add(1)
-	return dealer.Send(zmq4.NewMsg(data))
+	return nil
 }
 
 // SendWithRetry sends a message with retry logic
-- 
2.43.0


From e2f3bd8ddac277aa0677a9a59b0e3f4a6b4b6e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:47 +0000
Subject: [PATCH 31/36] fix: recognize the names of standard properties in any
 case

ZMTP property names are case-insensitive; a peer that announced
SOCKET-TYPE was taken for one of unknown type.
---
 protocol.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/protocol.go b/protocol.go
index 78372e4..499104b 100644
--- a/protocol.go
+++ b/protocol.go
@@ -222,6 +222,12 @@ func (md *Metadata) UnmarshalZMTP(p []byte) error {
 		i += n
 
 		name := toTitle(kv.K)
+		switch { // names are case-insensitive
+		case strings.EqualFold(name, sysSockType):
+			name = sysSockType
+		case strings.EqualFold(name, sysSockID):
+			name = sysSockID
+		}
 		(*md)[name] = kv.V
 	}
 	return nil
-- 
2.43.0


From 9a1aff7725b3d8657bd838ca23f15edeb13f955f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:50 +0000
Subject: [PATCH 32/36] fix: Dial fails once the context of the socket is
 cancelled

---
 socket.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/socket.go b/socket.go
index b9ebafa..b0da7e4 100644
--- a/socket.go
+++ b/socket.go
@@ -318,6 +318,9 @@ func (sck *socket) dial(endpoint string, again bool) error {
 	}
 
 connect:
+	if err = sck.ctx.Err(); err != nil {
+		return fmt.Errorf("zmq4: could not dial to %q: %w", endpoint, err)
+	}
 	conn, err = trans.Dial(sck.ctx, &sck.dialer, addr)
 	if err != nil {
 		// retry if retry count is lower than maximum retry count and context has not been canceled
@@ -362,6 +365,9 @@ func (sck *socket) open(rw net.Conn, server bool, onClose func(c *Conn)) (*Conn,
 	defer stop()
 
 	c, err := Open(rw, sck.sec, sck.typ, sck.id, server, onClose)
+	if err == nil {
+		err = sck.ctx.Err()
+	}
 	if err != nil {
 		_ = rw.Close()
 		return nil, err
-- 
2.43.0


From d663534d7d067f459c079016e3e84deed2e59397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:53 +0000
Subject: [PATCH 33/36] fix: a Send that timed out keeps nothing of the
 caller's message

---
 msgio.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/msgio.go b/msgio.go
index c003581..15b6598 100644
--- a/msgio.go
+++ b/msgio.go
@@ -224,6 +224,7 @@ func (w *mwriter) write(ctx context.Context, msg Msg) error {
 // sendAll sends the message on all the given connections. It returns when
 // that is done, or when the context is.
 func sendAll(ctx context.Context, conns []*Conn, msg Msg) error {
+	msg = msg.Clone() // it may still be sent after we return
 	grp, _ := errgrp.WithContext(ctx)
 	for i := range conns {
 		conn := conns[i]
-- 
2.43.0


From bb83515d05a3110a180bfe72beedb52313c2b50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:52 +0000
Subject: [PATCH 34/36] fix: Close does not fail for a connection that was lost
 before

---
 socket.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/socket.go b/socket.go
index b0da7e4..6d4ef79 100644
--- a/socket.go
+++ b/socket.go
@@ -151,6 +151,9 @@ func (sck *socket) Close() error {
 	var err error
 	for _, conn := range sck.conns {
 		e := conn.Close()
+		if errors.Is(e, net.ErrClosed) {
+			continue // lost, and closed already
+		}
 		if e != nil && err == nil {
 			err = e
 		}
-- 
2.43.0


From d5730753ac53cfb9a5d6632cd525fd06cf3a4f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:39 +0000
Subject: [PATCH 35/36] fix: a proxy forwards from PULL to PUSH, which does not
 receive

---
 proxy.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/proxy.go b/proxy.go
index 097f85f..8d505fd 100644
--- a/proxy.go
+++ b/proxy.go
@@ -15,10 +15,17 @@ func Proxy(frontend, backend Socket) error {
 		return fmt.Errorf("frontend and backend sockets are required")
 	}
 
+	if !canRecv(frontend) && !canRecv(backend) {
+		return fmt.Errorf("neither %s nor %s sockets receive messages", frontend.Type(), backend.Type())
+	}
+
 	errChan := make(chan error, 2)
 
 	// Frontend to backend
 	go func() {
+		if !canRecv(frontend) {
+			return
+		}
 		for {
 			msg, err := frontend.Recv()
 			if err != nil {
@@ -34,6 +41,9 @@ func Proxy(frontend, backend Socket) error {
 
 	// Backend to frontend
 	go func() {
+		if !canRecv(backend) {
+			return
+		}
 		for {
 			msg, err := backend.Recv()
 			if err != nil {
@@ -50,3 +60,12 @@ func Proxy(frontend, backend Socket) error {
 	// Wait for first error
 	return <-errChan
 }
+
+// canRecv tells whether there is anything to forward from the socket.
+func canRecv(sck Socket) bool {
+	switch sck.Type() {
+	case Pub, Push:
+		return false
+	}
+	return true
+}
-- 
2.43.0


From 03c281381f6f44985f189619fcbc4a81c94d1d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:59 +0000
Subject: [PATCH 36/36] fix: a connection that timed out is lost as well

---
 conn.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 2f30076..721dfa3 100644
--- a/conn.go
+++ b/conn.go
@@ -540,7 +540,13 @@ func (c *Conn) read() Msg {
 func (c *Conn) readMsg() Msg {
 	for {
 		msg := c.read()
-		if msg.err != nil || !msg.isCmd() {
+		if msg.err != nil {
+			// Nobody reads on, whatever the error: a connection that
+			// timed out is lost as well.
+			c.SetClosed()
+			return msg
+		}
+		if !msg.isCmd() {
 			return msg
 		}
 
-- 
2.43.0

