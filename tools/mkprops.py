import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))

p("C01","Messages arrive frame for frame intact",
 "Every message a socket delivers is exactly a message a peer sent: same number of frames, in the same order, with the same bytes (empty frames included), whatever the frame sizes, the transport (tcp, ipc, inproc or a registered one), the way the byte stream is cut up in transit, and whether Send or SendMulti was used. Once Send has returned nil the caller may reuse its buffers without affecting what is delivered, and a delivered message shares no memory with any other delivered message.",
 ["inputs","schedules","configurations"],
 "all frame counts and sizes (short/long boundary 255/256, 64 KiB and up), all transports, all segmentations of the stream, both send calls, all interleavings of sender, receiver and buffer reuse",
 "The tests send a few short fixed messages over loopback; they never segment the stream, cross the long-frame boundary on every transport, or reuse buffers.",
 ["conn.go","msg.go","internal/inproc/conn.go","pub.go","rep.go","router.go"],
 [("frame encoder (short/long header, MORE flag)","conn.go: send, sendMulti"),("frame decoder","conn.go: read"),("inproc byte pipe","internal/inproc/conn.go: read, write")],
 [("Msg.Frames","frames of a message","msg.go")],["Recv return value","recorded bytes of a registered transport"])

p("C02","PUSH/PULL delivers each message once, to one puller, in order",
 "While the connections stay up, every message whose Send on a PUSH socket returned nil is received exactly once, by exactly one of the connected PULL sockets, and the messages one sending goroutine pushed to one puller arrive in the order they were sent. Successive messages from a PUSH socket go to its connected pullers in turn. This holds for any number of pushers and pullers, for either side binding, and for concurrent senders.",
 ["schedules","configurations","histories"],
 "all fan-in/fan-out topologies, bind directions, transports, sender concurrency and relative speeds",
 "The existing tests move a handful of messages between one pusher and a few pullers and accept any distribution.",
 ["push.go","pull.go","msgio.go","socket.go","conn.go"],
 [("queued reader, one goroutine per connection","msgio.go: qreader"),("load-balancing writer","msgio.go"),("whole-message write lock","conn.go: SendMsg")],
 [("qreader.c","bounded queue between connection readers and Recv","msgio.go")],["Send/Recv event log"])

p("C03","PAIR and DEALER links are lossless, ordered and full duplex",
 "While a connection stays up, every message whose Send returned nil on a PAIR or DEALER socket (or on the ROUTER or REP at the other end of a DEALER) is received exactly once and in send order by its peer, in both directions at the same time. A slow receiver slows the sender down and never causes loss, and messages sent concurrently from several goroutines are never interleaved frame-wise or merged. A DEALER with several peers sends each message to exactly one of them, taking them in turn.",
 ["schedules","configurations","histories"],
 "all traffic mixes in both directions, queue-full situations, concurrent senders, bind directions and transports",
 "Tests exchange one or two messages in lock step and never fill a queue or send from several goroutines.",
 ["pair.go","dealer.go","router.go","msgio.go","conn.go"],
 [("blocking queue hand-over","msgio.go: qreader.listen"),("per-connection write lock","conn.go: SendMsg"),("load-balancing writer","msgio.go")],
 (),["Send/Recv event log"])

p("C04","PUB/SUB delivers exactly the messages that match subscriptions",
 "Once a publisher (PUB or XPUB) has registered a subscription, the subscriber (SUB or XSUB) receives every later message whose first frame starts with one of its subscribed topics, exactly once even when several topics match, in publication order, and no other message, as long as fewer messages than the high-water mark are pending. After an unsubscription has been registered, messages that only it matched no longer arrive (a subscriber subscribes to a topic once before it unsubscribes from it). The publisher's topic list is the sorted, duplicate-free union of its live subscribers' topics, and a subscriber's topic list is exactly what it subscribed to and has not unsubscribed from.",
 ["histories","inputs","schedules"],
 "all sequences of subscribe, unsubscribe, publish, connect and disconnect over overlapping binary topics, for several publishers and subscribers",
 "Tests use two or three fixed text topics and one subscriber history each.",
 ["pub.go","sub.go","xpub.go","xsub.go","socket.go","conn.go"],
 [("per-connection topic set and prefix match","conn.go: subscribe, subscribed"),("per-subscriber queue","pub.go: pubMWriter"),("subscription message recognition","pub.go: pubQReader.topic")],
 [("Conn.topics","topics a peer subscribed to","conn.go"),("subSocket.topics","own topics","sub.go")],["Recv event log","Topics()"])

p("C05","A slow or dead subscriber never holds up a publisher",
 "Send on a PUB socket returns promptly and delivery to healthy subscribers continues whatever other subscribers do: stop reading, vanish, or send unexpected messages. For a subscriber that falls behind, messages are dropped only while at least the high-water mark of messages is queued for it, and no more than that (apart from what is in transit) is held back for it; what it does receive is an in-order, duplicate-free subsequence of whole matching messages, and it resumes receiving once it catches up. An invalid high-water mark is refused and changes nothing.",
 ["schedules","fault_sequences","configurations"],
 "all placements of stalls, disconnects and unsolicited traffic among subscribers, and all high-water marks",
 "One test kills a publisher; none stalls a subscriber, measures the high-water mark or checks that healthy ones are unaffected.",
 ["pub.go","xpub.go"],
 [("non-blocking per-subscriber queue","pub.go: pubMWriter.write"),("high-water mark option","pub.go: SetOption")],
 [("pubMWriter.subscribers","queue per connection","pub.go")],["publisher Send latency","Recv event log"])

p("C06","Lost connections are re-established once, to where they were",
 "With automatic reconnection on (the default), a dialled connection that is lost, in whatever way, is re-established to the same endpoint once a listener is there again (within the configured number of retries; a REQ notices a loss when it is used), exactly one connection per Dial call, and a SUB's current subscriptions are in force on it without user action. With automatic reconnection off, no redial takes place. A socket never dials because a peer that connected to its listener went away, and never connects to itself.",
 ["fault_sequences","histories","schedules"],
 "all sequences of connection losses (clean close, reset, cut inside a frame, loss while writing) over sockets with one or several dialled endpoints and/or a listener",
 "Reconnection is tested with one endpoint and one clean restart; no test counts connections or looks at who dials whom.",
 ["socket.go","conn.go","sub.go","options.go"],
 [("close callback and redial","socket.go: scheduleRmConn"),("classification of I/O errors","conn.go: checkIO"),("re-sending subscriptions","socket.go: addConn")],
 [("sck.conns","live connections","socket.go")],["dial/accept events of a registered transport","messages received after recovery"])

p("C07","Every reply reaches the request it answers",
 "Each reply a requester receives is the one the serving application produced for that very request, however many clients (REQ, or DEALER with its own envelope) are served concurrently, directly or through ROUTER/DEALER proxies. Request and reply payloads, including empty frames anywhere in them, arrive intact, and the routing envelope in front of the first empty frame comes back exactly as it was sent. When one of several servers a REQ is connected to is lost, at most the outstanding request fails, with an error, and later requests are served by the remaining servers in turn.",
 ["schedules","inputs","fault_sequences"],
 "all numbers and interleavings of clients, payload shapes with empty frames, envelope depths, and server losses",
 "Tests run one or two clients with single non-empty frames and never lose one of several servers.",
 ["req.go","rep.go","router.go","dealer.go","proxy.go"],
 [("delimiter split","rep.go: splitReq"),("reply state","rep.go: repState"),("server rotation","req.go: reqWriter.write")],
 [("repState","connection and envelope of the current request","rep.go"),("reqState.lastConn","connection a reply is expected from","req.go")],["request/reply log with unique ids"])

p("C08","ROUTER names the sender and reaches only the named peer",
 "Every message a ROUTER delivers starts with a frame holding the identity of the peer that sent it (the one it announced, or a unique generated one that stays the same for the connection), followed by exactly the frames sent. A message sent through a ROUTER goes to the connected peer whose identity equals its first frame, without that frame, and to no other; messages for unknown identities go nowhere and harm nothing. Messages to one peer keep their order.",
 ["schedules","inputs","configurations"],
 "all sets of peers (REQ, DEALER, ROUTER; named, anonymous; binary identities sharing prefixes), both bind directions, concurrent traffic and peer churn",
 "Tests use a few well-known text identities and one exchange per peer.",
 ["router.go","socket.go","conn.go"],
 [("identity frame prepended","router.go: routerQReader.listen"),("identity lookup","router.go: routerMWriter.write"),("identity assignment","socket.go: addConn")],
 [("Peer.Meta[Identity]","peer identity","conn.go")],["Recv log at router and at every peer"])

p("C09","Bytes from a hostile peer cannot crash or block a socket",
 "Whatever bytes a remote peer sends, at any point of the connection, and however it stalls or disconnects, the process does not panic, does not allocate memory out of proportion to the bytes actually received, and sockets keep accepting, sending to and receiving from their other peers (a peer that merely stops reading may delay what is addressed to it, up to the send timeout). A connection that breaks the protocol is closed by the library.",
 ["inputs","fault_sequences","schedules"],
 "all byte strings at every protocol stage (greeting, security handshake, metadata, message flow, commands, subscriptions), all stall and disconnect points, all listening and dialling socket types",
 "Tests only ever speak to well-behaved peers plus a few fixed malformed greetings fed to one connection.",
 ["protocol.go","conn.go","socket.go","socket_types.go","pub.go","security.go","security/plain/plain.go","security/null/null.go"],
 [("greeting and metadata parsing","protocol.go"),("frame length check","conn.go: read"),("accept loop","socket.go: accept")],
 (),["worker process exit status","memory statistics","service of a concurrent honest peer"])

p("C10","No connection without a complete, compatible handshake",
 "Two sockets get a connection that carries messages if and only if both greetings are valid (signature, version 3.0 or higher), their security mechanisms are the same, the security handshake succeeds and their socket types are a pair ZeroMQ allows. Otherwise Dial on that side returns an error (or the accepting side drops the peer), the underlying connection is closed on both sides, and no message from or to that peer is ever delivered.",
 ["inputs","configurations"],
 "all pairs of socket types and mechanisms, all deviations in greeting fields and handshake commands, both roles",
 "Tests cover some type pairs and a few greeting variants, and do not check that rejected connections are closed or carry nothing.",
 ["conn.go","protocol.go","socket_types.go","socket.go","security.go","security/plain/plain.go","security/null/null.go"],
 [("handshake","conn.go: init, greet"),("compatibility table","socket_types.go: IsCompatible"),("greeting validation","protocol.go: greeting.read, validate")],
 (),["Dial result","raw peer's view of the connection","Recv log"])

p("C11","What goes on the wire is ZMTP 3.0, understood both ways",
 "Every byte sequence a socket emits is valid ZMTP 3.0: a 64-byte greeting, handshake commands, and traffic frames with zero reserved bits, correct MORE/LONG/COMMAND flags, and a length (one byte up to 255 bytes, eight bytes big-endian beyond) equal to the body that follows, with a message's frames contiguous. Any valid encoding from a peer is understood, including long-form lengths for short frames, and PING commands are answered with PONG and never surface as messages. Messages exchanged with libzmq in either direction arrive unchanged for every socket pattern.",
 ["inputs","configurations","schedules"],
 "all messages, socket types and peer encodings, in both roles; libzmq as the independent peer",
 "Tests mostly pair the library with itself, so a symmetric encoding error is invisible; interop tests use single short messages.",
 ["conn.go","protocol.go","msg.go","security.go","cxx_zmq4_compat.go"],
 [("frame encoder/decoder","conn.go: send, sendMulti, read"),("greeting","protocol.go: marshal"),("commands","msg.go: marshalZMTP, unmarshalZMTP")],
 (),["bytes recorded at a raw peer","messages at a libzmq peer"])

p("C12","Close and cancellation end everything promptly",
 "After Close, or after the context given to the constructor is cancelled, every blocked or later Send, Recv and Dial on the socket returns within a bounded time, with an error (what was already queued may still be received first after a cancellation; a Send that already completed may report success), and a second Close returns an error. Closing releases everything the socket created: its goroutines end, its connections and listener are closed so that peers notice and the endpoint can be reused, and its ipc file is gone. Closing a socket never removes an ipc file that another socket owns.",
 ["schedules","crash_points","configurations"],
 "all socket types and transports, every operation in progress at the moment of closing (send blocked on a full peer, receive, dial retry, handshake, full queues), all orders of closing both ends",
 "Tests close idle sockets of some types; leaks and stuck operations only show in particular states.",
 ["socket.go","msgio.go","pub.go","rep.go","req.go","router.go","internal/inproc/inproc.go","internal/inproc/conn.go"],
 [("close","socket.go: Close"),("context of the socket","socket.go"),("reader and writer goroutines","msgio.go, pub.go, rep.go, router.go")],
 [("isClosed","socket closed","socket.go")],["return of every pending call","goroutine and descriptor census","peer EOF"])

p("C13","Send honours its deadline and never corrupts the stream",
 "Send returns at the latest shortly after the socket's send timeout, with a deadline error if the message was not handed over; on PUSH, PAIR, DEALER and REQ it returns nil only if the message was handed to a live connection. A send that timed out or was interrupted leaves the connection usable: the peer sees only whole messages, each at most once, and messages sent successfully afterwards arrive.",
 ["schedules","fault_sequences","configurations"],
 "all points at which the peer stops and resumes reading, all timeouts, message sizes and repeated timed-out sends; sockets without any peer",
 "One test checks that one PUSH times out; nobody looks at the stream afterwards, at other socket types, or at a socket that has no peer left.",
 ["msgio.go","socket.go","conn.go","req.go","router.go","internal/errgroup/errgroup.go"],
 [("deadline context","socket.go: Send"),("context-aware group","internal/errgroup/errgroup.go"),("per-connection write lock","conn.go: SendMsg")],
 (),["Send latency and result","byte stream at a raw peer that stalls"])

p("C14","Sockets are safe for concurrent use: no data race, no deadlock",
 "Any number of goroutines may at the same time call Send, SendMulti, Recv, SetOption, GetOption, Addr, Topics, Listen, Dial and Close on a socket (for REQ and REP, one request at a time) while peers come and go: the library has no data race, does not deadlock and does not panic. Messages sent that way arrive whole.",
 ["schedules","histories"],
 "all interleavings of API calls, connection set-up, loss, reconnection and closing, for all socket types",
 "The suite is run without the race detector and mostly calls each socket from one goroutine.",
 ["socket.go","msgio.go","conn.go","pub.go","sub.go","req.go","rep.go","router.go","auth.go","transport.go"],
 [("socket mutex","socket.go"),("reaper","socket.go: connReaper"),("pool mutexes","msgio.go")],
 (),["race detector reports","watchdog on every call"])

p("C15","The inproc transport behaves as a connected byte stream",
 "An inproc connection delivers the bytes written at one end at the other, in order and without loss, duplication or change, however writes and reads are cut up and whatever the writer does with its buffer afterwards; bytes written before Close are still readable before end of file. Close at either end wakes blocked reads and writes at both ends, deadlines expire as set, and closing a listener frees its name and releases blocked Accept and Dial calls; each Dial is paired with exactly one Accept.",
 ["schedules","inputs","histories"],
 "all read/write sizes, all interleavings of read, write, close and deadline changes at both ends, all orders of Listen, Accept, Dial and Close on a name",
 "The only stream test of the package is skipped; the other one exchanges two five-byte messages.",
 ["internal/inproc/conn.go","internal/inproc/inproc.go","internal/inproc/transport.go"],
 [("pipe","internal/inproc/conn.go"),("name table","internal/inproc/inproc.go: contextType")],
 [("contextType.db","listeners by name","internal/inproc/inproc.go")],["recorded reads and writes"])

p("C16","Every frame goes through the connection's security mechanism",
 "On a connection with a security mechanism, each frame body and command sent is passed to the mechanism's Encrypt exactly once and what it produced is what is sent, correctly framed even if its length differs; each body received is passed to Decrypt exactly once before delivery, and a decryption error ends the connection without delivering anything. A PLAIN client presents the configured user name and password in HELLO on every connection it makes, reconnections and further Dials included.",
 ["inputs","configurations","histories"],
 "all messages, mechanisms (identity, length-preserving, length-changing, failing), Send and SendMulti, all socket patterns, and repeated connections with the same mechanism value",
 "Tests use length-preserving mechanisms on one connection with short messages.",
 ["conn.go","security.go","security/plain/plain.go","security/null/null.go"],
 [("encryption on send","conn.go: send, sendMulti"),("decryption on receive","conn.go: read"),("PLAIN handshake","security/plain/plain.go: Handshake")],
 (),["calls recorded by an instrumented mechanism","bytes recorded on the wire"])

p("C17","Metadata and commands survive encoding, malformed ones are refused",
 "Encoding connection metadata and decoding it again gives back the same properties (names compare without regard to case, application properties carry an X- prefix), for values of any length; names that are empty, duplicate or too long are refused (names are made of the characters ZMTP allows). Decoding arbitrary bytes either returns an error or properties that the bytes really contain, and never panics or reads beyond them; what one side announces in the handshake is what the other side sees.",
 ["inputs"],
 "all property maps and all byte strings",
 "Tests decode a few hand-written blobs.",
 ["protocol.go","msg.go","conn.go"],
 [("metadata codec","protocol.go: MarshalZMTP, UnmarshalZMTP, Property"),("command codec","msg.go: Cmd")],
 (),["return values of the exported codec","Peer.Meta after Open"])

p("C18","A proxy forwards everything, in order, both ways",
 "While Proxy runs, every message received on either socket is sent on the other one, exactly once, unchanged and in order, so request/reply through ROUTER and DEALER, streaming through PULL and PUSH, and exchanges between DEALERs work through any chain of proxies. Proxy returns a non-nil error once either socket is closed or fails, and refuses missing sockets.",
 ["schedules","configurations","fault_sequences"],
 "all socket pairs, chains, numbers of clients and workers, loads in both directions, and moments of closing",
 "The proxy tests pass one message through one proxy.",
 ["proxy.go","router.go","dealer.go","push.go","pull.go"],
 [("forwarding loops","proxy.go: Proxy")],
 (),["log at clients and workers","return of Proxy"])

p("C19","The networking transport delivers each message once to its handler",
 "Between connected nodes, each broadcast reaches the matching handler of every other node exactly once, and each directed message reaches the handler of the addressed node only, with content intact, the sender's node id filled in, and broadcasts of a node itself ignored. Sent, received and dropped counters match what happened, malformed input is counted as dropped and does no harm, connecting to a peer twice has no further effect, and after disconnecting a peer nothing from it arrives until it is connected again. Stop returns promptly, releases the ports, and may be called more than once.",
 ["schedules","histories","inputs"],
 "all numbers of nodes, histories of connect, disconnect, reconnect, broadcast and send, concurrent use, and stray input on the ports",
 "The package has no tests.",
 ["networking/transport.go"],
 [("receive loops","networking/transport.go: subLoop, routerLoop, processMessage"),("peer table","networking/transport.go: ConnectPeer, DisconnectPeer")],
 [("dealers, peers","connected peers","networking/transport.go")],["handler invocation log","GetMetrics","GetPeers"])

p("C20","Message queue is FIFO and message values are independent",
 "For every sequence of operations, the exported queue returns messages in the order they were pushed, its length is pushes minus pops since the last reset, Peek shows the oldest without removing it, and Pop on an empty queue panics. A clone of a message has equal frames and shares no memory with the original, Bytes is the concatenation of the frames, and the constructors keep frames as given.",
 ["histories","inputs"],
 "all operation sequences (crossing the internal block size in every phase) and all messages",
 "The tests push and pop one fixed sequence.",
 ["queue.go","msg.go"],
 [("chunked list","queue.go"),("clone and concatenation","msg.go")],
 [("Queue.rep, Queue.len","chunks and length","queue.go")],["operation log compared with a model"])

p("C21","Dial retries as configured and gives up cleanly",
 "Dial to an endpoint nobody listens on makes one attempt plus at most the configured number of retries, waits the configured interval between attempts, and then returns an error; with unlimited retries it continues until it connects, and it stops promptly with an error when the socket's context is cancelled or the socket is closed. If a listener appears in the meantime, Dial connects and the connection works. Malformed endpoints and unknown transports are refused at once, and a failed Dial or Listen leaves no connection, listener or file behind and the socket usable.",
 ["configurations","schedules","fault_sequences"],
 "all retry counts and intervals, all moments at which a listener appears or the socket is closed, all malformed endpoints, all transports",
 "One test counts attempts for one setting.",
 ["socket.go","options.go","utils.go","transport.go","transport/transport.go"],
 [("retry loop","socket.go: Dial"),("endpoint parsing","utils.go: splitAddr")],
 (),["attempts recorded by a registered transport","Dial result and latency"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
