G='Assurance extends to the executions made (numbers and distinct cases in the evidence file); trusts the Go runtime, the kernel loopback and the monitors.'
T={
'C01':('runtime monitoring: self-describing messages checked on receipt over a stream-segmenting transport','Every frame of every delivered message is compared with what was sent, over all transports, with buffers overwritten after Send. '+G),
'C02':('runtime monitoring: exactly-once and order ledger over PUSH/PULL topologies','A ledger of all sends and receives is checked for conservation, order per sender and receiver, and rotation. '+G),
'C03':('runtime monitoring: exactly-once and order ledger, both directions, filled queues','A ledger of all sends and receives is checked for conservation, order and rotation. '+G),
'C04':('runtime monitoring: deliveries compared with a set model over random subscription histories','Every delivery and topic list is compared with a model of the subscriptions. '+G),
'C05':('runtime monitoring: stalled and failing subscribers, drop window and latency monitors','Raw subscribers stall under full control of the monitor; the contiguous prefix measures the queue. '+G),
'C06':('runtime monitoring with fault injection: connection census across injected losses','Losses of all kinds are injected at a recording transport, dials and live connections are counted afterwards. '+G),
'C07':('runtime monitoring: request/reply log with unique ids through proxies and server losses','Every reply is matched with the request it has to answer. '+G),
'C08':('runtime monitoring: identity and routing log over peers with adversarial identities','Each message at the router and at each peer is checked against who sent it to whom. '+G),
'C09':('runtime monitoring: hostile byte campaigns against live sockets, crash/memory/service monitors','A campaign of malformed and mutated sessions with an honest peer that has to be served throughout. '+G),
'C10':('runtime monitoring: matrix of types, mechanisms and handshake deviations at raw peers','All pairs of types and many deviations; both ends of rejected connections are watched. '+G),
'C11':('runtime monitoring: strict independent ZMTP parser on recorded bytes, libzmq as peer','What sockets emit is parsed by an independent strict parser, and exchanged with libzmq. '+G),
'C12':('runtime monitoring: close/cancel battery with goroutine, descriptor and latency census','Operations are caught in progress by Close or cancellation; stacks and descriptors are counted afterwards. '+G),
'C13':('runtime monitoring with fault injection: stalled peers, deadline and stream monitors','Peers stop and resume reading; latencies and the byte stream are checked. '+G),
'C14':('race detector (ThreadSanitizer) and watchdogs under concurrent stress','The library is built with -race; a report or a call that never returns is a violation. '+G),
'C15':('runtime monitoring: byte stream model of inproc connections under concurrency','Reads are compared with writes, wake-ups and name table are watched. '+G),
'C16':('runtime monitoring: instrumented security mechanism matched with recorded wire bytes','Each Encrypt/Decrypt call is logged with a nonce and matched with the wire and with deliveries. '+G),
'C17':('runtime monitoring: codec compared with an independent reference on generated and mutated input','Results are compared with an independent encoder and decoder. '+G),
'C18':('runtime monitoring: conservation and order log across proxy chains','All messages through proxies are logged at both ends. '+G),
'C19':('runtime monitoring: handler log and counters compared with a model of node histories','Handler invocations and metrics are compared with a model. '+G),
'C20':('runtime monitoring: operation sequences compared with a reference model','Results of operation sequences are compared with a slice model. '+G),
'C21':('runtime monitoring: dial attempts recorded by a fault-injecting transport','Attempts, intervals and results are recorded and compared with the configuration. '+G),
'C22':('runtime monitoring: messages tell which listener a Dial reached, over families of similar endpoints','Each Dial is compared with a table of who listens where; TCP forms are probed at every address. '+G),
'C23':('runtime monitoring: census of goroutines, connections, descriptors and live heap after hundreds of lost connections','Peers leave in thirteen ways; what the socket holds is then compared with what it held with one connection. '+G),
}
